package resource

import (
	"context"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/smart-core-os/sc-api/go/types"
	"github.com/smart-core-os/sc-golang/internal/gv"
	"github.com/smart-core-os/sc-golang/internal/testproto"
	"google.golang.org/protobuf/proto"
)

// gvPred is a predicate over items.
type gvPred int

func (p gvPred) include(id string, m proto.Message) bool {
	item, _ := m.(*testproto.TestAllTypes)
	switch p {
	case 0:
		return true
	case 1:
		return item.GetDefaultInt32()%2 == 0
	case 2:
		return id != "a"
	case 3:
		return item.GetDefaultString() != ""
	case 4:
		return item.GetDefaultNestedMessage() != nil || id == "c"
	case 5:
		return false
	}
	return item.GetDefaultInt32() != 1
}

// filtered is the script of a filtered subscription.
type filtered struct {
	script
	pred gvPred
	pace int // reads every how many writes, when there's no backpressure
}

func gvg_FilteredCollection(g *gv.Gen) filtered {
	return filtered{gvg_Script(g), gvPred(g.R.Intn(7)), 1 + g.R.Intn(8)}
}

// changeOf is how a collection that only has the included items sees a change.
func (f filtered) changeOf(ch CollectionChange) (CollectionChange, bool) {
	was := ch.OldValue != nil && f.pred.include(ch.Id, ch.OldValue)
	is := ch.NewValue != nil && f.pred.include(ch.Id, ch.NewValue)
	switch {
	case was && is:
	case was:
		ch.ChangeType, ch.NewValue = types.ChangeType_REMOVE, nil
	case is:
		ch.ChangeType, ch.OldValue = types.ChangeType_ADD, nil
	default:
		return ch, false
	}
	return ch, true
}

// view is what a subscriber makes of the changes it receives.
type view struct {
	mu    sync.Mutex
	items map[string]proto.Message
	bad   string
}

func newView() *view { return &view{items: map[string]proto.Message{}} }

func (v *view) apply(c *CollectionChange, strict bool) {
	v.mu.Lock()
	defer v.mu.Unlock()
	held, has := v.items[c.Id]
	bad := ""
	switch c.ChangeType {
	case types.ChangeType_ADD:
		if has || c.OldValue != nil || c.NewValue == nil {
			bad = "an ADD is of an item the subscriber doesn't have"
		}
	case types.ChangeType_UPDATE, types.ChangeType_REPLACE:
		if !has || c.NewValue == nil {
			bad = "an UPDATE or REPLACE is of an item the subscriber has"
		} else if !sameMsg(held, c.OldValue) {
			bad = "old values chain per id"
		}
	case types.ChangeType_REMOVE:
		if !has || c.NewValue != nil {
			bad = "a REMOVE is of an item the subscriber has"
		} else if !sameMsg(held, c.OldValue) {
			bad = "old values chain per id"
		}
	default:
		bad = "a change has a known kind"
	}
	if strict && v.bad == "" {
		v.bad = bad
	}
	if c.NewValue == nil {
		delete(v.items, c.Id)
	} else {
		v.items[c.Id] = c.NewValue
	}
}

func (v *view) list() []proto.Message {
	v.mu.Lock()
	defer v.mu.Unlock()
	var ids []string
	for id := range v.items {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	var r []proto.Message
	for _, id := range ids {
		r = append(r, v.items[id])
	}
	return r
}

func (v *view) problem() string {
	v.mu.Lock()
	defer v.mu.Unlock()
	return v.bad
}

func sameList(a, b []proto.Message) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !sameMsg(a[i], b[i]) {
			return false
		}
	}
	return true
}

// Listing or pulling with a predicate behaves as if the collection only contained the items that satisfy it.
//
//gv:property C08
//gv:for Collection.Pull covers Collection.List Collection.PullID ReadRequest.Exclude CollectionChange.include mergeCollectionExcess
//gv:bounded generated histories of up to 40 calls by one writer over 5 ids, 7 predicates, subscribed at any point, with and without backpressure, masks, equivalence and updates only
func gvc_FilteredCollection(s filtered) {
	clk := &clock{time.Unix(500, 0)}
	opts := []Option{WithClock(clk), WithRNG(rand.New(rand.NewSource(s.seed)))}
	norm := func(id string) string { return id }
	if s.lower {
		norm = strings.ToLower
		opts = append(opts, WithIDInterceptor(strings.ToLower))
	}
	if s.dedup {
		opts = append(opts, WithNoDuplicates())
	}
	stored := map[string]proto.Message{}
	times := map[string]time.Time{}
	for id, m := range s.initial {
		opts = append(opts, WithInitialRecord(id, proto.Clone(m)))
		stored[id], times[id] = proto.Clone(m), clk.t
	}
	c := NewCollection(opts...)
	var log []CollectionChange
	do := func(i int, cl call) {
		clk.t = time.Unix(1000+int64(i), 0)
		id := norm(cl.id)
		old := stored[id]
		var got proto.Message
		var err error
		msg := proto.Clone(cl.msg).(*testproto.TestAllTypes)
		switch cl.kind {
		case 2:
			if old == nil {
				return
			}
			if _, err := c.Delete(cl.id); err != nil {
				gv.Ensures("a delete of an item succeeds", false)
			}
			delete(stored, id)
			log = append(log, CollectionChange{Id: id, ChangeTime: clk.t, ChangeType: types.ChangeType_REMOVE, OldValue: old})
			return
		case 1, 0, 4:
			got, err = c.Update(cl.id, msg, WithCreateIfAbsent())
		default:
			return
		}
		if err != nil {
			return
		}
		stored[id], times[id] = proto.Clone(got), clk.t
		log = append(log, CollectionChange{Id: id, ChangeTime: clk.t, ChangeType: kindOf(old, got), OldValue: old, NewValue: stored[id]})
	}
	project := func(m proto.Message) proto.Message { return gv.ProjectPaths(m, s.mask) }
	list := func() []proto.Message { // the filtered list
		var ids []string
		for id, m := range stored {
			if s.pred.include(id, m) {
				ids = append(ids, id)
			}
		}
		sort.Strings(ids)
		var r []proto.Message
		for _, id := range ids {
			r = append(r, project(stored[id]))
		}
		return r
	}
	include := WithInclude(s.pred.include)
	ro := []ReadOption{include}
	if s.mask != nil {
		ro = append(ro, WithReadMask(maskOf(s.mask)))
	}
	for i, cl := range s.calls[:s.before] {
		do(i, cl)
	}
	log = nil
	gv.Ensures("the filtered list has exactly the included items, sorted by id", sameList(c.List(ro...), list()))

	var seed []CollectionChange
	held := map[string]proto.Message{}
	for id, m := range stored {
		if s.pred.include(id, m) {
			seed = append(seed, CollectionChange{Id: id, ChangeTime: times[id], ChangeType: types.ChangeType_ADD, NewValue: project(m), SeedValue: true})
			held[id] = project(m)
		}
	}
	sort.Slice(seed, func(i, j int) bool { return seed[i].Id < seed[j].Id })
	if len(seed) > 0 {
		seed[len(seed)-1].LastSeedValue = true
	}

	ctx, stop := context.WithCancel(context.Background())
	defer stop()
	never := func(*CollectionChange) bool { return false }
	exact := collect(c.Pull(ctx, append(ro[:len(ro):len(ro)], WithBackpressure(true), WithUpdatesOnly(s.updates))...), never)
	one := collect(c.PullID(ctx, s.watchId, append(ro[:len(ro):len(ro)], WithBackpressure(true))...), func(*ValueChange) bool { return false })

	// a subscriber that lets changes accumulate
	lossy := c.Pull(ctx, append(ro[:len(ro):len(ro)], WithBackpressure(false))...)
	v := newView()
	var got []*CollectionChange
	take := func() {
		for {
			select {
			case ch := <-lossy:
				v.apply(ch, !s.dedup)
				got = append(got, ch)
				continue
			case <-time.After(100 * time.Microsecond):
			}
			return
		}
	}
	for i, cl := range s.calls[s.before:] {
		do(s.before+i, cl)
		if i%s.pace == s.pace-1 {
			take()
		}
	}
	gv.Ensures("the filtered list has exactly the included items, sorted by id", sameList(c.List(ro...), list()))
	converged := gv.Eventually(func() bool { take(); return sameList(v.list(), list()) })
	gv.Ensures("without backpressure, folding the filtered stream yields the filtered list", converged)
	if p := v.problem(); p != "" {
		gv.Ensures(p, false)
	}
	for _, ch := range got {
		ok := false // it has to be about an item that matches, or that did
		for _, l := range append(seed[:len(seed):len(seed)], log...) {
			if l.Id == ch.Id && (l.NewValue != nil && s.pred.include(l.Id, l.NewValue) || l.OldValue != nil && s.pred.include(l.Id, l.OldValue) || l.SeedValue) {
				ok = true
			}
		}
		gv.Ensures("changes to items that never match are not delivered", ok)
	}

	var want []CollectionChange
	if !s.updates {
		want = append(want, seed...)
	}
	for _, ch := range log {
		ch, ok := s.changeOf(ch)
		if !ok {
			continue
		}
		ch.NewValue, ch.OldValue = project(ch.NewValue), project(ch.OldValue)
		if s.dedup && ch.OldValue != nil && sameMsg(held[ch.Id], ch.NewValue) {
			continue
		}
		held[ch.Id] = ch.NewValue
		want = append(want, ch)
	}
	// the writes have been delivered, the last one may still be on its way to the subscriber
	gv.Pause()
	stop()
	all := await("the subscription ends when cancelled", exact)
	ok := sameChanges(all, want)
	if !ok && len(all) == len(want)-1 {
		ok = sameChanges(all, want[:len(all)])
	}
	gv.Ensures("the filtered stream is the stream of the filtered collection", ok)

	var wantOne []ValueChange
	watched := norm(s.watchId)
	held = map[string]proto.Message{}
	for _, ch := range seed {
		if ch.Id == watched {
			wantOne = append(wantOne, ValueChange{Value: ch.NewValue, ChangeTime: ch.ChangeTime, SeedValue: true, LastSeedValue: true})
			held[watched] = ch.NewValue
		}
	}
	for _, ch := range log {
		ch, ok := s.changeOf(ch)
		if !ok || ch.Id != watched {
			continue
		}
		if ch.ChangeType == types.ChangeType_REMOVE {
			break
		}
		nv := project(ch.NewValue)
		if s.dedup && ch.OldValue != nil && sameMsg(held[watched], nv) {
			continue
		}
		held[watched] = nv
		wantOne = append(wantOne, ValueChange{Value: nv, ChangeTime: ch.ChangeTime})
	}
	gotOne := await("the single item subscription ends when cancelled", one)
	ok = sameValueChanges(gotOne, wantOne)
	if !ok && len(gotOne) == len(wantOne)-1 {
		ok = sameValueChanges(gotOne, wantOne[:len(gotOne)])
	}
	gv.Ensures("a filtered single item subscription receives the events of that item while it matches", ok)
}
