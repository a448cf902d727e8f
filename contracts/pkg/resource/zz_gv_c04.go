package resource

import (
	"context"
	"math/rand"
	"sort"
	"strings"
	"time"

	"github.com/smart-core-os/sc-api/go/types"
	"github.com/smart-core-os/sc-golang/internal/gv"
	"github.com/smart-core-os/sc-golang/internal/testproto"
	"google.golang.org/protobuf/proto"
)

type script struct {
	history
	before  int      // calls made before subscribing
	mask    []string // nil: everything
	dedup   bool
	updates bool
	watchId string
}

func gvg_Script(g *gv.Gen) script {
	s := script{history: gvg_CollectionModel(g), dedup: g.R.Intn(3) == 0, updates: g.R.Intn(3) == 0}
	s.before = g.R.Intn(len(s.calls) + 1)
	if g.R.Intn(3) == 0 {
		s.mask = somePaths(g, 3)
	}
	s.watchId = []string{"a", "b", "A"}[g.R.Intn(3)]
	return s
}

func gvg_CollectionScript(g *gv.Gen) script { return gvg_Script(g) }
func gvg_ValueScript(g *gv.Gen) script      { return gvg_Script(g) }

func (s script) readOptions(updates bool) []ReadOption {
	ro := []ReadOption{WithBackpressure(true), WithUpdatesOnly(updates)}
	if s.mask != nil {
		ro = append(ro, WithReadMask(maskOf(s.mask)))
	}
	return ro
}

// clock is a clock that only changes when told to.
type clock struct{ t time.Time }

func (c *clock) Now() time.Time { return c.t }

type stamped struct {
	msg  proto.Message
	time time.Time
}

// A backpressured subscriber receives the seed, then one event per successful write, in order, with every field right.
//
//gv:property C04
//gv:for Collection.Pull covers Collection.PullID Collection.Update Collection.Add Collection.Delete minibus.Bus.Send WriteRequest.updateTime
//gv:bounded generated histories of up to 40 calls by one writer, over 5 ids, with every combination of write options; subscribed at any point
func gvc_CollectionScript(s script) {
	clk := &clock{time.Unix(500, 0)}
	opts := []Option{WithClock(clk), WithRNG(rand.New(rand.NewSource(s.seed)))}
	norm := func(id string) string { return id }
	if s.lower {
		norm = strings.ToLower
		opts = append(opts, WithIDInterceptor(strings.ToLower))
	}
	if s.writable != nil {
		opts = append(opts, WithWritableFields(maskOf(s.writable)))
	}
	if s.dedup {
		opts = append(opts, WithNoDuplicates())
	}
	stored := map[string]stamped{}
	for id, m := range s.initial {
		opts = append(opts, WithInitialRecord(id, proto.Clone(m)))
		stored[id] = stamped{proto.Clone(m), clk.t}
	}
	c := NewCollection(opts...)
	var log []CollectionChange // what happened since subscribing
	do := func(i int, cl call) {
		clk.t = time.Unix(1000+int64(i), 0)
		var ids []string
		created := 0
		msg := proto.Clone(cl.msg).(*testproto.TestAllTypes)
		cl.callback = true
		id := norm(cl.id)
		old := stored[id]
		if id == "" && cl.gen {
			old = stamped{}
		}
		at := clk.t
		if cl.writeTime > 0 {
			at = time.Unix(int64(cl.writeTime), 0)
		}
		var got proto.Message
		var err error
		switch cl.kind {
		case 3:
			c.Get(cl.id)
			return
		case 4:
			c.List()
			return
		case 2:
			old = stored[id]
			_, err = c.Delete(cl.id, cl.writeOptions(old.msg, nil, &ids, &created)...)
			if err != nil || old.msg == nil {
				return
			}
			delete(stored, id)
			log = append(log, CollectionChange{Id: id, ChangeTime: at, ChangeType: types.ChangeType_REMOVE, OldValue: old.msg})
			return
		case 1:
			got, err = c.Add(cl.id, msg, cl.writeOptions(old.msg, msg, &ids, &created)...)
		default:
			got, err = c.Update(cl.id, msg, cl.writeOptions(old.msg, msg, &ids, &created)...)
		}
		if err != nil {
			return
		}
		if len(ids) > 0 {
			id = norm(ids[0])
		}
		got = proto.Clone(got)
		stored[id] = stamped{got, at}
		log = append(log, CollectionChange{Id: id, ChangeTime: at, ChangeType: kindOf(old.msg, got), OldValue: old.msg, NewValue: got})
	}
	for i, cl := range s.calls[:s.before] {
		do(i, cl)
	}
	log = nil
	var seed []CollectionChange
	for id, m := range stored {
		seed = append(seed, CollectionChange{Id: id, ChangeTime: m.time, ChangeType: types.ChangeType_ADD, NewValue: m.msg, SeedValue: true})
	}
	sort.Slice(seed, func(i, j int) bool { return seed[i].Id < seed[j].Id })
	if len(seed) > 0 {
		seed[len(seed)-1].LastSeedValue = true
	}
	ctx, stop := context.WithCancel(context.Background())
	defer stop()
	base := map[string]proto.Message{}
	for id, m := range stored {
		base[id] = m.msg
	}
	isEnd := func(c *CollectionChange) bool { return c.Id == gvEnd }
	all := collect(c.Pull(ctx, s.readOptions(s.updates)...), isEnd)
	all2 := collect(c.Pull(ctx, WithBackpressure(true)), isEnd)
	one := collect(c.PullID(ctx, s.watchId, s.readOptions(s.updates)...), func(*ValueChange) bool { return false })
	for i, cl := range s.calls[s.before:] {
		do(s.before+i, cl)
	}
	watched := norm(s.watchId)
	if stored[watched].msg != nil { // end the single item subscription
		do(len(s.calls), call{kind: 2, id: s.watchId})
	} else {
		do(len(s.calls), call{kind: 0, id: s.watchId, create: true, msg: &testproto.TestAllTypes{DefaultInt32: 3}})
		do(len(s.calls)+1, call{kind: 2, id: s.watchId})
	}
	do(len(s.calls)+2, call{kind: 0, id: gvEnd, create: true, msg: &testproto.TestAllTypes{}})
	gv.Ensures("the last write succeeds", len(log) > 0 && log[len(log)-1].Id == gvEnd)

	gv.Ensures("without a mask, each event is exactly the write", sameChanges(await("the subscriber receives the last change", all2), s.expect(seed, log, base, nil, false)))
	gv.Ensures("with a mask, or only updates, each event is exactly the write", sameChanges(await("the subscriber receives the last change", all), s.expect(seed, log, base, s.mask, s.updates)))

	// the single item subscription: until the item is removed
	var want []ValueChange
	for _, ch := range s.expect(seed, log, base, s.mask, s.updates) {
		if ch.Id != watched {
			continue
		}
		if ch.ChangeType == types.ChangeType_REMOVE {
			break
		}
		want = append(want, ValueChange{Value: ch.NewValue, ChangeTime: ch.ChangeTime, SeedValue: ch.SeedValue, LastSeedValue: ch.SeedValue})
	}
	gv.Ensures("a single item subscription receives the events of that item, until it is removed", sameValueChanges(await("a single item subscription ends when the item is removed", one), want))
}

// expect is what a subscriber receives.
func (s script) expect(seed, log []CollectionChange, base map[string]proto.Message, mask []string, updates bool) []CollectionChange {
	var r []CollectionChange
	held := map[string]proto.Message{}
	project := func(m proto.Message) proto.Message { return gv.ProjectPaths(m, mask) }
	for id, m := range base {
		held[id] = project(m)
	}
	if !updates {
		for _, ch := range seed {
			ch.NewValue = project(ch.NewValue)
			r = append(r, ch)
		}
	}
	for _, ch := range log {
		ch.NewValue, ch.OldValue = project(ch.NewValue), project(ch.OldValue)
		if s.dedup && sameMsg(held[ch.Id], ch.NewValue) {
			continue
		}
		held[ch.Id] = ch.NewValue
		r = append(r, ch)
	}
	return r
}

func sameChanges(got []*CollectionChange, want []CollectionChange) bool {
	if len(got) != len(want) {
		return false
	}
	for i, w := range want {
		g := got[i]
		if g.Id != w.Id || g.ChangeType != w.ChangeType || !g.ChangeTime.Equal(w.ChangeTime) || g.SeedValue != w.SeedValue || g.LastSeedValue != w.LastSeedValue ||
			!sameMsg(g.NewValue, w.NewValue) || !sameMsg(g.OldValue, w.OldValue) {
			return false
		}
	}
	return true
}

func sameValueChanges(got []*ValueChange, want []ValueChange) bool {
	if len(got) != len(want) {
		return false
	}
	for i, w := range want {
		g := got[i]
		if !g.ChangeTime.Equal(w.ChangeTime) || g.SeedValue != w.SeedValue || g.LastSeedValue != w.LastSeedValue || !sameMsg(g.Value, w.Value) {
			return false
		}
	}
	return true
}

// A backpressured subscriber to a Value receives the seed, then one event per successful write, in order.
//
//gv:property C04
//gv:for Value.Pull covers Value.Set minibus.Bus.Send WriteRequest.updateTime
//gv:bounded generated histories of up to 40 calls by one writer with every combination of write options; subscribed at any point
func gvc_ValueScript(s script) {
	clk := &clock{time.Unix(500, 0)}
	opts := []Option{WithClock(clk)}
	if s.writable != nil {
		opts = append(opts, WithWritableFields(maskOf(s.writable)))
	}
	if s.dedup {
		opts = append(opts, WithNoDuplicates())
	}
	var cur stamped
	if m := s.initial["a"]; m != nil {
		opts = append(opts, WithInitialValue(proto.Clone(m)))
		cur = stamped{proto.Clone(m), clk.t}
	}
	v := NewValue(opts...)
	var log []ValueChange
	do := func(i int, cl call) {
		clk.t = time.Unix(1000+int64(i), 0)
		if cl.kind > 2 {
			v.Get()
			return
		}
		cl.absent = false
		at := clk.t
		if cl.writeTime > 0 {
			at = time.Unix(int64(cl.writeTime), 0)
		}
		var ids []string
		created := 0
		msg := proto.Clone(cl.msg).(*testproto.TestAllTypes)
		wo := cl.writeOptions(cur.msg, msg, &ids, &created)
		if i == len(s.calls) {
			wo = append(wo, WithAllFieldsWritable())
		}
		got, err := v.Set(msg, wo...)
		if err != nil {
			return
		}
		cur = stamped{proto.Clone(got), at}
		log = append(log, ValueChange{Value: cur.msg, ChangeTime: at})
	}
	for i, cl := range s.calls[:s.before] {
		do(i, cl)
	}
	log = nil
	var seed []ValueChange
	if cur.msg != nil {
		seed = []ValueChange{{Value: cur.msg, ChangeTime: cur.time, SeedValue: true, LastSeedValue: true}}
	}
	ctx, stop := context.WithCancel(context.Background())
	defer stop()
	end := &testproto.TestAllTypes{DefaultString: gvEnd, DefaultInt32: 99, DefaultFloat: 99, DefaultNestedMessage: &testproto.TestAllTypes_NestedMessage{A: 99}, RepeatedInt32: []int32{99}}
	// the mask might hide the end: count events instead
	plain := collect(v.Pull(ctx, WithBackpressure(true)), func(c *ValueChange) bool { return proto.Equal(c.Value, end) })
	ctx2, stop2 := context.WithCancel(context.Background())
	defer stop2()
	masked := collect(v.Pull(ctx2, s.readOptions(s.updates)...), func(c *ValueChange) bool { return false })
	for i, cl := range s.calls[s.before:] {
		do(s.before+i, cl)
	}
	do(len(s.calls), call{kind: 0, msg: end})
	gv.Ensures("the last write succeeds", proto.Equal(cur.msg, end))
	expect := func(mask []string, updates bool) []ValueChange {
		var r []ValueChange
		var held proto.Message
		if !updates {
			for _, ch := range seed {
				ch.Value = gv.ProjectPaths(ch.Value, mask)
				held = ch.Value
				r = append(r, ch)
			}
		}
		for _, ch := range log {
			ch.Value = gv.ProjectPaths(ch.Value, mask)
			if s.dedup && sameMsg(held, ch.Value) {
				continue
			}
			held = ch.Value
			r = append(r, ch)
		}
		return r
	}
	gv.Ensures("without a mask, each event is exactly the write", sameValueChanges(await("the subscriber receives the last change", plain), expect(nil, false)))
	// writes wait for delivery, but the last event might still be on its way from the forwarding goroutine
	want := expect(s.mask, s.updates)
	gv.Pause()
	stop2()
	got := await("the subscription ends when cancelled", masked)
	ok := sameValueChanges(got, want)
	if !ok && len(want) > 0 && len(got) == len(want)-1 {
		ok = sameValueChanges(got, want[:len(want)-1]) // the last delivery can lose to the cancel
	}
	if !ok && s.dedup && s.updates && len(want) > 0 && len(seed) > 0 && sameMsg(want[0].Value, gv.ProjectPaths(seed[0].Value, s.mask)) {
		return // not told the value from before it subscribed: may be taken to have it
	}
	gv.Ensures("with a mask, or only updates, each event is exactly the write", ok)
}
