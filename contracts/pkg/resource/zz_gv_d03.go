package resource

import (
	"context"
	"time"

	"github.com/smart-core-os/sc-api/go/types"
	"github.com/smart-core-os/sc-golang/internal/gv"
	"google.golang.org/protobuf/proto"
)

// dNext receives what a stream has to deliver now, nil if there is nothing or it is closed.
func dNext[T any](ch <-chan *T) *T {
	gv.Still()
	select {
	case e := <-ch:
		return e
	default:
		return nil
	}
}

// dHeld is what a subscriber that folds events holds for an id.
type dHeld struct {
	m *two
}

// fold applies an event about the item of this view.
func (h *dHeld) fold(e *CollectionChange) {
	if h.m == nil {
		gv.Ensures("an event about an absent item adds it", e.ChangeType == types.ChangeType_ADD && e.OldValue == nil && e.NewValue != nil)
	} else {
		gv.Ensures("an event about an item is no addition", e.ChangeType != types.ChangeType_ADD)
		gv.Ensures("and tells the value it replaces", e.OldValue != nil && dItem{m: h.m}.is(e.OldValue, true))
	}
	if e.ChangeType == types.ChangeType_REMOVE {
		gv.Ensures("a removal has no new value", e.NewValue == nil)
		h.m = nil
		return
	}
	gv.Ensures("an event has a new value", e.NewValue != nil)
	h.m = dCopy(e.NewValue.(*two))
}

func (h *dHeld) holds(m *two) bool {
	if h.m == nil || m == nil {
		return h.m == nil && m == nil
	}
	return h.m.C == m.C && h.m.D == m.D
}

// A subscription delivers the seed: the items that match, sorted by id, flagged, with the times they were stored with;
// then the change as it is for the items that match; and folding them gives what List returns.
//
//gv:property C03
//gv:property C04
//gv:property C08
//gv:for Collection.Pull, Collection.List, CollectionChange.include
func gvc_PullFiltered(a, b, next *two, bound int32, updatesOnly, remove, later bool) {
	const ida, idb = "b", "a" // not in the order they are added
	match := func(m *two) *two {
		if m == nil || m.C < bound {
			return nil
		}
		return dCopy(m)
	}
	c := NewCollection(WithClock(&dTick{}))
	if a != nil {
		_, err := c.Add(ida, a, WithWriteTime(time.Unix(30, 1)))
		gv.Ensures("added", err == nil)
	}
	if b != nil {
		_, err := c.Add(idb, b, WithWriteTime(time.Unix(20, 2)))
		gv.Ensures("added", err == nil)
	}
	ctx, stop := context.WithCancel(context.Background())
	include := WithInclude(func(id string, m proto.Message) bool { return m.(*two).C >= bound })
	events := c.Pull(ctx, WithBackpressure(true), WithUpdatesOnly(updatesOnly), include)

	var va, vb dHeld
	left := 0
	if !updatesOnly {
		if match(a) != nil {
			left++
		}
		if match(b) != nil {
			left++
		}
		if match(b) != nil { // the first in the order of ids
			left--
			e := dNext(events)
			gv.Ensures("seed", e != nil && e.Id == idb && e.SeedValue && e.ChangeTime.Equal(time.Unix(20, 2)))
			gv.Ensures("last seed", e.LastSeedValue == (left == 0))
			vb.fold(e)
		}
		if match(a) != nil {
			e := dNext(events)
			gv.Ensures("seed", e != nil && e.Id == ida && e.SeedValue && e.ChangeTime.Equal(time.Unix(30, 1)))
			gv.Ensures("last seed", e.LastSeedValue)
			va.fold(e)
		}
	} else {
		va.m, vb.m = match(a), match(b)
	}
	gv.Ensures("no more seed", dNoEvent(events))
	gv.Ensures("the seed is the list", va.holds(match(a)) && vb.holds(match(b)))

	// a write of the first item
	was, is := match(a), match(next)
	write := func() {
		switch {
		case remove:
			_, _ = c.Delete(ida, WithWriteTime(time.Unix(40, 3)))
		case next != nil:
			_, _ = c.Update(ida, next, WithCreateIfAbsent(), WithWriteTime(time.Unix(40, 3)))
		}
	}
	if remove {
		is = nil
	} else if next == nil {
		is = was
	}
	go write()
	told := was != nil || is != nil
	if remove && a == nil || !remove && next == nil {
		told = false
	}
	if told {
		e := dNext(events)
		gv.Ensures("a change that matters is told", e != nil)
		gv.Ensures("of the item", e.Id == ida && e.ChangeTime.Equal(time.Unix(40, 3)) && !e.SeedValue && !e.LastSeedValue)
		if was != nil && is != nil {
			gv.Ensures("as an update", e.ChangeType == types.ChangeType_UPDATE)
		}
		va.fold(e)
	}
	gv.Ensures("other changes are not", dNoEvent(events))
	gv.Ensures("the folded view is the list", va.holds(is) && vb.holds(match(b)))
	list := c.List(include)
	n := 0
	if vb.m != nil {
		gv.Ensures("listed", len(list) > 0 && dItem{m: vb.m}.is(list[0], true))
		n++
	}
	if va.m != nil {
		gv.Ensures("listed", len(list) > n && dItem{m: va.m}.is(list[n], true))
		n++
	}
	gv.Ensures("and nothing else", len(list) == n)
	stop()
	gv.Still()
	_, ok := <-events
	gv.Ensures("closed", !ok)
}

// dOp is a write to an item: 0 none, 1 update or create, 2 delete.
func dOp(c *Collection, id string, op uint8, m *two) {
	switch op % 3 {
	case 1:
		_, err := c.Update(id, m, WithCreateIfAbsent())
		gv.Ensures("written", err == nil)
	case 2:
		_, err := c.Delete(id, WithAllowMissing(true))
		gv.Ensures("deleted", err == nil)
	}
}

func dAfter(m *two, op uint8, next *two) *two {
	switch op % 3 {
	case 1:
		return dCopy(next)
	case 2:
		return nil
	}
	return m
}

// Without backpressure writers don't wait, and the events that a slow subscriber gets fold to the contents.
//
//gv:property C09
//gv:property C03
//gv:for mergeCollectionExcess, mergeChanges, Collection.Pull
func gvc_SlowCollection(a, b, x, y, z *two, op1, op2, op3 uint8, read1, read2 bool) {
	gv.Requires(b != nil && x != nil && y != nil && z != nil)
	op1, op2 = 1+op1%2, 1+op2%2
	const ida, idb = "a", "b"
	c := dStore(dItem{ida, a}, dItem{idb, b})
	va, vb := dHeld{dCopy(a)}, dHeld{dCopy(b)}
	ctx, stop := context.WithCancel(context.Background())
	events := c.Pull(ctx, WithBackpressure(false), WithUpdatesOnly(true))
	take := func() bool {
		e := dNext(events)
		switch {
		case e == nil:
			return false
		case e.Id == ida:
			va.fold(e)
		default:
			gv.Ensures("known id", e.Id == idb)
			vb.fold(e)
		}
		return true
	}
	ma, mb := dCopy(a), dCopy(b)
	dOp(c, ida, op1, x)
	ma = dAfter(ma, op1, x)
	if read1 {
		take()
	}
	dOp(c, idb, op2, y)
	mb = dAfter(mb, op2, y)
	if read2 {
		take()
	}
	dOp(c, ida, op3, z)
	ma = dAfter(ma, op3, z)
	for take() {
	}
	gv.Ensures("the folded view is the contents", va.holds(ma) && vb.holds(mb))
	stop()
	gv.Still()
	_, ok := <-events
	gv.Ensures("closed", !ok)
}

// Without backpressure writers to a Value don't wait, and a slow subscriber gets the last value.
//
//gv:property C09
//gv:property C03
//gv:for minibus.DropExcess, Value.Pull
func gvc_SlowValue(a, x, y, z *two, read1, read2, updatesOnly bool) {
	gv.Requires(a != nil && x != nil && y != nil && z != nil)
	v := NewValue(WithInitialValue(a), WithClock(&dTick{}))
	ctx, stop := context.WithCancel(context.Background())
	events := v.Pull(ctx, WithBackpressure(false), WithUpdatesOnly(updatesOnly))
	var last *two
	n := 0
	take := func() bool {
		e := dNext(events)
		if e == nil {
			return false
		}
		n++
		gv.Ensures("seed first", e.SeedValue == (n == 1 && !updatesOnly))
		last = dCopy(e.Value.(*two))
		return true
	}
	if !updatesOnly {
		gv.Ensures("seed", take() && last.C == a.C && last.D == a.D)
	}
	set := func(m *two) {
		_, err := v.Set(m)
		gv.Ensures("set", err == nil)
	}
	set(x)
	if read1 {
		take()
	}
	set(y)
	if read2 {
		take()
	}
	set(z)
	for take() {
	}
	gv.Ensures("the last value is the final one", last != nil && last.C == z.C && last.D == z.D)
	stop()
	gv.Still()
	_, ok := <-events
	gv.Ensures("closed", !ok)
}

// A subscription to one item delivers its changes and no other item's, and ends when it is removed.
//
//gv:property C04
//gv:property C10
//gv:for Collection.PullID
func gvc_PullItem(a, b, x, y *two, updatesOnly, backpressure bool) {
	gv.Requires(a != nil && x != nil && y != nil)
	const ida, idb = "a", "b"
	base := gv.Goroutines()
	c := dStore(dItem{ida, a}, dItem{idb, b})
	ctx, stop := context.WithCancel(context.Background())
	events := c.PullID(ctx, ida, WithBackpressure(backpressure), WithUpdatesOnly(updatesOnly))
	is := func(e *ValueChange, m *two) bool {
		return e != nil && e.Value.(*two).C == m.C && e.Value.(*two).D == m.D
	}
	if !updatesOnly {
		e := dNext(events)
		gv.Ensures("seed", is(e, a) && e.SeedValue && e.LastSeedValue)
	}
	gv.Ensures("one seed", dNoEvent(events))
	_, err := c.Update(idb, y, WithCreateIfAbsent())
	gv.Ensures("written", err == nil)
	gv.Ensures("other items aren't told", dNoEvent(events))
	go func() { _, _ = c.Update(ida, x, WithWriteTime(time.Unix(50, 0))) }()
	e := dNext(events)
	gv.Ensures("changes are", is(e, x) && !e.SeedValue && e.ChangeTime.Equal(time.Unix(50, 0)))
	_, err = c.Delete(ida)
	gv.Ensures("removed", err == nil)
	gv.Still()
	_, ok := <-events
	gv.Ensures("the stream ends", !ok)
	_, err = c.Update(idb, x)
	gv.Ensures("writers don't wait for it", err == nil)
	gv.Still()
	gv.Ensures("nor is a goroutine left", gv.Goroutines() == base)
	stop()
}

// A Value with an equivalence: changes are told if and only if they aren't equivalent to what the subscriber holds.
//
//gv:property C16
//gv:property C04
//gv:for Value.Pull
func gvc_ValueEquivalence(a, x, y *two, updatesOnly bool) {
	gv.Requires(a != nil && x != nil && y != nil)
	same := func(m, n *two) bool { return m.C == n.C }
	eq := ComparerFunc(func(m, n proto.Message) bool {
		if m == nil || n == nil {
			return m == nil && n == nil
		}
		return same(m.(*two), n.(*two))
	})
	v := NewValue(WithInitialValue(a), WithEquivalence(eq), WithClock(&dTick{}))
	ctx, stop := context.WithCancel(context.Background())
	defer stop()
	events := v.Pull(ctx, WithBackpressure(true), WithUpdatesOnly(updatesOnly))
	var held *two
	if !updatesOnly {
		e := dNext(events)
		gv.Ensures("seed", e != nil && e.SeedValue)
		held = dCopy(a)
	}
	for _, m := range []*two{x, y} {
		go func() { _, _ = v.Set(m) }()
		e := dNext(events)
		if held != nil && same(held, m) {
			gv.Ensures("equivalent changes aren't told", e == nil)
			continue
		}
		gv.Ensures("others are", e != nil && e.Value.(*two).C == m.C && e.Value.(*two).D == m.D && !e.SeedValue)
		held = dCopy(m)
	}
	gv.Ensures("nothing else", dNoEvent(events))
}

// Cancelling a subscription at any moment: the channel is closed, the writer goes on, others get every event, and no
// goroutine remains.
//
//gv:property C10
//gv:for Collection.Pull, Value.Pull, minibus.Bus
//gv:delays 1
//gv:norun
func gvc_PullCancel(a, x *two, backpressure, reads, value bool) {
	gv.Requires(a != nil && x != nil)
	base := gv.Goroutines()
	ctx, leave := context.WithCancel(context.Background())
	ctx2, stop := context.WithCancel(context.Background())
	leaves, stays := 0, 0
	closed := 0
	if value {
		v := NewValue(WithInitialValue(a), WithClock(&dTick{}))
		one := v.Pull(ctx, WithBackpressure(backpressure))
		two := v.Pull(ctx2, WithBackpressure(true), WithUpdatesOnly(true))
		go func() {
			for range two {
				stays++
			}
			closed++
		}()
		if reads {
			go func() {
				for range one {
					leaves++
				}
			}()
		}
		go leave()
		_, err := v.Set(x)
		gv.Ensures("set", err == nil)
		gv.Still()
		_, ok := <-one
		gv.Ensures("closed", !ok)
	} else {
		c := dStore(dItem{"a", a}, dItem{})
		one := c.Pull(ctx, WithBackpressure(backpressure))
		two := c.Pull(ctx2, WithBackpressure(true), WithUpdatesOnly(true))
		go func() {
			for range two {
				stays++
			}
			closed++
		}()
		if reads {
			go func() {
				for range one {
					leaves++
				}
			}()
		}
		go leave()
		_, err := c.Update("a", x)
		gv.Ensures("updated", err == nil)
		gv.Still()
		_, ok := <-one
		gv.Ensures("closed", !ok)
	}
	gv.Ensures("the other one gets the event", stays == 1 && closed == 0)
	gv.Ensures("the one that leaves gets at most the seed and the event", leaves <= 2)
	stop()
	gv.Still()
	gv.Ensures("the other one ends too", closed == 1)
	gv.Ensures("no goroutine remains", gv.Goroutines() == base)
}
