package resource

import (
	"context"
	"sync"
	"time"

	"github.com/smart-core-os/sc-golang/internal/gv"
	"google.golang.org/protobuf/proto"
)

// dFixed is a clock many goroutines can read.
type dFixed struct{}

func (dFixed) Now() time.Time { return time.Unix(1, 0) }

// dRead reads all of m.
func dRead(m proto.Message) int32 {
	if t, ok := m.(*two); ok && t != nil {
		return t.C + t.D
	}
	return 0
}

// dRaceOpts are options of a write whose callbacks read what they are given.
func dRaceOpts(by int32) []WriteOption {
	return []WriteOption{
		InterceptBefore(func(old, change proto.Message) { dRead(old); dRead(change) }),
		InterceptAfter(func(old, new proto.Message) { dRead(old); new.(*two).C += by }),
		WithExpectedCheck(func(m proto.Message) error { dRead(m); return nil }),
	}
}

// dRaceCall is one call on item a of c, whose caller reads what it gets and uses what it gave.
func dRaceCall(c *Collection, kind uint8, m *two, by int32) {
	var res proto.Message
	switch kind {
	case 0:
		res, _ = c.Update("a", m, dRaceOpts(by)...)
		m.C++
	case 1:
		res, _ = c.Update("a", m, WithCreateIfAbsent(), WithUpdatePaths("c"))
		m.C++
	case 2:
		res, _ = c.Delete("a", WithExpectedCheck(func(m proto.Message) error { dRead(m); return nil }))
	case 3:
		res, _ = c.Add("a", m)
		m.C++
	case 4:
		res, _ = c.Get("a")
	case 5:
		for _, m := range c.List(WithInclude(func(id string, m proto.Message) bool { dRead(m); return true })) {
			dRead(m)
		}
	case 6:
		ctx, stop := context.WithCancel(context.Background())
		for e := range c.Pull(ctx) {
			dRead(e.OldValue)
			dRead(e.NewValue)
			stop()
		}
		stop()
	case 7:
		ctx, stop := context.WithCancel(context.Background())
		for e := range c.PullID(ctx, "a") {
			dRead(e.Value)
			stop()
		}
		stop()
	}
	dRead(res)
}

// Two goroutines call, each reads what it gets and uses what it gave: whatever memory both use and one of them writes,
// one uses after the other, in the order of the memory model.
//
//gv:property C11
//gv:for Collection.Update, Collection.Add, Collection.Delete, Collection.Get, Collection.List, GetAndUpdate
//gv:delays 1
//gv:hb
//gv:norun
func gvc_CollectionCallsOrdered(a, x, y *two, kx, ky uint8, bx, by int32) {
	gv.Requires(x != nil && y != nil && x != y && a != x && a != y && kx <= ky && ky < 6)
	opts := []Option{WithClock(dFixed{})}
	if a != nil {
		opts = append(opts, WithInitialRecord("a", a))
	}
	c := NewCollection(opts...)
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		dRaceCall(c, kx, x, bx)
	}()
	dRaceCall(c, ky, y, by)
	wg.Wait()
	c.Get("a")
}

// A subscriber reads the events it gets while another goroutine calls: neither uses memory the other writes, but in order.
//
//gv:property C11
//gv:for Collection.Pull, Collection.PullID, minibus.Bus
//gv:delays 1
//gv:hb
//gv:norun
func gvc_CollectionPullOrdered(a, x *two, k uint8, bx int32, one, drop bool) {
	gv.Requires(x != nil && a != x && k < 6)
	opts := []Option{WithClock(dFixed{})}
	if a != nil {
		opts = append(opts, WithInitialRecord("a", a))
	}
	c := NewCollection(opts...)
	ctx, stop := context.WithCancel(context.Background())
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		if one {
			for e := range c.PullID(ctx, "a", WithBackpressure(!drop)) {
				dRead(e.Value)
			}
			return
		}
		for e := range c.Pull(ctx, WithBackpressure(!drop)) {
			dRead(e.OldValue)
			dRead(e.NewValue)
		}
	}()
	dRaceCall(c, k, x, bx)
	stop()
	wg.Wait()
}

// Writers, readers and a subscriber of a value use what memory they share in order.
//
//gv:property C11
//gv:for Value.Set, Value.Get, Value.Pull, GetAndUpdate, minibus.Bus
//gv:delays 1
//gv:hb
//gv:norun
func gvc_ValueCallsOrdered(a, x, y *two, kx, ky uint8, bx, by int32, drop bool) {
	gv.Requires(a != nil && x != nil && y != nil && x != y && a != x && a != y && kx <= ky && ky < 4)
	v := NewValue(WithInitialValue(a), WithClock(dFixed{}))
	ctx, stop := context.WithCancel(context.Background())
	call := func(kind uint8, m *two, by int32) {
		var res proto.Message
		switch kind {
		case 0:
			res, _ = v.Set(m, dRaceOpts(by)...)
			m.C++
		case 1:
			res, _ = v.Set(m, WithUpdatePaths("c"))
			m.C++
		case 2:
			res = v.Get()
		case 3:
			for e := range v.Pull(ctx, WithBackpressure(!drop)) {
				dRead(e.Value)
			}
		}
		dRead(res)
	}
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		call(ky, y, by)
	}()
	if kx < 3 {
		call(kx, x, bx)
	}
	stop()
	wg.Wait()
	v.Get()
}
