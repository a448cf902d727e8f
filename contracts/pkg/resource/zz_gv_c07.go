package resource

import (
	"context"
	"math/rand"
	"sync"
	"time"

	"github.com/smart-core-os/sc-golang/internal/gv"
	"github.com/smart-core-os/sc-golang/internal/testproto"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/fieldmaskpb"
)

// sharing is a history of calls of a Collection and of a Value by one caller, which reuses the messages it gives.
type sharing struct {
	Writable []string
	Initial  map[string]*testproto.TestAllTypes
	Calls    []shareCall
	Interest bool
	seed     int64
}

type shareCall struct {
	Kind   string // set, update, add, delete, get, list, pull, pull id, pull value, get value
	ID     string
	Msg    *testproto.TestAllTypes
	Again  int // 1+ the index of an observed message to give instead of Msg
	Update []string
	Reset  []string
	Read   []string
	Before bool
	After  bool
	Check  bool
	Create bool
	Gen    bool
	Only   bool // updates only
	Lossy  bool // without backpressure
	Slow   bool // subscribers have received all there is before the caller reuses its message
}

var shareKinds = []string{"set", "set", "set", "set", "update", "update", "update", "update", "add", "delete", "get", "list", "pull", "pull id", "pull value", "get value"}

func gvg_Shared(g *gv.Gen) sharing {
	w := sharing{Initial: map[string]*testproto.TestAllTypes{}, Interest: g.R.Intn(2) == 0, seed: g.R.Int63()}
	desc := (&testproto.TestAllTypes{}).ProtoReflect().Descriptor()
	rich := func() *testproto.TestAllTypes {
		m := gvMsg(g)
		if g.R.Intn(3) > 0 {
			all := (&testproto.TestAllTypes{}).ProtoReflect()
			g.Message(all, 3)
			for n := 1 + g.R.Intn(6); n > 0; n-- {
				if f := desc.Fields().Get(g.R.Intn(desc.Fields().Len())); all.Has(f) {
					m.ProtoReflect().Set(f, all.Get(f))
				}
			}
		}
		return m
	}
	paths := func(n int) []string {
		if g.R.Intn(2) == 0 {
			return somePaths(g, n)
		}
		return g.Paths(desc, n, false)
	}
	for _, id := range gvIds[1:] {
		if g.R.Intn(2) == 0 {
			w.Initial[id] = rich()
		}
	}
	if g.R.Intn(4) == 0 {
		w.Writable = paths(5)
	}
	var prev *testproto.TestAllTypes
	for i := 3 + g.R.Intn(20); i > 0; i-- {
		c := shareCall{Kind: shareKinds[g.R.Intn(len(shareKinds))], ID: gvIds[1+g.R.Intn(3)], Msg: rich(), Slow: g.R.Intn(3) == 0}
		if prev != nil && g.R.Intn(2) == 0 { // a variation of what was written before
			c.Msg = proto.Clone(prev).(*testproto.TestAllTypes)
			g.Mutate(c.Msg.ProtoReflect(), 1+g.R.Intn(2))
		}
		prev = proto.Clone(c.Msg).(*testproto.TestAllTypes)
		if g.R.Intn(4) == 0 {
			c.Again = 1 + g.R.Intn(20)
		}
		if g.R.Intn(2) == 0 {
			c.Update = paths(3)
		}
		if g.R.Intn(4) == 0 {
			c.Reset = paths(2)
		}
		if g.R.Intn(2) == 0 {
			c.Read = paths(3)
		}
		c.Before, c.After, c.Check = g.R.Intn(4) == 0, g.R.Intn(4) == 0, g.R.Intn(4) == 0
		c.Create, c.Gen = g.R.Intn(4) > 0, g.R.Intn(6) == 0
		c.Only, c.Lossy = g.R.Intn(3) == 0, g.R.Intn(2) == 0
		w.Calls = append(w.Calls, c)
	}
	return w
}

// Messages given to resources can be changed by the caller afterwards, those got from them never change, and reading changes nothing.
//
//gv:property C07
//gv:for Collection.Update covers Collection.Add Collection.Delete Collection.Get Collection.List Collection.Pull Collection.PullID Value.Set Value.Get Value.Pull masks.FieldUpdater.Merge masks.ResponseFilter.Filter
//gv:bounded generated histories of up to 22 calls of a Collection and a Value, with every combination of masks, interceptors and subscriptions, every message that was observed compared with its copy after each call
//gv:run 12
//gv:par 4
func gvc_Shared(w sharing) {
	var album gv.Album
	var opts []Option
	if w.Writable != nil {
		opts = append(opts, WithWritableFields(maskOf(w.Writable)))
	}
	if w.Interest { // subscribers whose filters are compared with a filtered Equal
		opts = append(opts, WithNoDuplicates())
	}
	copts := append([]Option{WithRNG(rand.New(rand.NewSource(w.seed)))}, opts...)
	first := []proto.Message{&testproto.TestAllTypes{DefaultString: "initial"}}
	for id, m := range w.Initial {
		m = proto.Clone(m).(*testproto.TestAllTypes)
		first = append(first, m)
		copts = append(copts, WithInitialRecord(id, m))
	}
	c := NewCollection(copts...)
	v := NewValue(append([]Option{WithInitialValue(first[0])}, opts...)...)
	ctx, stop := context.WithCancel(context.Background())
	var pulls sync.WaitGroup
	defer pulls.Wait()
	defer stop()
	read := func() []proto.Message { return append(c.List(), v.Get()) }
	was := cloneAll(read())
	for _, m := range first {
		gv.Deface(m)
	}
	gv.Assert("initial values aren't shared with the caller", sameList(read(), was))
	check := func() {
		m, _ := album.Changed()
		gv.Assert("a message that was observed never changes", m == nil)
	}
	open := false
	for _, call := range w.Calls {
		open = open || call.Kind[0] == 'p'
		msg := proto.Clone(call.Msg).(*testproto.TestAllTypes)
		again := false
		if call.Again > 0 && !call.Before {
			n := call.Again
			if m := album.Nth(n); m != nil {
				msg, again = m.(*testproto.TestAllTypes), true
			}
		}
		var expect *testproto.TestAllTypes
		var wo []WriteOption
		if call.Update != nil {
			wo = append(wo, WithUpdateMask(maskOf(call.Update)))
		}
		if call.Reset != nil {
			wo = append(wo, WithResetPaths(call.Reset...))
		}
		if call.Before {
			wo = append(wo, InterceptBefore(beforeFn))
		}
		if call.After {
			wo = append(wo, InterceptAfter(afterFn))
		}
		if call.Check {
			if m, ok := c.Get(call.ID); ok {
				expect = proto.Clone(m).(*testproto.TestAllTypes)
				wo = append(wo, WithExpectedValue(expect))
			}
		}
		if call.Create {
			wo = append(wo, WithCreateIfAbsent(), WithAllowMissing(true))
		}
		if call.Gen {
			wo = append(wo, WithGenIDIfAbsent())
		}
		ro := []ReadOption{WithUpdatesOnly(call.Only), WithBackpressure(!call.Lossy)}
		if call.Read != nil {
			ro = append(ro, WithReadMask(&fieldmaskpb.FieldMask{Paths: call.Read}))
		}
		id := call.ID
		if call.Gen {
			id = ""
		}
		reads := false
		var got proto.Message
		switch call.Kind {
		case "set":
			got, _ = v.Set(msg, wo...)
		case "update":
			got, _ = c.Update(id, msg, wo...)
		case "add":
			got, _ = c.Add(id, msg, wo...)
		case "delete":
			got, _ = c.Delete(id, wo...)
		default:
			reads = true
			switch call.Kind {
			case "get":
				got, _ = c.Get(id, ro...)
			case "get value":
				got = v.Get(ro...)
			case "list":
				for _, m := range c.List(ro...) {
					album.Add(m)
				}
			case "pull":
				ch := c.Pull(ctx, ro...)
				pulls.Add(1)
				go func() {
					defer pulls.Done()
					for e := range ch {
						album.Add(e.OldValue)
						album.Add(e.NewValue)
					}
				}()
			case "pull id":
				ch := c.PullID(ctx, id, ro...)
				pulls.Add(1)
				go func() {
					defer pulls.Done()
					for e := range ch {
						album.Add(e.Value)
					}
				}()
			case "pull value":
				ch := v.Pull(ctx, ro...)
				pulls.Add(1)
				go func() {
					defer pulls.Done()
					for e := range ch {
						album.Add(e.Value)
					}
				}()
			}
		}
		album.Add(got)
		if call.Slow && open {
			album.Quiet(100 * time.Microsecond)
		}
		now := read()
		if reads {
			gv.Assert("reading leaves the state as it was", sameList(now, was))
			gv.Reach("read")
		}
		for _, m := range now {
			album.Add(m)
		}
		was = cloneAll(now)
		if !reads && !again {
			album.Forget(msg)
			gv.Deface(msg)
			gv.Deface(expect)
			gv.Assert("what a caller gave isn't stored", sameList(read(), was))
			gv.Reach("write")
		}
		check()
	}
	stop()
	album.Quiet(100 * time.Microsecond)
	check()
	gv.Reach("ended")
}

func cloneAll(ms []proto.Message) (r []proto.Message) {
	for _, m := range ms {
		r = append(r, proto.Clone(m))
	}
	return r
}
