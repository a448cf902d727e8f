package resource

import (
	"context"
	"math/rand"
	"sync"
	"sync/atomic"
	"time"

	"github.com/smart-core-os/sc-golang/internal/gv"
	"github.com/smart-core-os/sc-golang/internal/testproto"
	"google.golang.org/protobuf/proto"
)

// racer is a caller: its calls, the naps before them, and whether it uses its messages after handing them to a write.
type racer struct {
	ops    []raceOp
	shares bool // its messages are also those of the other racers that share
}

type raceOp struct {
	kind    int
	id      string
	msg     *testproto.TestAllTypes
	nap     int
	opts    []int
	mask    []string
	reuse   bool // the message is modified after the call
	reads   int  // events received, negative: until cancelled
	updates bool
	drop    bool
}

type races struct {
	seed    int64
	initial map[string]*testproto.TestAllTypes
	racers  []racer
	shared  *testproto.TestAllTypes
	dedup   bool
	lowRand bool
	writes  []string
}

func gvg_CollectionRaces(g *gv.Gen) races {
	r := races{seed: g.R.Int63(), initial: map[string]*testproto.TestAllTypes{}, shared: gvMsg(g), dedup: g.R.Intn(4) == 0, lowRand: g.R.Intn(3) == 0}
	for i := g.R.Intn(3); i > 0; i-- {
		r.initial[[]string{"a", "b", "c"}[g.R.Intn(3)]] = gvMsg(g)
	}
	if g.R.Intn(4) == 0 {
		r.writes = []string{"default_int32", "default_string", "default_nested_message"}
	}
	for i := 4 + g.R.Intn(8); i > 0; i-- {
		c := racer{shares: g.R.Intn(4) == 0}
		for n := 1 + g.R.Intn(6); n > 0; n-- {
			o := raceOp{kind: g.R.Intn(10), id: []string{"a", "b", "c"}[g.R.Intn(3)], msg: gvMsg(g), nap: gvNap(g), reuse: g.R.Intn(2) == 0, reads: g.R.Intn(5) - 1, updates: g.R.Intn(3) == 0, drop: g.R.Intn(2) == 0}
			for k := g.R.Intn(3); k > 0; k-- {
				o.opts = append(o.opts, g.R.Intn(8))
			}
			if g.R.Intn(3) == 0 {
				o.mask = []string{"default_int32", "default_string", "default_nested_message"}[:1+g.R.Intn(3)]
			}
			c.ops = append(c.ops, o)
		}
		r.racers = append(r.racers, c)
	}
	return r
}

func gvg_ValueRaces(g *gv.Gen) races { return gvg_CollectionRaces(g) }

// look reads all of the message.
func look(ms ...proto.Message) {
	for _, m := range ms {
		if m != nil {
			proto.Equal(m, proto.Clone(m))
		}
	}
}

// scribble writes all of the message.
func scribble(m *testproto.TestAllTypes) {
	m.DefaultInt32++
	m.DefaultFloat++
	m.DefaultString += "x"
	if m.DefaultNestedMessage != nil {
		m.DefaultNestedMessage.A++
	}
	for i := range m.RepeatedInt32 {
		m.RepeatedInt32[i]++
	}
	m.RepeatedInt32 = append(m.RepeatedInt32, 1)
}

func (o raceOp) writeOpts() []WriteOption {
	var wo []WriteOption
	if o.mask != nil {
		wo = append(wo, WithUpdatePaths(o.mask...))
	}
	for _, k := range o.opts {
		switch k {
		case 0:
			wo = append(wo, InterceptBefore(func(old, change proto.Message) { look(old, change) }))
		case 1:
			wo = append(wo, InterceptAfter(func(old, new proto.Message) { look(old, new); new.(*testproto.TestAllTypes).DefaultSint32++ }))
		case 2:
			wo = append(wo, WithExpectedCheck(func(m proto.Message) error { look(m); return nil }))
		case 3:
			wo = append(wo, WithExpectedValue(o.msg))
		case 4:
			wo = append(wo, WithAllowMissing(true))
		case 5:
			wo = append(wo, WithCreateIfAbsent(), WithCreatedCallback(func() {}))
		case 6:
			wo = append(wo, WithWriteTime(time.Unix(1, 0)))
		case 7:
			wo = append(wo, WithResetPaths("default_float"))
		}
	}
	return wo
}

func (o raceOp) readOpts() []ReadOption {
	ro := []ReadOption{WithUpdatesOnly(o.updates), WithBackpressure(!o.drop)}
	if o.mask != nil {
		ro = append(ro, WithReadPaths(&testproto.TestAllTypes{}, o.mask...))
	}
	return ro
}

func receiving[T any](o raceOp, ch <-chan T, cancel func(), f func(T)) {
	n := o.reads
	for {
		if n == 0 {
			cancel()
			if o.updates {
				return // it never receives again
			}
		}
		v, ok := <-ch
		if !ok {
			return
		}
		nap(o.nap)
		f(v)
		n--
	}
}

func (r races) options() []Option {
	opts := []Option{}
	if r.lowRand {
		opts = append(opts, WithRNG(zeros{}))
	} else {
		opts = append(opts, WithRNG(rand.New(rand.NewSource(r.seed))))
	}
	if r.dedup {
		opts = append(opts, WithNoDuplicates())
	}
	if r.writes != nil {
		opts = append(opts, WithWritablePaths(&testproto.TestAllTypes{}, r.writes...))
	}
	return opts
}

// run runs each racer's calls in a goroutine of its own, and cancels what they leave open when all are done.
func (r races) run(call func(ctx context.Context, cancel func(), c racer, o raceOp, msg *testproto.TestAllTypes, pulls *sync.WaitGroup)) {
	var wg, pulls sync.WaitGroup
	ctx, cancel := context.WithCancel(context.Background())
	start := make(chan struct{})
	for _, c := range r.racers {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for _, o := range c.ops {
				nap(o.nap)
				msg := o.msg
				if c.shares && o.kind < 8 {
					msg = r.shared
				}
				ctx, cancel := context.WithCancel(ctx)
				call(ctx, cancel, c, o, msg, &pulls)
				if o.reuse && msg == o.msg {
					scribble(o.msg)
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	cancel()
	ended := make(chan struct{})
	go func() { pulls.Wait(); close(ended) }()
	select {
	case <-ended:
	case <-time.After(10 * time.Second):
		gv.Ensures("subscriptions end", false)
	}
}

// Concurrent calls, whose callbacks read what they are given and whose callers read what they get, don't race.
//
//gv:property C11
//gv:for Collection.Update covers Collection.Add Collection.Delete Collection.Get Collection.List Collection.Pull Collection.PullID Collection.genID GetAndUpdate WriteRequest.changeFn masks.FieldUpdater.Merge minibus.Bus
//gv:bounded up to 11 callers of up to 6 calls each (reads, writes, deletes, adds with generated ids, subscriptions) over 3 ids with generated options; callers modify, or share, the messages they wrote; under the race detector
//gv:race
//gv:run 9
func gvc_CollectionRaces(r races) {
	opts := r.options()
	for id, m := range r.initial {
		opts = append(opts, WithInitialRecord(id, m))
	}
	c := NewCollection(opts...)
	var n atomic.Int64
	r.run(func(ctx context.Context, cancel func(), w racer, o raceOp, msg *testproto.TestAllTypes, pulls *sync.WaitGroup) {
		var m proto.Message
		switch o.kind {
		case 0, 1, 2:
			m, _ = c.Update(o.id, msg, o.writeOpts()...)
		case 3:
			m, _ = c.Delete(o.id, o.writeOpts()...)
		case 4:
			m, _ = c.Add("", msg, append(o.writeOpts(), WithGenIDIfAbsent(), WithIDCallback(func(id string) { n.Add(1) }))...)
		case 5:
			m, _ = c.Add(o.id, msg, o.writeOpts()...)
		case 6:
			m, _ = c.Get(o.id, o.readOpts()...)
		case 7:
			look(c.List(append(o.readOpts(), WithInclude(func(id string, m proto.Message) bool { look(m); return true }))...)...)
		case 8:
			ch := c.Pull(ctx, o.readOpts()...)
			pulls.Add(1)
			go func() {
				defer pulls.Done()
				receiving(o, ch, cancel, func(e *CollectionChange) { look(e.OldValue, e.NewValue) })
			}()
		case 9:
			ch := c.PullID(ctx, o.id, o.readOpts()...)
			pulls.Add(1)
			go func() {
				defer pulls.Done()
				receiving(o, ch, cancel, func(e *ValueChange) { look(e.Value) })
			}()
		}
		look(m)
	})
}

// Concurrent calls, whose callbacks read what they are given and whose callers read what they get, don't race.
//
//gv:property C11
//gv:for Value.Set covers Value.Get Value.Pull GetAndUpdate WriteRequest.changeFn masks.FieldUpdater.Merge minibus.Bus
//gv:bounded up to 11 callers of up to 6 calls each (reads, writes, subscriptions) with generated options; callers modify, or share, the messages they wrote; under the race detector
//gv:race
//gv:run 6
func gvc_ValueRaces(r races) {
	v := NewValue(append(r.options(), WithInitialValue(gvOr(r.initial["a"])))...)
	r.run(func(ctx context.Context, cancel func(), w racer, o raceOp, msg *testproto.TestAllTypes, pulls *sync.WaitGroup) {
		var m proto.Message
		switch o.kind {
		case 0, 1, 2, 3, 4:
			m, _ = v.Set(msg, o.writeOpts()...)
		case 5, 6:
			m = v.Get(o.readOpts()...)
		default:
			ch := v.Pull(ctx, o.readOpts()...)
			pulls.Add(1)
			go func() {
				defer pulls.Done()
				receiving(o, ch, cancel, func(e *ValueChange) { look(e.Value) })
			}()
		}
		look(m)
	})
}

func gvOr(m *testproto.TestAllTypes) *testproto.TestAllTypes {
	if m == nil {
		return &testproto.TestAllTypes{}
	}
	return m
}
