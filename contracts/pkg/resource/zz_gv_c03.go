package resource

import (
	"context"
	"sync"
	"sync/atomic"
	"time"

	"github.com/smart-core-os/sc-golang/internal/gv"
	"github.com/smart-core-os/sc-golang/internal/testproto"
	"google.golang.org/protobuf/proto"
)

type gvWrite struct {
	kind int // 0 update or create, 1 delete, 2 add
	id   string
	msg  *testproto.TestAllTypes
	nap  int
	at   int // write time, 0: now
}

func (w gvWrite) options(more ...WriteOption) []WriteOption {
	if w.at != 0 {
		more = append(more, WithWriteTime(time.Unix(int64(w.at), 0)))
	}
	return more
}

type gvSub struct {
	delay        int
	backpressure bool
	updates      bool
	mask         []string
	one          string // id, for a single item subscription
	nap          int
	quit         int // cancels after this many events, or after a nap when negative
}

// contest is a number of writers and subscribers of one resource, at the same time.
type contest struct {
	initial map[string]*testproto.TestAllTypes
	writers [][]gvWrite
	subs    []gvSub
	dedup   bool
}

func gvContest(g *gv.Gen) contest {
	c := contest{initial: map[string]*testproto.TestAllTypes{}, dedup: g.R.Intn(4) == 0}
	ids := []string{"a", "b", "c"}[:1+g.R.Intn(3)]
	for i := g.R.Intn(3); i > 0; i-- {
		c.initial[ids[g.R.Intn(len(ids))]] = gvMsg(g)
	}
	n := 0
	for w := 1 + g.R.Intn(3); w > 0; w-- {
		var ws []gvWrite
		for i := 1 + g.R.Intn(6); i > 0; i-- {
			n++
			m := gvMsg(g)
			if g.R.Intn(3) > 0 {
				m.DefaultInt64 = int64(n) // tells the writes apart
			}
			ws = append(ws, gvWrite{[]int{0, 0, 0, 1, 1, 2}[g.R.Intn(6)], ids[g.R.Intn(len(ids))], m, gvNap(g), []int{0, 0, 0, 5, 1 << 31}[g.R.Intn(5)]})
		}
		c.writers = append(c.writers, ws)
	}
	for i := 1 + g.R.Intn(5); i > 0; i-- {
		s := gvSub{delay: gvNap(g), backpressure: g.R.Intn(2) == 0, updates: g.R.Intn(4) == 0, nap: gvNap(g)}
		if g.R.Intn(4) == 0 {
			s.mask = somePaths(g, 3)
		}
		if g.R.Intn(3) == 0 {
			s.one = ids[g.R.Intn(len(ids))]
		}
		if g.R.Intn(4) == 0 {
			s.quit = g.R.Intn(6) - 2
		}
		c.subs = append(c.subs, s)
	}
	return c
}

// nap is a short wait: nothing, yields, or some microseconds.
func gvNap(g *gv.Gen) int { return []int{0, 0, 1, 2, 5, 40, 200}[g.R.Intn(7)] }

func nap(n int) {
	if n >= 20 {
		time.Sleep(time.Duration(n) * time.Microsecond)
		return
	}
	for ; n > 0; n-- {
		gv.Yield()
	}
}

func gvg_ConcurrentCollection(g *gv.Gen) contest { return gvContest(g) }
func gvg_ConcurrentValue(g *gv.Gen) contest      { return gvContest(g) }

func (s gvSub) options() []ReadOption {
	ro := []ReadOption{WithBackpressure(s.backpressure), WithUpdatesOnly(s.updates)}
	if s.mask != nil {
		ro = append(ro, WithReadMask(maskOf(s.mask)))
	}
	return ro
}

// subView is what a subscriber has.
type subView struct {
	mu     sync.Mutex
	items  map[string]proto.Message
	seen   map[string]bool
	at     int64 // when it subscribed
	closed bool
	quit   int
	stop   func()
}

// took counts an event.
func (v *subView) took() {
	if v.quit > 0 {
		if v.quit--; v.quit == 0 {
			v.stop()
			v.quit = -1
		}
	}
}

type gvDone struct {
	began   int64
	id      string
	removed bool
}

// play runs the writers and subscribers, and waits for the writers.
func (k contest) play(ctx context.Context, write func(gvWrite) error, subscribe func(ctx context.Context, s gvSub, v *subView)) (views []*subView, done []gvDone) {
	var now atomic.Int64
	var mu sync.Mutex
	start := make(chan struct{})
	var ws, ss sync.WaitGroup
	for _, w := range k.writers {
		ws.Add(1)
		go func() {
			defer ws.Done()
			<-start
			for _, op := range w {
				nap(op.nap)
				at := now.Add(1)
				if write(op) == nil {
					mu.Lock()
					done = append(done, gvDone{at, op.id, op.kind == 1})
					mu.Unlock()
				}
			}
		}()
	}
	for _, s := range k.subs {
		v := &subView{items: map[string]proto.Message{}, seen: map[string]bool{}}
		views = append(views, v)
		ss.Add(1)
		go func() {
			<-start
			nap(s.delay)
			ctx, stop := context.WithCancel(ctx)
			v.stop, v.quit = stop, s.quit
			subscribe(ctx, s, v)
			if s.quit < 0 {
				nap(s.nap)
				stop()
			}
			v.mu.Lock()
			v.at = now.Add(1)
			v.mu.Unlock()
			ss.Done()
		}()
	}
	close(start)
	ended := make(chan struct{})
	go func() { ws.Wait(); ss.Wait(); close(ended) }()
	select {
	case <-ended:
	case <-time.After(10 * time.Second):
		gv.Ensures("writers whose subscribers keep receiving finish", false)
	}
	return views, done
}

// Whenever it subscribes, and however the writers interleave, a subscriber ends up with what the collection has.
//
//gv:property C03
//gv:for Collection.Pull covers Collection.PullID Collection.Update Collection.Add Collection.Delete minibus.Bus.Listen minibus.Bus.Prepare minibus.Delivery.Send mergeCollectionExcess
//gv:bounded up to 3 writers of up to 6 writes each over up to 3 ids, up to 5 subscribers with generated options and pace, some of which cancel; schedules perturbed at every statement of the package
//gv:sched
//gv:run 14
func gvc_ConcurrentCollection(k contest) {
	var opts []Option
	for id, m := range k.initial {
		opts = append(opts, WithInitialRecord(id, m))
	}
	if k.dedup {
		opts = append(opts, WithNoDuplicates())
	}
	c := NewCollection(opts...)
	ctx, stop := context.WithCancel(context.Background())
	defer stop()
	views, done := k.play(ctx, func(w gvWrite) (err error) {
		switch w.kind {
		case 1:
			_, err = c.Delete(w.id, w.options()...)
		case 2:
			_, err = c.Add(w.id, w.msg, w.options()...)
		default:
			_, err = c.Update(w.id, w.msg, w.options(WithCreateIfAbsent())...)
		}
		return err
	}, func(ctx context.Context, s gvSub, v *subView) {
		if s.one != "" {
			ch := c.PullID(ctx, s.one, s.options()...)
			go func() {
				for e := range ch {
					v.mu.Lock()
					v.items[s.one], v.seen[s.one] = e.Value, true
					v.took()
					v.mu.Unlock()
					nap(s.nap)
				}
				v.mu.Lock()
				v.closed = true
				v.mu.Unlock()
			}()
			return
		}
		ch := c.Pull(ctx, s.options()...)
		go func() {
			for e := range ch {
				v.mu.Lock()
				v.seen[e.Id] = true
				if e.NewValue == nil {
					delete(v.items, e.Id)
				} else {
					v.items[e.Id] = e.NewValue
				}
				v.took()
				v.mu.Unlock()
				nap(s.nap)
			}
		}()
	})
	for i, s := range k.subs {
		v := views[i]
		if s.quit != 0 {
			continue
		}
		ids := []string{"a", "b", "c"}
		if s.one != "" {
			ids = []string{s.one}
		}
		for _, id := range ids {
			final, _ := c.Get(id, WithReadMask(maskOf(s.mask)))
			written, removed := false, false
			v.mu.Lock()
			for _, d := range done {
				written = written || d.id == id && d.began > v.at
				removed = removed || d.id == id && d.removed
			}
			v.mu.Unlock()
			gv.Ensures("the view converges to what the collection has", gv.Eventually(func() bool {
				v.mu.Lock()
				defer v.mu.Unlock()
				if s.one != "" && v.closed {
					return removed // ended by the removal of the item
				}
				if s.updates && !v.seen[id] {
					// nothing to tell: an item that came and went, or whose value is what it was
					return !written || k.dedup || final == nil && !s.backpressure
				}
				return sameMsg(v.items[id], final)
			}))
		}
	}
}

// Whenever it subscribes, and however the writers interleave, the last value a subscriber receives is the final one.
//
//gv:property C03
//gv:for Value.Pull covers Value.Set minibus.Bus.Listen minibus.Bus.Prepare minibus.Delivery.Send minibus.DropExcess
//gv:bounded up to 3 writers of up to 6 writes each, up to 5 subscribers with generated options and pace, some of which cancel; schedules perturbed at every statement of the package
//gv:sched
//gv:run 10
func gvc_ConcurrentValue(k contest) {
	var opts []Option
	if m := k.initial["a"]; m != nil {
		opts = append(opts, WithInitialValue(m))
	} else {
		opts = append(opts, WithInitialValue(&testproto.TestAllTypes{}))
	}
	if k.dedup {
		opts = append(opts, WithNoDuplicates())
	}
	r := NewValue(opts...)
	ctx, stop := context.WithCancel(context.Background())
	defer stop()
	views, done := k.play(ctx, func(w gvWrite) error {
		_, err := r.Set(w.msg, w.options()...)
		return err
	}, func(ctx context.Context, s gvSub, v *subView) {
		ch := r.Pull(ctx, s.options()...)
		go func() {
			for e := range ch {
				v.mu.Lock()
				v.items[""], v.seen[""] = e.Value, true
				v.took()
				v.mu.Unlock()
				nap(s.nap)
			}
		}()
	})
	for i, s := range k.subs {
		v := views[i]
		if s.quit != 0 {
			continue
		}
		final := r.Get(WithReadMask(maskOf(s.mask)))
		written := false
		v.mu.Lock()
		for _, d := range done {
			written = written || d.began > v.at
		}
		v.mu.Unlock()
		gv.Ensures("the last value received is the final value", gv.Eventually(func() bool {
			v.mu.Lock()
			defer v.mu.Unlock()
			if s.updates && !v.seen[""] {
				return !written
			}
			return sameMsg(v.items[""], final)
		}))
	}
}
