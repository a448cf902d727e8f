package resource

import (
	"context"
	"sync"
	"time"

	"github.com/smart-core-os/sc-golang/internal/gv"
	"github.com/smart-core-os/sc-golang/internal/testproto"
)

type leaver struct {
	gvSub
	kind  int // 0 Value, 1 Collection, 2 single item
	reads int // events it receives before it stops receiving, negative: all of them
	stays int // waits before cancelling
	drain bool
	late  bool // subscribes with a context that is already done
}

type leaving struct {
	contest
	leavers []leaver
}

func gvg_Cancel(g *gv.Gen) leaving {
	l := leaving{contest: gvContest(g)}
	l.subs = nil
	for i := g.R.Intn(6); i > 0; i-- {
		s := leaver{gvSub: gvSub{delay: gvNap(g), backpressure: g.R.Intn(2) == 0, updates: g.R.Intn(3) == 0, nap: gvNap(g), one: []string{"a", "b", "c"}[g.R.Intn(3)]},
			kind: g.R.Intn(3), reads: g.R.Intn(6) - 1, stays: gvNap(g), drain: g.R.Intn(2) == 0, late: g.R.Intn(10) == 0}
		if g.R.Intn(4) == 0 {
			s.mask = somePaths(g, 3)
		}
		l.leavers = append(l.leavers, s)
	}
	return l
}

// Whenever a subscription is cancelled, received from or not, its channel closes, writers go on and no goroutine stays.
//
//gv:property C10
//gv:for Collection.Pull covers Collection.PullID Value.Pull Collection.Update Collection.Delete Value.Set mergeCollectionExcess minibus.Bus minibus.DropExcess
//gv:bounded up to 3 writers of up to 6 writes each to a value and a collection, up to 5 subscriptions with generated options that stop receiving and are cancelled at generated moments; schedules perturbed at every statement
//gv:sched
//gv:run 14
func gvc_Cancel(k leaving) {
	base := gv.Goroutines()
	var opts []Option
	for id, m := range k.initial {
		opts = append(opts, WithInitialRecord(id, m))
	}
	if k.dedup {
		opts = append(opts, WithNoDuplicates())
	}
	c := NewCollection(opts...)
	opts = []Option{WithInitialValue(&testproto.TestAllTypes{})}
	if k.dedup {
		opts = append(opts, WithNoDuplicates())
	}
	r := NewValue(opts...)
	start := make(chan struct{})
	var ws, ls sync.WaitGroup
	writersDone, leaversDone := make(chan struct{}), make(chan struct{})
	for i, w := range k.writers {
		ws.Add(1)
		go func() {
			defer ws.Done()
			<-start
			for j, op := range w {
				nap(op.nap)
				switch {
				case (i+j)%3 == 0:
					r.Set(op.msg)
				case op.kind == 1:
					c.Delete(op.id)
				default:
					c.Update(op.id, op.msg, WithCreateIfAbsent())
				}
			}
		}()
	}
	var mu sync.Mutex
	open := 0
	for _, s := range k.leavers {
		ls.Add(1)
		go func() {
			defer ls.Done()
			<-start
			nap(s.delay)
			ctx, stop := context.WithCancel(context.Background())
			defer stop()
			if s.late {
				stop()
			}
			closed := false
			switch s.kind {
			case 0:
				closed = s.leave(stop, receive(r.Pull(ctx, s.options()...)), writersDone)
			case 1:
				closed = s.leave(stop, receive(c.Pull(ctx, s.options()...)), writersDone)
			default:
				closed = s.leave(stop, receive(c.PullID(ctx, s.one, s.options()...)), writersDone)
			}
			if !closed {
				mu.Lock()
				open++
				mu.Unlock()
			}
		}()
	}
	began := time.Now()
	go func() { ws.Wait(); close(writersDone) }()
	go func() { ls.Wait(); close(leaversDone) }()
	close(start)
	select {
	case <-leaversDone:
	case <-time.After(12 * time.Second):
		gv.Ensures("cancelling doesn't block", false)
	}
	select {
	case <-writersDone:
	case <-time.After(3 * time.Second):
		gv.Ensures("writers go on once slow subscribers cancel", false)
	}
	gv.Ensures("writers aren't held up longer than the subscriptions are open", time.Since(began) < 4*time.Second)
	mu.Lock()
	gv.Ensures("a subscription's channel is closed once it is cancelled", open == 0)
	mu.Unlock()
	gv.Ensures("every goroutine ends", gv.Settles(base))
}

// receive is a way to receive from a channel of any type: ready reports a receive, and if the channel is open.
func receive[T any](ch <-chan T) func(stop <-chan struct{}, wait time.Duration) (got, open bool) {
	return func(stop <-chan struct{}, wait time.Duration) (got, open bool) {
		select {
		case _, ok := <-ch:
			return true, ok
		case <-stop:
		case <-time.After(wait):
		}
		return false, true
	}
}

func (s leaver) leave(stop func(), recv func(<-chan struct{}, time.Duration) (bool, bool), writersDone chan struct{}) (closed bool) {
	for n := s.reads; n != 0; n-- {
		got, open := recv(writersDone, 3*time.Second)
		if !open {
			return true
		}
		if !got {
			break
		}
		nap(s.nap)
	}
	nap(s.stays)
	stop()
	if !s.drain { // the channel has to close without anyone receiving: look at it later
		time.Sleep(time.Millisecond)
	}
	for end := time.Now().Add(3 * time.Second); time.Now().Before(end); {
		if _, open := recv(nil, time.Second); !open {
			return true
		}
	}
	return false
}

// A single item subscription ends when the item is removed.
//
//gv:property C10
//gv:for Collection.PullID covers Collection.Delete
//gv:bounded generated initial contents and options, one removal
//gv:sched
//gv:run 3
func gvc_RemovedItem(s leaver, id string, writes int) {
	gv.Requires(writes >= 0 && writes < 5 && id != "")
	base := gv.Goroutines()
	c := NewCollection(WithInitialRecord(id, &testproto.TestAllTypes{DefaultInt32: 100}), WithInitialRecord(id+"x", &testproto.TestAllTypes{}))
	ch := c.PullID(context.Background(), id, s.options()...)
	out := collect(ch, func(*ValueChange) bool { return false })
	for i := 0; i < writes; i++ {
		c.Update(id, &testproto.TestAllTypes{DefaultInt32: int32(i)})
	}
	c.Delete(id + "x")
	c.Delete(id)
	await("the subscription ends when the item is removed", out)
	gv.Ensures("every goroutine ends", gv.Settles(base))
}

func gvg_RemovedItem(g *gv.Gen) (leaver, string, int) {
	return leaver{gvSub: gvSub{backpressure: g.R.Intn(3) > 0, updates: g.R.Intn(2) == 0}}, []string{"a", "z"}[g.R.Intn(2)], g.R.Intn(5)
}
