package minibus

import (
	"context"
	"sync"
	"sync/atomic"
	"time"

	"github.com/smart-core-os/sc-golang/internal/gv"
)

type gvListener struct {
	delay   int // before it listens
	reads   int // events it receives before it stops receiving, negative: all of them
	stays   int // waits before cancelling, once it stops receiving
	lossy   bool
	nap     int
	forever bool // cancelled only once the senders are done
}

type gvSender struct {
	n       int
	nap     int
	timeout int // microseconds, 0: none
}

type busRun struct {
	senders   []gvSender
	listeners []gvListener
}

func gvNap(g *gv.Gen) int { return []int{0, 0, 1, 2, 5, 40, 200}[g.R.Intn(7)] }

func nap(n int) {
	if n >= 20 {
		time.Sleep(time.Duration(n) * time.Microsecond)
		return
	}
	for ; n > 0; n-- {
		gv.Yield()
	}
}

func gvg_Bus(g *gv.Gen) busRun {
	var r busRun
	for i := 1 + g.R.Intn(3); i > 0; i-- {
		s := gvSender{n: 1 + g.R.Intn(8), nap: gvNap(g)}
		if g.R.Intn(4) == 0 {
			s.timeout = 50 + g.R.Intn(500)
		}
		r.senders = append(r.senders, s)
	}
	for i := g.R.Intn(6); i > 0; i-- {
		l := gvListener{delay: gvNap(g), reads: -1, stays: gvNap(g), nap: gvNap(g), lossy: g.R.Intn(5) == 0, forever: g.R.Intn(2) == 0}
		if g.R.Intn(2) == 0 {
			l.reads = g.R.Intn(5)
		}
		r.listeners = append(r.listeners, l)
	}
	return r
}

type gvEvent struct{ sender, n int }

type gvSent struct {
	ev         gvEvent
	begin, end int64
	ok         bool
}

type gvHeard struct {
	mu       sync.Mutex
	got      []gvEvent
	from, to int64 // live between
	closed   chan struct{}
}

// Every listener that is live for a whole send receives the event exactly once, in the order of its sender, whatever
// the others do, and all that is started ends.
//
//gv:property C10
//gv:for (*Bus).Send covers (*Bus).Listen DropExcess
//gv:bounded up to 3 senders of up to 8 events each, with and without time limits, up to 5 listeners that come, stop receiving and go at generated moments; schedules perturbed at every statement
//gv:sched
//gv:run 12
func gvc_Bus(r busRun) {
	base := gv.Goroutines()
	bus := new(Bus)
	var now atomic.Int64
	var ws, ls sync.WaitGroup
	sent := make([][]gvSent, len(r.senders))
	heard := make([]*gvHeard, len(r.listeners))
	sendersDone := make(chan struct{})
	listenersDone := make(chan struct{})
	start := make(chan struct{})
	var panicked atomic.Value
	guard := func() {
		if p := recover(); p != nil {
			panicked.Store(p)
		}
	}
	for i, s := range r.senders {
		ws.Add(1)
		go func() {
			defer ws.Done()
			defer guard()
			<-start
			for n := 0; n < s.n; n++ {
				ctx, stop := context.Background(), func() {}
				if s.timeout > 0 {
					ctx, stop = context.WithTimeout(ctx, time.Duration(s.timeout)*time.Microsecond)
				}
				e := gvSent{ev: gvEvent{i, n}, begin: now.Add(1)}
				e.ok = bus.Send(ctx, e.ev)
				e.end = now.Add(1)
				stop()
				sent[i] = append(sent[i], e)
				nap(s.nap)
			}
		}()
	}
	for i, l := range r.listeners {
		h := &gvHeard{closed: make(chan struct{})}
		heard[i] = h
		ls.Add(1)
		go func() {
			defer ls.Done()
			defer guard()
			<-start
			nap(l.delay)
			ctx, stop := context.WithCancel(context.Background())
			defer stop()
			ch := bus.Listen(ctx)
			if l.lossy {
				ch = DropExcess(ch)
			}
			h.from = now.Add(1)
			cancel := func() {
				h.mu.Lock()
				h.to = now.Add(1)
				h.mu.Unlock()
				stop()
			}
			finish := sendersDone
			if !l.forever || l.reads >= 0 {
				finish = nil
				if l.reads < 0 {
					time.AfterFunc(time.Duration(l.stays)*20*time.Microsecond, cancel)
				}
			}
			reads := l.reads
			for reads != 0 {
				select {
				case e, ok := <-ch:
					if !ok {
						close(h.closed)
						return
					}
					h.got = append(h.got, e.(gvEvent))
					reads--
					nap(l.nap)
				case <-finish:
					finish = nil
					cancel()
				case <-sendersDone: // there may never be enough events
					if l.reads >= 0 {
						reads = 0
					}
				}
			}
			nap(l.stays) // not receiving, the senders wait
			cancel()
			within := time.After(5 * time.Second)
			for {
				select {
				case e, ok := <-ch:
					if !ok {
						close(h.closed)
						return
					}
					h.got = append(h.got, e.(gvEvent))
					continue
				case <-within:
				}
				return
			}
		}()
	}
	go func() { ws.Wait(); close(sendersDone) }()
	go func() { ls.Wait(); close(listenersDone) }()
	close(start)
	select {
	case <-sendersDone:
	case <-time.After(8 * time.Second):
		gv.Ensures("senders go on once listeners receive or cancel", false)
	}
	select {
	case <-listenersDone:
	case <-time.After(8 * time.Second):
	}
	gv.Ensures("nothing panics", panicked.Load() == nil)
	for i, h := range heard {
		select {
		case <-h.closed:
		default:
			gv.Ensures("a listener's channel is closed once it is cancelled", false)
		}
		next := make([]int, len(r.senders))
		count := map[gvEvent]int{}
		for _, e := range h.got {
			gv.Ensures("events arrive in the order their sender sent them, at most once", e.n >= next[e.sender])
			next[e.sender] = e.n + 1
			count[e]++
		}
		if r.listeners[i].lossy {
			continue
		}
		h.mu.Lock()
		for _, es := range sent {
			for _, e := range es {
				if e.ok && e.begin > h.from && (h.to == 0 || e.end < h.to) {
					gv.Ensures("a listener that is live for a whole send receives the event", count[e.ev] == 1)
				}
			}
		}
		h.mu.Unlock()
	}
	for i, es := range sent {
		for _, e := range es {
			gv.Ensures("a send without a time limit succeeds", e.ok || r.senders[i].timeout > 0)
		}
	}
	gv.Ensures("every goroutine ends", gv.Settles(base))
}
