package minibus

import (
	"context"
	"sync"
	"time"

	"github.com/smart-core-os/sc-golang/internal/gv"
)

func gvg_BusRaces(g *gv.Gen) busRun { return gvg_Bus(g) }

// Concurrent sends, listens and cancels don't race, and neither do the listeners that read what they receive.
//
//gv:property C11
//gv:for (*Bus).Send covers (*Bus).Listen DropExcess
//gv:bounded up to 3 senders of up to 8 events each, up to 5 listeners that come, stop receiving and go at generated moments; under the race detector
//gv:race
//gv:run 3
func gvc_BusRaces(r busRun) {
	bus := new(Bus)
	ctx, cancel := context.WithCancel(context.Background())
	var ws, ls sync.WaitGroup
	for i, s := range r.senders {
		ws.Add(1)
		go func() {
			defer ws.Done()
			for n := 0; n < s.n; n++ {
				ctx, stop := ctx, func() {}
				if s.timeout > 0 {
					ctx, stop = context.WithTimeout(ctx, time.Duration(s.timeout)*time.Microsecond)
				}
				e := []int{i, n}
				bus.Send(ctx, e)
				stop()
				_ = e[0]
				nap(s.nap)
			}
		}()
	}
	for _, l := range r.listeners {
		ls.Add(1)
		go func() {
			defer ls.Done()
			nap(l.delay)
			ctx, stop := context.WithCancel(ctx)
			defer stop()
			ch := bus.Listen(ctx)
			if l.lossy {
				ch = DropExcess(ch)
			}
			sum := 0
			for n := 0; n != l.reads; n++ {
				e, ok := <-ch
				if !ok {
					return
				}
				sum += e.([]int)[1]
				nap(l.nap)
			}
			nap(l.stays)
			stop()
			if !l.forever {
				for range ch {
				}
			}
		}()
	}
	ended := make(chan struct{})
	go func() {
		done := make(chan struct{})
		go func() { ws.Wait(); close(done) }()
		select {
		case <-done:
		case <-time.After(50 * time.Millisecond): // a listener may have stopped receiving
		}
		cancel()
		ws.Wait()
		ls.Wait()
		close(ended)
	}()
	select {
	case <-ended:
	case <-time.After(10 * time.Second):
		gv.Ensures("senders and listeners end", false)
	}
}
