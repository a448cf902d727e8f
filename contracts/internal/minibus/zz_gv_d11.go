package minibus

import (
	"context"
	"sync"

	"github.com/smart-core-os/sc-golang/internal/gv"
)

// Senders, listeners that read what they get, and leaving ones use what memory they share in order.
//
//gv:property C11
//gv:for Bus.Listen, Bus.Send, Bus.Prepare, Delivery.Send, DropExcess
//gv:delays 1
//gv:hb
//gv:norun
func gvc_BusOrdered(kx, ky, kz uint8) {
	gv.Requires(kx <= ky && ky <= kz && kz < 5)
	var bus Bus
	ctx, stop := context.WithCancel(context.Background())
	var all, calls sync.WaitGroup
	listen := func(drop bool, n int) {
		ctx, leave := context.WithCancel(ctx)
		ch := bus.Listen(ctx)
		if drop {
			ch = DropExcess(ch)
		}
		all.Add(1)
		go func() {
			defer all.Done()
			sum := 0
			for e := range ch {
				sum += *e.(*int)
				if n--; n == 0 {
					leave()
				}
			}
			leave()
		}()
	}
	listen(false, 0)
	call := func(kind uint8) {
		e := 1
		switch kind {
		case 0:
			bus.Send(context.Background(), &e)
		case 1:
			bus.Prepare().Send(context.Background(), &e)
		case 2:
			c, give := context.WithCancel(ctx)
			d := bus.Prepare()
			give()
			d.Send(c, &e)
		case 3:
			listen(true, 1)
		case 4:
			listen(false, 1)
		}
	}
	for _, k := range []uint8{kx, ky} {
		calls.Add(1)
		go func() {
			defer calls.Done()
			call(k)
		}()
	}
	call(kz)
	calls.Wait()
	stop()
	all.Wait()
}
