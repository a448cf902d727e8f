package minibus

import (
	"context"

	"github.com/smart-core-os/sc-golang/internal/gv"
)

// drain collects what a channel delivers until it is closed.
type drain struct {
	got    []int
	closed bool
}

func (d *drain) from(ch <-chan any) {
	for e := range ch {
		d.got = append(d.got, e.(int))
	}
	d.closed = true
}

// Two events reach two listeners, one of which leaves at any moment: the one that stays gets both in order, the one
// that leaves gets none after one it missed and has its channel closed, senders don't wait for it, and no goroutine remains.
// For every schedule that departs at most twice from running each goroutine until it has to wait.
//
//gv:property C10
//gv:for Bus.Listen, Bus.Send, Bus.Prepare, Delivery.Send
//gv:delays 1
//gv:norun
func gvc_BusLeave(a, b int, first, prepared bool) {
	gv.Requires(a != b)
	base := gv.Goroutines()
	var bus Bus
	ctx1, leave := context.WithCancel(context.Background())
	ctx2, stop := context.WithCancel(context.Background())
	var d1, d2 drain
	if first {
		go d1.from(bus.Listen(ctx1))
		go d2.from(bus.Listen(ctx2))
	} else {
		go d2.from(bus.Listen(ctx2))
		go d1.from(bus.Listen(ctx1))
	}
	go leave()
	send := func(v int) bool {
		if prepared {
			return bus.Prepare().Send(context.Background(), v)
		}
		return bus.Send(context.Background(), v)
	}
	ok1 := send(a)
	ok2 := send(b)
	gv.Ensures("sent", ok1 && ok2)
	gv.Still()
	gv.Ensures("the one that stays gets each event once, in order", len(d2.got) == 2 && d2.got[0] == a && d2.got[1] == b && !d2.closed)
	gv.Ensures("the one that leaves gets those up to some moment", len(d1.got) == 0 || d1.got[0] == a && (len(d1.got) == 1 || len(d1.got) == 2 && d1.got[1] == b))
	gv.Ensures("and is closed", d1.closed)
	stop()
	gv.Still()
	gv.Ensures("all closed", d2.closed)
	gv.Ensures("no goroutine remains", gv.Goroutines() == base)
}

// A listener that doesn't receive: a sender waits for it until one of them gives up, and others aren't disturbed after.
//
//gv:property C10
//gv:property C09
//gv:for Bus.Send, Delivery.Send
//gv:delays 1
//gv:norun
func gvc_BusGiveUp(a, b int, senderGivesUp, prepared bool) {
	base := gv.Goroutines()
	var bus Bus
	ctx1, leave := context.WithCancel(context.Background())
	stuck := bus.Listen(ctx1)
	sctx, give := context.WithCancel(context.Background())
	res := make(chan bool, 1)
	var delivery *Delivery
	if prepared {
		delivery = bus.Prepare()
	}
	go func() {
		if prepared {
			res <- delivery.Send(sctx, a)
		} else {
			res <- bus.Send(sctx, a)
		}
	}()
	gv.Still()
	select {
	case <-res:
		gv.Ensures("the sender waits", false)
	default:
	}
	if senderGivesUp {
		give()
		gv.Ensures("not sent", !<-res)
	} else {
		leave()
		gv.Ensures("nothing to send to is sent", <-res)
	}
	// others aren't disturbed
	ctx2, stop := context.WithCancel(context.Background())
	var d2 drain
	leave()
	gv.Still()
	go d2.from(bus.Listen(ctx2))
	ok := bus.Prepare().Send(context.Background(), b)
	gv.Ensures("the next is sent", ok)
	gv.Still()
	gv.Ensures("and received", len(d2.got) == 1 && d2.got[0] == b)
	_, more := <-stuck
	gv.Ensures("closed", !more)
	stop()
	give()
	gv.Still()
	gv.Ensures("no goroutine remains", gv.Goroutines() == base)
}

// Deliveries are sent in the order they were prepared in, whatever the order their senders come in, and whether or not
// one before them is given up.
//
//gv:property C10
//gv:property C03
//gv:for Delivery.Send
//gv:delays 2
//gv:norun
func gvc_DeliveryOrder(a, b, c int, cancelled bool) {
	base := gv.Goroutines()
	var bus Bus
	ctx, stop := context.WithCancel(context.Background())
	var d drain
	go d.from(bus.Listen(ctx))
	d1, d2, d3 := bus.Prepare(), bus.Prepare(), bus.Prepare()
	mid, give := context.WithCancel(context.Background())
	go d3.Send(context.Background(), c)
	second := make(chan bool, 1)
	go func() { second <- d2.Send(mid, b) }()
	if cancelled {
		go give()
	}
	ok := d1.Send(context.Background(), a)
	gv.Ensures("the first is sent", ok)
	sent := <-second
	gv.Still()
	gv.Ensures("only a sender that gave up fails", sent || cancelled)
	if sent {
		gv.Ensures("in order", len(d.got) == 3 && d.got[0] == a && d.got[1] == b && d.got[2] == c)
	} else {
		gv.Ensures("in order, except for the one given up", len(d.got) == 2 && d.got[0] == a && d.got[1] == c)
	}
	give()
	stop()
	gv.Still()
	gv.Ensures("closed", d.closed)
	gv.Ensures("no goroutine remains", gv.Goroutines() == base)
}

// DropExcess never makes senders wait, and delivers the newest value that wasn't delivered.
//
//gv:property C09
//gv:property C10
//gv:for DropExcess
//gv:delays 2
//gv:norun
func gvc_DropExcess(a, b, c int, gap1, gap2 bool) {
	base := gv.Goroutines()
	in := make(chan any)
	out := DropExcess(in)
	var got []int
	take := func() {
		select {
		case v := <-out:
			got = append(got, v.(int))
		default:
		}
	}
	in <- a
	if gap1 {
		gv.Still()
		take()
		gv.Ensures("a value is there once it was sent", len(got) == 1 && got[0] == a)
	}
	in <- b
	if gap2 {
		gv.Still()
		take()
		gv.Ensures("the newest value is", len(got) > 0 && got[len(got)-1] == b)
	}
	in <- c
	gv.Still()
	take()
	gv.Ensures("the last value is received", len(got) > 0 && got[len(got)-1] == c)
	n := 1
	if gap1 {
		n++
	}
	if gap2 {
		n++
	}
	gv.Ensures("older ones are dropped", len(got) == n)
	gv.Still()
	take()
	gv.Ensures("no value is received twice", len(got) == n)
	close(in)
	_, ok := <-out
	gv.Ensures("closed", !ok)
	gv.Still()
	gv.Ensures("no goroutine remains", gv.Goroutines() == base)
}

// DropExcess ends when its source does, whether or not a value waits to be received.
//
//gv:property C10
//gv:for DropExcess
//gv:delays 2
//gv:norun
func gvc_DropExcessClose(a int, pending bool) {
	base := gv.Goroutines()
	in := make(chan any)
	out := DropExcess(in)
	if pending {
		in <- a
	}
	close(in)
	gv.Still()
	gv.Ensures("no goroutine remains", gv.Goroutines() == base)
	_, ok := <-out
	gv.Ensures("closed", !ok)
}
