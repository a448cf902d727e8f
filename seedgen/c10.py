T='''package resource

import (
	"context"
	"runtime"
	"testing"
	"time"

	"github.com/smart-core-os/sc-golang/internal/testproto"
)

func zzSettle(base int) bool {
	for i := 0; i < 300; i++ {
		if runtime.NumGoroutine() <= base {
			return true
		}
		time.Sleep(10 * time.Millisecond)
	}
	return false
}

func TestZZDemo(t *testing.T) {
	type M = testproto.TestAllTypes
	base := runtime.NumGoroutine()
	ctx, stop := context.WithCancel(context.Background())
	defer stop()
%s}
'''
seed("C10-flush-on-close","C10","pkg/resource",
 [("pkg/resource/backpressure.go","				case newAny, ok := <-in:\n					if !ok {\n						return\n					}\n","				case newAny, ok := <-in:\n					if !ok {\n						// send what's left before closing\n						for queue.Len() > 0 {\n							out <- event()\n							queue.Remove(queue.Front())\n						}\n						return\n					}\n")],
 T%'''	c := NewCollection(WithInitialRecord("a", &M{}))
	ch := c.Pull(ctx, WithUpdatesOnly(true))
	_ = ch
	for i := 1; i < 4; i++ {
		c.Update("a", &M{DefaultInt32: int32(i)})
		time.Sleep(20 * time.Millisecond)
	}
	stop()
	if !zzSettle(base) {
		t.Fatal("goroutines stay after cancelling")
	}
''',"a lossy subscription cancelled while changes wait to be received","the goroutine that merges changes never ends")
seed("C10-seed-send","C10","pkg/resource",
 [("pkg/resource/collection.go","				select {\n				case <-ctx.Done():\n					return\n				case send <- change:\n				}\n","				if !change.LastSeedValue {\n					select {\n					case <-ctx.Done():\n						return\n					case send <- change:\n					}\n					continue\n				}\n				send <- change\n")],
 T%'''	c := NewCollection(WithInitialRecord("a", &M{}))
	c.Pull(ctx)
	stop()
	if !zzSettle(base) {
		t.Fatal("goroutines stay after cancelling")
	}
''',"a subscription cancelled before its last seed value is received","the subscription's goroutine never ends and its channel isn't closed")
seed("C10-send-unlocked","C10","internal/minibus",
 [("internal/minibus/bus.go","	l.m.RLock()\n	defer l.m.RUnlock()\n\n	select {","	l.m.RLock()\n	ch := l.ch\n	l.m.RUnlock() // don't keep stop waiting\n\n	select {"),
  ("internal/minibus/bus.go","	case l.ch <- event:","	case ch <- event:")],
 '''package minibus

import (
	"context"
	"testing"
	"time"
)

// zzCtx is done a moment before its listener's goroutine and senders learn of it, which is up to us.
type zzCtx struct {
	context.Context
	n     int
	first chan struct{}
	never chan struct{}
}

func (c *zzCtx) Done() <-chan struct{} {
	c.n++
	if c.n == 1 {
		return c.first // the listener's own
	}
	return c.never // senders are slower to learn
}

func TestZZDemo(t *testing.T) {
	var bus Bus
	ctx := &zzCtx{Context: context.Background(), first: make(chan struct{}), never: make(chan struct{})}
	ch := bus.Listen(ctx)
	time.Sleep(20 * time.Millisecond)
	panicked := make(chan any, 1)
	go func() {
		defer func() { panicked <- recover() }()
		bus.Send(context.Background(), 1)
	}()
	time.Sleep(50 * time.Millisecond)
	close(ctx.first)
	time.Sleep(50 * time.Millisecond)
	go func() {
		time.Sleep(50 * time.Millisecond)
		close(ctx.never)
	}()
	for range ch {
	}
	select {
	case p := <-panicked:
		if p != nil {
			t.Fatal(p)
		}
	case <-time.After(2 * time.Second):
		t.Fatal("sender is stuck")
	}
}
''',"a listener cancelled while a send to it is blocked, the listener's goroutine being faster than the sender","send on closed channel")
