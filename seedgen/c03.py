T='''package resource

import (
	"context"
	"testing"
	"time"

	"github.com/smart-core-os/sc-golang/internal/testproto"
	"google.golang.org/protobuf/proto"
)

func TestZZDemo(t *testing.T) {
	type M = testproto.TestAllTypes
	var _ proto.Message
	var _ = time.Second
%s}
'''
seed("C03-older-dropped","C03","pkg/resource",
 [("pkg/resource/value.go","			if r.equivalence != nil && r.equivalence.Compare(last, change.Value) {\n","			if change.ChangeTime.Before(changeTime) {\n				continue // the subscriber already has a later value\n			}\n			if r.equivalence != nil && r.equivalence.Compare(last, change.Value) {\n")],
 T%'''	ctx, stop := context.WithTimeout(context.Background(), time.Second)
	defer stop()
	v := NewValue(WithInitialValue(&M{}))
	ch := v.Pull(ctx)
	<-ch
	v.Set(&M{DefaultInt32: 1}, WithWriteTime(time.Now().Add(-time.Hour)))
	if e, ok := <-ch; !ok || !proto.Equal(e.Value, v.Get()) {
		t.Fatal("the subscriber doesn't get the final value")
	}
''',"a write with a write time before that of the value the subscriber started with","the write is not delivered and the view stays stale")
seed("C03-collect-race","C03","internal/minibus",
 [("internal/minibus/bus.go","	b.listenerM.Lock()\n	defer b.listenerM.Unlock()\n\n	var activeListeners []*listener\n	for _, l := range b.listeners {\n		if l.alive() {\n			activeListeners = append(activeListeners, l)\n		}\n	}\n\n	b.listeners = activeListeners\n","	b.listenerM.RLock()\n	var activeListeners []*listener\n	for _, l := range b.listeners {\n		if l.alive() {\n			activeListeners = append(activeListeners, l)\n		}\n	}\n	b.listenerM.RUnlock()\n\n	b.listenerM.Lock()\n	b.listeners = activeListeners\n	b.listenerM.Unlock()\n")],
 '''package minibus

import (
	"context"
	"sync"
	"testing"
	"time"
)

// zzCtx finishes its Err call late.
type zzCtx struct {
	context.Context
	mu    sync.Mutex
	onErr func()
}

func (c *zzCtx) Err() error {
	c.mu.Lock()
	f := c.onErr
	c.onErr = nil
	c.mu.Unlock()
	err := c.Context.Err()
	if f != nil {
		f()
	}
	return err
}

func TestZZDemo(t *testing.T) {
	var bus Bus
	// a listener that's gone
	gone, cancel := context.WithCancel(context.Background())
	bus.Listen(gone)
	cancel()
	time.Sleep(10 * time.Millisecond)
	// a listener whose liveness check lets another one subscribe in the meantime
	var late <-chan any
	subscribed := make(chan struct{})
	slow := &zzCtx{Context: context.Background()}
	slow.onErr = func() {
		go func() {
			late = bus.Listen(context.Background())
			close(subscribed)
		}()
		select {
		case <-subscribed:
		case <-time.After(100 * time.Millisecond): // can't, as the bus is locked
		}
	}
	ch := bus.Listen(slow)
	go func() {
		for range ch {
		}
	}()
	bus.Send(context.Background(), 1) // collects the listener that's gone
	<-subscribed
	ctx, stop := context.WithTimeout(context.Background(), time.Second)
	defer stop()
	go bus.Send(ctx, 2)
	select {
	case <-late:
	case <-time.After(time.Second):
		t.Fatal("a listener is lost")
	}
}
''',"a subscriber registering while the bus drops cancelled ones","the new subscriber is lost and never receives anything")
