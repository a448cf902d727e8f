R='cd "$(dirname "$0")"'
H='''package %s

import (
	"context"
	"sync"
	"testing"
%s)

var _ = context.Background
var _ sync.Mutex

'''
seed("C11-seed-unlocked","C11","pkg/resource",
 [("pkg/resource/value.go","	r.mu.RLock()\n	defer r.mu.RUnlock()\n	if !config.UpdatesOnly {\n		value = r.value\n		changeTime = r.changeTime\n	}\n\n	ch := r.bus.Listen(ctx)\n","	r.mu.RLock()\n	ch := r.bus.Listen(ctx)\n	if !config.UpdatesOnly {\n		value = r.value\n	}\n	r.mu.RUnlock()\n	if value != nil {\n		changeTime = r.changeTime\n	}\n")],
 H%("resource",'''	"time"

	"github.com/smart-core-os/sc-golang/internal/testproto"
''')+'''func TestZZDemo(t *testing.T) {
	// a write that completes between the two reads of Pull gives the seed the write's time, and the older value
	v := NewValue(WithInitialValue(&testproto.TestAllTypes{}))
	stop := make(chan struct{})
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		for i := int32(1); ; i++ {
			select {
			case <-stop:
				return
			default:
				_, _ = v.Set(&testproto.TestAllTypes{DefaultInt32: i}, WithWriteTime(time.Unix(int64(i), 0)))
			}
		}
	}()
	defer wg.Wait()
	defer close(stop)
	for end := time.Now().Add(20 * time.Second); time.Now().Before(end); {
		ctx, cancel := context.WithCancel(context.Background())
		e := <-v.Pull(ctx, WithBackpressure(false))
		cancel()
		i := e.Value.(*testproto.TestAllTypes).DefaultInt32
		if i > 0 && e.ChangeTime.Unix() != int64(i) {
			t.Fatalf("value %d has time %d", i, e.ChangeTime.Unix())
		}
		if raceZZ {
			return
		}
	}
}

const raceZZ = false
''',"a write between the two reads of a subscription being made","the change time of the seed value is read without the lock")
seed("C11-has-unlocked","C11","pkg/router",
 [("pkg/router/router.go","	r.mu.RLock()\n	child, exists := r.registry[name]\n	r.mu.RUnlock()\n","	child, exists := r.registry[name]\n")],
 H%("router",'')+'''func TestZZDemo(t *testing.T) {
	r := NewRouter()
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 300000; j++ {
				if i%2 == 0 {
					r.Add("a", i)
					r.Remove("a")
				} else {
					_, _ = r.Get("a")
				}
			}
		}()
	}
	wg.Wait() // the runtime ends the process when it finds concurrent uses of a map
}
''',"Get of a router concurrent with an Add or Remove","Get reads the registry without the lock")
