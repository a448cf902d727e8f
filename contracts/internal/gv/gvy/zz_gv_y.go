// Package gvy perturbs the schedule of instrumented code: gvy.Y is called before each statement of it.
package gvy

import (
	"math/rand/v2"
	"runtime"
	"sync"
	"sync/atomic"
	"time"
)

var (
	on   atomic.Uint32
	hot  [2]atomic.Uint32
	seen [1 << 14]atomic.Bool
	mu   sync.Mutex
	all  []uint32
)

// Y is a point at which other goroutines may run.
func Y(site uint32) {
	mode := on.Load()
	if mode == 0 {
		return
	}
	if site < uint32(len(seen)) && !seen[site].Load() && seen[site].CompareAndSwap(false, true) {
		mu.Lock()
		all = append(all, site)
		mu.Unlock()
	}
	r := rand.Uint32()
	if site == hot[0].Load() || site == hot[1].Load() {
		switch r % 8 {
		case 0, 1, 2:
			time.Sleep(50 * time.Microsecond)
		case 3, 4:
			time.Sleep(300 * time.Microsecond)
		case 5:
			time.Sleep(1500 * time.Microsecond)
		case 6:
			runtime.Gosched()
		}
		return
	}
	if mode == 2 {
		return
	}
	switch {
	case r%16 == 0:
		runtime.Gosched()
	case r%512 == 1:
		time.Sleep(20 * time.Microsecond)
	}
}

// Start chooses the perturbation of a run: none, everywhere, or around one or two of the points met before.
func Start(seed int64) {
	mu.Lock()
	defer mu.Unlock()
	r := rand.New(rand.NewPCG(uint64(seed), 7))
	hot[0].Store(1 << 31)
	hot[1].Store(1 << 31)
	if n := len(all); n > 0 && r.IntN(5) > 0 {
		hot[0].Store(all[r.IntN(n)])
		if r.IntN(3) == 0 {
			hot[1].Store(all[r.IntN(n)])
		}
	}
	on.Store([]uint32{1, 1, 2, 0}[r.IntN(4)])
	if len(all) == 0 {
		on.Store(1)
	}
}
