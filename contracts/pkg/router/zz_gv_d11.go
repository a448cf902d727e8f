package router

import (
	"errors"
	"sync"

	"github.com/smart-core-os/sc-golang/internal/gv"
)

// Two goroutines use one router: what memory both use is used in order.
//
//gv:property C11
//gv:for Router.Add covers (*router).Remove (*router).Has (*router).Get
//gv:delays 2
//gv:hb
//gv:norun
func gvc_RouterCallsOrdered(kx, ky uint8, other, has, factory, fallback, callback bool) {
	gv.Requires(kx <= ky && ky < 4)
	var opts []Option
	var mu sync.Mutex
	changes := 0
	if factory {
		opts = append(opts, WithFactory(func(name string) (any, error) { return &name, nil }))
	}
	if fallback {
		opts = append(opts, WithFallback(func(name string) (any, error) { return nil, errors.New("none") }))
	}
	if callback {
		opts = append(opts, WithOnChange(func(c Change) {
			mu.Lock()
			defer mu.Unlock()
			changes++
		}))
	}
	r := NewRouter(opts...)
	if has {
		r.Add("a", 1)
	}
	call := func(kind uint8, name string) {
		switch kind {
		case 0:
			r.Add(name, 2)
		case 1:
			r.Remove(name)
		case 2:
			r.Has(name)
		case 3:
			_, _ = r.Get(name)
		}
	}
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		call(kx, "a")
	}()
	if other {
		call(ky, "b")
	} else {
		call(ky, "a")
	}
	wg.Wait()
	r.Has("a")
}
