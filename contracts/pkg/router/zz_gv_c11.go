package router

import (
	"errors"
	"fmt"
	"sync"
	"time"

	"github.com/smart-core-os/sc-golang/internal/gv"
)

func gvNap(g *gv.Gen) int { return []int{0, 0, 1, 2, 5, 40, 200}[g.R.Intn(7)] }

func nap(n int) {
	if n >= 20 {
		time.Sleep(time.Duration(n) * time.Microsecond)
		return
	}
	for ; n > 0; n-- {
		gv.Yield()
	}
}

// gvCall is a call of a router's.
type gvCall struct {
	kind int // Add, Remove, Has, Get
	name string
	nap  int
}

type routing struct {
	factory, fallback, onChange bool
	makes, helps                int // bit i: the factory, or fallback, knows name i
	naps                        []int
	tracks                      [][]gvCall
}

var gvNames = []string{"", "a", "b"}

func gvRouting(g *gv.Gen) routing {
	r := routing{factory: g.R.Intn(4) > 0, fallback: g.R.Intn(3) == 0, onChange: g.R.Intn(4) > 0, makes: g.R.Intn(8), helps: g.R.Intn(8)}
	for i := 0; i < 4; i++ {
		r.naps = append(r.naps, gvNap(g))
	}
	for i := 2 + g.R.Intn(4); i > 0; i-- {
		var t []gvCall
		for n := 1 + g.R.Intn(5); n > 0; n-- {
			t = append(t, gvCall{[]int{0, 1, 2, 3, 3}[g.R.Intn(5)], gvNames[g.R.Intn(len(gvNames))], gvNap(g)})
		}
		r.tracks = append(r.tracks, t)
	}
	return r
}

func gvg_RouterRaces(g *gv.Gen) routing { return gvRouting(g) }

var errUnknown = errors.New("unknown")

func knows(names int, name string) bool {
	for i, n := range gvNames {
		if n == name {
			return names>>i&1 == 1
		}
	}
	return false
}

// Concurrent calls, with callbacks, don't race.
//
//gv:property C11
//gv:for NewRouter covers router.Add router.Remove router.Has router.Get invoke
//gv:bounded up to 5 callers of up to 5 calls each over 3 names, with factory, fallback and change callback; under the race detector
//gv:race
//gv:run 3
func gvc_RouterRaces(w routing) {
	var opts []Option
	if w.factory {
		opts = append(opts, WithFactory(func(s string) (any, error) {
			nap(w.naps[0])
			if !knows(w.makes, s) {
				return nil, errUnknown
			}
			return fmt.Sprint("made ", s), nil
		}))
	}
	if w.fallback {
		opts = append(opts, WithFallback(func(s string) (any, error) {
			nap(w.naps[1])
			if !knows(w.helps, s) {
				return nil, errUnknown
			}
			return fmt.Sprint("other ", s), nil
		}))
	}
	if w.onChange {
		opts = append(opts, WithOnChange(func(c Change) { _ = fmt.Sprint(c) }))
	}
	r := NewRouter(opts...)
	var wg sync.WaitGroup
	for _, t := range w.tracks {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, c := range t {
				nap(c.nap)
				switch c.kind {
				case 0:
					_ = fmt.Sprint(r.Add(c.name, "client"))
				case 1:
					_ = fmt.Sprint(r.Remove(c.name))
				case 2:
					_ = r.Has(c.name)
				case 3:
					m, _ := r.Get(c.name)
					_ = fmt.Sprint(m)
				}
			}
		}()
	}
	wg.Wait()
}
