package router

import (
	"fmt"
	"sync"

	"github.com/smart-core-os/sc-golang/internal/gv"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

// gvDone is a call of a router's that returned.
type gvDone struct {
	gvCall
	from, to int // when it started and ended
	client   any // added
	got      any
	ok       bool
	err      error
}

func gvg_RouterLinearizes(g *gv.Gen) routing {
	r := gvRouting(g)
	for len(r.tracks) > 3 {
		r.tracks = r.tracks[1:]
	}
	for i, t := range r.tracks {
		if len(t) > 3 {
			r.tracks[i] = t[:3]
		}
		if g.R.Intn(2) == 0 { // first Gets of one name
			r.tracks[i][0].kind, r.tracks[i][0].name = 3, "a"
		}
	}
	if g.R.Intn(2) == 0 {
		r.helps &^= 2
		r.makes |= 2
	}
	return r
}

// Concurrent calls are as if made one after the other, each at a time between its start and its end: the registry is a
// map, a client the factory makes is remembered unless there is one already, and the change callback is told exactly
// the transitions.
//
//gv:property C12
//gv:for NewRouter covers router.Add router.Remove router.Has router.Get invoke
//gv:bounded up to 3 concurrent callers of up to 3 calls each over 3 names, with factory, fallback and change callback; the schedule is perturbed before every statement
//gv:sched
//gv:run 8
func gvc_RouterLinearizes(w routing) {
	var mu sync.Mutex
	clock, made := 0, 0
	tick := func() int {
		mu.Lock()
		defer mu.Unlock()
		clock++
		return clock
	}
	var log []Change
	var all []gvDone
	opts := []Option{}
	born := map[any]string{} // the clients the factory made, all distinct
	if w.factory {
		opts = append(opts, WithFactory(func(s string) (any, error) {
			nap(w.naps[0])
			if !knows(w.makes, s) {
				return nil, errUnknown
			}
			mu.Lock()
			defer mu.Unlock()
			made++
			c := any(fmt.Sprint("made ", made))
			born[c] = s
			return c, nil
		}))
	}
	if w.fallback {
		opts = append(opts, WithFallback(func(s string) (any, error) {
			nap(w.naps[1])
			if !knows(w.helps, s) {
				return nil, errUnknown
			}
			return "other " + s, nil
		}))
	}
	if w.onChange {
		opts = append(opts, WithOnChange(func(c Change) {
			nap(w.naps[2])
			mu.Lock()
			defer mu.Unlock()
			log = append(log, c)
		}))
	}
	r := NewRouter(opts...)
	var wg sync.WaitGroup
	for i, t := range w.tracks {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j, c := range t {
				nap(c.nap)
				d := gvDone{gvCall: c, from: tick()}
				switch c.kind {
				case 0:
					d.client = fmt.Sprint("client ", i, " ", j)
					d.got = r.Add(c.name, d.client)
				case 1:
					d.got = r.Remove(c.name)
				case 2:
					d.ok = r.Has(c.name)
				case 3:
					d.got, d.err = r.Get(c.name)
				}
				d.to = tick()
				mu.Lock()
				all = append(all, d)
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	mu.Lock()
	defer mu.Unlock()
	told := map[Change]int{}
	for _, c := range log {
		told[c]++
	}
	state := map[string]any{}
	used := make([]bool, len(all))
	var try func(left int) bool
	try = func(left int) bool {
		if left == 0 {
			for _, n := range told {
				if n != 0 && w.onChange {
					return false
				}
			}
			for _, n := range gvNames {
				if _, ok := state[n]; ok != r.Has(n) {
					return false
				}
			}
			return true
		}
		for i, d := range all {
			if used[i] {
				continue
			}
			first := true
			for j, e := range all {
				if !used[j] && e.to < d.from {
					first = false
				}
			}
			if !first {
				continue
			}
			old, has := state[d.name]
			change := Change{Name: d.name}
			changed, ok := false, false
			switch d.kind {
			case 0:
				ok, changed = d.got == old, true
				change.Old, change.New = old, d.client
			case 1:
				ok, changed = d.got == old, has
				change.Old = old
			case 2:
				ok = d.ok == has
			case 3:
				switch {
				case has:
					ok = d.err == nil && d.got == old
				case w.fallback && knows(w.helps, d.name):
					ok = d.err == nil && d.got == "other "+d.name
				case w.factory && knows(w.makes, d.name):
					s, mine := born[d.got]
					ok = d.err == nil && mine && s == d.name
					changed = true
					change.New, change.Auto = d.got, true
				default:
					ok = d.got == nil && status.Code(d.err) == codes.NotFound
				}
			}
			if !ok {
				continue
			}
			if changed {
				if w.onChange && told[change] == 0 {
					continue
				}
				told[change]--
				if change.New == nil {
					delete(state, d.name)
				} else {
					state[d.name] = change.New
				}
			}
			used[i] = true
			if try(left - 1) {
				return true
			}
			used[i] = false
			if changed {
				told[change]++
				if has {
					state[d.name] = old
				} else {
					delete(state, d.name)
				}
			}
		}
		return false
	}
	gv.Ensures("concurrent calls are as if made one after the other", try(len(all)))
}
