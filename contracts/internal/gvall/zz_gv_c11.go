package gvall

import (
	"context"
	"reflect"
	"sync"
	"time"

	"github.com/smart-core-os/sc-golang/internal/gv"
	"google.golang.org/protobuf/proto"
)

// race is a mix of calls of one model and its server.
type race struct {
	Seed    int64
	Subject string
	Callers int
	Calls   int
	g       *gv.Gen
	subject Subject
}

func gvRaces(g *gv.Gen, ss []Subject) race {
	s := ss[g.R.Intn(len(ss))]
	return race{g.R.Int63(), s.Name, 4 + g.R.Intn(5), 1 + g.R.Intn(6), g, s}
}

func look(m proto.Message) {
	if m != nil && m.ProtoReflect().IsValid() {
		proto.Equal(m, proto.Clone(m))
	}
}

// scribble writes to all of a message.
func scribble(m proto.Message) {
	if m == nil || !m.ProtoReflect().IsValid() {
		return
	}
	c := proto.Clone(m)
	proto.Reset(m)
	proto.Merge(m, c)
	proto.Merge(m, c)
}

func guarded(f func()) {
	defer func() { _ = recover() }()
	f()
}

func (r race) run() {
	model, server := r.subject.New(r.g)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var pulls sync.WaitGroup
	// all is generated here: generators are not for concurrent use
	var callers [][]func()
	for i := 0; i < r.Callers; i++ {
		var calls []func()
		for j := 0; j < r.Calls; j++ {
			stay := time.Duration([]int{0, 20, 100, 500}[r.g.R.Intn(4)]) * time.Microsecond
			reuse := r.g.R.Intn(2) == 0
			if model != nil && r.g.R.Intn(2) == 0 {
				ctx, cancel := context.WithCancel(ctx)
				n := reflect.TypeOf(model).NumMethod()
				c, ok := Invoke(r.g, ctx, model, r.g.R.Intn(n), look)
				if !ok {
					cancel()
					continue
				}
				calls = append(calls, func() {
					guarded(func() { _ = c.Do(&pulls, look) })
					time.AfterFunc(stay, cancel)
					if reuse {
						for _, m := range c.Msgs() {
							scribble(m)
						}
					}
				})
				continue
			}
			api := r.subject.API[r.g.R.Intn(len(r.subject.API))]
			ms := MethodsOf(api)
			m := ms[r.g.R.Intn(len(ms))]
			req := m.Request(r.g)
			if !m.Streams {
				calls = append(calls, func() {
					guarded(func() {
						if res, err := m.Call(ctx, server, req); err == nil {
							look(res)
						}
					})
					if reuse {
						scribble(req)
					}
				})
				continue
			}
			ctx, cancel := context.WithCancel(ctx)
			calls = append(calls, func() {
				pulls.Add(1)
				go func() {
					defer pulls.Done()
					defer cancel()
					guarded(func() {
						_ = m.Serve(server, &ServerStream{Ctx: ctx, Req: req, OnSend: func(m proto.Message) error { look(m); return nil }})
					})
				}()
				time.AfterFunc(stay, cancel)
			})
		}
		callers = append(callers, calls)
	}
	var wg sync.WaitGroup
	start := make(chan struct{})
	for _, calls := range callers {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for _, c := range calls {
				c()
			}
		}()
	}
	close(start)
	ended := make(chan struct{})
	go func() {
		wg.Wait()
		cancel()
		close(ended)
	}()
	select {
	case <-ended:
	case <-time.After(3 * time.Second):
		gv.Requires(false)
	}
	gv.Reach("ended")
}

func gvg_ModelRaces(g *gv.Gen) race { return gvRaces(g, Subjects) }

// Concurrent calls of a trait's model and server, whose callers read what they get and write to what they gave, don't race.
//
//gv:property C11
//gv:bounded each model and memory device, up to 8 callers of up to 6 generated calls of its methods and of its server's each; under the race detector
//gv:race
//gv:run 20
func gvc_ModelRaces(r race) { r.run() }
