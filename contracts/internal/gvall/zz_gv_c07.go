package gvall

import (
	"context"
	"reflect"
	"strings"
	"sync"
	"time"

	"github.com/smart-core-os/sc-golang/internal/gv"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
)

// The names, or prefixes of names, of methods that only read.
var readVerbs = []string{"Get", "List", "Pull", "Describe", "Find", "Has", "Available"}
var readNames = []string{"Demand", "Modes", "ActiveMode", "NormalMode", "FanSpeed", "ModeValues"}

func readOnly(name string) bool {
	for _, v := range readVerbs {
		if strings.HasPrefix(name, v) {
			return true
		}
	}
	for _, n := range readNames {
		if name == n {
			return true
		}
	}
	return false
}

// probes are calls that read all there is: each of the reading methods that aren't streams, without options, of the model and of the server.
func probes(s Subject, model, server any) func() []proto.Message {
	var calls []func(got func(proto.Message))
	ctx := context.Background()
	if v := reflect.ValueOf(model); model != nil {
		for i := 0; i < v.NumMethod(); i++ {
			if !readOnly(v.Type().Method(i).Name) {
				continue
			}
			f := v.Method(i)
			sets := [][]reflect.Value{nil}
			t := f.Type()
			ok := true
			n := t.NumIn()
			if t.IsVariadic() {
				n--
			}
			for j := 0; j < n; j++ {
				var vals []reflect.Value
				switch k := t.In(j); {
				case k == ctxT:
					ok = false
				case k.Kind() == reflect.String:
					for _, id := range ids {
						vals = append(vals, reflect.ValueOf(id).Convert(k))
					}
				case k.Kind() == reflect.Int32 || k.Kind() == reflect.Int:
					for _, x := range []int{0, 1, 1000} {
						vals = append(vals, reflect.ValueOf(x).Convert(k))
					}
				default:
					ok = false
				}
				var next [][]reflect.Value
				for _, s := range sets {
					for _, x := range vals {
						next = append(next, append(append([]reflect.Value{}, s...), x))
					}
				}
				sets = next
			}
			if !ok {
				continue
			}
			for _, args := range sets {
				calls = append(calls, func(got func(proto.Message)) {
					for _, r := range f.Call(args) {
						Messages(r, got)
					}
				})
			}
		}
	}
	for _, api := range s.API {
		for _, m := range MethodsOf(api) {
			if !readOnly(m.Name) || m.Streams {
				continue
			}
			var reqs []proto.Message
			idf := m.In.Fields().ByName("id")
			if idf == nil {
				idf = m.In.Fields().ByName("consumable")
			}
			for _, id := range ids {
				r := New(m.In)
				if f := m.In.Fields().ByName("name"); f != nil {
					r.ProtoReflect().Set(f, protoreflect.ValueOfString(id))
				}
				if idf != nil {
					r.ProtoReflect().Set(idf, protoreflect.ValueOfString(id))
				}
				reqs = append(reqs, r)
			}
			for _, r := range reqs {
				calls = append(calls, func(got func(proto.Message)) {
					if res, err := m.Call(ctx, server, r); err == nil {
						got(res)
					}
				})
			}
		}
	}
	return func() (r []proto.Message) {
		for _, c := range calls {
			guarded(func() { c(func(m proto.Message) { r = append(r, m) }) })
			r = append(r, nil)
		}
		return r
	}
}

func sameAll(a, b []proto.Message) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if (a[i] == nil) != (b[i] == nil) || a[i] != nil && !proto.Equal(a[i], b[i]) {
			return false
		}
	}
	return true
}

func copies(ms []proto.Message) (r []proto.Message) {
	for _, m := range ms {
		if m == nil {
			r = append(r, nil)
			continue
		}
		r = append(r, proto.Clone(m))
	}
	return r
}

// isolation is a history of calls of one model and its server, by one caller.
type isolation struct {
	Seed    int64
	Subject string
	Calls   []isoCall
	g       *gv.Gen
	subject Subject
}

type isoCall struct {
	Model  string                 // method of the model
	Server string                 // method of the server
	Slow   bool                   // subscribers have received all there is before the caller reuses its message
	do     func() []proto.Message // the messages it returned
	msgs   []proto.Message        // that it was given
}

func gvg_Isolation(g *gv.Gen) isolation {
	var s Subject
	for i := g.Seed; ; i++ {
		if s = Subjects[i%int64(len(Subjects))]; !s.Timed {
			break
		}
	}
	return isolation{Seed: g.R.Int63(), Subject: s.Name, g: g, subject: s}
}

// still drops from a request what makes a device change by itself later.
func still(m proto.Message) proto.Message {
	var visit func(m protoreflect.Message)
	visit = func(m protoreflect.Message) {
		m.Range(func(f protoreflect.FieldDescriptor, v protoreflect.Value) bool {
			switch {
			case f.Message() != nil && f.Message().FullName() == "smartcore.types.Tween":
				m.Clear(f)
			case f.Message() != nil && !f.IsMap() && !f.IsList():
				visit(v.Message())
			}
			return true
		})
	}
	visit(m.ProtoReflect())
	return m
}

func (w *isolation) run() {
	g := w.g
	model, server := w.subject.New(g)
	ctx, cancel := context.WithCancel(context.Background())
	var pulls sync.WaitGroup
	defer pulls.Wait()
	defer cancel()
	forget()
	var album gv.Album
	read := probes(w.subject, model, server)
	open := false // there are streams
	was := copies(read())
	for i := []int{3, 10, 30}[g.R.Intn(3)]; i > 0; i-- {
		c := isoCall{Slow: g.R.Intn(2) == 0}
		reads := false
		if model != nil && g.R.Intn(2) == 0 {
			n := g.R.Intn(reflect.TypeOf(model).NumMethod())
			if readOnly(reflect.TypeOf(model).Method(n).Name) && g.R.Intn(2) == 0 {
				continue
			}
			inv, ok := Invoke(g, ctx, model, n, func(proto.Message) {})
			if !ok {
				continue
			}
			reads = readOnly(inv.Name)
			open = open || strings.HasPrefix(inv.Name, "Pull")
			c.Model, c.msgs = inv.Name, inv.Msgs()
			for _, m := range c.msgs {
				still(m)
			}
			c.do = func() (r []proto.Message) {
				guarded(func() {
					_ = inv.DoWith(&pulls, album.Add, func(m proto.Message) { r = append(r, m) })
				})
				return r
			}
		} else {
			api := w.subject.API[g.R.Intn(len(w.subject.API))]
			ms := MethodsOf(api)
			m := ms[g.R.Intn(len(ms))]
			reads = readOnly(m.Name)
			if reads && g.R.Intn(2) == 0 {
				continue
			}
			open = open || m.Streams
			req := still(m.Request(g))
			c.Server, c.msgs = m.Name, []proto.Message{req}
			if m.Streams {
				c.msgs = nil
				c.do = func() []proto.Message {
					pulls.Add(1)
					go func() {
						defer pulls.Done()
						guarded(func() {
							_ = m.Serve(server, &ServerStream{Ctx: ctx, Req: req, OnSend: func(m proto.Message) error { album.Add(m); return nil }})
						})
					}()
					time.Sleep(200 * time.Microsecond)
					return nil
				}
			} else {
				c.do = func() (r []proto.Message) {
					f := reflect.ValueOf(server).MethodByName(m.Name)
					if !f.IsValid() {
						return nil
					}
					guarded(func() {
						out := f.Call([]reflect.Value{reflect.ValueOf(ctx), reflect.ValueOf(req)})
						Messages(out[0], func(m proto.Message) { r = append(r, m) })
					})
					return r
				}
			}
		}
		w.Calls = append(w.Calls, c)
		res := c.do()
		if c.Slow && open {
			album.Quiet(100 * time.Microsecond)
		}
		now := read()
		if reads {
			gv.Assert("reading leaves the state as it was: "+w.Subject+" "+c.Model+c.Server, sameAll(now, was))
			gv.Reach("read")
		}
		for _, m := range res {
			album.Add(m)
			seen(m)
		}
		if g.R.Intn(3) == 0 {
			for _, m := range now {
				album.Add(m)
			}
		}
		was = copies(now)
		w.check(&album, c)
		if len(c.msgs) == 0 {
			continue
		}
		album.Forget(c.msgs...)
		for _, m := range c.msgs {
			gv.Deface(m)
		}
		gv.Assert("what a caller gave isn't stored: "+w.Subject+" "+c.Model+c.Server, sameAll(read(), was))
		if !reads {
			w.check(&album, c)
		}
		gv.Reach("write")
	}
	cancel()
	album.Quiet(200 * time.Microsecond)
	w.check(&album, isoCall{})
	gv.Reach("ended")
}

func (w *isolation) check(a *gv.Album, c isoCall) {
	m, _ := a.Changed()
	if m != nil {
		gv.Assert("a message that was observed never changes: "+w.Subject+" after "+c.Model+c.Server+", "+string(m.ProtoReflect().Descriptor().FullName()), false)
	}
}

// Messages are isolated: what a caller gave can be changed by it afterwards, and what callers got never changes. Reading leaves the state as it was.
//
//gv:property C07
//gv:bounded each of the models and memory devices in turn, histories of up to 30 generated calls of its methods and of its server's, every message that was observed compared with its copy after each call
//gv:run 20
//gv:par 7
func gvc_Isolation(w isolation) { w.run() }
