package gvall

import (
	"context"
	"fmt"
	"math"
	"reflect"
	"slices"
	"strings"
	"sync"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-golang/internal/gv"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/fieldmaskpb"
	"google.golang.org/protobuf/types/known/timestamppb"
)

// stack is a subject behind WrapApi(router(WrapApi(server))), one for each of its services.
type stack struct {
	api     []MethodSet
	clients []reflect.Value
}

// MethodSet is the methods of a service.
type MethodSet struct {
	Name string
	All  []Method
}

func newStack(s Subject, server any) stack {
	var st stack
	for _, d := range s.API {
		for _, svc := range Services {
			if svc.Desc.ServiceName != d.ServiceName {
				continue
			}
			inner := svc.Wrap(server)
			r := svc.Router()
			for _, id := range ids {
				r.Add(id, inner)
			}
			st.api = append(st.api, MethodSet{d.ServiceName, MethodsOf(d)})
			st.clients = append(st.clients, reflect.ValueOf(svc.Wrap(r)))
		}
	}
	return st
}

// call calls a unary method of the i'th service.
func (s stack) call(i int, m Method, req proto.Message) (proto.Message, error) {
	out := s.clients[i].MethodByName(m.Name).Call([]reflect.Value{reflect.ValueOf(context.Background()), reflect.ValueOf(req)})
	if err, _ := out[1].Interface().(error); err != nil {
		return nil, err
	}
	return out[0].Interface().(proto.Message), nil
}

// register is a resource that can be read and subscribed to: one of a trait, or one of a key.
type register struct {
	Of       string
	svc      int
	get      Method
	pull     Method
	typ      protoreflect.MessageDescriptor
	field    protoreflect.FieldDescriptor // of the changes of pull
	name     protoreflect.FieldDescriptor // of the changes of pull
	changes  protoreflect.FieldDescriptor // of the responses of pull
	key      string
	keyed    protoreflect.Name // the field of requests that has the key
	list     protoreflect.FieldDescriptor
	new, old protoreflect.FieldDescriptor // of the changes of pull, of collections
	changed  protoreflect.FieldDescriptor // the type of change
	itemKey  protoreflect.FieldDescriptor
}

func keyOf(d protoreflect.MessageDescriptor) protoreflect.FieldDescriptor {
	for _, n := range []protoreflect.Name{"id", "consumable", "name"} {
		if f := d.Fields().ByName(n); f != nil && f.Kind() == protoreflect.StringKind {
			return f
		}
	}
	return nil
}

// registers are the resources that the services expose.
func (s stack) registers(subject string) (r []register) {
	for i, api := range s.api {
		for _, pull := range api.All {
			if !pull.Streams || !strings.HasPrefix(pull.Name, "Pull") || pull.In.Fields().ByName("name") == nil {
				continue
			}
			x := register{svc: i, pull: pull}
			x.changes = pull.Out.Fields().ByName("changes")
			if x.changes == nil || !x.changes.IsList() || x.changes.Message() == nil {
				continue
			}
			ch := x.changes.Message()
			x.name = ch.Fields().ByName("name")
			x.new, x.old, x.changed = ch.Fields().ByName("new_value"), ch.Fields().ByName("old_value"), ch.Fields().ByName("type")
			if x.new != nil && x.old != nil {
				for _, m := range api.All {
					for j := 0; strings.HasPrefix(m.Name, "List") && j < m.Out.Fields().Len(); j++ {
						if f := m.Out.Fields().Get(j); f.IsList() && f.Message() == x.new.Message() {
							x.get, x.list, x.Of = m, f, m.Name
							x.typ, x.itemKey = x.new.Message(), keyOf(x.new.Message())
							if x.itemKey != nil && subject != "waste" { // waste is a log, of which little is listed
								r = append(r, x)
							}
						}
					}
				}
				continue
			}
			for j := 0; j < ch.Fields().Len(); j++ {
				f := ch.Fields().Get(j)
				if f.Message() == nil || f.IsList() || f.IsMap() || strings.HasPrefix(string(f.Message().FullName()), "google.") {
					continue
				}
				for _, m := range api.All {
					if !m.Streams && strings.HasPrefix(m.Name, "Get") && m.Out == f.Message() {
						x.get, x.field, x.typ, x.Of = m, f, f.Message(), m.Name
					}
				}
			}
			if x.field == nil {
				continue
			}
			for _, n := range []protoreflect.Name{"id", "consumable"} {
				if pull.In.Fields().ByName(n) != nil && x.get.In.Fields().ByName(n) != nil {
					x.keyed = n
				}
			}
			if subject == "metadata collection" {
				x.keyed = "name"
			}
			if x.keyed == "" {
				r = append(r, x)
				continue
			}
			for _, id := range ids {
				y := x
				y.key = id
				r = append(r, y)
			}
		}
	}
	return r
}

func setString(m proto.Message, name protoreflect.Name, v string) {
	if f := m.ProtoReflect().Descriptor().Fields().ByName(name); f != nil {
		m.ProtoReflect().Set(f, protoreflect.ValueOfString(v))
	}
}

func setMask(m proto.Message, name protoreflect.Name, paths []string) {
	if f := m.ProtoReflect().Descriptor().Fields().ByName(name); f != nil && paths != nil {
		m.ProtoReflect().Set(f, protoreflect.ValueOfMessage((&fieldmaskpb.FieldMask{Paths: paths}).ProtoReflect()))
	}
}

// request is a request of the get or the pull method.
func (x register) request(m Method, name string, mask []string) proto.Message {
	req := New(m.In)
	setString(req, "name", name)
	if x.keyed != "" {
		setString(req, x.keyed, x.key)
	}
	setMask(req, "read_mask", mask)
	return req
}

// at is the register of another key.
func (x register) at(key string) register { x.key = key; return x }

// snap is what a register has: nil if it is absent. A collection has many messages.
type snap map[string]proto.Message

func (x register) read(s stack, name string, mask []string) (snap, error) {
	if x.keyed == "name" {
		name = x.key
	}
	res, err := s.call(x.svc, x.get, x.request(x.get, name, mask))
	if err != nil {
		return nil, err
	}
	if x.list == nil {
		return snap{"": proto.Clone(res)}, nil
	}
	r := snap{}
	l := res.ProtoReflect().Get(x.list).List()
	for i := 0; i < l.Len(); i++ {
		m := l.Get(i).Message()
		r[m.Get(x.itemKey).String()] = proto.Clone(m.Interface())
	}
	return r, nil
}

func (a snap) project(mask []string) snap {
	if a == nil {
		return nil
	}
	r := snap{}
	for k, m := range a {
		r[k] = gv.ProjectPaths(m, mask)
	}
	return r
}

func (a snap) same(b snap, eq func(a, b proto.Message) bool) bool {
	if len(a) != len(b) || (a == nil) != (b == nil) {
		return false
	}
	for k, m := range a {
		if b[k] == nil || !eq(m, b[k]) {
			return false
		}
	}
	return true
}

// tolerant are the resources that models are configured to compare with a tolerance.
var tolerant = map[protoreflect.FullName]bool{
	"smartcore.traits.FanSpeed": true, "smartcore.traits.EnergyLevel": true, "smartcore.traits.ElectricDemand": true,
}

func (x register) near(a, b proto.Message) bool {
	if !tolerant[x.typ.FullName()] {
		return proto.Equal(a, b)
	}
	return near(a.ProtoReflect(), b.ProtoReflect())
}

func near(a, b protoreflect.Message) bool {
	switch m := a.Interface().(type) {
	case *timestamppb.Timestamp:
		d := m.AsTime().Sub(b.Interface().(*timestamppb.Timestamp).AsTime()).Seconds()
		return math.Abs(d) < 1.5
	case *durationpb.Duration:
		d := m.AsDuration().Seconds() - b.Interface().(*durationpb.Duration).AsDuration().Seconds()
		return math.Abs(d) < 1.5
	}
	fs := a.Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		f := fs.Get(i)
		if f.HasPresence() && a.Has(f) != b.Has(f) {
			return false
		}
		switch {
		case f.IsList() || f.IsMap():
			if !a.Get(f).Equal(b.Get(f)) {
				return false
			}
		case f.Message() != nil:
			if a.Has(f) && !near(a.Get(f).Message(), b.Get(f).Message()) {
				return false
			}
		case f.Kind() == protoreflect.FloatKind || f.Kind() == protoreflect.DoubleKind:
			if x, y := a.Get(f).Float(), b.Get(f).Float(); x != y && !(math.Abs(x-y) < 0.2) {
				return false
			}
		default:
			if !a.Get(f).Equal(b.Get(f)) {
				return false
			}
		}
	}
	return true
}

// pulling is an open stream of a register.
type pulling struct {
	reg         register
	Name        string
	Mask        []string
	UpdatesOnly bool
	opened      snap // what the register had
	cancel      func()
	mu          sync.Mutex
	n           int    // messages
	wrong       string // name
	last        snap
	ended       bool
	gone        bool // it needn't follow any more
	old         bool // there was a call since it was opened
}

func (s stack) open(x register, name string, mask []string, updatesOnly bool, wg *sync.WaitGroup) *pulling {
	if x.keyed == "name" {
		name = x.key
	}
	p := &pulling{reg: x, Name: name, Mask: mask, UpdatesOnly: updatesOnly}
	req := x.request(x.pull, name, mask)
	if f := x.pull.In.Fields().ByName("updates_only"); f != nil {
		req.ProtoReflect().Set(f, protoreflect.ValueOfBool(updatesOnly))
	}
	ctx, cancel := context.WithCancel(context.Background())
	p.cancel = cancel
	wg.Add(1)
	go func() {
		defer wg.Done()
		defer func() {
			p.mu.Lock()
			p.ended = true
			p.mu.Unlock()
		}()
		out := s.clients[x.svc].MethodByName(x.pull.Name).Call([]reflect.Value{reflect.ValueOf(ctx), reflect.ValueOf(req)})
		if !out[1].IsNil() {
			return
		}
		recv := out[0].MethodByName("Recv")
		for {
			r := recv.Call(nil)
			if !r[1].IsNil() {
				return
			}
			p.got(r[0].Interface().(proto.Message))
		}
	}()
	return p
}

func (p *pulling) got(res proto.Message) {
	p.mu.Lock()
	defer p.mu.Unlock()
	l := res.ProtoReflect().Get(p.reg.changes).List()
	for i := 0; i < l.Len(); i++ {
		p.n++
		c := l.Get(i).Message()
		if p.reg.name != nil && c.Get(p.reg.name).String() != p.Name {
			p.wrong = c.Get(p.reg.name).String()
		}
		if p.reg.list == nil {
			p.last = snap{"": proto.Clone(c.Get(p.reg.field).Message().Interface())}
			continue
		}
		if p.last == nil {
			p.last = snap{}
		}
		if c.Has(p.reg.old) && !c.Has(p.reg.new) {
			delete(p.last, c.Get(p.reg.old).Message().Get(p.reg.itemKey).String())
		} else if c.Has(p.reg.new) {
			m := c.Get(p.reg.new).Message()
			p.last[m.Get(p.reg.itemKey).String()] = proto.Clone(m.Interface())
		}
	}
}

// coherence is a history of updates of a subject, through the full stack.
type coherence struct {
	Seed    int64
	Subject string
	g       *gv.Gen
	subject func() Subject
}

func gvg_Registers(g *gv.Gen) coherence {
	var s Subject
	for i := g.Seed; ; i++ {
		if s = Subjects[i%int64(len(Subjects))]; !s.Timed {
			break
		}
	}
	return coherence{Seed: g.R.Int63(), Subject: s.Name, g: g, subject: func() Subject { return s }}
}

func (w *coherence) assert(name string, op string, ok bool) {
	gv.Assert(name+": "+w.Subject+" "+op, ok)
}

func (w *coherence) mask(x register) []string {
	if w.g.R.Intn(2) == 0 {
		return nil
	}
	m := w.g.Paths(x.typ, w.g.R.Intn(3), false)
	if x.list != nil { // so that items can be told apart
		m = append(m, string(x.itemKey.Name()))
	}
	return m
}

// ofResource says whether the response of a method is the resource of x.
func ofResource(x register, service, method string, out protoreflect.MessageDescriptor) bool {
	if x.list != nil || out != x.typ || readOnly(method) || strings.HasPrefix(method, "Delete") {
		return false
	}
	stem := strings.TrimPrefix(x.get.Name, "Get")
	return strings.Contains(method, stem) || !strings.Contains(strings.ToLower(service), "electric")
}

func (w *coherence) run() {
	g := w.g
	model, server := w.subject().New(g)
	s := newStack(w.subject(), server)
	regs := s.registers(w.Subject)
	if len(regs) == 0 {
		return
	}
	forget()
	var wg sync.WaitGroup
	var open []*pulling
	defer wg.Wait()
	defer func() {
		for _, p := range open {
			p.cancel()
		}
	}()
	read := func() (r []snap) {
		for _, x := range regs {
			v, err := x.read(s, ID(g), nil)
			w.assert("a resource can be read", x.get.Name, err == nil || x.keyed != "" && status.Code(err) != codes.Unimplemented)
			r = append(r, v)
		}
		return r
	}
	was := read()
	for i := []int{4, 8, 16}[g.R.Intn(3)]; i > 0; i-- {
		if len(open) < 2 && g.R.Intn(2) == 0 {
			x := regs[g.R.Intn(len(regs))]
			p := s.open(x, ID(g), w.mask(x), g.R.Intn(4) == 0, &wg)
			gv.Note("open ", x.pull.Name, " ", x.key, " ", p.Mask, " ", p.UpdatesOnly)
			for j := range regs {
				if regs[j] == x {
					p.opened = was[j].project(p.Mask)
				}
			}
			if p.opened == nil {
				p.gone = true // there is nothing yet
			}
			open = append(open, p)
		}
		if !gv.Still() {
			return
		}
		w.follow(open, was, regs, "")
		op, detail, own, res, err, panicked := w.act(s, model, slices.ContainsFunc(regs, func(x register) bool { return x.keyed != "" || x.list != nil }))
		if panicked {
			return // it may have left locks behind
		}
		gv.Note(op, detail)
		if res != nil {
			seen(res)
			for _, id := range made {
				for _, x := range regs {
					if x.keyed == "id" && x.key == ids[0] && !slices.Contains(regs, x.at(id)) {
						regs, was = append(regs, x.at(id)), append(was, nil)
					}
				}
			}
		}
		if !gv.Still() {
			return
		}
		now := read()
		if own >= 0 && err != nil {
			for j := range regs {
				w.assert("a rejected update changes nothing", op, now[j].same(was[j], proto.Equal))
			}
			gv.Reach("rejected")
		}
		if res != nil && err == nil {
			w.response(s, regs, now, own, op, res)
		}
		for _, p := range open {
			p.old = true
			for j := range regs {
				if regs[j] == p.reg && now[j] == nil {
					p.gone = true
				}
			}
		}
		w.follow(open, now, regs, op)
		was = now
		// a masked read
		x := regs[g.R.Intn(len(regs))]
		full, err := x.read(s, ID(g), nil)
		mask := w.mask(x)
		part, merr := x.read(s, ID(g), mask)
		w.assert("a masked Get finds what Get finds", x.get.Name, (err == nil) == (merr == nil))
		if err == nil {
			w.assert("a masked Get is the projection of Get", x.get.Name, part.same(full.project(mask), proto.Equal))
		}
	}
	for _, p := range open {
		p.mu.Lock()
		if p.n > 1 {
			gv.Reach("followed")
		}
		p.mu.Unlock()
	}
	gv.Reach("ended")
}

// act makes a call that may change something. own is the service it was made to, -1 if it was made of the model.
func (w *coherence) act(s stack, model any, plain bool) (op, detail string, own int, res proto.Message, err error, panicked bool) {
	g := w.g
	defer func() {
		if recover() != nil {
			panicked = true
		}
	}()
	own = -1
	for {
		if model != nil && g.R.Intn(3) == 0 {
			var mutators []int
			t := reflect.TypeOf(model)
			for i := 0; i < t.NumMethod(); i++ {
				if !readOnly(t.Method(i).Name) {
					mutators = append(mutators, i)
				}
			}
			if len(mutators) == 0 {
				continue
			}
			inv, ok := Invoke(g, context.Background(), model, mutators[g.R.Intn(len(mutators))], func(proto.Message) {})
			if !ok {
				continue
			}
			for i, m := range inv.Msgs() {
				still(m)
				for _, a := range inv.args { // an id and a message that agree
					if f := keyOf(m.ProtoReflect().Descriptor()); i == 0 && f != nil && a.Type() == stringT {
						m.ProtoReflect().Set(f, protoreflect.ValueOfString(a.String()))
					}
					if e, ok := a.Interface().(protoreflect.Enum); ok {
						fs := m.ProtoReflect().Descriptor().Fields()
						for j := 0; j < fs.Len(); j++ {
							if fs.Get(j).Enum() == e.Descriptor() {
								m.ProtoReflect().Set(fs.Get(j), protoreflect.ValueOfEnum(e.Number()))
							}
						}
					}
				}
			}
			if n := len(inv.args) - 1; plain && n >= 0 && inv.args[n].Type().Kind() == reflect.Slice {
				inv.args[n] = reflect.Zero(inv.args[n].Type()) // an item created with a mask needn't have its key
			}
			var out []reflect.Value
			call := inv.f.Call
			if inv.f.Type().IsVariadic() {
				call = inv.f.CallSlice
			}
			out = call(inv.args)
			for _, v := range out {
				if v.Type() == errT && !v.IsNil() {
					err = v.Interface().(error)
				} else if v.Kind() == reflect.Pointer && v.Type().Implements(protoT) && !v.IsNil() {
					res = v.Interface().(proto.Message)
				}
			}
			own, op = -1, "model."+inv.Name
			for _, a := range inv.args {
				if m, ok := a.Interface().(proto.Message); ok {
					detail += fmt.Sprint(" {", m, "}")
				} else if a.Type() == stringT {
					detail += fmt.Sprintf(" %q", a.String())
				} else if a.Type() != ctxT {
					detail += fmt.Sprint(" ", a.Type())
				}
			}
			return op, detail, own, res, err, false
		}
		own = g.R.Intn(len(s.api))
		ms := s.api[own].All
		m := ms[g.R.Intn(len(ms))]
		if m.Streams || readOnly(m.Name) {
			if model == nil || g.R.Intn(8) > 0 {
				continue
			}
			return m.Name, "", -1, nil, nil, false
		}
		req := still(m.Request(g))
		setString(req, "name", ID(g))
		fs := m.In.Fields()
		for i := 0; i < fs.Len(); i++ { // what is to be written is there
			if f := fs.Get(i); f.Message() != nil && !f.IsList() && !f.IsMap() && f.ContainingOneof() == nil && !strings.HasPrefix(string(f.Message().FullName()), "google.") && f.Message() == resourceOf(m.In, m.Out) {
				req.ProtoReflect().Mutable(f)
			}
		}
		res, err = s.call(own, m, req)
		if res != nil {
			res = proto.Clone(res)
		}
		return m.Name, fmt.Sprint(" {", req, "}"), own, res, err, false
	}
}

// response checks what an update returned against what can now be read.
func (w *coherence) response(s stack, regs []register, now []snap, own int, op string, res proto.Message) {
	for j, x := range regs {
		service := "electric"
		if own >= 0 {
			service = s.api[own].Name
		}
		if w.Subject != "electric" {
			service = ""
		}
		if !ofResource(x, service, strings.TrimPrefix(op, "model."), res.ProtoReflect().Descriptor()) {
			continue
		}
		have := now[j]
		switch x.keyed {
		case "name":
			return
		case "":
		default:
			if own < 0 {
				return // models can be given one id and a message with another
			}
			k := keyOf(x.typ)
			have, _ = x.at(res.ProtoReflect().Get(k).String()).read(s, ID(w.g), nil)
		}
		w.assert("the response of an update is what the next Get returns", op, have != nil && proto.Equal(have[""], res))
		gv.Reach("response")
		return
	}
}

// follow checks that streams have what can be read.
func (w *coherence) follow(open []*pulling, now []snap, regs []register, op string) {
	for _, p := range open {
		p.mu.Lock()
		n, last, ended, wrong := p.n, p.last, p.ended, p.wrong
		p.mu.Unlock()
		what := p.reg.pull.Name
		w.assert("changes carry the name of the Pull request", what, wrong == "")
		if p.gone {
			continue
		}
		w.assert("a stream stays open", what, !ended)
		for j := range regs {
			if regs[j] != p.reg {
				continue
			}
			want := now[j].project(p.Mask)
			if e, ok := want[""].(*traits.EnterLeaveEvent); ok && n == 1 && !p.UpdatesOnly {
				// as documented, new streams start with the totals only
				e.Direction, e.Occupant = 0, nil
			}
			if p.UpdatesOnly && !p.old {
				w.assert("a new stream doesn't start with the current value if only updates are asked for", what, n == 0)
				continue
			}
			if p.UpdatesOnly && p.reg.list != nil {
				continue // it has only those that changed
			}
			if n == 0 {
				w.assert("a new stream starts with the current value", what, p.UpdatesOnly || len(want) == 0)
				w.assert("a change appears on the stream", what+" after "+op, !p.UpdatesOnly || want.same(p.opened, p.reg.near))
				continue
			}
			if op == "" {
				w.assert("a new stream has the current value", what, last.same(want, p.reg.near))
				continue
			}
			if !last.same(want, p.reg.near) {
				gv.Note("can be read: ", want)
				gv.Note("on the stream: ", last)
			}
			w.assert("a stream has the value that was written", what+" after "+op, last.same(want, p.reg.near))
			gv.Reach("written")
		}
	}
}

// Servers give read-your-writes: what an update returned is what Get returns and what streams have.
//
//gv:property C14
//gv:bounded each of the models and memory devices in turn, behind a wrapper, a router and a wrapper; histories of up to 16 generated calls with up to 2 open streams, all resources read after each call
//gv:run 20
//gv:par 7
func gvc_Registers(w coherence) { w.run() }
