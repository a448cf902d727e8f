package gvall

import (
	"context"
	"errors"
	"fmt"
	"io"
	"reflect"
	"strings"
	"sync"
	"time"

	"github.com/smart-core-os/sc-golang/internal/gv"
	"github.com/smart-core-os/sc-golang/pkg/router"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"
)

// reply is how a client's connection answers the call of a method.
type reply struct {
	Msgs     []proto.Message // for a unary method at most one
	Err      error           // at the end
	Header   metadata.MD
	Trailer  metadata.MD
	Broken   int  // 1: no stream, 2: no header
	Lockstep bool // each message waits for the one before to reach the caller
	Stay     bool // at the end, wait for the caller to go
}

// routed is a call that reached a connection.
type routed struct {
	conn   string
	method string
	req    proto.Message
	ctx    context.Context
}

type side struct {
	mu    sync.Mutex
	calls []routed
	say   reply
	seen  chan struct{} // the caller has received a message, or the header
	leave func()        // makes the caller go
}

func (s *side) add(c routed) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.calls = append(s.calls, c)
}

func (s *side) take() []routed {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]routed{}, s.calls...)
}

func tell(to any, m proto.Message) error {
	if x := to.(proto.Message); x.ProtoReflect().Descriptor() == m.ProtoReflect().Descriptor() {
		proto.Merge(x, m)
		return nil
	}
	return status.Error(codes.Internal, "not the response of the method")
}

// fakeConn is the connection of one named client.
type fakeConn struct {
	id string
	s  *side
}

func (c *fakeConn) Invoke(ctx context.Context, method string, req, res any, _ ...grpc.CallOption) error {
	c.s.add(routed{c.id, method, proto.Clone(req.(proto.Message)), ctx})
	if c.s.say.Stay {
		c.s.leave()
		<-ctx.Done()
		return status.FromContextError(ctx.Err()).Err()
	}
	if c.s.say.Err != nil {
		return c.s.say.Err
	}
	return tell(res, c.s.say.Msgs[0])
}

func (c *fakeConn) NewStream(ctx context.Context, _ *grpc.StreamDesc, method string, _ ...grpc.CallOption) (grpc.ClientStream, error) {
	if c.s.say.Broken == 1 {
		c.s.add(routed{c.id, method, nil, ctx})
		return nil, c.s.say.Err
	}
	return &fakeStream{c: c, ctx: ctx, method: method}, nil
}

type fakeStream struct {
	c      *fakeConn
	ctx    context.Context
	method string
	n      int
}

func (s *fakeStream) Header() (metadata.MD, error) {
	if s.c.s.say.Broken == 2 {
		return nil, s.c.s.say.Err
	}
	return s.c.s.say.Header, nil
}
func (s *fakeStream) Trailer() metadata.MD { return s.c.s.say.Trailer }
func (s *fakeStream) CloseSend() error     { return nil }
func (s *fakeStream) Context() context.Context {
	return s.ctx
}
func (s *fakeStream) SendMsg(m any) error {
	s.c.s.add(routed{s.c.id, s.method, proto.Clone(m.(proto.Message)), s.ctx})
	return nil
}
func (s *fakeStream) RecvMsg(m any) error {
	say := s.c.s.say
	if err := s.ctx.Err(); err != nil {
		return status.FromContextError(err).Err()
	}
	if say.Lockstep && (s.n > 0 || len(say.Header) > 0) {
		select {
		case <-s.c.s.seen:
		case <-s.ctx.Done():
			return status.FromContextError(s.ctx.Err()).Err()
		}
	}
	if s.n < len(say.Msgs) {
		s.n++
		return tell(m, say.Msgs[s.n-1])
	}
	if say.Stay {
		s.c.s.leave()
		<-s.ctx.Done()
		return status.FromContextError(s.ctx.Err()).Err()
	}
	if say.Err != nil {
		return say.Err
	}
	return io.EOF
}

// routing is a history of calls of one service's router.
type routing struct {
	Service  string
	Method   string
	Makes    string // the names the factory knows
	Helps    string // the names the fallback knows
	Callback bool
	Added    int // clients added first
	Ops      []routeOp
	is       func() (Service, Method)
}

type routeOp struct {
	Kind  string // call, add, remove, get, has, holds
	Name  string
	Typed bool   // through the typed method
	Wrap  bool   // call through the wrapper
	To    string // method
	Req   proto.Message
	Say   reply
	Leave int // the caller goes after it has received this many messages, negative: it stays
}

var routeNames = []string{"", "a", "b", "c"}

func knownTo(g *gv.Gen) string {
	r := "."
	if g.R.Intn(2) == 0 {
		return r
	}
	for _, n := range routeNames {
		if g.R.Intn(2) == 0 {
			r += n + "."
		}
	}
	return r
}

func knownIn(names, n string) bool { return strings.Contains(names, "."+n+".") }

func someMD(g *gv.Gen, k string) metadata.MD {
	if g.R.Intn(3) == 0 {
		return nil
	}
	md := metadata.MD{}
	for i := 1 + g.R.Intn(2); i > 0; i-- {
		md.Append(k, g.Str())
	}
	if g.R.Intn(2) == 0 {
		md.Append(k+"-bin", "\x00x")
	}
	return md
}

func someErr(g *gv.Gen) error {
	return status.Error([]codes.Code{codes.NotFound, codes.Unavailable, codes.Canceled, codes.DataLoss, codes.InvalidArgument, codes.Unknown}[g.R.Intn(6)], "because "+ID(g))
}

type serviceMethod struct {
	s Service
	m Method
}

// allMethods are the methods of all the services.
var allMethods = sync.OnceValue(func() (r []serviceMethod) {
	for _, s := range Services {
		for _, m := range MethodsOf(s.Desc) {
			r = append(r, serviceMethod{s, m})
		}
	}
	return r
})

func gvRouting(g *gv.Gen) routing {
	at := allMethods()[g.Seed%int64(len(allMethods()))]
	s, m := at.s, at.m
	r := routing{Service: s.Name, Method: m.Name, Makes: knownTo(g), Helps: ".", Callback: g.R.Intn(3) > 0, Added: g.R.Intn(4), is: func() (Service, Method) { return s, m }}
	if g.R.Intn(3) == 0 {
		r.Helps = knownTo(g)
	}
	ms := append(MethodsOf(s.Desc), m, m)
	for i := 2 + g.R.Intn(6); i > 0; i-- {
		k := []string{"call", "call", "call", "add", "remove", "get", "has", "holds"}[g.R.Intn(8)]
		o := routeOp{Kind: k, Name: routeNames[g.R.Intn(len(routeNames))], Typed: g.R.Intn(2) == 0, Wrap: g.R.Intn(3) == 0, Leave: -1}
		if i == 1 {
			o.Kind = "call"
		}
		if o.Kind == "call" {
			m := ms[g.R.Intn(len(ms))]
			if i == 1 {
				_, m = r.is()
			}
			o.call(g, m)
		}
		r.Ops = append(r.Ops, o)
	}
	return r
}

func (o *routeOp) call(g *gv.Gen, m Method) {
	o.To, o.Req = m.Name, New(m.In)
	g.Message(o.Req.ProtoReflect(), 0)
	f := m.In.Fields().ByName("name")
	if f == nil {
		return
	}
	o.Req.ProtoReflect().Clear(f)
	if o.Name != "" {
		o.Req.ProtoReflect().Set(f, protoreflect.ValueOfString(o.Name))
	}
	o.Req.ProtoReflect().Clear(f)
	o.Req.ProtoReflect().Set(f, protoreflect.ValueOfString(o.Name))
	n := 1
	if m.Streams {
		n = g.R.Intn(5)
	}
	for ; n > 0; n-- {
		x := New(m.Out)
		g.Message(x.ProtoReflect(), 0)
		o.Say.Msgs = append(o.Say.Msgs, x)
	}
	if g.R.Intn(2) == 0 {
		o.Say.Err = someErr(g)
	}
	o.Say.Stay = g.R.Intn(8) == 0
	if !m.Streams {
		return
	}
	o.Say.Header, o.Say.Trailer = someMD(g, "h"), someMD(g, "t")
	o.Say.Lockstep = g.R.Intn(2) == 0
	if o.Say.Err != nil && g.R.Intn(4) == 0 {
		o.Say.Broken = 1 + g.R.Intn(2)
		o.Say.Msgs, o.Say.Header, o.Say.Stay, o.Say.Lockstep, o.Say.Trailer = nil, nil, false, false, nil
	}
	if k := len(o.Say.Msgs); o.Say.Stay || k > 0 && g.R.Intn(3) == 0 {
		o.Leave = g.R.Intn(k + 1)
		if !o.Say.Stay && o.Leave == 0 {
			o.Leave = 1
		}
	}
}

func nilOf(v any) bool {
	if v == nil {
		return true
	}
	x := reflect.ValueOf(v)
	return x.Kind() == reflect.Interface && x.IsNil()
}

func sameStatus(a, b error) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return proto.Equal(status.Convert(a).Proto(), status.Convert(b).Proto())
}

func has(md, part metadata.MD) bool {
	for k, v := range part {
		if strings.Join(md[k], ",") != strings.Join(v, ",") {
			return false
		}
	}
	return len(md) == len(part)
}

type ctxKey struct{}

func (w routing) run() {
	service, _ := w.is()
	type binding struct {
		client any
		conn   *fakeConn
	}
	s := &side{}
	made := 0
	mk := func(kind string) binding {
		made++
		c := &fakeConn{fmt.Sprint(kind, " ", made), s}
		return binding{service.Client(c), c}
	}
	registry := map[string]binding{}
	helped := map[string]binding{}
	for _, n := range routeNames {
		helped[n] = mk("fallback")
	}
	var born []binding // by the factory
	var log, want []router.Change
	var r Router
	busy := func() { // no locks are held when calling back
		for _, n := range routeNames {
			r.Has(n)
		}
	}
	opts := []router.Option{
		service.Factory(func(n string) (any, error) {
			busy()
			if !knownIn(w.Makes, n) {
				return nil, errors.New("unknown to the factory")
			}
			born = append(born, mk("factory"))
			return born[len(born)-1].client, nil
		}),
		router.WithFallback(func(n string) (any, error) {
			busy()
			if !knownIn(w.Helps, n) {
				return nil, errors.New("unknown to the fallback")
			}
			return helped[n].client, nil
		}),
	}
	if w.Callback {
		opts = append(opts, router.WithOnChange(func(c router.Change) {
			busy()
			log = append(log, c)
		}))
	}
	r = service.Router(opts...)
	typed := func(prefix string, args ...any) []reflect.Value {
		t := reflect.TypeOf(r)
		for i := 0; i < t.NumMethod(); i++ {
			if n := t.Method(i).Name; strings.HasPrefix(n, prefix) && strings.HasSuffix(n, "Client") {
				f := reflect.ValueOf(r).Method(i)
				var in []reflect.Value
				for j, a := range args {
					in = append(in, reflect.ValueOf(a).Convert(f.Type().In(j)))
				}
				return f.Call(in)
			}
		}
		gv.Assert("the router has the typed methods", false)
		return nil
	}
	// want what Get of a name gives, and what it changes
	get := func(n string) (binding, bool) {
		if b, ok := registry[n]; ok {
			return b, true
		}
		if knownIn(w.Helps, n) {
			return helped[n], true
		}
		return binding{}, knownIn(w.Makes, n)
	}
	bound := func(n string, wanted int) { // after a Get that may have used the factory
		if _, ok := registry[n]; ok || knownIn(w.Helps, n) || !knownIn(w.Makes, n) {
			gv.Assert("the factory is used only for names without a client", len(born) == wanted)
			return
		}
		gv.Assert("the factory makes one client", len(born) == wanted+1)
		registry[n] = born[wanted]
		want = append(want, router.Change{Name: n, New: born[wanted].client, Auto: true})
	}
	add := func(n string, b binding, typ bool) {
		old := registry[n]
		var got any
		if typ {
			got = typed("Add", n, b.client)[0].Interface()
		} else {
			got = r.Add(n, b.client)
		}
		gv.Assert("Add returns the previous client", got == old.client)
		registry[n] = b
		want = append(want, router.Change{Name: n, Old: old.client, New: b.client})
	}
	for i := 0; i < w.Added; i++ {
		add(routeNames[i+len(w.Ops)%2], mk("added"), i%2 == 0)
	}
	wrapped := service.Wrap(r)
	for _, o := range w.Ops {
		births := len(born)
		switch o.Kind {
		case "add":
			add(o.Name, mk("added"), o.Typed)
		case "remove":
			old, ok := registry[o.Name]
			var got any
			if o.Typed {
				got = typed("Remove", o.Name)[0].Interface()
			} else {
				got = r.Remove(o.Name)
			}
			gv.Assert("Remove returns the removed client", got == old.client)
			delete(registry, o.Name)
			if ok {
				want = append(want, router.Change{Name: o.Name, Old: old.client})
			}
		case "has":
			_, ok := registry[o.Name]
			gv.Assert("Has reports whether a client is registered", r.Has(o.Name) == ok)
		case "holds":
			gv.Assert("HoldsType tells the service's clients", r.HoldsType(mk("spare").client) && !r.HoldsType("x") && !r.HoldsType(nil))
			func() {
				defer func() { gv.Assert("Add refuses what isn't a client of the service", recover() != nil) }()
				r.Add(o.Name, "x")
			}()
			_, ok := registry[o.Name]
			gv.Assert("what Add refuses is not registered", r.Has(o.Name) == ok)
		case "get":
			b, ok := get(o.Name)
			var got any
			var err error
			if o.Typed {
				v := typed("Get", o.Name)
				got = v[0].Interface()
				err, _ = v[1].Interface().(error)
			} else {
				got, err = r.Get(o.Name)
			}
			bound(o.Name, births)
			if b.client == nil {
				b = registry[o.Name]
			}
			gv.Assert("Get finds a client if there is one", ok == (err == nil))
			if ok {
				gv.Assert("Get returns the client registered, supplied by the fallback, or created by the factory", got == b.client)
			} else {
				gv.Assert("a name with no client is NotFound", status.Code(err) == codes.NotFound && nilOf(got))
			}
		case "call":
			var m Method
			for _, x := range MethodsOf(service.Desc) {
				if x.Name == o.To {
					m = x
				}
			}
			b, ok := get(o.Name)
			s.calls, s.say, s.seen = nil, o.Say, make(chan struct{}, 100)
			res := o.do(s, r, wrapped, m)
			bound(o.Name, births)
			if b.client == nil {
				b = registry[o.Name]
			}
			if !ok {
				gv.Assert("a name with no client is NotFound", status.Code(res.err) == codes.NotFound)
				gv.Assert("a request naming no client touches none", len(s.take()) == 0)
				gv.Reach("not found")
				break
			}
			calls := s.take()
			gv.Assert("the request is forwarded exactly once", len(calls) == 1)
			c := calls[0]
			gv.Assert("the request goes to the client with its name", c.conn == b.conn.id)
			gv.Assert("the request goes to the method it is for", c.method == "/"+service.Desc.ServiceName+"/"+m.Name)
			gv.Assert("the request passes unaltered", c.req == nil || proto.Equal(c.req, o.Req))
			if !o.Wrap {
				gv.Assert("the call is made in the caller's context", c.ctx.Value(ctxKey{}) == "value")
			}
			o.check(res, c, m)
		}
	}
	if w.Callback {
		gv.Assert("the change callback is called once for each change", len(log) == len(want))
		for i := range want {
			gv.Assert("the change callback is told each change", log[i] == want[i])
		}
	}
	gv.Reach("ended")
}

// received is what a caller has got.
type received struct {
	msgs    []proto.Message
	err     error
	header  metadata.MD
	trailer metadata.MD
}

var errGone = errors.New("the caller has gone")

// do makes the call, through the wrapper or of the router itself.
func (o routeOp) do(s *side, r Router, wrapped any, m Method) received {
	var res received
	ctx, cancel := context.WithCancel(context.WithValue(context.Background(), ctxKey{}, "value"))
	defer cancel()
	end := time.AfterFunc(15*time.Second, cancel)
	defer end.Stop()
	req := proto.Clone(o.Req)
	s.leave = func() {
		if o.Leave <= 0 {
			cancel()
		}
	}
	if !o.Wrap {
		if !m.Streams {
			x, err := m.Call(ctx, r, req)
			if err != nil {
				res.err = err
				return res
			}
			res.msgs = []proto.Message{x}
			return res
		}
		ss := &ServerStream{Ctx: ctx, Req: req}
		ss.OnSend = func(x proto.Message) error {
			if len(res.msgs) == o.Leave-1 && !o.Say.Stay {
				return errGone
			}
			res.msgs = append(res.msgs, proto.Clone(x))
			if o.Say.Stay && len(res.msgs) == o.Leave {
				cancel()
			}
			s.seen <- struct{}{}
			return nil
		}
		ss.OnHeader = func() { s.seen <- struct{}{} }
		res.err = m.Serve(r, ss)
		if calls := s.take(); o.Leave > 0 && len(res.msgs) < o.Leave && len(calls) > 0 {
			// the caller's context isn't done yet
			gv.Assert("when the caller can't be sent to, the request to the client ends", gv.Eventually(func() bool { return calls[0].ctx.Err() != nil }))
			gv.Reach("send failed")
		}
		ss.mu.Lock()
		res.header, res.trailer = ss.Header, ss.Trailer
		ss.mu.Unlock()
		return res
	}
	out := reflect.ValueOf(wrapped).MethodByName(m.Name).Call([]reflect.Value{reflect.ValueOf(ctx), reflect.ValueOf(req)})
	if err, _ := out[1].Interface().(error); err != nil {
		res.err = err
		return res
	}
	if !m.Streams {
		res.msgs = []proto.Message{out[0].Interface().(proto.Message)}
		return res
	}
	cs := out[0].Interface().(grpc.ClientStream)
	res.header, _ = cs.Header()
	s.seen <- struct{}{}
	for {
		x := New(m.Out)
		if err := cs.RecvMsg(x); err != nil {
			if err != io.EOF {
				res.err = err
			}
			break
		}
		res.msgs = append(res.msgs, x)
		if len(res.msgs) == o.Leave {
			cancel()
		}
		s.seen <- struct{}{}
	}
	res.trailer = cs.Trailer()
	return res
}

// check compares what the caller got with what the client's connection said.
func (o routeOp) check(res received, c routed, m Method) {
	if !m.Streams {
		if o.Say.Stay {
			gv.Assert("a call ends when its caller goes", status.Code(res.err) == codes.Canceled)
			return
		}
		gv.Assert("the status passes unaltered", sameStatus(res.err, o.Say.Err))
		if res.err == nil {
			gv.Assert("the response passes unaltered", len(res.msgs) == 1 && proto.Equal(res.msgs[0], o.Say.Msgs[0]))
		}
		gv.Reach("unary")
		return
	}
	for i, x := range res.msgs {
		gv.Assert("the responses pass in order, unaltered", i < len(o.Say.Msgs) && proto.Equal(x, o.Say.Msgs[i]))
	}
	if o.Leave >= 0 {
		gv.Assert("when the caller has gone, so has the request to the client", gv.Eventually(func() bool { return c.ctx.Err() != nil }))
		gv.Reach("left")
		return
	}
	gv.Assert("all the responses pass", len(res.msgs) == len(o.Say.Msgs))
	gv.Assert("the status of the stream passes unaltered", sameStatus(res.err, o.Say.Err))
	if o.Say.Broken == 0 {
		gv.Assert("the stream's header passes unaltered", has(res.header, o.Say.Header))
		gv.Assert("the stream's trailer passes unaltered", has(res.trailer, o.Say.Trailer))
	}
	gv.Reach("stream")
}

func gvg_Forwarding(g *gv.Gen) routing { return gvRouting(g) }

// A router forwards each request to the client with the name it has, and passes on what that answers.
//
//gv:property C12
//gv:for router.NewRouter covers router.Get router.Add router.Remove router.Has router.HoldsType router.WithFactory router.WithFallback router.WithOnChange
//gv:bounded each method of each of the services in turn, through its generated router and wrapper; histories of up to 10 calls over 4 names, generated requests, up to 4 responses, headers, trailers and errors at any position, callers that go at any point
//gv:run 12
func gvc_Forwarding(w routing) { w.run() }

func gvg_ForwardingRegenerated(g *gv.Gen) routing { return gvRouting(g) }

// So do the routers and wrappers that the generators produce from the current API descriptors.
//
//gv:property C12
//gv:for router.NewRouter covers protoc-gen-router protoc-gen-wrapper
//gv:bounded as Forwarding, with every generated router and wrapper replaced by what the repository's generators produce on the same run
//gv:regen
//gv:run 12
func gvc_ForwardingRegenerated(w routing) { w.run() }

// Each service of the API descriptors has a router and a wrapper, for all its methods.
//
//gv:property C12
//gv:for router.NewRouter covers protoc-gen-router protoc-gen-wrapper
//gv:bounded all the services of the API descriptors the repository is linked with
//gv:once
func gvc_ServicesRouted() {
	have := map[string]bool{}
	for _, s := range Services {
		have[s.Desc.ServiceName] = true
		for _, m := range MethodsOf(s.Desc) {
			gv.Assert("the methods of the descriptor can be called", m.unary != nil || m.stream != nil)
		}
	}
	protoregistry.GlobalFiles.RangeFiles(func(f protoreflect.FileDescriptor) bool {
		for i := 0; i < f.Services().Len(); i++ {
			n := string(f.Services().Get(i).FullName())
			gv.Assert("the service has a router: "+n, !strings.HasPrefix(n, "smartcore.") || have[n])
		}
		return true
	})
}
