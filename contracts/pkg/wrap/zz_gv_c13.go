package wrap

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/smart-core-os/sc-golang/internal/gv"
	"github.com/smart-core-os/sc-golang/internal/testproto"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/credentials/insecure"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"
	"google.golang.org/grpc/test/bufconn"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protodesc"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"
	"google.golang.org/protobuf/types/dynamicpb"
	"google.golang.org/protobuf/types/known/durationpb"
)

// ---- scripts

const (
	unary       = iota
	unaryStream // a unary method, called as a stream
	serverStreams
	clientStreams
	bidi
	shapes
)

const (
	evUp         = iota // the client sends, the server receives
	evDown              // the server sends, the client receives
	evHalf              // the client closes its side, the server finds out
	evSetHeader         // by the server, as are the next two
	evSendHeader        //
	evSetTrailer        //
	evHeader            // the client reads the header
	evCancel            // the client's context is cancelled, the server finds out
	evExpire            // the client's context's deadline expires, the server finds out
	evLate              // the server tries what it can't do any more
)

type ev struct {
	kind int
	msg  string
	md   metadata.MD
}

// script is what happens in a call, in this order. The server returns, and the client receives until the end, last.
type script struct {
	shape    int
	out      metadata.MD // sent by the client
	evs      []ev
	err      int    // kind of error returned by the server
	code     int    // its code
	text     string // its message
	response bool   // the server sends, or returns, a response before it returns
	watch    bool   // the client waits for the header all along
	reuse    bool   // both receive into the same message again and again
	viaCtx   bool   // the server uses grpc.SetHeader and so on
	dynamic  bool   // the client's messages are of another type, with another descriptor
	closes   bool   // the client closes its side before the last receive
}

const (
	errNone = iota
	errStatus
	errDetails
	errPlain
	errWrapped
	errEOF
	errCanceled
	errDeadline
	errKinds
)

func (s script) end() error {
	switch s.err {
	case errStatus:
		return status.Error(codes.Code(s.code), s.text)
	case errDetails:
		st, _ := status.New(codes.Code(s.code), s.text).WithDetails(&durationpb.Duration{Seconds: int64(s.code)})
		return st.Err()
	case errPlain:
		return errors.New(s.text)
	case errWrapped:
		return fmt.Errorf("wrapped: %w", status.Error(codes.Code(s.code), s.text))
	case errEOF:
		return io.EOF
	case errCanceled:
		return context.Canceled
	case errDeadline:
		return fmt.Errorf("%s: %w", s.text, context.DeadlineExceeded)
	}
	return nil
}

func (s script) gone() bool {
	for _, e := range s.evs {
		if e.kind == evCancel || e.kind == evExpire {
			return true
		}
	}
	return false
}

func gvMD(g *gv.Gen) metadata.MD {
	md := metadata.MD{}
	for i := g.R.Intn(3); i > 0; i-- {
		k := []string{"k", "user-key", "b-bin"}[g.R.Intn(3)]
		md[k] = append(md[k], []string{"", "v", "w, x", "%20"}[g.R.Intn(4)])
	}
	return md
}

func gvg_SameAsGRPC(g *gv.Gen) script {
	s := script{shape: g.R.Intn(shapes), code: 1 + g.R.Intn(16), text: []string{"", "oops", "100% €\n", "a: b"}[g.R.Intn(4)],
		response: g.R.Intn(8) > 0, watch: g.R.Intn(4) == 0, reuse: g.R.Intn(2) == 0, viaCtx: g.R.Intn(2) == 0, closes: g.R.Intn(2) == 0, dynamic: g.R.Intn(4) == 0}
	if g.R.Intn(2) == 0 {
		s.err = g.R.Intn(errKinds)
	}
	if s.shape == clientStreams || s.shape == bidi {
		s.response = s.response && s.err == errNone || g.R.Intn(4) == 0
	}
	s.out = gvMD(g)
	half, sent, gone := false, false, false
	add := func(k int) {
		s.evs = append(s.evs, ev{kind: k, msg: fmt.Sprint("m", len(s.evs)), md: gvMD(g)})
	}
	switch s.shape {
	case unary, unaryStream, serverStreams:
		half = true
		if s.shape != unary {
			add(evUp)
			add(evHalf)
		}
	}
	ups, downs := 0, 0
	for n := g.R.Intn(9); n > 0; n-- {
		if gone {
			switch k := g.R.Intn(4); k {
			case 0:
				add(evSetTrailer)
			case 1:
				add(evLate)
			}
			continue
		}
		switch k := g.R.Intn(12); {
		case k < 2 && !half && ups < 5:
			ups++
			add(evUp)
		case k < 5 && (s.shape == bidi || s.shape == serverStreams) && downs < 5:
			downs++
			sent = true
			add(evDown)
		case k == 5 && !half && (s.shape == clientStreams || s.shape == bidi):
			half = true
			add(evHalf)
		case k == 6:
			add(evSetHeader)
		case k == 7:
			sent = true
			add(evSendHeader)
		case k == 8 || k == 9:
			add(evSetTrailer)
		case k == 10 && sent && s.shape != unary:
			add(evHeader)
		case k == 11 && g.R.Intn(2) == 0:
			gone = true
			add(evCancel + g.R.Intn(2))
		}
	}
	if gone {
		s.response = false
	}
	return s
}

// ---- transcripts

// seen is what the client, and the server, see of a call.
type seen struct {
	Up, Down []string
	Headers  []string // as of evHeader events
	Code     codes.Code
	Message  string
	Details  []string
	Header   string
	Trailer  string
	Incoming string
}

func userMD(md metadata.MD) string {
	var r []string
	for k, v := range md {
		switch {
		case strings.HasPrefix(k, ":") || strings.HasPrefix(k, "grpc-") || k == "content-type" || k == "user-agent" || len(v) == 0:
		default:
			r = append(r, fmt.Sprintf("%s=%q", k, v))
		}
	}
	sort.Strings(r)
	return strings.Join(r, " ")
}

// ---- playing scripts

// copied is a message that was received, and what it had then.
type copied struct{ got, was proto.Message }

type play struct {
	script
	seen
	conn    grpc.ClientConnInterface
	server  chan func(grpc.ServerStream) // what the server has to do next
	started chan struct{}
	ended   chan struct{} // the handler has returned
	mu      sync.Mutex
	copies  []copied
	failed  []string
	inMsg   proto.Message // that is received into, by the server
	outMsg  proto.Message // that is received into, by the client
}

func (p *play) fails(what string, a ...any) {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.failed = append(p.failed, fmt.Sprintf(what, a...))
}

// sending is m, to be sent by send. Neither m nor what was received changes because of the other.
func (p *play) sending(m proto.Message, send func(any) error) {
	was := proto.Clone(m)
	if err := send(m); err != nil {
		p.fails("sends: %v", err)
	}
	if !proto.Equal(m, was) {
		p.fails("sent messages are left as they are")
	}
	setText(m, "scribbled by the sender")
}

func (p *play) received(m proto.Message) string {
	r := textOf(m)
	if !p.reuse {
		p.mu.Lock()
		p.copies = append(p.copies, copied{m, proto.Clone(m)})
		p.mu.Unlock()
	} else {
		setText(m, "scribbled by the receiver")
	}
	return r
}

// typed is m, as a message of a generated type.
func typed(m proto.Message) proto.Message {
	d, ok := m.(*dynamicpb.Message)
	if !ok {
		return m
	}
	t, err := protoregistry.GlobalTypes.FindMessageByName(d.Descriptor().FullName())
	if err != nil {
		panic(err)
	}
	r := t.New().Interface()
	b, _ := proto.Marshal(d)
	_ = proto.Unmarshal(b, r)
	return r
}

// another has the descriptors of the test messages, that are not those of their generated types.
var another = func() protoreflect.FileDescriptor {
	f, err := protodesc.NewFile(protodesc.ToFileDescriptorProto((&testproto.UnaryRequest{}).ProtoReflect().Descriptor().ParentFile()), protoregistry.GlobalFiles)
	if err != nil {
		panic(err)
	}
	return f
}()

// clients is m, as a message of the client's.
func (p *play) clients(m proto.Message) proto.Message {
	if !p.dynamic {
		return m
	}
	d := dynamicpb.NewMessage(another.Messages().ByName(m.ProtoReflect().Descriptor().Name()))
	b, _ := proto.Marshal(m)
	_ = proto.Unmarshal(b, d)
	return d
}

func textOf(m proto.Message) string {
	switch m := typed(m).(type) {
	case *testproto.ServerStreamRequest:
		return m.SimulateError
	case *testproto.ServerStreamResponse:
		return fmt.Sprint("m", m.Counter)
	case interface{ GetMsg() string }:
		return m.GetMsg()
	}
	return fmt.Sprintf("%T", m)
}

func setText(m proto.Message, s string) {
	switch m := m.(type) {
	case *dynamicpb.Message:
		t := typed(m)
		setText(t, s)
		b, _ := proto.Marshal(t)
		_ = proto.Unmarshal(b, m)
	case *testproto.UnaryRequest:
		m.Msg = s
	case *testproto.UnaryResponse:
		m.Msg = s
	case *testproto.ServerStreamRequest:
		m.SimulateError, m.NumRes = s, m.NumRes+1
	case *testproto.ServerStreamResponse:
		m.Counter = -1
		fmt.Sscanf(s, "m%d", &m.Counter)
	case *testproto.ClientStreamRequest:
		m.Msg, m.SimulateError = s, m.SimulateError+"x"
	case *testproto.ClientStreamResponse:
		m.Msg = s
	case *testproto.BidiStreamRequest:
		m.Msg, m.SimulateError = s, m.SimulateError+"x"
	case *testproto.BidiStreamResponse:
		m.Msg = s
	}
}

func (p *play) request() proto.Message {
	switch p.shape {
	case unary, unaryStream:
		return &testproto.UnaryRequest{}
	case serverStreams:
		return &testproto.ServerStreamRequest{}
	case clientStreams:
		return &testproto.ClientStreamRequest{}
	}
	return &testproto.BidiStreamRequest{}
}

func (p *play) reply() proto.Message {
	switch p.shape {
	case unary, unaryStream:
		return &testproto.UnaryResponse{}
	case serverStreams:
		return &testproto.ServerStreamResponse{}
	case clientStreams:
		return &testproto.ClientStreamResponse{}
	}
	return &testproto.BidiStreamResponse{}
}

func (p *play) into(m *proto.Message, fresh func() proto.Message) proto.Message {
	if *m == nil || !p.reuse {
		*m = fresh()
		if p.reuse {
			setText(*m, "dirty")
		}
	}
	return *m
}

// unaryServer is the stream of a unary call, as far as its server has one.
type unaryServer struct{ ctx context.Context }

func (s unaryServer) SetHeader(md metadata.MD) error  { return grpc.SetHeader(s.ctx, md) }
func (s unaryServer) SendHeader(md metadata.MD) error { return grpc.SendHeader(s.ctx, md) }
func (s unaryServer) SetTrailer(md metadata.MD)       { _ = grpc.SetTrailer(s.ctx, md) }
func (s unaryServer) Context() context.Context        { return s.ctx }
func (s unaryServer) SendMsg(m any) error             { return io.EOF }
func (s unaryServer) RecvMsg(m any) error             { return io.EOF }

// serve is the handler of all methods.
func (p *play) serve(ss grpc.ServerStream) error {
	md, _ := metadata.FromIncomingContext(ss.Context())
	p.Incoming = userMD(md)
	close(p.started)
	for f := range p.server {
		f(ss)
	}
	if p.response && p.shape != unary && p.shape != unaryStream {
		m := p.reply()
		setText(m, "m100")
		p.sending(m, ss.SendMsg)
	}
	return p.end()
}

var ended = errors.New("the call is taking too long")

// both runs a step of the server and one of the client, and waits for them.
func (p *play) both(server func(grpc.ServerStream), client func()) {
	done := make(chan struct{}, 2)
	n := 0
	if server != nil {
		n++
		select {
		case p.server <- func(ss grpc.ServerStream) {
			defer func() { done <- struct{}{} }()
			server(ss)
		}:
		case <-time.After(5 * time.Second):
			panic(ended)
		}
	}
	if client != nil {
		n++
		go func() {
			defer func() { done <- struct{}{} }()
			client()
		}()
	}
	for ; n > 0; n-- {
		select {
		case <-done:
		case <-time.After(5 * time.Second):
			panic(ended)
		}
	}
}

// expiring is a context that is done when asked to.
type expiring struct {
	context.Context
	done chan struct{}
	mu   sync.Mutex
	err  error
}

func (e *expiring) Done() <-chan struct{} { return e.done }
func (e *expiring) Err() error {
	e.mu.Lock()
	defer e.mu.Unlock()
	return e.err
}
func (e *expiring) end(err error) {
	e.mu.Lock()
	defer e.mu.Unlock()
	if e.err == nil {
		e.err = err
		close(e.done)
	}
}

var methods = []string{"Unary", "Unary", "ServerStream", "ClientStream", "BidiStream"}

func (p *play) terminal(err error) {
	if err == io.EOF {
		err = nil
	}
	st, ok := status.FromError(err)
	if !ok {
		p.fails("errors have a status: %v", err)
	}
	p.Code, p.Message = st.Code(), st.Message()
	for _, d := range st.Details() {
		p.Details = append(p.Details, fmt.Sprint(d))
	}
	if p.gone() {
		p.Message, p.Details = "", nil
	}
}

// run plays the script.
func (p *play) run() {
	exp := &expiring{Context: metadata.NewOutgoingContext(context.Background(), p.out), done: make(chan struct{})}
	var ctx context.Context = exp
	expire, cancel := func() { exp.end(context.DeadlineExceeded) }, func() { exp.end(context.Canceled) }
	defer cancel()
	closed := false
	stop := func() {
		if !closed {
			closed = true
			close(p.server)
		}
	}
	defer stop()

	var cs grpc.ClientStream
	var header, trailer metadata.MD
	var result chan error
	name := "/" + testproto.TestApi_ServiceDesc.ServiceName + "/" + methods[p.shape]
	reply := p.into(&p.outMsg, func() proto.Message { return p.clients(p.reply()) })
	if p.shape == unary {
		result = make(chan error, 1)
		go func() {
			m := p.clients(p.request())
			setText(m, "m7")
			was := proto.Clone(m)
			result <- p.conn.Invoke(ctx, name, m, reply, grpc.Header(&header), grpc.Trailer(&trailer))
			if !proto.Equal(m, was) && !p.gone() {
				p.fails("requests are left as they are")
			}
		}()
	} else {
		var err error
		cs, err = p.conn.NewStream(ctx, &grpc.StreamDesc{StreamName: methods[p.shape], ServerStreams: p.shape == serverStreams || p.shape == bidi, ClientStreams: p.shape == clientStreams || p.shape == bidi}, name)
		if err != nil {
			p.fails("new streams: %v", err)
			return
		}
	}
	// the request of these is received before their handler runs
	evs := p.evs
	if p.shape == unaryStream || p.shape == serverStreams {
		m := p.clients(p.request())
		setText(m, evs[0].msg)
		done := make(chan struct{})
		go func() {
			defer close(done)
			p.sending(m, cs.SendMsg)
			if err := cs.CloseSend(); err != nil {
				p.fails("closes: %v", err)
			}
		}()
		select {
		case <-done:
		case <-time.After(5 * time.Second):
			panic(ended)
		}
		evs = evs[2:]
	}
	select {
	case <-p.started:
	case <-time.After(5 * time.Second):
		panic(ended)
	}
	var watched chan metadata.MD
	if p.watch && cs != nil {
		watched = make(chan metadata.MD, 1)
		go func() {
			md, err := cs.Header()
			if err != nil {
				p.fails("headers: %v", err)
			}
			watched <- md
		}()
	}
	// a header that the client hasn't seen when it cancels is lost, or not
	sawHeader, half := false, p.shape <= serverStreams
	for _, e := range evs {
		var viaCtx bool
		switch e.kind {
		case evUp:
			p.both(func(ss grpc.ServerStream) {
				m := p.into(&p.inMsg, p.request)
				if err := ss.RecvMsg(m); err != nil {
					p.fails("server receives: %v", err)
				}
				p.Up = append(p.Up, p.received(m))
			}, func() {
				m := p.clients(p.request())
				setText(m, e.msg)
				p.sending(m, cs.SendMsg)
			})
		case evDown:
			sawHeader = true
			p.both(func(ss grpc.ServerStream) {
				m := p.reply()
				setText(m, e.msg)
				p.sending(m, ss.SendMsg)
			}, func() {
				m := p.into(&p.outMsg, func() proto.Message { return p.clients(p.reply()) })
				if err := cs.RecvMsg(m); err != nil {
					p.fails("client receives: %v", err)
				}
				p.Down = append(p.Down, p.received(m))
			})
		case evHalf:
			half = true
			p.both(func(ss grpc.ServerStream) {
				if err := ss.RecvMsg(p.request()); err != io.EOF {
					p.fails("server receives io.EOF: %v", err)
				}
			}, func() {
				if err := cs.CloseSend(); err != nil {
					p.fails("closes: %v", err)
				}
			})
		case evSetHeader, evSendHeader, evSetTrailer:
			viaCtx = p.viaCtx
			p.both(func(ss grpc.ServerStream) {
				if viaCtx {
					ss = unaryServer{ss.Context()}
				}
				md := metadata.Join(e.md)
				switch e.kind {
				case evSetHeader:
					_ = ss.SetHeader(md)
				case evSendHeader:
					_ = ss.SendHeader(md)
				default:
					ss.SetTrailer(md)
				}
				for _, v := range md { // it's the server's
					for i := range v {
						v[i] = "scribbled"
					}
				}
			}, nil)
		case evHeader:
			sawHeader = true
			p.both(nil, func() {
				md, err := cs.Header()
				if err != nil {
					p.fails("headers: %v", err)
				}
				p.Headers = append(p.Headers, userMD(md))
				for _, v := range md { // it's the client's
					for i := range v {
						v[i] = "scribbled by the client"
					}
				}
				md["scribbled"] = []string{"by the client"}
			})
		case evCancel, evExpire:
			p.both(func(ss grpc.ServerStream) { <-ss.Context().Done() }, func() {
				if e.kind == evCancel {
					cancel()
				} else {
					expire()
				}
			})
		case evLate:
			p.both(func(ss grpc.ServerStream) {
				_ = ss.SetHeader(e.md)
				if p.shape == unary || p.shape == unaryStream {
					return
				}
				if err := ss.SendMsg(p.reply()); err == nil && p.shape == bidi {
					p.fails("sends after the end fail")
				}
				if err := ss.RecvMsg(p.request()); err == nil {
					p.fails("receives after the end fail")
				}
			}, nil)
		}
	}
	if cs != nil && p.closes && !half && !p.gone() {
		if err := cs.CloseSend(); err != nil {
			p.fails("closes: %v", err)
		}
	}
	stop()
	last := make(chan struct{})
	go func() {
		defer close(last)
		if cs == nil {
			err := <-result
			p.terminal(err)
			if err == nil {
				p.Down = append(p.Down, p.received(reply))
			}
			return
		}
		for i := 0; i < 10; i++ {
			m := p.into(&p.outMsg, func() proto.Message { return p.clients(p.reply()) })
			err := cs.RecvMsg(m)
			if err != nil {
				p.terminal(err)
				break
			}
			p.Down = append(p.Down, p.received(m))
			if p.shape == unaryStream || p.shape == clientStreams {
				break
			}
		}
		var err error
		if header, err = cs.Header(); err != nil {
			p.fails("headers: %v", err)
		}
		trailer = cs.Trailer()
	}()
	select {
	case <-last:
	case <-time.After(5 * time.Second):
		panic(ended)
	}
	if p.gone() && !sawHeader {
		header = nil
	}
	p.Header, p.Trailer = userMD(header), userMD(trailer)
	if watched != nil {
		select {
		case md := <-watched:
			if !p.gone() || sawHeader {
				p.Headers = append(p.Headers, "watched "+userMD(md))
			}
		case <-time.After(5 * time.Second):
			panic(ended)
		}
	}
	if !p.reuse {
		for _, c := range p.copies {
			if !proto.Equal(c.got, c.was) {
				p.fails("received messages don't change")
			}
		}
	}
}

// ---- the server

type playServer struct {
	testproto.UnimplementedTestApiServer
	now *play
}

func (s *playServer) Unary(ctx context.Context, req *testproto.UnaryRequest) (*testproto.UnaryResponse, error) {
	p := s.now
	defer close(p.ended)
	p.mu.Lock()
	p.Up = append(p.Up, req.Msg)
	p.mu.Unlock()
	req.Msg = "scribbled by the receiver"
	err := p.serve(unaryServer{ctx})
	if err != nil {
		return nil, err
	}
	if !p.response {
		return nil, nil
	}
	return &testproto.UnaryResponse{Msg: "m100"}, nil
}

func (s *playServer) ServerStream(req *testproto.ServerStreamRequest, ss testproto.TestApi_ServerStreamServer) error {
	p := s.now
	defer close(p.ended)
	p.Up = append(p.Up, textOf(req))
	setText(req, "scribbled by the receiver")
	return p.serve(ss)
}

func (s *playServer) ClientStream(ss testproto.TestApi_ClientStreamServer) error {
	defer close(s.now.ended)
	return s.now.serve(ss)
}

func (s *playServer) BidiStream(ss testproto.TestApi_BidiStreamServer) error {
	defer close(s.now.ended)
	return s.now.serve(ss)
}

func playOn(srv *playServer, conn grpc.ClientConnInterface, s script) (*play, bool) {
	p := &play{script: s, conn: conn, server: make(chan func(grpc.ServerStream)), started: make(chan struct{}), ended: make(chan struct{})}
	srv.now = p
	slow := false
	func() {
		defer func() {
			if r := recover(); r != nil {
				if r != ended {
					panic(r)
				}
				slow = true
			}
		}()
		p.run()
		select {
		case <-p.ended:
		case <-time.After(5 * time.Second):
			slow = true
		}
	}()
	p.mu.Lock()
	defer p.mu.Unlock()
	return p, !slow
}

var (
	realOnce sync.Once
	realSrv  = &playServer{}
	realConn *grpc.ClientConn
)

func realGRPC() {
	lis := bufconn.Listen(1 << 20)
	srv := grpc.NewServer()
	testproto.RegisterTestApiServer(srv, realSrv)
	go func() { _ = srv.Serve(lis) }()
	var err error
	realConn, err = grpc.NewClient("passthrough:///buf", grpc.WithContextDialer(func(ctx context.Context, _ string) (net.Conn, error) { return lis.DialContext(ctx) }), grpc.WithTransportCredentials(insecure.NewCredentials()))
	if err != nil {
		panic(err)
	}
	_, _ = playOn(realSrv, realConn, script{response: true}) // connects
}

// ---- contracts

// A client can't tell a wrapped server from the same server on the other side of a gRPC connection.
//
//gv:property C13
//gv:for ServerToClient covers wrapper.Invoke wrapper.NewStream ClientServerStream.Close clientStream.SendMsg clientStream.RecvMsg clientStream.Header clientStream.Trailer clientStream.CloseSend serverStream.SendMsg serverStream.RecvMsg serverStream.SetHeader serverStream.SendHeader serverStream.SetTrailer collectMetadata adaptUnaryToStream
//gv:bounded calls of all shapes with up to 9 events (messages both ways, headers, trailers, half-close, cancellation, expiry), generated metadata and errors, played in lock-step on the wrapped server and on a gRPC server
//gv:run 12
func gvc_SameAsGRPC(s script) {
	realOnce.Do(realGRPC)
	want, ok := playOn(realSrv, realConn, s)
	gv.Requires(ok && len(want.failed) == 0)
	base := gv.Goroutines()
	srv := &playServer{}
	got, ok := playOn(srv, ServerToClient(testproto.TestApi_ServiceDesc, srv), s)
	gv.Ensures("calls of the wrapped server end", ok)
	for _, f := range got.failed {
		gv.Ensures(f, false)
	}
	gv.Ensures(fmt.Sprintf("the server receives the same messages: %q, with gRPC %q", got.Up, want.Up), fmt.Sprint(got.Up) == fmt.Sprint(want.Up))
	gv.Ensures(fmt.Sprintf("the client receives the same messages: %q, with gRPC %q", got.Down, want.Down), fmt.Sprint(got.Down) == fmt.Sprint(want.Down))
	gv.Ensures(fmt.Sprintf("the status code is the same: %v, with gRPC %v", got.Code, want.Code), got.Code == want.Code)
	gv.Ensures(fmt.Sprintf("the status message is the same: %q, with gRPC %q", got.Message, want.Message), got.Message == want.Message)
	gv.Ensures("the status details are the same", len(got.Details) == len(want.Details))
	gv.Ensures(fmt.Sprintf("the header is the same: %v, with gRPC %v", got.Header, want.Header), got.Header == want.Header)
	gv.Ensures(fmt.Sprintf("the header is the same whenever it is read: %q, with gRPC %q", got.Headers, want.Headers), fmt.Sprint(got.Headers) == fmt.Sprint(want.Headers))
	gv.Ensures(fmt.Sprintf("the trailer is the same: %v, with gRPC %v", got.Trailer, want.Trailer), got.Trailer == want.Trailer)
	gv.Ensures(fmt.Sprintf("the server gets the same metadata: %v, with gRPC %v", got.Incoming, want.Incoming), got.Incoming == want.Incoming)
	gv.Ensures("no goroutine is left", gv.Settles(base))
}

// shaped is an attempt to call a method with a shape.
type shaped struct {
	name             string
	client, server   bool
	invoke, done     bool
	wantClient, want bool // the method's shape
	known            bool
}

func gvg_Shapes(g *gv.Gen) shaped {
	names := []string{"Unary", "ServerStream", "ClientStream", "BidiStream"}
	i := g.R.Intn(4)
	s := shaped{name: "/" + testproto.TestApi_ServiceDesc.ServiceName + "/" + names[i], want: i == 1 || i == 3, wantClient: i > 1, known: true}
	s.client, s.server, s.invoke, s.done = g.R.Intn(2) == 0, g.R.Intn(2) == 0, g.R.Intn(3) == 0, g.R.Intn(5) == 0
	if g.R.Intn(4) == 0 {
		s.known = false
		s.name = []string{s.name + "x", s.name[1:], "/other/" + names[i], names[i], "", s.name + "/"}[g.R.Intn(6)]
	}
	return s
}

// Unknown methods give Unimplemented, and known ones called with another shape Internal.
//
//gv:property C13
//gv:for ServerToClient covers wrapper.Invoke wrapper.NewStream
//gv:bounded the methods of the test service with each shape, unknown names, and contexts that are done
//gv:run 1
func gvc_Shapes(s shaped) {
	base := gv.Goroutines()
	ctx, cancel := context.WithCancel(context.Background())
	if s.done {
		cancel()
	}
	conn := ServerToClient(testproto.TestApi_ServiceDesc, &testproto.UnimplementedTestApiServer{})
	var err error
	if s.invoke {
		err = conn.Invoke(ctx, s.name, &testproto.UnaryRequest{}, &testproto.UnaryResponse{})
		s.client, s.server = false, false
	} else {
		var cs grpc.ClientStream
		cs, err = conn.NewStream(ctx, &grpc.StreamDesc{ClientStreams: s.client, ServerStreams: s.server}, s.name)
		gv.Ensures("there is a stream or an error", (cs == nil) == (err != nil))
	}
	switch code := status.Code(err); {
	case s.done:
		gv.Ensures("calls don't succeed once their context is done", err != nil || !s.invoke)
	case !s.known:
		gv.Ensures("unknown methods are Unimplemented", code == codes.Unimplemented)
	case s.client != s.wantClient || s.server != s.want:
		gv.Ensures("other shapes are Internal", code == codes.Internal || s.invoke && code == codes.Unimplemented)
	case s.invoke:
		gv.Ensures("servers can have unimplemented methods", code == codes.Unimplemented)
	default:
		gv.Ensures("known methods with their shape are found", err == nil)
	}
	cancel()
	gv.Ensures("no goroutine is left", gv.Settles(base))
}

// waits is a call whose deadline passes, or that is cancelled, wherever it is.
type waits struct {
	shape        int
	micros       int
	deadline     bool
	ups, downs   int
	client, srv  int // what they do then
	ignores, nap bool
}

func gvg_Ends(g *gv.Gen) waits {
	return waits{g.R.Intn(shapes), g.R.Intn(400), g.R.Intn(2) == 0, g.R.Intn(3), g.R.Intn(3), g.R.Intn(3), g.R.Intn(5), g.R.Intn(8) == 0, g.R.Intn(2) == 0}
}

type endServer struct {
	testproto.UnimplementedTestApiServer
	w waits
}

func (s *endServer) run(ctx context.Context, ss grpc.ServerStream, in, out proto.Message) error {
	for i := 0; i < s.w.ups && s.w.shape > serverStreams; i++ {
		if err := ss.RecvMsg(in); err != nil {
			return err
		}
	}
	for i := 0; i < s.w.downs && (s.w.shape == serverStreams || s.w.shape == bidi); i++ {
		if err := ss.SendMsg(out); err != nil {
			return err
		}
	}
	if s.w.nap {
		time.Sleep(50 * time.Microsecond)
	}
	switch s.w.srv {
	case 0:
		if s.w.shape > serverStreams {
			for {
				if err := ss.RecvMsg(in); err != nil {
					if s.w.ignores {
						return nil
					}
					return err
				}
			}
		}
	case 1:
		if s.w.shape == serverStreams || s.w.shape == bidi {
			for {
				if err := ss.SendMsg(out); err != nil {
					if s.w.ignores {
						return nil
					}
					return err
				}
			}
		}
	case 2:
		<-ctx.Done()
		return status.Error(codes.DataLoss, "too late")
	}
	<-ctx.Done()
	if s.w.ignores {
		return nil
	}
	return ctx.Err()
}

func (s *endServer) Unary(ctx context.Context, req *testproto.UnaryRequest) (*testproto.UnaryResponse, error) {
	if err := s.run(ctx, nil, nil, nil); err != nil {
		return nil, err
	}
	return &testproto.UnaryResponse{Msg: "too late"}, nil
}

func (s *endServer) ServerStream(req *testproto.ServerStreamRequest, ss testproto.TestApi_ServerStreamServer) error {
	return s.run(ss.Context(), ss, nil, &testproto.ServerStreamResponse{})
}

func (s *endServer) ClientStream(ss testproto.TestApi_ClientStreamServer) error {
	return s.run(ss.Context(), ss, &testproto.ClientStreamRequest{}, &testproto.ClientStreamResponse{})
}

func (s *endServer) BidiStream(ss testproto.TestApi_BidiStreamServer) error {
	return s.run(ss.Context(), ss, &testproto.BidiStreamRequest{}, &testproto.BidiStreamResponse{})
}

// A call that is cancelled, or whose deadline expires, while the server doesn't end it, ends with that outcome, and leaves no goroutine.
//
//gv:property C13
//gv:for ServerToClient covers wrapper.Invoke wrapper.NewStream ClientServerStream.Close clientStream.RecvMsg clientStream.SendMsg serverStream.SendMsg serverStream.RecvMsg
//gv:bounded calls of all shapes, that servers don't end, cancelled or expiring after up to 400 microseconds while either side sends, receives or waits
//gv:sched
//gv:run 4
func gvc_Ends(w waits) {
	base := gv.Goroutines()
	conn := ServerToClient(testproto.TestApi_ServiceDesc, &endServer{w: w})
	ctx, cancel := context.WithCancel(context.Background())
	want := codes.Canceled
	if w.deadline {
		ctx, cancel = context.WithTimeout(context.Background(), time.Duration(w.micros)*time.Microsecond)
		want = codes.DeadlineExceeded
	} else {
		time.AfterFunc(time.Duration(w.micros)*time.Microsecond, cancel)
	}
	defer cancel()
	p := &play{script: script{shape: w.shape}}
	name := "/" + testproto.TestApi_ServiceDesc.ServiceName + "/" + methods[w.shape]
	last := make(chan error, 1)
	go func() {
		if w.shape == unary {
			last <- conn.Invoke(ctx, name, p.request(), p.reply())
			return
		}
		cs, err := conn.NewStream(ctx, &grpc.StreamDesc{ServerStreams: w.shape == serverStreams || w.shape == bidi, ClientStreams: w.shape >= clientStreams}, name)
		if err != nil {
			last <- err
			return
		}
		sends := 1
		if w.shape >= clientStreams {
			sends = w.ups
		}
		for i := 0; i < sends && err == nil; i++ {
			err = cs.SendMsg(p.request())
		}
		if w.shape <= serverStreams {
			err = cs.CloseSend()
		} else if w.client == 0 {
			for err == nil {
				err = cs.SendMsg(p.request())
			}
			if err != io.EOF {
				last <- err
				return
			}
		}
		if w.client == 1 {
			<-ctx.Done()
		}
		for {
			if err = cs.RecvMsg(p.reply()); err != nil {
				last <- err
				return
			}
		}
	}()
	select {
	case err := <-last:
		gv.Ensures(fmt.Sprintf("the outcome is %v: %v", want, err), status.Code(err) == want)
	case <-time.After(5 * time.Second):
		gv.Ensures("the call ends", false)
	}
	gv.Ensures("no goroutine is left", gv.Settles(base))
}
