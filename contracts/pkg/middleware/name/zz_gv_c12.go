package name

import (
	"context"
	"errors"
	"reflect"

	"github.com/smart-core-os/sc-golang/internal/gv"
	"github.com/smart-core-os/sc-golang/internal/gvall"
	"google.golang.org/grpc"
	"google.golang.org/grpc/metadata"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/structpb"
)

// absent is a call through the interceptors.
type absent struct {
	Name   string
	Req    any
	Fails  bool // the handler, or receiving the request
	Stream bool
}

var turn int

func gvg_IfAbsent(g *gv.Gen) absent {
	r := absent{Name: g.Str(), Fails: g.R.Intn(4) == 0, Stream: g.R.Intn(2) == 0}
	switch g.R.Intn(12) {
	case 0:
		r.Req = []any{nil, "name", struct{ Name string }{}, &struct{ Name string }{}, 3}[g.R.Intn(5)]
		return r
	case 1: // no name, or one that isn't a string
		r.Req = []proto.Message{&durationpb.Duration{Seconds: 1}, structpb.NewStringValue("x"), &descriptorpb.UninterpretedOption{}, &descriptorpb.UninterpretedOption{Name: []*descriptorpb.UninterpretedOption_NamePart{{}}}, &descriptorpb.FieldDescriptorProto{}, &descriptorpb.FieldDescriptorProto{Name: proto.String("")}, &descriptorpb.FieldDescriptorProto{Name: proto.String("a")}}[g.R.Intn(7)]
		return r
	}
	n := turn
	turn++
	for i := 0; ; i++ {
		ms := gvall.MethodsOf(gvall.Services[i%len(gvall.Services)].Desc)
		if n >= len(ms) {
			n -= len(ms)
			continue
		}
		m := gvall.New(ms[n].In)
		g.Message(m.ProtoReflect(), 0)
		r.Req = m
		if f := m.ProtoReflect().Descriptor().Fields().ByName("name"); f != nil {
			m.ProtoReflect().Clear(f)
			if g.R.Intn(2) == 0 {
				m.ProtoReflect().Set(f, protoreflect.ValueOfString([]string{"", "a", " ", r.Name}[g.R.Intn(4)]))
			}
		}
		return r
	}
}

// specName is what a request with the name filled in is like.
func specName(req any, name string) any {
	m, ok := req.(proto.Message)
	if !ok {
		return req
	}
	m = proto.Clone(m)
	f := m.ProtoReflect().Descriptor().Fields().ByName("name")
	if f == nil || f.Kind() != protoreflect.StringKind || f.IsList() || m.ProtoReflect().Get(f).String() != "" {
		return m
	}
	m.ProtoReflect().Set(f, protoreflect.ValueOfString(name))
	return m
}

func same(a, b any) bool {
	m, ok := a.(proto.Message)
	n, ok2 := b.(proto.Message)
	if ok && ok2 {
		return proto.Equal(m, n)
	}
	return reflect.DeepEqual(a, b)
}

type key struct{}

var errFails = errors.New("fails")

// fakeStream is a stream of one request.
type fakeStream struct {
	grpc.ServerStream
	ctx  context.Context
	req  proto.Message
	err  error
	n    int
	sent []any
}

func (s *fakeStream) Context() context.Context        { return s.ctx }
func (s *fakeStream) SendHeader(md metadata.MD) error { s.sent = append(s.sent, md); return nil }
func (s *fakeStream) SendMsg(m any) error             { s.sent = append(s.sent, m); return s.err }
func (s *fakeStream) RecvMsg(m any) error {
	s.n++
	if s.err != nil {
		return s.err
	}
	proto.Merge(m.(proto.Message), s.req)
	return nil
}

// The interceptors fill in names that are empty, only, and are transparent otherwise.
//
//gv:property C12
//gv:for IfAbsentUnaryInterceptor covers IfAbsentStreamInterceptor replaceEmptyNameField absentNameReplaceServerStream.RecvMsg
//gv:bounded generated requests of all the methods of all the services, messages with no name or one that isn't a string, and requests that aren't messages
//gv:run 4
func gvc_IfAbsent(w absent) {
	want := specName(w.Req, w.Name)
	var fails error
	if w.Fails {
		fails = errFails
	}
	if !w.Stream {
		calls := 0
		info := &grpc.UnaryServerInfo{FullMethod: "x"}
		ctx := context.WithValue(context.Background(), key{}, "v")
		res, err := IfAbsentUnaryInterceptor(w.Name)(ctx, w.Req, info, func(c context.Context, req any) (any, error) {
			calls++
			gv.Ensures("only an empty name is filled in", same(req, want))
			gv.Ensures("the context is passed on", c.Value(key{}) == "v")
			return "response", fails
		})
		gv.Ensures("the handler is called once", calls == 1)
		gv.Ensures("what the handler returns is returned", res == "response" && err == fails)
		gv.Reach("unary")
		return
	}
	m, ok := w.Req.(proto.Message)
	gv.Requires(ok)
	ss := &fakeStream{ctx: context.WithValue(context.Background(), key{}, "v"), req: m, err: fails}
	calls := 0
	err := IfAbsentStreamInterceptor(w.Name)("srv", ss, &grpc.StreamServerInfo{FullMethod: "x", IsServerStream: true}, func(srv any, s grpc.ServerStream) error {
		calls++
		gv.Ensures("the server is passed on", srv == "srv")
		gv.Ensures("the stream's context is passed on", s.Context().Value(key{}) == "v")
		got := m.ProtoReflect().New().Interface()
		err := s.RecvMsg(got)
		gv.Ensures("what receiving returns is returned", err == fails && ss.n == 1)
		if err == nil {
			gv.Ensures("only an empty name is filled in", same(got, want))
		} else {
			gv.Ensures("nothing is filled in if nothing was received", same(got, m.ProtoReflect().New().Interface()))
		}
		gv.Ensures("what sending returns is returned", s.SendMsg(m) == fails)
		_ = s.SendHeader(metadata.Pairs("a", "b"))
		return fails
	})
	gv.Ensures("the handler is called once", calls == 1 && err == fails)
	gv.Ensures("what is sent is passed on", len(ss.sent) == 2 && ss.sent[0] == any(m) && same(ss.sent[1], metadata.Pairs("a", "b")))
	gv.Reach("stream")
}
