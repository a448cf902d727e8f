H='''package wrap

import (
	"context"
	"testing"
	"time"

	"github.com/smart-core-os/sc-golang/internal/testproto"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"
%s)

var _ = time.Second
var _ = status.Error
var _ codes.Code
var _ metadata.MD
var _ grpc.ServerStream

type zzServer struct {
	testproto.UnimplementedTestApiServer
}

'''
seed("C13-trailer-on-error","C13","pkg/wrap",
 [("pkg/wrap/wrap.go","	err := cs.RecvMsg(reply)\n","	err := cs.RecvMsg(reply)\n	if err != nil {\n		return err\n	}\n")],
 H%""+'''func (zzServer) Unary(ctx context.Context, _ *testproto.UnaryRequest) (*testproto.UnaryResponse, error) {
	_ = grpc.SetTrailer(ctx, metadata.Pairs("reason", "quota"))
	return nil, status.Error(codes.ResourceExhausted, "no")
}

func TestZZDemo(t *testing.T) {
	c := testproto.NewTestApiClient(ServerToClient(testproto.TestApi_ServiceDesc, zzServer{}))
	var md metadata.MD
	_, err := c.Unary(context.Background(), &testproto.UnaryRequest{}, grpc.Trailer(&md))
	if status.Code(err) != codes.ResourceExhausted {
		t.Fatal(err)
	}
	if v := md.Get("reason"); len(v) != 1 || v[0] != "quota" {
		t.Fatalf("trailer of the failed call: %v", md)
	}
}
''',"a unary call that fails, with the header or trailer of it asked for","header and trailer of failed unary calls aren't reported")
seed("C13-trailer-order","C13","pkg/wrap",
 [("pkg/wrap/stream.go","	s.trailer = metadata.Join(s.trailer, md)","	s.trailer = metadata.Join(md, s.trailer)")],
 H%""+'''func (zzServer) Unary(ctx context.Context, _ *testproto.UnaryRequest) (*testproto.UnaryResponse, error) {
	_ = grpc.SetTrailer(ctx, metadata.Pairs("step", "1"))
	_ = grpc.SetTrailer(ctx, metadata.Pairs("step", "2"))
	return &testproto.UnaryResponse{}, nil
}

func TestZZDemo(t *testing.T) {
	c := testproto.NewTestApiClient(ServerToClient(testproto.TestApi_ServiceDesc, zzServer{}))
	var md metadata.MD
	_, err := c.Unary(context.Background(), &testproto.UnaryRequest{}, grpc.Trailer(&md))
	if err != nil {
		t.Fatal(err)
	}
	if v := md.Get("step"); len(v) != 2 || v[0] != "1" {
		t.Fatalf("trailer: %v", md)
	}
}
''',"a server that sets the trailer twice, with the same key","the values of the trailer are in the opposite order")
seed("C13-md-shallow","C13","pkg/wrap",
 [("pkg/wrap/wrap.go","		newMD[k] = append([]string(nil), v...)","		newMD[k] = v")],
 H%""+'''func (zzServer) BidiStream(s testproto.TestApi_BidiStreamServer) error {
	_ = s.SendHeader(metadata.Pairs("k", "v"))
	_, err := s.Recv()
	return err
}

func TestZZDemo(t *testing.T) {
	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
	defer cancel()
	c := testproto.NewTestApiClient(ServerToClient(testproto.TestApi_ServiceDesc, zzServer{}))
	s, err := c.BidiStream(ctx)
	if err != nil {
		t.Fatal(err)
	}
	md, err := s.Header()
	if err != nil {
		t.Fatal(err)
	}
	md["k"][0] = "mine"
	if md, _ = s.Header(); md["k"][0] != "v" {
		t.Fatalf("header: %v", md)
	}
}
''',"a client that edits the values of the metadata it got, and reads it again","clients and servers share the values of metadata")
seed("C13-descriptor-name","C13","pkg/wrap",
 [("pkg/wrap/stream.go","	if dst.ProtoReflect().Descriptor() == src.ProtoReflect().Descriptor() {","	if dst.ProtoReflect().Descriptor().FullName() == src.ProtoReflect().Descriptor().FullName() {")],
 H%'''	"google.golang.org/protobuf/reflect/protodesc"
	"google.golang.org/protobuf/reflect/protoregistry"
	"google.golang.org/protobuf/types/dynamicpb"
'''+'''func (zzServer) Unary(ctx context.Context, r *testproto.UnaryRequest) (*testproto.UnaryResponse, error) {
	return &testproto.UnaryResponse{Msg: r.Msg}, nil
}

func TestZZDemo(t *testing.T) {
	f, err := protodesc.NewFile(protodesc.ToFileDescriptorProto((&testproto.UnaryRequest{}).ProtoReflect().Descriptor().ParentFile()), protoregistry.GlobalFiles)
	if err != nil {
		t.Fatal(err)
	}
	res := dynamicpb.NewMessage(f.Messages().ByName("UnaryResponse"))
	cc := ServerToClient(testproto.TestApi_ServiceDesc, zzServer{})
	m := "/" + testproto.TestApi_ServiceDesc.ServiceName + "/Unary"
	if err := cc.Invoke(context.Background(), m, &testproto.UnaryRequest{Msg: "hi"}, res); err != nil {
		t.Fatal(err)
	}
	if v := res.Get(res.Descriptor().Fields().ByName("msg")).String(); v != "hi" {
		t.Fatalf("response: %v", v)
	}
}
''',"a client whose messages have a descriptor of their own with the same name, as dynamic messages do","copying messages panics when their descriptors have the same name and aren't the same")
