H='''package %s

import (
	"context"
	"io"
	"sync"
	"testing"
	"time"

	"github.com/smart-core-os/sc-api/go/traits"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"
)

var _ = context.Background
var _ sync.Mutex
var _ = io.EOF
var _ = time.Second
var _ *traits.OnOff
var _ grpc.ClientConnInterface
var _ metadata.MD
var _ = codes.OK
var _ = status.Error

'''
STREAM='''
type zzStream struct {
	grpc.ClientStream
	n int
}

func (s *zzStream) Header() (metadata.MD, error) { return metadata.Pairs("h", "1"), nil }
func (s *zzStream) Trailer() metadata.MD         { return metadata.Pairs("t", "1") }
func (s *zzStream) Recv() (*%(MSG)s, error) {
	if s.n++; s.n < 3 {
		return &%(MSG)s{}, nil
	}
	return nil, status.Error(codes.DataLoss, "x")
}

type zzServer struct {
	grpc.ServerStream
	trailer metadata.MD
	n       int
}

func (s *zzServer) Context() context.Context     { return context.Background() }
func (s *zzServer) SendHeader(metadata.MD) error { return nil }
func (s *zzServer) SetHeader(metadata.MD) error  { return nil }
func (s *zzServer) SetTrailer(md metadata.MD)    { s.trailer = metadata.Join(s.trailer, md) }
func (s *zzServer) Send(*%(MSG)s) error          { s.n++; return nil }
'''
seed("C12-retry-unavailable","C12","pkg/trait/vendingpb",
 [("pkg/trait/vendingpb/api_router.pb.go","	return child.Dispense(ctx, request)\n","	res, err := child.Dispense(ctx, request)\n	if status.Code(err) == codes.Unavailable {\n		// the connection may have been re-established by now\n		res, err = child.Dispense(ctx, request)\n	}\n	return res, err\n"),
  ("pkg/trait/vendingpb/api_router.pb.go",'	grpc "google.golang.org/grpc"\n','	grpc "google.golang.org/grpc"\n	codes "google.golang.org/grpc/codes"\n	status "google.golang.org/grpc/status"\n')],
 H%"vendingpb"+'''type zzClient struct {
	traits.VendingApiClient
	n int
}

func (c *zzClient) Dispense(context.Context, *traits.DispenseRequest, ...grpc.CallOption) (*traits.Consumable_Stock, error) {
	c.n++
	return nil, status.Error(codes.Unavailable, "x")
}

func TestZZDemo(t *testing.T) {
	r := NewApiRouter()
	c := &zzClient{}
	r.Add("a", c)
	if _, err := r.Dispense(context.Background(), &traits.DispenseRequest{Name: "a"}); status.Code(err) != codes.Unavailable || c.n != 1 {
		t.Fatalf("%v after %d calls", err, c.n)
	}
}
''',"a client that answers Unavailable","the request is forwarded twice (something may be dispensed twice)")
seed("C12-first-get","C12","pkg/router",
 [("pkg/router/router.go","			child2, exists2 := r.registry[name]\n			if exists2 {\n				child = child2\n			} else {\n				newChildRemembered = true\n				r.registry[name] = child\n			}\n","			if _, exists2 := r.registry[name]; !exists2 {\n				newChildRemembered = true\n				r.registry[name] = child\n			}\n")],
 H%"router"+'''func TestZZDemo(t *testing.T) {
	var both sync.WaitGroup
	both.Add(2)
	r := NewRouter(WithFactory(func(string) (any, error) {
		both.Done()
		both.Wait()
		return new(int), nil
	}))
	got := make(chan any, 2)
	for i := 0; i < 2; i++ {
		go func() {
			c, _ := r.Get("a")
			got <- c
		}()
	}
	a, b := <-got, <-got
	if a != b {
		t.Fatal("two first Gets have got different clients")
	}
}
''',"two first Gets of a name whose factory calls overlap","one of two concurrent first Gets returns a client that isn't registered")
seed("C12-blank-name","C12","pkg/middleware/name",
 [("pkg/middleware/name/defaults.go",'	if nameValue.String() != "" {\n','	if strings.TrimSpace(nameValue.String()) != "" {\n'),
  ("pkg/middleware/name/defaults.go",'	"context"\n','	"context"\n	"strings"\n')],
 H%"name"+'''func TestZZDemo(t *testing.T) {
	req := &traits.GetOnOffRequest{Name: " "}
	_, _ = IfAbsentUnaryInterceptor("d")(context.Background(), req, nil, func(ctx context.Context, req any) (any, error) { return nil, nil })
	if req.Name != " " {
		t.Fatal(req.Name)
	}
}
''',"a name that is only spaces","a name that isn't empty is replaced")
seed("C12-one-trailer","C12","pkg/trait/speakerpb",
 [("pkg/trait/speakerpb/api_router.pb.go","		if trailer := stream.Trailer(); trailer != nil {\n			server.SetTrailer(trailer)\n		}\n		if err == io.EOF {\n			return nil\n		}\n","		if err == io.EOF {\n			if trailer := stream.Trailer(); trailer != nil {\n				server.SetTrailer(trailer)\n			}\n			return nil\n		}\n")],
 H%"speakerpb"+STREAM%dict(MSG="traits.PullSpeakerVolumeResponse")+'''
type zzClient struct{ traits.SpeakerApiClient }

func (zzClient) PullVolume(context.Context, *traits.PullSpeakerVolumeRequest, ...grpc.CallOption) (traits.SpeakerApi_PullVolumeClient, error) {
	return &zzStream{}, nil
}

func TestZZDemo(t *testing.T) {
	r := NewApiRouter()
	r.Add("a", zzClient{})
	s := &zzServer{}
	if err := r.PullVolume(&traits.PullSpeakerVolumeRequest{Name: "a"}, s); status.Code(err) != codes.DataLoss || s.n != 2 || s.trailer["t"] == nil {
		t.Fatal(err, s)
	}
}
''',"a volume stream that ends with an error, and a trailer","one service's router drops the trailer of streams that fail")
seed("C12-template-cancel","C12","pkg/trait/lightpb",
 [("cmd/protoc-gen-router/router.go.gotxt","	stream, err := child.{{.GoName}}(reqCtx, request)\n","	stream, err := child.{{.GoName}}(server.Context(), request)\n"),
  ("cmd/protoc-gen-router/router.go.gotxt","	reqCtx, reqDone := context.WithCancel(server.Context())\n","	_, reqDone := context.WithCancel(server.Context())\n")],
 H%"lightpb"+STREAM%dict(MSG="traits.PullBrightnessResponse")+'''
type zzClient struct {
	traits.LightApiClient
	ctx context.Context
}

func (c *zzClient) PullBrightness(ctx context.Context, _ *traits.PullBrightnessRequest, _ ...grpc.CallOption) (traits.LightApi_PullBrightnessClient, error) {
	c.ctx = ctx
	return &zzStream{}, nil
}

type zzGone struct{ zzServer }

func (s *zzGone) Send(*traits.PullBrightnessResponse) error { return io.ErrClosedPipe }

func TestZZDemo(t *testing.T) {
	r := NewApiRouter()
	c := &zzClient{}
	r.Add("a", c)
	_ = r.PullBrightness(&traits.PullBrightnessRequest{Name: "a"}, &zzGone{})
	for i := 0; i < 200 && c.ctx.Err() == nil; i++ {
		time.Sleep(10 * time.Millisecond)
	}
	if c.ctx.Err() == nil {
		t.Fatal("the child's stream goes on after the caller has gone")
	}
}
''',"the routers being regenerated, and a caller that goes while a stream is being sent","regenerated routers don't cancel the request to the client when the caller can't be sent to",
 demo='''#!/bin/bash
# generates the light router with the repository's generator, and runs demo_test.txt against what it produces
d=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
cp "$d/genreq.txt" "$t/main.go"
cp "$d/demo_test.txt" "$t/zz_demo_test.go"
printf '{"Replace":{"%s/internal/zzgenreq/main.go":"%s/main.go"}}' "$PWD" "$t" > "$t/g.json"
go run -overlay "$t/g.json" ./internal/zzgenreq req > "$t/req" || exit 3
go run ./cmd/protoc-gen-router < "$t/req" > "$t/res" || exit 3
go run -overlay "$t/g.json" ./internal/zzgenreq res pkg/trait/lightpb/api_router.pb.go < "$t/res" > "$t/router.go" || exit 3
printf '{"Replace":{"%s/pkg/trait/lightpb/zz_demo_test.go":"%s/zz_demo_test.go","%s/pkg/trait/lightpb/api_router.pb.go":"%s/router.go"}}' "$PWD" "$t" "$PWD" "$t" > "$t/o.json"
go test -overlay "$t/o.json" -vet=off -count=1 -timeout 120s -run '^TestZZDemo$' ./pkg/trait/lightpb
''',files={"genreq.txt":'''package main

import (
	"io"
	"os"

	"github.com/smart-core-os/sc-api/go/traits"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protodesc"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/pluginpb"
)

func main() {
	if os.Args[1] == "res" {
		b, _ := io.ReadAll(os.Stdin)
		res := &pluginpb.CodeGeneratorResponse{}
		if err := proto.Unmarshal(b, res); err != nil {
			panic(err)
		}
		for _, f := range res.File {
			if f.GetName() == os.Args[2] {
				os.Stdout.WriteString(f.GetContent())
				return
			}
		}
		panic("not generated")
	}
	fd := traits.File_traits_light_proto
	req := &pluginpb.CodeGeneratorRequest{FileToGenerate: []string{fd.Path()}}
	seen := map[string]bool{}
	var add func(fd protoreflect.FileDescriptor)
	add = func(fd protoreflect.FileDescriptor) {
		if seen[fd.Path()] {
			return
		}
		seen[fd.Path()] = true
		for i := 0; i < fd.Imports().Len(); i++ {
			add(fd.Imports().Get(i).FileDescriptor)
		}
		req.ProtoFile = append(req.ProtoFile, protodesc.ToFileDescriptorProto(fd))
	}
	add(fd)
	b, _ := proto.Marshal(req)
	os.Stdout.Write(b)
}
'''})
