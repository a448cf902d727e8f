package wrap

import (
	"context"
	"io"
	"sync"

	"github.com/smart-core-os/sc-golang/internal/gv"
	"github.com/smart-core-os/sc-golang/internal/testproto"
	"google.golang.org/grpc"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"
)

// oSrv is a server that reads and reuses all it can.
type oSrv struct {
	testproto.UnimplementedTestApiServer
	n, header int
	fails     bool
	done      *sync.WaitGroup
}

func (s oSrv) meta(ctx context.Context) {
	in, _ := metadata.FromIncomingContext(ctx)
	if v := in["k"]; len(v) > 0 {
		v[0] += "mine now"
	}
	h := metadata.MD{"h": {"one"}}
	switch s.header {
	case 1:
		_ = grpc.SetHeader(ctx, h)
	case 2:
		_ = grpc.SendHeader(ctx, h)
	}
	h["h"][0] = "two"
	t := metadata.MD{"t": {"one"}}
	_ = grpc.SetTrailer(ctx, t)
	t["t"][0] = "two"
	t["u"] = []string{"three"}
}

func (s oSrv) end() error {
	if s.fails {
		return status.Error(3, "fails")
	}
	return nil
}

func (s oSrv) Unary(ctx context.Context, req *testproto.UnaryRequest) (*testproto.UnaryResponse, error) {
	s.done.Add(1)
	defer s.done.Done()
	s.meta(ctx)
	req.Msg += "mine"
	res := &testproto.UnaryResponse{Msg: req.Msg}
	return res, s.end()
}

func (s oSrv) ServerStream(req *testproto.ServerStreamRequest, ss testproto.TestApi_ServerStreamServer) error {
	s.done.Add(1)
	defer s.done.Done()
	s.meta(ss.Context())
	req.NumRes++
	res := &testproto.ServerStreamResponse{}
	for i := 0; i < s.n; i++ {
		res.Counter++
		if err := ss.Send(res); err != nil {
			return err
		}
	}
	res.Counter++
	return s.end()
}

func (s oSrv) BidiStream(ss testproto.TestApi_BidiStreamServer) error {
	s.done.Add(1)
	defer s.done.Done()
	s.meta(ss.Context())
	res := &testproto.BidiStreamResponse{}
	for {
		m, err := ss.Recv()
		if err == io.EOF {
			return s.end()
		}
		if err == nil {
			m.Msg += "mine"
			res.Msg += m.Msg
			err = ss.Send(res)
		}
		if err != nil {
			return err
		}
	}
}

// A call whose sides read what they get and reuse what they gave, and which may be cancelled at any moment:
// memory both use is used in order.
//
//gv:property C11
//gv:for ServerToClient covers (*wrapper).Invoke (*clientStream).RecvMsg (*clientStream).SendMsg (*serverStream).RecvMsg (*serverStream).SendMsg (*ClientServerStream).Close
//gv:delays 1
//gv:hb
//gv:norun
func gvc_UnaryOrdered(header int, fails, cancels bool) {
	gv.Requires(header >= 0 && header <= 2)
	var done sync.WaitGroup
	conn := ServerToClient(testproto.TestApi_ServiceDesc, oSrv{header: header, fails: fails, done: &done})
	out := metadata.MD{"k": {"v"}}
	ctx, cancel := context.WithCancel(metadata.NewOutgoingContext(context.Background(), out))
	if cancels {
		go cancel()
	}
	req, res := &testproto.UnaryRequest{Msg: "a"}, &testproto.UnaryResponse{Msg: "old"}
	var h, t metadata.MD
	_ = conn.Invoke(ctx, testproto.TestApi_Unary_FullMethodName, req, res, grpc.Header(&h), grpc.Trailer(&t))
	req.Msg += "mine"
	res.Msg += "mine"
	out["k"][0] = "mine"
	for _, md := range []metadata.MD{h, t} {
		if md != nil {
			md["x"] = append(md["h"], md["t"]...)
		}
	}
	cancel()
	gv.Still()
	done.Wait()
}

// So too for a stream of responses, with another goroutine that reads the header.
//
//gv:property C11
//gv:for ServerToClient covers (*wrapper).NewStream (*clientStream).Header (*clientStream).Trailer (*clientStream).RecvMsg (*serverStream).SendMsg (*ClientServerStream).Close
//gv:delays 1
//gv:hb
//gv:norun
func gvc_ServerStreamOrdered(n, header int, fails, cancels, early bool) {
	gv.Requires(header >= 0 && header <= 2 && n >= 0)
	gv.Bound("messages", n, 2)
	var done, reads sync.WaitGroup
	client := testproto.NewTestApiClient(ServerToClient(testproto.TestApi_ServiceDesc, oSrv{n: n, header: header, fails: fails, done: &done}))
	out := metadata.MD{"k": {"v"}}
	ctx, cancel := context.WithCancel(metadata.NewOutgoingContext(context.Background(), out))
	if cancels {
		go cancel()
	}
	req := &testproto.ServerStreamRequest{}
	stream, err := client.ServerStream(ctx, req)
	req.NumRes++
	out["k"][0] = "mine"
	if err == nil {
		reads.Add(1)
		go func() {
			defer reads.Done()
			h, _ := stream.Header()
			if len(h["h"]) > 0 {
				h["h"][0] += "mine"
			}
		}()
		for !early {
			m, err := stream.Recv()
			if err != nil {
				break
			}
			m.Counter++
		}
		if !early {
			t := stream.Trailer()
			if len(t["t"]) > 0 {
				t["t"][0] += "mine"
			}
			if h, _ := stream.Header(); len(h["h"]) > 0 {
				h["h"][0] += "mine"
			}
		}
	}
	cancel()
	reads.Wait()
	gv.Still()
	done.Wait()
}

// So too for a stream of both, each direction with a goroutine of its own.
//
//gv:property C11
//gv:for ServerToClient covers (*wrapper).NewStream (*clientStream).CloseSend (*clientStream).RecvMsg (*clientStream).SendMsg (*serverStream).RecvMsg (*serverStream).SendMsg (*ClientServerStream).Close
//gv:delays 1
//gv:hb
//gv:norun
func gvc_BidiStreamOrdered(n, header int, fails, cancels bool) {
	gv.Requires(header >= 0 && header <= 2 && n >= 0)
	gv.Bound("messages", n, 2)
	var done, reads sync.WaitGroup
	client := testproto.NewTestApiClient(ServerToClient(testproto.TestApi_ServiceDesc, oSrv{header: header, fails: fails, done: &done}))
	ctx, cancel := context.WithCancel(context.Background())
	if cancels {
		go cancel()
	}
	stream, err := client.BidiStream(ctx)
	if err == nil {
		reads.Add(1)
		go func() {
			defer reads.Done()
			for {
				m, err := stream.Recv()
				if err != nil {
					break
				}
				m.Msg += "mine"
			}
			t := stream.Trailer()
			_ = len(t["t"])
		}()
		req := &testproto.BidiStreamRequest{}
		for i := 0; i < n; i++ {
			req.Msg += "more"
			if stream.Send(req) != nil {
				break
			}
		}
		req.Msg += "more"
		_ = stream.CloseSend()
	}
	reads.Wait()
	cancel()
	gv.Still()
	done.Wait()
}
