package wrap

import (
	"context"
	"sync"
	"time"

	"github.com/smart-core-os/sc-golang/internal/gv"
	"github.com/smart-core-os/sc-golang/internal/testproto"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
)

// wrapCall is a call, that each side does with goroutines of its own to send and to receive.
type wrapCall struct {
	shape      int
	ups, downs int
	naps       []int
	cancel     int // microseconds, negative: never
	fails      bool
	reads      bool // the client reads the header all along
	early      bool // the server returns while its goroutines are still at it
}

type wrapCalls struct {
	calls []wrapCall
	out   metadata.MD // shared by the calls
}

func gvNap(g *gv.Gen) int { return []int{0, 0, 1, 2, 5, 40, 200}[g.R.Intn(7)] }

func nap(n int) {
	if n >= 20 {
		time.Sleep(time.Duration(n) * time.Microsecond)
		return
	}
	for ; n > 0; n-- {
		gv.Yield()
	}
}

func gvg_WrapRaces(g *gv.Gen) wrapCalls {
	var r wrapCalls
	r.out = gvMD(g)
	for i := 1 + g.R.Intn(6); i > 0; i-- {
		c := wrapCall{shape: g.R.Intn(shapes), ups: g.R.Intn(4), downs: g.R.Intn(4), cancel: -1, fails: g.R.Intn(3) == 0, reads: g.R.Intn(2) == 0, early: g.R.Intn(4) == 0}
		if g.R.Intn(3) == 0 {
			c.cancel = g.R.Intn(300)
		}
		for j := 0; j < 8; j++ {
			c.naps = append(c.naps, gvNap(g))
		}
		r.calls = append(r.calls, c)
	}
	return r
}

// touch reads and writes a message that is one's own.
func touch(m proto.Message) {
	_ = proto.Clone(m)
	setText(m, textOf(m)+"x")
}

func touchMD(md metadata.MD) {
	for _, v := range md {
		for i := range v {
			v[i] += "x"
		}
	}
	if md != nil {
		md["y"] = append(md["y"], "z")
	}
}

type wrapServer struct {
	testproto.UnimplementedTestApiServer
	calls []wrapCall
}

func (s *wrapServer) call(ctx context.Context) wrapCall {
	md, _ := metadata.FromIncomingContext(ctx)
	defer touchMD(md)
	return s.calls[len(md.Get("call"))-1]
}

func (s *wrapServer) serve(ctx context.Context, ss grpc.ServerStream, c wrapCall) error {
	p := &play{script: script{shape: c.shape}}
	set := func(f func(metadata.MD) error) {
		md := metadata.Pairs("k", "v", "w", "x")
		_ = f(md)
		touchMD(md)
	}
	nap(c.naps[0])
	set(func(md metadata.MD) error { return grpc.SetHeader(ctx, md) })
	var wg sync.WaitGroup
	if ss != nil && c.shape >= clientStreams {
		wg.Add(1)
		go func() {
			defer wg.Done()
			m := p.request()
			for i := 0; i < c.ups; i++ {
				nap(c.naps[1])
				if ss.RecvMsg(m) != nil {
					return
				}
				touch(m)
			}
		}()
	}
	if ss != nil && (c.shape == serverStreams || c.shape == bidi) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			m := p.reply()
			for i := 0; i < c.downs; i++ {
				nap(c.naps[2])
				if ss.SendMsg(m) != nil {
					return
				}
				touch(m)
			}
		}()
	}
	nap(c.naps[3])
	set(func(md metadata.MD) error { return grpc.SendHeader(ctx, md) })
	set(func(md metadata.MD) error { return grpc.SetTrailer(ctx, md) })
	if !c.early || ss == nil {
		wg.Wait()
	}
	set(func(md metadata.MD) error { return grpc.SetTrailer(ctx, md) })
	if c.fails {
		return status.Error(codes.DataLoss, "oops")
	}
	if c.shape == clientStreams {
		m := p.reply()
		_ = ss.SendMsg(m)
		touch(m)
	}
	return nil
}

func (s *wrapServer) Unary(ctx context.Context, req *testproto.UnaryRequest) (*testproto.UnaryResponse, error) {
	touch(req)
	return &testproto.UnaryResponse{Msg: "m"}, s.serve(ctx, nil, s.call(ctx))
}

func (s *wrapServer) ServerStream(req *testproto.ServerStreamRequest, ss testproto.TestApi_ServerStreamServer) error {
	touch(req)
	return s.serve(ss.Context(), ss, s.call(ss.Context()))
}

func (s *wrapServer) ClientStream(ss testproto.TestApi_ClientStreamServer) error {
	return s.serve(ss.Context(), ss, s.call(ss.Context()))
}

func (s *wrapServer) BidiStream(ss testproto.TestApi_BidiStreamServer) error {
	return s.serve(ss.Context(), ss, s.call(ss.Context()))
}

// Concurrent calls, of which each side sends, receives and reads metadata concurrently, don't race.
//
//gv:property C11
//gv:for ServerToClient covers wrapper.Invoke wrapper.NewStream ClientServerStream.Close clientStream.SendMsg clientStream.RecvMsg clientStream.Header clientStream.Trailer clientStream.CloseSend serverStream.SendMsg serverStream.RecvMsg serverStream.SetHeader serverStream.SendHeader serverStream.SetTrailer collectMetadata
//gv:bounded up to 6 concurrent calls of all shapes, with up to 3 messages each way, whose sides read and modify their messages and metadata after each step, cancelled at generated moments; under the race detector
//gv:race
//gv:run 6
func gvc_WrapRaces(r wrapCalls) {
	conn := ServerToClient(testproto.TestApi_ServiceDesc, &wrapServer{calls: r.calls})
	var all sync.WaitGroup
	for i, c := range r.calls {
		all.Add(1)
		go func() {
			defer all.Done()
			out := metadata.MD{}
			for k, v := range r.out {
				out[k] = v
			}
			for j := 0; j <= i; j++ {
				out["call"] = append(out["call"], "")
			}
			ctx, cancel := context.WithCancel(metadata.NewOutgoingContext(context.Background(), out))
			defer cancel()
			if c.cancel >= 0 {
				time.AfterFunc(time.Duration(c.cancel)*time.Microsecond, cancel)
			}
			p := &play{script: script{shape: c.shape}}
			name := "/" + testproto.TestApi_ServiceDesc.ServiceName + "/" + methods[c.shape]
			if c.shape == unary {
				var h, t metadata.MD
				req, res := p.request(), p.reply()
				_ = conn.Invoke(ctx, name, req, res, grpc.Header(&h), grpc.Trailer(&t))
				touch(req)
				touch(res)
				touchMD(h)
				touchMD(t)
				out["k"] = append(out["k"], "z")
				return
			}
			cs, err := conn.NewStream(ctx, &grpc.StreamDesc{ServerStreams: c.shape == serverStreams || c.shape == bidi, ClientStreams: c.shape >= clientStreams}, name)
			if err != nil {
				return
			}
			out["k"] = append(out["k"], "z")
			var wg sync.WaitGroup
			wg.Add(1)
			go func() {
				defer wg.Done()
				m := p.request()
				n := c.ups
				if c.shape < clientStreams {
					n = 1
				}
				for i := 0; i < n; i++ {
					nap(c.naps[4])
					if cs.SendMsg(m) != nil {
						break
					}
					touch(m)
				}
				nap(c.naps[5])
				_ = cs.CloseSend()
			}()
			if c.reads {
				wg.Add(1)
				go func() {
					defer wg.Done()
					md, _ := cs.Header()
					touchMD(md)
				}()
			}
			m := p.reply()
			for err == nil {
				nap(c.naps[6])
				if err = cs.RecvMsg(m); err == nil {
					touch(m)
				}
			}
			touchMD(cs.Trailer())
			md, _ := cs.Header()
			touchMD(md)
			cancel()
			wg.Wait()
		}()
	}
	ended := make(chan struct{})
	go func() { all.Wait(); close(ended) }()
	select {
	case <-ended:
	case <-time.After(10 * time.Second):
		gv.Ensures("calls end", false)
	}
}
