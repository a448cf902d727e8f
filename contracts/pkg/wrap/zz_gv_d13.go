package wrap

import (
	"context"
	"io"

	"github.com/smart-core-os/sc-golang/internal/gv"
	"github.com/smart-core-os/sc-golang/internal/testproto"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"
)

// dSrv is a server that does as it is told.
type dSrv struct {
	testproto.UnimplementedTestApiServer
	calls   int
	got     string
	md      []string
	reply   string
	code    codes.Code
	text    string
	header  int // 0: none, 1: set, 2: sent
	trailer bool
	req     *testproto.UnaryRequest
	res     *testproto.UnaryResponse

	n        int // messages to send, or to receive: all when negative
	heard    int
	failed   error // what sending or receiving failed with
	returned int
}

// dMeta checks the header and the trailer.
func dMeta(s *dSrv, h, t metadata.MD) {
	gv.Ensures("the header is received", s.header == 0 && len(h) == 0 || s.header == 1 && len(h["h"]) == 1 && h["h"][0] == "set" || s.header == 2 && len(h["h"]) == 1 && h["h"][0] == "sent")
	gv.Ensures("the trailer is received", !s.trailer && len(t) == 0 || s.trailer && len(t["t"]) == 1 && t["t"][0] == "trailer")
}

// dEnd says whether err is how the server ended the call.
func dEnd(s *dSrv, err error) bool {
	if s.code == codes.OK {
		return err == nil
	}
	return err != nil && status.Code(err) == s.code && status.Convert(err).Message() == s.text
}

// meta sends the header and the trailer.
func (s *dSrv) meta(ctx context.Context) {
	in, _ := metadata.FromIncomingContext(ctx)
	s.md = in["k"]
	switch s.header {
	case 1:
		_ = grpc.SetHeader(ctx, metadata.MD{"h": {"set"}})
	case 2:
		_ = grpc.SendHeader(ctx, metadata.MD{"h": {"sent"}})
	}
	if s.trailer {
		_ = grpc.SetTrailer(ctx, metadata.MD{"t": {"trailer"}})
	}
}

func (s *dSrv) end() error {
	s.returned++
	if s.code != codes.OK {
		return status.Error(s.code, s.text)
	}
	return nil
}

func (s *dSrv) Unary(ctx context.Context, req *testproto.UnaryRequest) (*testproto.UnaryResponse, error) {
	s.calls++
	s.got, s.req = req.Msg, req
	s.meta(ctx)
	if err := s.end(); err != nil {
		return nil, err
	}
	s.res = &testproto.UnaryResponse{Msg: s.reply}
	return s.res, nil
}

func (s *dSrv) ServerStream(req *testproto.ServerStreamRequest, ss testproto.TestApi_ServerStreamServer) error {
	s.calls++
	s.meta(ss.Context())
	res := &testproto.ServerStreamResponse{}
	for i := 0; i < s.n; i++ {
		res.Counter = int32(10 + i) // the message sent before doesn't change
		if err := ss.Send(res); err != nil {
			s.failed = err
			s.returned++
			return err
		}
	}
	return s.end()
}

func (s *dSrv) ClientStream(ss testproto.TestApi_ClientStreamServer) error {
	s.calls++
	s.meta(ss.Context())
	for {
		if s.n >= 0 && s.heard == s.n {
			return s.end()
		}
		m, err := ss.Recv()
		if err == io.EOF {
			break
		}
		if err != nil {
			s.failed = err
			s.returned++
			return err
		}
		s.got += m.Msg
		s.heard++
	}
	if s.code != codes.OK {
		return s.end()
	}
	err := ss.SendAndClose(&testproto.ClientStreamResponse{Msg: s.got})
	s.returned++
	return err
}

func (s *dSrv) BidiStream(ss testproto.TestApi_BidiStreamServer) error {
	s.calls++
	s.meta(ss.Context())
	for {
		if s.n >= 0 && s.heard == s.n {
			return s.end()
		}
		m, err := ss.Recv()
		if err == io.EOF {
			return s.end()
		}
		if err == nil {
			s.heard++
			err = ss.Send(&testproto.BidiStreamResponse{Msg: "re:" + m.Msg})
		}
		if err != nil {
			s.failed = err
			s.returned++
			return err
		}
	}
}

// A unary call of any server: one request, one response or error, as over a connection.
//
//gv:property C13
//gv:for ServerToClient covers (*wrapper).Invoke (*clientStream).RecvMsg (*clientStream).SendMsg (*serverStream).RecvMsg (*serverStream).SendMsg (*ClientServerStream).Close
//gv:delays 2
//gv:norun
func gvc_UnaryCall(msg, reply string, code uint32, text string, header int, trailer bool, meta bool, val string) {
	gv.Requires(code <= 16 && header >= 0 && header <= 2)
	base := gv.Goroutines()
	s := &dSrv{reply: reply, code: codes.Code(code), text: text, header: header, trailer: trailer}
	conn := ServerToClient(testproto.TestApi_ServiceDesc, s)
	ctx := context.Background()
	if meta {
		ctx = metadata.NewOutgoingContext(ctx, metadata.MD{"k": {val}})
	}
	req := &testproto.UnaryRequest{Msg: msg}
	res := &testproto.UnaryResponse{Msg: "old"}
	var h, t metadata.MD
	err := conn.Invoke(ctx, testproto.TestApi_Unary_FullMethodName, req, res, grpc.Header(&h), grpc.Trailer(&t))
	gv.Ensures("the server is called once, with the request", s.calls == 1 && s.got == msg && s.req != req)
	gv.Ensures("and the metadata", meta && len(s.md) == 1 && s.md[0] == val || !meta && len(s.md) == 0)
	if code == 0 {
		gv.Reach("a response")
		gv.Ensures("its response is received", err == nil && res.Msg == reply && s.res != res)
	} else {
		gv.Reach("an error")
		gv.Ensures("its error is received", dEnd(s, err))
	}
	dMeta(s, h, t)
	gv.Ensures("nothing is left running", gv.Settles(base))
}

// A call of any server that sends up to two messages, of a client that reads them all, or cancels the call at some point.
//
//gv:property C13
//gv:for ServerToClient covers (*wrapper).NewStream (*clientStream).Header (*clientStream).Trailer (*clientStream).RecvMsg (*serverStream).SendMsg (*ClientServerStream).Close
//gv:delays 2
//gv:norun
func gvc_ServerStreamCall(n int, code uint32, text string, header int, trailer bool, cancelAt int) {
	gv.Requires(n >= 0 && code <= 16 && header >= 0 && header <= 2 && cancelAt >= -1)
	gv.Bound("messages", n, 2)
	gv.Bound("point of cancelling", cancelAt, 2)
	gv.Requires(cancelAt <= n)
	base := gv.Goroutines()
	s := &dSrv{n: n, code: codes.Code(code), text: text, header: header, trailer: trailer}
	client := testproto.NewTestApiClient(ServerToClient(testproto.TestApi_ServiceDesc, s))
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	stream, err := client.ServerStream(ctx, &testproto.ServerStreamRequest{})
	gv.Ensures("the call starts", err == nil)
	k := 0
	var m *testproto.ServerStreamResponse
	for {
		if k == cancelAt {
			cancel()
		}
		m, err = stream.Recv()
		if err != nil {
			break
		}
		gv.Ensures("messages arrive in order, as they were sent", m.Counter == int32(10+k))
		k++
	}
	gv.Ensures("none appear", k <= n)
	if cancelAt < 0 {
		gv.Reach("to the end")
		h, _ := stream.Header()
		dMeta(s, h, stream.Trailer())
		gv.Ensures("all arrive", k == n)
		if code == 0 {
			gv.Ensures("it ends well", err == io.EOF)
		} else {
			gv.Ensures("with the server's error", dEnd(s, err))
		}
	} else {
		gv.Reach("cancelled")
		canceled := status.Code(err) == codes.Canceled
		gv.Ensures("the call is cancelled", canceled || cancelAt == n && (code == 0 && err == io.EOF || code != 0 && dEnd(s, err)))
	}
	if cancelAt < 0 {
		_, again := stream.Recv()
		gv.Ensures("the end stays the end", status.Code(again) == status.Code(err))
	}
	gv.Ensures("nothing is left running", gv.Settles(base))
	gv.Ensures("the server returns", s.calls == 1 && s.returned == 1)
	gv.Ensures("it finds out", s.failed == nil || cancelAt >= 0 && status.Code(s.failed) == codes.Canceled)
}

// A call of any server that receives up to two messages, all of them or fewer, and responds.
//
//gv:property C13
//gv:for ServerToClient covers (*wrapper).NewStream (*clientStream).CloseSend (*clientStream).RecvMsg (*clientStream).SendMsg (*serverStream).RecvMsg (*ClientServerStream).Close
//gv:delays 2
//gv:norun
func gvc_ClientStreamCall(n, upTo int, code uint32, text string, header int, trailer bool, cancelAt int) {
	gv.Requires(n >= 0 && upTo >= -1 && upTo <= n && code <= 16 && header >= 0 && header <= 2 && cancelAt >= -1)
	gv.Requires(upTo < 0 || code != 0) // a response is due
	gv.Bound("messages", n, 2)
	gv.Bound("messages received", upTo, 2)
	gv.Bound("point of cancelling", cancelAt, 2)
	gv.Requires(cancelAt <= n)
	base := gv.Goroutines()
	s := &dSrv{n: upTo, code: codes.Code(code), text: text, header: header, trailer: trailer}
	client := testproto.NewTestApiClient(ServerToClient(testproto.TestApi_ServiceDesc, s))
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	stream, err := client.ClientStream(ctx)
	gv.Ensures("the call starts", err == nil)
	sent, want := 0, ""
	req := &testproto.ClientStreamRequest{}
	for i := 0; i < n; i++ {
		if i == cancelAt {
			cancel()
		}
		req.Msg = []string{"a", "b"}[i] // the message sent before doesn't change
		if err := stream.Send(req); err != nil {
			gv.Ensures("sending fails once the call has ended", err == io.EOF && (cancelAt >= 0 || upTo >= 0))
			break
		}
		want += req.Msg
		sent++
	}
	if n == cancelAt {
		cancel()
	}
	res, err := stream.CloseAndRecv()
	if cancelAt < 0 {
		gv.Reach("to the end")
		gv.Ensures("the server's outcome", dEnd(s, err))
		gv.Ensures("its response", code != 0 || res.Msg == want && sent == n)
		gv.Ensures("what is sent is received", sent == s.heard && s.got == want && (upTo < 0 || sent <= upTo))
		h, _ := stream.Header()
		dMeta(s, h, stream.Trailer())
	} else {
		gv.Reach("cancelled")
		gv.Ensures("the call is cancelled", status.Code(err) == codes.Canceled || upTo >= 0 && upTo <= cancelAt && dEnd(s, err))
	}
	gv.Ensures("nothing is left running", gv.Settles(base))
	gv.Ensures("the server returns", s.calls <= 1 && s.returned == s.calls && (s.calls == 1 || cancelAt >= 0))
	gv.Ensures("it finds out", s.failed == nil || cancelAt >= 0 && status.Code(s.failed) == codes.Canceled)
}

// A call of any server that echoes up to two messages, all of them or fewer, with a client that takes turns.
//
//gv:property C13
//gv:for ServerToClient covers (*wrapper).NewStream (*clientStream).CloseSend (*clientStream).RecvMsg (*clientStream).SendMsg (*serverStream).RecvMsg (*serverStream).SendMsg (*ClientServerStream).Close
//gv:delays 2
//gv:norun
func gvc_BidiStreamCall(n, upTo int, code uint32, text string, header int, trailer bool, cancelAt int) {
	gv.Requires(n >= 0 && upTo >= -1 && upTo <= n && code <= 16 && header >= 0 && header <= 2 && cancelAt >= -1)
	gv.Bound("messages", n, 2)
	gv.Bound("messages received", upTo, 2)
	gv.Bound("point of cancelling", cancelAt, 2)
	gv.Requires(cancelAt <= n)
	base := gv.Goroutines()
	s := &dSrv{n: upTo, code: codes.Code(code), text: text, header: header, trailer: trailer}
	client := testproto.NewTestApiClient(ServerToClient(testproto.TestApi_ServiceDesc, s))
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	stream, err := client.BidiStream(ctx)
	gv.Ensures("the call starts", err == nil)
	got := 0
	for i := 0; i < n && err == nil; i++ {
		if i == cancelAt {
			cancel()
		}
		msg := []string{"a", "b"}[i]
		if e := stream.Send(&testproto.BidiStreamRequest{Msg: msg}); e != nil {
			gv.Ensures("sending fails once the call has ended", e == io.EOF && (cancelAt >= 0 || upTo >= 0))
		}
		var m *testproto.BidiStreamResponse
		m, err = stream.Recv()
		if err == nil {
			gv.Ensures("the reply is received", m.Msg == "re:"+msg)
			got++
		}
	}
	if err == nil {
		if n == cancelAt {
			cancel()
		}
		gv.Ensures("the client closes its side", stream.CloseSend() == nil)
		_, err = stream.Recv()
	}
	end := code == 0 && err == io.EOF || code != 0 && dEnd(s, err)
	if cancelAt < 0 {
		gv.Reach("to the end")
		gv.Ensures("the server's outcome", end)
		gv.Ensures("every message gets its reply", got == s.heard && (upTo < 0 && got == n || got == upTo))
		h, _ := stream.Header()
		dMeta(s, h, stream.Trailer())
	} else {
		gv.Reach("cancelled")
		gv.Ensures("the call is cancelled", status.Code(err) == codes.Canceled || upTo >= 0 && upTo <= cancelAt && end)
	}
	gv.Ensures("nothing is left running", gv.Settles(base))
	gv.Ensures("the server returns", s.calls <= 1 && s.returned == s.calls && (s.calls == 1 || cancelAt >= 0))
	gv.Ensures("it finds out", s.failed == nil || cancelAt >= 0 && status.Code(s.failed) == codes.Canceled)
}

// Calls of methods there aren't, of the wrong shape, and with contexts that have ended: refused, and the server isn't called.
//
//gv:property C13
//gv:for ServerToClient covers (*wrapper).NewStream (*wrapper).Invoke
//gv:norun
func gvc_RefusedCall(which int, server, client bool) {
	gv.Requires(which >= 0 && which <= 3)
	base := gv.Goroutines()
	s := &dSrv{n: 1}
	conn := ServerToClient(testproto.TestApi_ServiceDesc, s)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	desc := &grpc.StreamDesc{ServerStreams: server, ClientStreams: client}
	req, res := &testproto.UnaryRequest{}, &testproto.UnaryResponse{}
	shape := func(name string) (bool, bool) {
		return name == testproto.TestApi_ServerStream_FullMethodName || name == testproto.TestApi_BidiStream_FullMethodName,
			name == testproto.TestApi_ClientStream_FullMethodName || name == testproto.TestApi_BidiStream_FullMethodName
	}
	for _, name := range []string{testproto.TestApi_Unary_FullMethodName, testproto.TestApi_ServerStream_FullMethodName, testproto.TestApi_ClientStream_FullMethodName, testproto.TestApi_BidiStream_FullMethodName} {
		switch which {
		case 0:
			gv.Ensures("unknown methods are unimplemented", status.Code(conn.Invoke(ctx, name+"x", req, res)) == codes.Unimplemented)
			_, err := conn.NewStream(ctx, desc, name+"x")
			gv.Ensures("unknown streams are unimplemented", status.Code(err) == codes.Unimplemented)
		case 1:
			if ss, cs := shape(name); ss != server || cs != client {
				gv.Reach("another shape")
				_, err := conn.NewStream(ctx, desc, name)
				gv.Ensures("streams of another shape are an internal error", status.Code(err) == codes.Internal)
			}
		case 2:
			cancel()
			if ss, cs := shape(name); ss == server && cs == client {
				_, err := conn.NewStream(ctx, desc, name)
				gv.Ensures("a cancelled stream is cancelled", status.Code(err) == codes.Canceled)
			}
		case 3:
			cancel()
			if name == testproto.TestApi_Unary_FullMethodName {
				gv.Ensures("a cancelled call is cancelled", status.Code(conn.Invoke(ctx, name, req, res)) == codes.Canceled)
			}
		}
	}
	gv.Ensures("nothing is left running", gv.Settles(base))
	gv.Ensures("the server isn't called", s.calls == 0)
}
