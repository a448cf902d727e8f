// Written by contracts/gen_c12.py.

package microphonepb

import (
	"context"
	"errors"
	"io"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-api/go/types"
	"github.com/smart-core-os/sc-golang/internal/gv"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
)

// gvMicrophoneApiClient is a client that tells what it was asked, and answers as it is told.
type gvMicrophoneApiClient struct {
	traits.MicrophoneApiClient
	called string
	ctx    context.Context
	req    any
	want   proto.Message
	was    gv.Frozen
	same   bool
	res    any
	err    error
	how    int // 1: no stream, 2: no header, 3: fails in the end
	n      int // responses
	got    int
	header string
}

func (c *gvMicrophoneApiClient) GetGain(ctx context.Context, req *traits.GetMicrophoneGainRequest, _ ...grpc.CallOption) (*types.AudioLevel, error) {
	c.ctx, c.req = ctx, req
	c.same = c.was.Unchanged() && (req == c.want.(*traits.GetMicrophoneGainRequest) || proto.Equal(req, c.want))
	c.called += "GetGain."
	if c.err != nil {
		return nil, c.err
	}
	c.res = &types.AudioLevel{}
	return c.res.(*types.AudioLevel), nil
}

// GetGain passes the request on to the client it names, and the response or status back.
//
//gv:property C12
//gv:for (*ApiRouter).GetGain covers ApiRouter.GetMicrophoneApiClient ApiRouter.AddMicrophoneApiClient ApiRouter.Add ApiRouter.HoldsType NewApiRouter
//gv:norun
func gvc_ApiRouter_GetGain(req *traits.GetMicrophoneGainRequest, a, b string, fails bool) {
	gv.Requires(req != nil)
	was := gv.Freeze(req)
	c1, c2 := &gvMicrophoneApiClient{want: req, was: was}, &gvMicrophoneApiClient{want: req, was: was}
	if fails {
		c1.err, c2.err = errors.New("1"), errors.New("2")
	}
	r := NewApiRouter()
	r.AddMicrophoneApiClient(a, c1)
	r.AddMicrophoneApiClient(b, c2)
	ctx := context.Background()
	res, err := r.GetGain(ctx, req)
	to, not := c1, c2
	if req.Name == b {
		to, not = c2, c1
	} else if req.Name != a {
		gv.Ensures("a name with no client is NotFound", status.Code(err) == codes.NotFound && res == nil)
		gv.Ensures("a name with no client touches none", c1.called == "" && c2.called == "")
		gv.Reach("not found")
		return
	}
	gv.Ensures("the request goes to its method of its client, once", to.called == "GetGain." && not.called == "")
	gv.Ensures("the request passes unaltered", to.same)
	gv.Ensures("the call is made in the caller's context", to.ctx == ctx)
	gv.Ensures("the response passes", gv.Implies(!fails, any(res) == to.res && err == nil))
	gv.Ensures("the status passes", gv.Implies(fails, err == to.err))
	gv.Reach("forwarded")
}

func (c *gvMicrophoneApiClient) UpdateGain(ctx context.Context, req *traits.UpdateMicrophoneGainRequest, _ ...grpc.CallOption) (*types.AudioLevel, error) {
	c.ctx, c.req = ctx, req
	c.same = c.was.Unchanged() && (req == c.want.(*traits.UpdateMicrophoneGainRequest) || proto.Equal(req, c.want))
	c.called += "UpdateGain."
	if c.err != nil {
		return nil, c.err
	}
	c.res = &types.AudioLevel{}
	return c.res.(*types.AudioLevel), nil
}

// UpdateGain passes the request on to the client it names, and the response or status back.
//
//gv:property C12
//gv:for (*ApiRouter).UpdateGain covers ApiRouter.GetMicrophoneApiClient ApiRouter.AddMicrophoneApiClient ApiRouter.Add ApiRouter.HoldsType NewApiRouter
//gv:norun
func gvc_ApiRouter_UpdateGain(req *traits.UpdateMicrophoneGainRequest, a, b string, fails bool) {
	gv.Requires(req != nil)
	was := gv.Freeze(req)
	c1, c2 := &gvMicrophoneApiClient{want: req, was: was}, &gvMicrophoneApiClient{want: req, was: was}
	if fails {
		c1.err, c2.err = errors.New("1"), errors.New("2")
	}
	r := NewApiRouter()
	r.AddMicrophoneApiClient(a, c1)
	r.AddMicrophoneApiClient(b, c2)
	ctx := context.Background()
	res, err := r.UpdateGain(ctx, req)
	to, not := c1, c2
	if req.Name == b {
		to, not = c2, c1
	} else if req.Name != a {
		gv.Ensures("a name with no client is NotFound", status.Code(err) == codes.NotFound && res == nil)
		gv.Ensures("a name with no client touches none", c1.called == "" && c2.called == "")
		gv.Reach("not found")
		return
	}
	gv.Ensures("the request goes to its method of its client, once", to.called == "UpdateGain." && not.called == "")
	gv.Ensures("the request passes unaltered", to.same)
	gv.Ensures("the call is made in the caller's context", to.ctx == ctx)
	gv.Ensures("the response passes", gv.Implies(!fails, any(res) == to.res && err == nil))
	gv.Ensures("the status passes", gv.Implies(fails, err == to.err))
	gv.Reach("forwarded")
}

func (c *gvMicrophoneApiClient) PullGain(ctx context.Context, req *traits.PullMicrophoneGainRequest, _ ...grpc.CallOption) (traits.MicrophoneApi_PullGainClient, error) {
	c.ctx, c.req = ctx, req
	c.same = c.was.Unchanged() && (req == c.want.(*traits.PullMicrophoneGainRequest) || proto.Equal(req, c.want))
	c.called += "PullGain."
	if c.how == 1 {
		return nil, c.err
	}
	return &gvMicrophoneApiClientPullGain{c: c}, nil
}

type gvMicrophoneApiClientPullGain struct {
	grpc.ClientStream
	c    *gvMicrophoneApiClient
	said []*traits.PullMicrophoneGainResponse
}

func (s *gvMicrophoneApiClientPullGain) Header() (metadata.MD, error) {
	if s.c.how == 2 {
		return nil, s.c.err
	}
	return metadata.MD{"h": []string{s.c.header}}, nil
}
func (s *gvMicrophoneApiClientPullGain) Trailer() metadata.MD {
	return metadata.MD{"t": []string{s.c.header}}
}
func (s *gvMicrophoneApiClientPullGain) Recv() (*traits.PullMicrophoneGainResponse, error) {
	if len(s.said) == s.c.n {
		if s.c.how == 3 {
			return nil, s.c.err
		}
		return nil, io.EOF
	}
	m := &traits.PullMicrophoneGainResponse{}
	s.said = append(s.said, m)
	s.c.res = m
	s.c.got++
	return m, nil
}

// gvApiRouterPullGain is the caller's side.
type gvApiRouterPullGain struct {
	grpc.ServerStream
	ctx     context.Context
	to      *gvMicrophoneApiClient
	drop    int // the message that can't be sent
	fail    error
	n       int
	inOrder bool
	headers int
	header  string
	trailer string
}

func (s *gvApiRouterPullGain) Context() context.Context { return s.ctx }
func (s *gvApiRouterPullGain) SendHeader(md metadata.MD) error {
	s.headers++
	s.header = md["h"][0]
	return nil
}
func (s *gvApiRouterPullGain) SetTrailer(md metadata.MD) { s.trailer = md["t"][0] }
func (s *gvApiRouterPullGain) Send(m *traits.PullMicrophoneGainResponse) error {
	if s.n == s.drop {
		return s.fail
	}
	s.n++
	s.inOrder = s.inOrder && any(m) == s.to.res && s.n == s.to.got
	return nil
}

// PullGain passes the request on to the client it names, and the header, responses, trailer and status of the stream back.
//
//gv:property C12
//gv:for (*ApiRouter).PullGain covers ApiRouter.GetMicrophoneApiClient ApiRouter.AddMicrophoneApiClient ApiRouter.Add ApiRouter.HoldsType NewApiRouter
//gv:norun
func gvc_ApiRouter_PullGain(req *traits.PullMicrophoneGainRequest, a, b string, how, n, drop int, header string) {
	gv.Requires(req != nil && how >= 0 && how <= 3 && n >= 0 && n <= 2)
	gv.Bound("responses", n, 2)
	was := gv.Freeze(req)
	c1, c2 := &gvMicrophoneApiClient{want: req, was: was, how: how, n: n, header: header}, &gvMicrophoneApiClient{want: req, was: was, how: how, n: n, header: header}
	c1.err, c2.err = errors.New("1"), errors.New("2")
	r := NewApiRouter()
	r.AddMicrophoneApiClient(a, c1)
	r.AddMicrophoneApiClient(b, c2)
	to, not := c1, c2
	if req.Name == b {
		to, not = c2, c1
	}
	ss := &gvApiRouterPullGain{ctx: context.Background(), to: to, drop: drop, fail: errors.New("gone"), inOrder: true}
	err := r.PullGain(req, ss)
	if req.Name != b && req.Name != a {
		gv.Ensures("a name with no client is NotFound", status.Code(err) == codes.NotFound)
		gv.Ensures("a name with no client touches none", c1.called == "" && c2.called == "")
		gv.Reach("not found")
		return
	}
	gv.Ensures("the request goes to its method of its client, once", to.called == "PullGain." && not.called == "")
	gv.Ensures("the request passes unaltered", to.same)
	if how == 1 || how == 2 {
		gv.Ensures("the status passes", err == to.err)
		gv.Reach("no stream")
		return
	}
	gv.Ensures("the header passes, once", ss.headers == 1 && ss.header == header)
	gv.Ensures("the responses pass in order, unaltered", ss.inOrder)
	if 0 <= drop && drop < n {
		gv.Ensures("when the caller has gone, so has the request to the client", to.ctx.Err() != nil)
		gv.Reach("left")
		return
	}
	gv.Ensures("all the responses pass", ss.n == n && to.got == n)
	gv.Ensures("the trailer passes", ss.trailer == header)
	gv.Ensures("the status passes", gv.Implies(how == 3, err == to.err) && gv.Implies(how == 0, err == nil))
	gv.Reach("forwarded")
}
