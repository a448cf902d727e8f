// Written by contracts/gen_c12.py.

package ptzpb

import (
	"context"
	"errors"
	"io"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-golang/internal/gv"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
)

// gvPtzApiClient is a client that tells what it was asked, and answers as it is told.
type gvPtzApiClient struct {
	traits.PtzApiClient
	called string
	ctx    context.Context
	req    any
	want   proto.Message
	was    gv.Frozen
	same   bool
	res    any
	err    error
	how    int // 1: no stream, 2: no header, 3: fails in the end
	n      int // responses
	got    int
	header string
}

func (c *gvPtzApiClient) GetPtz(ctx context.Context, req *traits.GetPtzRequest, _ ...grpc.CallOption) (*traits.Ptz, error) {
	c.ctx, c.req = ctx, req
	c.same = c.was.Unchanged() && (req == c.want.(*traits.GetPtzRequest) || proto.Equal(req, c.want))
	c.called += "GetPtz."
	if c.err != nil {
		return nil, c.err
	}
	c.res = &traits.Ptz{}
	return c.res.(*traits.Ptz), nil
}

// GetPtz passes the request on to the client it names, and the response or status back.
//
//gv:property C12
//gv:for (*ApiRouter).GetPtz covers ApiRouter.GetPtzApiClient ApiRouter.AddPtzApiClient ApiRouter.Add ApiRouter.HoldsType NewApiRouter
//gv:norun
func gvc_ApiRouter_GetPtz(req *traits.GetPtzRequest, a, b string, fails bool) {
	gv.Requires(req != nil)
	was := gv.Freeze(req)
	c1, c2 := &gvPtzApiClient{want: req, was: was}, &gvPtzApiClient{want: req, was: was}
	if fails {
		c1.err, c2.err = errors.New("1"), errors.New("2")
	}
	r := NewApiRouter()
	r.AddPtzApiClient(a, c1)
	r.AddPtzApiClient(b, c2)
	ctx := context.Background()
	res, err := r.GetPtz(ctx, req)
	to, not := c1, c2
	if req.Name == b {
		to, not = c2, c1
	} else if req.Name != a {
		gv.Ensures("a name with no client is NotFound", status.Code(err) == codes.NotFound && res == nil)
		gv.Ensures("a name with no client touches none", c1.called == "" && c2.called == "")
		gv.Reach("not found")
		return
	}
	gv.Ensures("the request goes to its method of its client, once", to.called == "GetPtz." && not.called == "")
	gv.Ensures("the request passes unaltered", to.same)
	gv.Ensures("the call is made in the caller's context", to.ctx == ctx)
	gv.Ensures("the response passes", gv.Implies(!fails, any(res) == to.res && err == nil))
	gv.Ensures("the status passes", gv.Implies(fails, err == to.err))
	gv.Reach("forwarded")
}

func (c *gvPtzApiClient) UpdatePtz(ctx context.Context, req *traits.UpdatePtzRequest, _ ...grpc.CallOption) (*traits.Ptz, error) {
	c.ctx, c.req = ctx, req
	c.same = c.was.Unchanged() && (req == c.want.(*traits.UpdatePtzRequest) || proto.Equal(req, c.want))
	c.called += "UpdatePtz."
	if c.err != nil {
		return nil, c.err
	}
	c.res = &traits.Ptz{}
	return c.res.(*traits.Ptz), nil
}

// UpdatePtz passes the request on to the client it names, and the response or status back.
//
//gv:property C12
//gv:for (*ApiRouter).UpdatePtz covers ApiRouter.GetPtzApiClient ApiRouter.AddPtzApiClient ApiRouter.Add ApiRouter.HoldsType NewApiRouter
//gv:norun
func gvc_ApiRouter_UpdatePtz(req *traits.UpdatePtzRequest, a, b string, fails bool) {
	gv.Requires(req != nil)
	was := gv.Freeze(req)
	c1, c2 := &gvPtzApiClient{want: req, was: was}, &gvPtzApiClient{want: req, was: was}
	if fails {
		c1.err, c2.err = errors.New("1"), errors.New("2")
	}
	r := NewApiRouter()
	r.AddPtzApiClient(a, c1)
	r.AddPtzApiClient(b, c2)
	ctx := context.Background()
	res, err := r.UpdatePtz(ctx, req)
	to, not := c1, c2
	if req.Name == b {
		to, not = c2, c1
	} else if req.Name != a {
		gv.Ensures("a name with no client is NotFound", status.Code(err) == codes.NotFound && res == nil)
		gv.Ensures("a name with no client touches none", c1.called == "" && c2.called == "")
		gv.Reach("not found")
		return
	}
	gv.Ensures("the request goes to its method of its client, once", to.called == "UpdatePtz." && not.called == "")
	gv.Ensures("the request passes unaltered", to.same)
	gv.Ensures("the call is made in the caller's context", to.ctx == ctx)
	gv.Ensures("the response passes", gv.Implies(!fails, any(res) == to.res && err == nil))
	gv.Ensures("the status passes", gv.Implies(fails, err == to.err))
	gv.Reach("forwarded")
}

func (c *gvPtzApiClient) Stop(ctx context.Context, req *traits.StopPtzRequest, _ ...grpc.CallOption) (*traits.Ptz, error) {
	c.ctx, c.req = ctx, req
	c.same = c.was.Unchanged() && (req == c.want.(*traits.StopPtzRequest) || proto.Equal(req, c.want))
	c.called += "Stop."
	if c.err != nil {
		return nil, c.err
	}
	c.res = &traits.Ptz{}
	return c.res.(*traits.Ptz), nil
}

// Stop passes the request on to the client it names, and the response or status back.
//
//gv:property C12
//gv:for (*ApiRouter).Stop covers ApiRouter.GetPtzApiClient ApiRouter.AddPtzApiClient ApiRouter.Add ApiRouter.HoldsType NewApiRouter
//gv:norun
func gvc_ApiRouter_Stop(req *traits.StopPtzRequest, a, b string, fails bool) {
	gv.Requires(req != nil)
	was := gv.Freeze(req)
	c1, c2 := &gvPtzApiClient{want: req, was: was}, &gvPtzApiClient{want: req, was: was}
	if fails {
		c1.err, c2.err = errors.New("1"), errors.New("2")
	}
	r := NewApiRouter()
	r.AddPtzApiClient(a, c1)
	r.AddPtzApiClient(b, c2)
	ctx := context.Background()
	res, err := r.Stop(ctx, req)
	to, not := c1, c2
	if req.Name == b {
		to, not = c2, c1
	} else if req.Name != a {
		gv.Ensures("a name with no client is NotFound", status.Code(err) == codes.NotFound && res == nil)
		gv.Ensures("a name with no client touches none", c1.called == "" && c2.called == "")
		gv.Reach("not found")
		return
	}
	gv.Ensures("the request goes to its method of its client, once", to.called == "Stop." && not.called == "")
	gv.Ensures("the request passes unaltered", to.same)
	gv.Ensures("the call is made in the caller's context", to.ctx == ctx)
	gv.Ensures("the response passes", gv.Implies(!fails, any(res) == to.res && err == nil))
	gv.Ensures("the status passes", gv.Implies(fails, err == to.err))
	gv.Reach("forwarded")
}

func (c *gvPtzApiClient) CreatePreset(ctx context.Context, req *traits.CreatePtzPresetRequest, _ ...grpc.CallOption) (*traits.PtzPreset, error) {
	c.ctx, c.req = ctx, req
	c.same = c.was.Unchanged() && (req == c.want.(*traits.CreatePtzPresetRequest) || proto.Equal(req, c.want))
	c.called += "CreatePreset."
	if c.err != nil {
		return nil, c.err
	}
	c.res = &traits.PtzPreset{}
	return c.res.(*traits.PtzPreset), nil
}

// CreatePreset passes the request on to the client it names, and the response or status back.
//
//gv:property C12
//gv:for (*ApiRouter).CreatePreset covers ApiRouter.GetPtzApiClient ApiRouter.AddPtzApiClient ApiRouter.Add ApiRouter.HoldsType NewApiRouter
//gv:norun
func gvc_ApiRouter_CreatePreset(req *traits.CreatePtzPresetRequest, a, b string, fails bool) {
	gv.Requires(req != nil)
	was := gv.Freeze(req)
	c1, c2 := &gvPtzApiClient{want: req, was: was}, &gvPtzApiClient{want: req, was: was}
	if fails {
		c1.err, c2.err = errors.New("1"), errors.New("2")
	}
	r := NewApiRouter()
	r.AddPtzApiClient(a, c1)
	r.AddPtzApiClient(b, c2)
	ctx := context.Background()
	res, err := r.CreatePreset(ctx, req)
	to, not := c1, c2
	if req.Name == b {
		to, not = c2, c1
	} else if req.Name != a {
		gv.Ensures("a name with no client is NotFound", status.Code(err) == codes.NotFound && res == nil)
		gv.Ensures("a name with no client touches none", c1.called == "" && c2.called == "")
		gv.Reach("not found")
		return
	}
	gv.Ensures("the request goes to its method of its client, once", to.called == "CreatePreset." && not.called == "")
	gv.Ensures("the request passes unaltered", to.same)
	gv.Ensures("the call is made in the caller's context", to.ctx == ctx)
	gv.Ensures("the response passes", gv.Implies(!fails, any(res) == to.res && err == nil))
	gv.Ensures("the status passes", gv.Implies(fails, err == to.err))
	gv.Reach("forwarded")
}

func (c *gvPtzApiClient) PullPtz(ctx context.Context, req *traits.PullPtzRequest, _ ...grpc.CallOption) (traits.PtzApi_PullPtzClient, error) {
	c.ctx, c.req = ctx, req
	c.same = c.was.Unchanged() && (req == c.want.(*traits.PullPtzRequest) || proto.Equal(req, c.want))
	c.called += "PullPtz."
	if c.how == 1 {
		return nil, c.err
	}
	return &gvPtzApiClientPullPtz{c: c}, nil
}

type gvPtzApiClientPullPtz struct {
	grpc.ClientStream
	c    *gvPtzApiClient
	said []*traits.PullPtzResponse
}

func (s *gvPtzApiClientPullPtz) Header() (metadata.MD, error) {
	if s.c.how == 2 {
		return nil, s.c.err
	}
	return metadata.MD{"h": []string{s.c.header}}, nil
}
func (s *gvPtzApiClientPullPtz) Trailer() metadata.MD { return metadata.MD{"t": []string{s.c.header}} }
func (s *gvPtzApiClientPullPtz) Recv() (*traits.PullPtzResponse, error) {
	if len(s.said) == s.c.n {
		if s.c.how == 3 {
			return nil, s.c.err
		}
		return nil, io.EOF
	}
	m := &traits.PullPtzResponse{}
	s.said = append(s.said, m)
	s.c.res = m
	s.c.got++
	return m, nil
}

// gvApiRouterPullPtz is the caller's side.
type gvApiRouterPullPtz struct {
	grpc.ServerStream
	ctx     context.Context
	to      *gvPtzApiClient
	drop    int // the message that can't be sent
	fail    error
	n       int
	inOrder bool
	headers int
	header  string
	trailer string
}

func (s *gvApiRouterPullPtz) Context() context.Context { return s.ctx }
func (s *gvApiRouterPullPtz) SendHeader(md metadata.MD) error {
	s.headers++
	s.header = md["h"][0]
	return nil
}
func (s *gvApiRouterPullPtz) SetTrailer(md metadata.MD) { s.trailer = md["t"][0] }
func (s *gvApiRouterPullPtz) Send(m *traits.PullPtzResponse) error {
	if s.n == s.drop {
		return s.fail
	}
	s.n++
	s.inOrder = s.inOrder && any(m) == s.to.res && s.n == s.to.got
	return nil
}

// PullPtz passes the request on to the client it names, and the header, responses, trailer and status of the stream back.
//
//gv:property C12
//gv:for (*ApiRouter).PullPtz covers ApiRouter.GetPtzApiClient ApiRouter.AddPtzApiClient ApiRouter.Add ApiRouter.HoldsType NewApiRouter
//gv:norun
func gvc_ApiRouter_PullPtz(req *traits.PullPtzRequest, a, b string, how, n, drop int, header string) {
	gv.Requires(req != nil && how >= 0 && how <= 3 && n >= 0 && n <= 2)
	gv.Bound("responses", n, 2)
	was := gv.Freeze(req)
	c1, c2 := &gvPtzApiClient{want: req, was: was, how: how, n: n, header: header}, &gvPtzApiClient{want: req, was: was, how: how, n: n, header: header}
	c1.err, c2.err = errors.New("1"), errors.New("2")
	r := NewApiRouter()
	r.AddPtzApiClient(a, c1)
	r.AddPtzApiClient(b, c2)
	to, not := c1, c2
	if req.Name == b {
		to, not = c2, c1
	}
	ss := &gvApiRouterPullPtz{ctx: context.Background(), to: to, drop: drop, fail: errors.New("gone"), inOrder: true}
	err := r.PullPtz(req, ss)
	if req.Name != b && req.Name != a {
		gv.Ensures("a name with no client is NotFound", status.Code(err) == codes.NotFound)
		gv.Ensures("a name with no client touches none", c1.called == "" && c2.called == "")
		gv.Reach("not found")
		return
	}
	gv.Ensures("the request goes to its method of its client, once", to.called == "PullPtz." && not.called == "")
	gv.Ensures("the request passes unaltered", to.same)
	if how == 1 || how == 2 {
		gv.Ensures("the status passes", err == to.err)
		gv.Reach("no stream")
		return
	}
	gv.Ensures("the header passes, once", ss.headers == 1 && ss.header == header)
	gv.Ensures("the responses pass in order, unaltered", ss.inOrder)
	if 0 <= drop && drop < n {
		gv.Ensures("when the caller has gone, so has the request to the client", to.ctx.Err() != nil)
		gv.Reach("left")
		return
	}
	gv.Ensures("all the responses pass", ss.n == n && to.got == n)
	gv.Ensures("the trailer passes", ss.trailer == header)
	gv.Ensures("the status passes", gv.Implies(how == 3, err == to.err) && gv.Implies(how == 0, err == nil))
	gv.Reach("forwarded")
}
