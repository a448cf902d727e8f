// Written by contracts/gen_c12.py.

package countpb

import (
	"context"
	"errors"
	"io"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-golang/internal/gv"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
)

// gvCountApiClient is a client that tells what it was asked, and answers as it is told.
type gvCountApiClient struct {
	traits.CountApiClient
	called string
	ctx    context.Context
	req    any
	want   proto.Message
	was    gv.Frozen
	same   bool
	res    any
	err    error
	how    int // 1: no stream, 2: no header, 3: fails in the end
	n      int // responses
	got    int
	header string
}

func (c *gvCountApiClient) GetCount(ctx context.Context, req *traits.GetCountRequest, _ ...grpc.CallOption) (*traits.Count, error) {
	c.ctx, c.req = ctx, req
	c.same = c.was.Unchanged() && (req == c.want.(*traits.GetCountRequest) || proto.Equal(req, c.want))
	c.called += "GetCount."
	if c.err != nil {
		return nil, c.err
	}
	c.res = &traits.Count{}
	return c.res.(*traits.Count), nil
}

// GetCount passes the request on to the client it names, and the response or status back.
//
//gv:property C12
//gv:for (*ApiRouter).GetCount covers ApiRouter.GetCountApiClient ApiRouter.AddCountApiClient ApiRouter.Add ApiRouter.HoldsType NewApiRouter
//gv:norun
func gvc_ApiRouter_GetCount(req *traits.GetCountRequest, a, b string, fails bool) {
	gv.Requires(req != nil)
	was := gv.Freeze(req)
	c1, c2 := &gvCountApiClient{want: req, was: was}, &gvCountApiClient{want: req, was: was}
	if fails {
		c1.err, c2.err = errors.New("1"), errors.New("2")
	}
	r := NewApiRouter()
	r.AddCountApiClient(a, c1)
	r.AddCountApiClient(b, c2)
	ctx := context.Background()
	res, err := r.GetCount(ctx, req)
	to, not := c1, c2
	if req.Name == b {
		to, not = c2, c1
	} else if req.Name != a {
		gv.Ensures("a name with no client is NotFound", status.Code(err) == codes.NotFound && res == nil)
		gv.Ensures("a name with no client touches none", c1.called == "" && c2.called == "")
		gv.Reach("not found")
		return
	}
	gv.Ensures("the request goes to its method of its client, once", to.called == "GetCount." && not.called == "")
	gv.Ensures("the request passes unaltered", to.same)
	gv.Ensures("the call is made in the caller's context", to.ctx == ctx)
	gv.Ensures("the response passes", gv.Implies(!fails, any(res) == to.res && err == nil))
	gv.Ensures("the status passes", gv.Implies(fails, err == to.err))
	gv.Reach("forwarded")
}

func (c *gvCountApiClient) ResetCount(ctx context.Context, req *traits.ResetCountRequest, _ ...grpc.CallOption) (*traits.Count, error) {
	c.ctx, c.req = ctx, req
	c.same = c.was.Unchanged() && (req == c.want.(*traits.ResetCountRequest) || proto.Equal(req, c.want))
	c.called += "ResetCount."
	if c.err != nil {
		return nil, c.err
	}
	c.res = &traits.Count{}
	return c.res.(*traits.Count), nil
}

// ResetCount passes the request on to the client it names, and the response or status back.
//
//gv:property C12
//gv:for (*ApiRouter).ResetCount covers ApiRouter.GetCountApiClient ApiRouter.AddCountApiClient ApiRouter.Add ApiRouter.HoldsType NewApiRouter
//gv:norun
func gvc_ApiRouter_ResetCount(req *traits.ResetCountRequest, a, b string, fails bool) {
	gv.Requires(req != nil)
	was := gv.Freeze(req)
	c1, c2 := &gvCountApiClient{want: req, was: was}, &gvCountApiClient{want: req, was: was}
	if fails {
		c1.err, c2.err = errors.New("1"), errors.New("2")
	}
	r := NewApiRouter()
	r.AddCountApiClient(a, c1)
	r.AddCountApiClient(b, c2)
	ctx := context.Background()
	res, err := r.ResetCount(ctx, req)
	to, not := c1, c2
	if req.Name == b {
		to, not = c2, c1
	} else if req.Name != a {
		gv.Ensures("a name with no client is NotFound", status.Code(err) == codes.NotFound && res == nil)
		gv.Ensures("a name with no client touches none", c1.called == "" && c2.called == "")
		gv.Reach("not found")
		return
	}
	gv.Ensures("the request goes to its method of its client, once", to.called == "ResetCount." && not.called == "")
	gv.Ensures("the request passes unaltered", to.same)
	gv.Ensures("the call is made in the caller's context", to.ctx == ctx)
	gv.Ensures("the response passes", gv.Implies(!fails, any(res) == to.res && err == nil))
	gv.Ensures("the status passes", gv.Implies(fails, err == to.err))
	gv.Reach("forwarded")
}

func (c *gvCountApiClient) UpdateCount(ctx context.Context, req *traits.UpdateCountRequest, _ ...grpc.CallOption) (*traits.Count, error) {
	c.ctx, c.req = ctx, req
	c.same = c.was.Unchanged() && (req == c.want.(*traits.UpdateCountRequest) || proto.Equal(req, c.want))
	c.called += "UpdateCount."
	if c.err != nil {
		return nil, c.err
	}
	c.res = &traits.Count{}
	return c.res.(*traits.Count), nil
}

// UpdateCount passes the request on to the client it names, and the response or status back.
//
//gv:property C12
//gv:for (*ApiRouter).UpdateCount covers ApiRouter.GetCountApiClient ApiRouter.AddCountApiClient ApiRouter.Add ApiRouter.HoldsType NewApiRouter
//gv:norun
func gvc_ApiRouter_UpdateCount(req *traits.UpdateCountRequest, a, b string, fails bool) {
	gv.Requires(req != nil)
	was := gv.Freeze(req)
	c1, c2 := &gvCountApiClient{want: req, was: was}, &gvCountApiClient{want: req, was: was}
	if fails {
		c1.err, c2.err = errors.New("1"), errors.New("2")
	}
	r := NewApiRouter()
	r.AddCountApiClient(a, c1)
	r.AddCountApiClient(b, c2)
	ctx := context.Background()
	res, err := r.UpdateCount(ctx, req)
	to, not := c1, c2
	if req.Name == b {
		to, not = c2, c1
	} else if req.Name != a {
		gv.Ensures("a name with no client is NotFound", status.Code(err) == codes.NotFound && res == nil)
		gv.Ensures("a name with no client touches none", c1.called == "" && c2.called == "")
		gv.Reach("not found")
		return
	}
	gv.Ensures("the request goes to its method of its client, once", to.called == "UpdateCount." && not.called == "")
	gv.Ensures("the request passes unaltered", to.same)
	gv.Ensures("the call is made in the caller's context", to.ctx == ctx)
	gv.Ensures("the response passes", gv.Implies(!fails, any(res) == to.res && err == nil))
	gv.Ensures("the status passes", gv.Implies(fails, err == to.err))
	gv.Reach("forwarded")
}

func (c *gvCountApiClient) PullCounts(ctx context.Context, req *traits.PullCountsRequest, _ ...grpc.CallOption) (traits.CountApi_PullCountsClient, error) {
	c.ctx, c.req = ctx, req
	c.same = c.was.Unchanged() && (req == c.want.(*traits.PullCountsRequest) || proto.Equal(req, c.want))
	c.called += "PullCounts."
	if c.how == 1 {
		return nil, c.err
	}
	return &gvCountApiClientPullCounts{c: c}, nil
}

type gvCountApiClientPullCounts struct {
	grpc.ClientStream
	c    *gvCountApiClient
	said []*traits.PullCountsResponse
}

func (s *gvCountApiClientPullCounts) Header() (metadata.MD, error) {
	if s.c.how == 2 {
		return nil, s.c.err
	}
	return metadata.MD{"h": []string{s.c.header}}, nil
}
func (s *gvCountApiClientPullCounts) Trailer() metadata.MD {
	return metadata.MD{"t": []string{s.c.header}}
}
func (s *gvCountApiClientPullCounts) Recv() (*traits.PullCountsResponse, error) {
	if len(s.said) == s.c.n {
		if s.c.how == 3 {
			return nil, s.c.err
		}
		return nil, io.EOF
	}
	m := &traits.PullCountsResponse{}
	s.said = append(s.said, m)
	s.c.res = m
	s.c.got++
	return m, nil
}

// gvApiRouterPullCounts is the caller's side.
type gvApiRouterPullCounts struct {
	grpc.ServerStream
	ctx     context.Context
	to      *gvCountApiClient
	drop    int // the message that can't be sent
	fail    error
	n       int
	inOrder bool
	headers int
	header  string
	trailer string
}

func (s *gvApiRouterPullCounts) Context() context.Context { return s.ctx }
func (s *gvApiRouterPullCounts) SendHeader(md metadata.MD) error {
	s.headers++
	s.header = md["h"][0]
	return nil
}
func (s *gvApiRouterPullCounts) SetTrailer(md metadata.MD) { s.trailer = md["t"][0] }
func (s *gvApiRouterPullCounts) Send(m *traits.PullCountsResponse) error {
	if s.n == s.drop {
		return s.fail
	}
	s.n++
	s.inOrder = s.inOrder && any(m) == s.to.res && s.n == s.to.got
	return nil
}

// PullCounts passes the request on to the client it names, and the header, responses, trailer and status of the stream back.
//
//gv:property C12
//gv:for (*ApiRouter).PullCounts covers ApiRouter.GetCountApiClient ApiRouter.AddCountApiClient ApiRouter.Add ApiRouter.HoldsType NewApiRouter
//gv:norun
func gvc_ApiRouter_PullCounts(req *traits.PullCountsRequest, a, b string, how, n, drop int, header string) {
	gv.Requires(req != nil && how >= 0 && how <= 3 && n >= 0 && n <= 2)
	gv.Bound("responses", n, 2)
	was := gv.Freeze(req)
	c1, c2 := &gvCountApiClient{want: req, was: was, how: how, n: n, header: header}, &gvCountApiClient{want: req, was: was, how: how, n: n, header: header}
	c1.err, c2.err = errors.New("1"), errors.New("2")
	r := NewApiRouter()
	r.AddCountApiClient(a, c1)
	r.AddCountApiClient(b, c2)
	to, not := c1, c2
	if req.Name == b {
		to, not = c2, c1
	}
	ss := &gvApiRouterPullCounts{ctx: context.Background(), to: to, drop: drop, fail: errors.New("gone"), inOrder: true}
	err := r.PullCounts(req, ss)
	if req.Name != b && req.Name != a {
		gv.Ensures("a name with no client is NotFound", status.Code(err) == codes.NotFound)
		gv.Ensures("a name with no client touches none", c1.called == "" && c2.called == "")
		gv.Reach("not found")
		return
	}
	gv.Ensures("the request goes to its method of its client, once", to.called == "PullCounts." && not.called == "")
	gv.Ensures("the request passes unaltered", to.same)
	if how == 1 || how == 2 {
		gv.Ensures("the status passes", err == to.err)
		gv.Reach("no stream")
		return
	}
	gv.Ensures("the header passes, once", ss.headers == 1 && ss.header == header)
	gv.Ensures("the responses pass in order, unaltered", ss.inOrder)
	if 0 <= drop && drop < n {
		gv.Ensures("when the caller has gone, so has the request to the client", to.ctx.Err() != nil)
		gv.Reach("left")
		return
	}
	gv.Ensures("all the responses pass", ss.n == n && to.got == n)
	gv.Ensures("the trailer passes", ss.trailer == header)
	gv.Ensures("the status passes", gv.Implies(how == 3, err == to.err) && gv.Implies(how == 0, err == nil))
	gv.Reach("forwarded")
}
