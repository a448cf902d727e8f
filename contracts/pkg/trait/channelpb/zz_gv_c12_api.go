// Written by contracts/gen_c12.py.

package channelpb

import (
	"context"
	"errors"
	"io"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-golang/internal/gv"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
)

// gvChannelApiClient is a client that tells what it was asked, and answers as it is told.
type gvChannelApiClient struct {
	traits.ChannelApiClient
	called string
	ctx    context.Context
	req    any
	want   proto.Message
	was    gv.Frozen
	same   bool
	res    any
	err    error
	how    int // 1: no stream, 2: no header, 3: fails in the end
	n      int // responses
	got    int
	header string
}

func (c *gvChannelApiClient) GetChosenChannel(ctx context.Context, req *traits.GetChosenChannelRequest, _ ...grpc.CallOption) (*traits.Channel, error) {
	c.ctx, c.req = ctx, req
	c.same = c.was.Unchanged() && (req == c.want.(*traits.GetChosenChannelRequest) || proto.Equal(req, c.want))
	c.called += "GetChosenChannel."
	if c.err != nil {
		return nil, c.err
	}
	c.res = &traits.Channel{}
	return c.res.(*traits.Channel), nil
}

// GetChosenChannel passes the request on to the client it names, and the response or status back.
//
//gv:property C12
//gv:for (*ApiRouter).GetChosenChannel covers ApiRouter.GetChannelApiClient ApiRouter.AddChannelApiClient ApiRouter.Add ApiRouter.HoldsType NewApiRouter
//gv:norun
func gvc_ApiRouter_GetChosenChannel(req *traits.GetChosenChannelRequest, a, b string, fails bool) {
	gv.Requires(req != nil)
	was := gv.Freeze(req)
	c1, c2 := &gvChannelApiClient{want: req, was: was}, &gvChannelApiClient{want: req, was: was}
	if fails {
		c1.err, c2.err = errors.New("1"), errors.New("2")
	}
	r := NewApiRouter()
	r.AddChannelApiClient(a, c1)
	r.AddChannelApiClient(b, c2)
	ctx := context.Background()
	res, err := r.GetChosenChannel(ctx, req)
	to, not := c1, c2
	if req.Name == b {
		to, not = c2, c1
	} else if req.Name != a {
		gv.Ensures("a name with no client is NotFound", status.Code(err) == codes.NotFound && res == nil)
		gv.Ensures("a name with no client touches none", c1.called == "" && c2.called == "")
		gv.Reach("not found")
		return
	}
	gv.Ensures("the request goes to its method of its client, once", to.called == "GetChosenChannel." && not.called == "")
	gv.Ensures("the request passes unaltered", to.same)
	gv.Ensures("the call is made in the caller's context", to.ctx == ctx)
	gv.Ensures("the response passes", gv.Implies(!fails, any(res) == to.res && err == nil))
	gv.Ensures("the status passes", gv.Implies(fails, err == to.err))
	gv.Reach("forwarded")
}

func (c *gvChannelApiClient) ChooseChannel(ctx context.Context, req *traits.ChooseChannelRequest, _ ...grpc.CallOption) (*traits.Channel, error) {
	c.ctx, c.req = ctx, req
	c.same = c.was.Unchanged() && (req == c.want.(*traits.ChooseChannelRequest) || proto.Equal(req, c.want))
	c.called += "ChooseChannel."
	if c.err != nil {
		return nil, c.err
	}
	c.res = &traits.Channel{}
	return c.res.(*traits.Channel), nil
}

// ChooseChannel passes the request on to the client it names, and the response or status back.
//
//gv:property C12
//gv:for (*ApiRouter).ChooseChannel covers ApiRouter.GetChannelApiClient ApiRouter.AddChannelApiClient ApiRouter.Add ApiRouter.HoldsType NewApiRouter
//gv:norun
func gvc_ApiRouter_ChooseChannel(req *traits.ChooseChannelRequest, a, b string, fails bool) {
	gv.Requires(req != nil)
	was := gv.Freeze(req)
	c1, c2 := &gvChannelApiClient{want: req, was: was}, &gvChannelApiClient{want: req, was: was}
	if fails {
		c1.err, c2.err = errors.New("1"), errors.New("2")
	}
	r := NewApiRouter()
	r.AddChannelApiClient(a, c1)
	r.AddChannelApiClient(b, c2)
	ctx := context.Background()
	res, err := r.ChooseChannel(ctx, req)
	to, not := c1, c2
	if req.Name == b {
		to, not = c2, c1
	} else if req.Name != a {
		gv.Ensures("a name with no client is NotFound", status.Code(err) == codes.NotFound && res == nil)
		gv.Ensures("a name with no client touches none", c1.called == "" && c2.called == "")
		gv.Reach("not found")
		return
	}
	gv.Ensures("the request goes to its method of its client, once", to.called == "ChooseChannel." && not.called == "")
	gv.Ensures("the request passes unaltered", to.same)
	gv.Ensures("the call is made in the caller's context", to.ctx == ctx)
	gv.Ensures("the response passes", gv.Implies(!fails, any(res) == to.res && err == nil))
	gv.Ensures("the status passes", gv.Implies(fails, err == to.err))
	gv.Reach("forwarded")
}

func (c *gvChannelApiClient) AdjustChannel(ctx context.Context, req *traits.AdjustChannelRequest, _ ...grpc.CallOption) (*traits.Channel, error) {
	c.ctx, c.req = ctx, req
	c.same = c.was.Unchanged() && (req == c.want.(*traits.AdjustChannelRequest) || proto.Equal(req, c.want))
	c.called += "AdjustChannel."
	if c.err != nil {
		return nil, c.err
	}
	c.res = &traits.Channel{}
	return c.res.(*traits.Channel), nil
}

// AdjustChannel passes the request on to the client it names, and the response or status back.
//
//gv:property C12
//gv:for (*ApiRouter).AdjustChannel covers ApiRouter.GetChannelApiClient ApiRouter.AddChannelApiClient ApiRouter.Add ApiRouter.HoldsType NewApiRouter
//gv:norun
func gvc_ApiRouter_AdjustChannel(req *traits.AdjustChannelRequest, a, b string, fails bool) {
	gv.Requires(req != nil)
	was := gv.Freeze(req)
	c1, c2 := &gvChannelApiClient{want: req, was: was}, &gvChannelApiClient{want: req, was: was}
	if fails {
		c1.err, c2.err = errors.New("1"), errors.New("2")
	}
	r := NewApiRouter()
	r.AddChannelApiClient(a, c1)
	r.AddChannelApiClient(b, c2)
	ctx := context.Background()
	res, err := r.AdjustChannel(ctx, req)
	to, not := c1, c2
	if req.Name == b {
		to, not = c2, c1
	} else if req.Name != a {
		gv.Ensures("a name with no client is NotFound", status.Code(err) == codes.NotFound && res == nil)
		gv.Ensures("a name with no client touches none", c1.called == "" && c2.called == "")
		gv.Reach("not found")
		return
	}
	gv.Ensures("the request goes to its method of its client, once", to.called == "AdjustChannel." && not.called == "")
	gv.Ensures("the request passes unaltered", to.same)
	gv.Ensures("the call is made in the caller's context", to.ctx == ctx)
	gv.Ensures("the response passes", gv.Implies(!fails, any(res) == to.res && err == nil))
	gv.Ensures("the status passes", gv.Implies(fails, err == to.err))
	gv.Reach("forwarded")
}

func (c *gvChannelApiClient) ReturnChannel(ctx context.Context, req *traits.ReturnChannelRequest, _ ...grpc.CallOption) (*traits.Channel, error) {
	c.ctx, c.req = ctx, req
	c.same = c.was.Unchanged() && (req == c.want.(*traits.ReturnChannelRequest) || proto.Equal(req, c.want))
	c.called += "ReturnChannel."
	if c.err != nil {
		return nil, c.err
	}
	c.res = &traits.Channel{}
	return c.res.(*traits.Channel), nil
}

// ReturnChannel passes the request on to the client it names, and the response or status back.
//
//gv:property C12
//gv:for (*ApiRouter).ReturnChannel covers ApiRouter.GetChannelApiClient ApiRouter.AddChannelApiClient ApiRouter.Add ApiRouter.HoldsType NewApiRouter
//gv:norun
func gvc_ApiRouter_ReturnChannel(req *traits.ReturnChannelRequest, a, b string, fails bool) {
	gv.Requires(req != nil)
	was := gv.Freeze(req)
	c1, c2 := &gvChannelApiClient{want: req, was: was}, &gvChannelApiClient{want: req, was: was}
	if fails {
		c1.err, c2.err = errors.New("1"), errors.New("2")
	}
	r := NewApiRouter()
	r.AddChannelApiClient(a, c1)
	r.AddChannelApiClient(b, c2)
	ctx := context.Background()
	res, err := r.ReturnChannel(ctx, req)
	to, not := c1, c2
	if req.Name == b {
		to, not = c2, c1
	} else if req.Name != a {
		gv.Ensures("a name with no client is NotFound", status.Code(err) == codes.NotFound && res == nil)
		gv.Ensures("a name with no client touches none", c1.called == "" && c2.called == "")
		gv.Reach("not found")
		return
	}
	gv.Ensures("the request goes to its method of its client, once", to.called == "ReturnChannel." && not.called == "")
	gv.Ensures("the request passes unaltered", to.same)
	gv.Ensures("the call is made in the caller's context", to.ctx == ctx)
	gv.Ensures("the response passes", gv.Implies(!fails, any(res) == to.res && err == nil))
	gv.Ensures("the status passes", gv.Implies(fails, err == to.err))
	gv.Reach("forwarded")
}

func (c *gvChannelApiClient) PullChosenChannel(ctx context.Context, req *traits.PullChosenChannelRequest, _ ...grpc.CallOption) (traits.ChannelApi_PullChosenChannelClient, error) {
	c.ctx, c.req = ctx, req
	c.same = c.was.Unchanged() && (req == c.want.(*traits.PullChosenChannelRequest) || proto.Equal(req, c.want))
	c.called += "PullChosenChannel."
	if c.how == 1 {
		return nil, c.err
	}
	return &gvChannelApiClientPullChosenChannel{c: c}, nil
}

type gvChannelApiClientPullChosenChannel struct {
	grpc.ClientStream
	c    *gvChannelApiClient
	said []*traits.PullChosenChannelResponse
}

func (s *gvChannelApiClientPullChosenChannel) Header() (metadata.MD, error) {
	if s.c.how == 2 {
		return nil, s.c.err
	}
	return metadata.MD{"h": []string{s.c.header}}, nil
}
func (s *gvChannelApiClientPullChosenChannel) Trailer() metadata.MD {
	return metadata.MD{"t": []string{s.c.header}}
}
func (s *gvChannelApiClientPullChosenChannel) Recv() (*traits.PullChosenChannelResponse, error) {
	if len(s.said) == s.c.n {
		if s.c.how == 3 {
			return nil, s.c.err
		}
		return nil, io.EOF
	}
	m := &traits.PullChosenChannelResponse{}
	s.said = append(s.said, m)
	s.c.res = m
	s.c.got++
	return m, nil
}

// gvApiRouterPullChosenChannel is the caller's side.
type gvApiRouterPullChosenChannel struct {
	grpc.ServerStream
	ctx     context.Context
	to      *gvChannelApiClient
	drop    int // the message that can't be sent
	fail    error
	n       int
	inOrder bool
	headers int
	header  string
	trailer string
}

func (s *gvApiRouterPullChosenChannel) Context() context.Context { return s.ctx }
func (s *gvApiRouterPullChosenChannel) SendHeader(md metadata.MD) error {
	s.headers++
	s.header = md["h"][0]
	return nil
}
func (s *gvApiRouterPullChosenChannel) SetTrailer(md metadata.MD) { s.trailer = md["t"][0] }
func (s *gvApiRouterPullChosenChannel) Send(m *traits.PullChosenChannelResponse) error {
	if s.n == s.drop {
		return s.fail
	}
	s.n++
	s.inOrder = s.inOrder && any(m) == s.to.res && s.n == s.to.got
	return nil
}

// PullChosenChannel passes the request on to the client it names, and the header, responses, trailer and status of the stream back.
//
//gv:property C12
//gv:for (*ApiRouter).PullChosenChannel covers ApiRouter.GetChannelApiClient ApiRouter.AddChannelApiClient ApiRouter.Add ApiRouter.HoldsType NewApiRouter
//gv:norun
func gvc_ApiRouter_PullChosenChannel(req *traits.PullChosenChannelRequest, a, b string, how, n, drop int, header string) {
	gv.Requires(req != nil && how >= 0 && how <= 3 && n >= 0 && n <= 2)
	gv.Bound("responses", n, 2)
	was := gv.Freeze(req)
	c1, c2 := &gvChannelApiClient{want: req, was: was, how: how, n: n, header: header}, &gvChannelApiClient{want: req, was: was, how: how, n: n, header: header}
	c1.err, c2.err = errors.New("1"), errors.New("2")
	r := NewApiRouter()
	r.AddChannelApiClient(a, c1)
	r.AddChannelApiClient(b, c2)
	to, not := c1, c2
	if req.Name == b {
		to, not = c2, c1
	}
	ss := &gvApiRouterPullChosenChannel{ctx: context.Background(), to: to, drop: drop, fail: errors.New("gone"), inOrder: true}
	err := r.PullChosenChannel(req, ss)
	if req.Name != b && req.Name != a {
		gv.Ensures("a name with no client is NotFound", status.Code(err) == codes.NotFound)
		gv.Ensures("a name with no client touches none", c1.called == "" && c2.called == "")
		gv.Reach("not found")
		return
	}
	gv.Ensures("the request goes to its method of its client, once", to.called == "PullChosenChannel." && not.called == "")
	gv.Ensures("the request passes unaltered", to.same)
	if how == 1 || how == 2 {
		gv.Ensures("the status passes", err == to.err)
		gv.Reach("no stream")
		return
	}
	gv.Ensures("the header passes, once", ss.headers == 1 && ss.header == header)
	gv.Ensures("the responses pass in order, unaltered", ss.inOrder)
	if 0 <= drop && drop < n {
		gv.Ensures("when the caller has gone, so has the request to the client", to.ctx.Err() != nil)
		gv.Reach("left")
		return
	}
	gv.Ensures("all the responses pass", ss.n == n && to.got == n)
	gv.Ensures("the trailer passes", ss.trailer == header)
	gv.Ensures("the status passes", gv.Implies(how == 3, err == to.err) && gv.Implies(how == 0, err == nil))
	gv.Reach("forwarded")
}
