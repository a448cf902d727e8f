// Written by contracts/gen_c12.py.

package extendretractpb

import (
	"context"
	"errors"
	"io"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-golang/internal/gv"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
)

// gvExtendRetractApiClient is a client that tells what it was asked, and answers as it is told.
type gvExtendRetractApiClient struct {
	traits.ExtendRetractApiClient
	called string
	ctx    context.Context
	req    any
	want   proto.Message
	was    gv.Frozen
	same   bool
	res    any
	err    error
	how    int // 1: no stream, 2: no header, 3: fails in the end
	n      int // responses
	got    int
	header string
}

func (c *gvExtendRetractApiClient) GetExtension(ctx context.Context, req *traits.GetExtensionRequest, _ ...grpc.CallOption) (*traits.Extension, error) {
	c.ctx, c.req = ctx, req
	c.same = c.was.Unchanged() && (req == c.want.(*traits.GetExtensionRequest) || proto.Equal(req, c.want))
	c.called += "GetExtension."
	if c.err != nil {
		return nil, c.err
	}
	c.res = &traits.Extension{}
	return c.res.(*traits.Extension), nil
}

// GetExtension passes the request on to the client it names, and the response or status back.
//
//gv:property C12
//gv:for (*ApiRouter).GetExtension covers ApiRouter.GetExtendRetractApiClient ApiRouter.AddExtendRetractApiClient ApiRouter.Add ApiRouter.HoldsType NewApiRouter
//gv:norun
func gvc_ApiRouter_GetExtension(req *traits.GetExtensionRequest, a, b string, fails bool) {
	gv.Requires(req != nil)
	was := gv.Freeze(req)
	c1, c2 := &gvExtendRetractApiClient{want: req, was: was}, &gvExtendRetractApiClient{want: req, was: was}
	if fails {
		c1.err, c2.err = errors.New("1"), errors.New("2")
	}
	r := NewApiRouter()
	r.AddExtendRetractApiClient(a, c1)
	r.AddExtendRetractApiClient(b, c2)
	ctx := context.Background()
	res, err := r.GetExtension(ctx, req)
	to, not := c1, c2
	if req.Name == b {
		to, not = c2, c1
	} else if req.Name != a {
		gv.Ensures("a name with no client is NotFound", status.Code(err) == codes.NotFound && res == nil)
		gv.Ensures("a name with no client touches none", c1.called == "" && c2.called == "")
		gv.Reach("not found")
		return
	}
	gv.Ensures("the request goes to its method of its client, once", to.called == "GetExtension." && not.called == "")
	gv.Ensures("the request passes unaltered", to.same)
	gv.Ensures("the call is made in the caller's context", to.ctx == ctx)
	gv.Ensures("the response passes", gv.Implies(!fails, any(res) == to.res && err == nil))
	gv.Ensures("the status passes", gv.Implies(fails, err == to.err))
	gv.Reach("forwarded")
}

func (c *gvExtendRetractApiClient) UpdateExtension(ctx context.Context, req *traits.UpdateExtensionRequest, _ ...grpc.CallOption) (*traits.Extension, error) {
	c.ctx, c.req = ctx, req
	c.same = c.was.Unchanged() && (req == c.want.(*traits.UpdateExtensionRequest) || proto.Equal(req, c.want))
	c.called += "UpdateExtension."
	if c.err != nil {
		return nil, c.err
	}
	c.res = &traits.Extension{}
	return c.res.(*traits.Extension), nil
}

// UpdateExtension passes the request on to the client it names, and the response or status back.
//
//gv:property C12
//gv:for (*ApiRouter).UpdateExtension covers ApiRouter.GetExtendRetractApiClient ApiRouter.AddExtendRetractApiClient ApiRouter.Add ApiRouter.HoldsType NewApiRouter
//gv:norun
func gvc_ApiRouter_UpdateExtension(req *traits.UpdateExtensionRequest, a, b string, fails bool) {
	gv.Requires(req != nil)
	was := gv.Freeze(req)
	c1, c2 := &gvExtendRetractApiClient{want: req, was: was}, &gvExtendRetractApiClient{want: req, was: was}
	if fails {
		c1.err, c2.err = errors.New("1"), errors.New("2")
	}
	r := NewApiRouter()
	r.AddExtendRetractApiClient(a, c1)
	r.AddExtendRetractApiClient(b, c2)
	ctx := context.Background()
	res, err := r.UpdateExtension(ctx, req)
	to, not := c1, c2
	if req.Name == b {
		to, not = c2, c1
	} else if req.Name != a {
		gv.Ensures("a name with no client is NotFound", status.Code(err) == codes.NotFound && res == nil)
		gv.Ensures("a name with no client touches none", c1.called == "" && c2.called == "")
		gv.Reach("not found")
		return
	}
	gv.Ensures("the request goes to its method of its client, once", to.called == "UpdateExtension." && not.called == "")
	gv.Ensures("the request passes unaltered", to.same)
	gv.Ensures("the call is made in the caller's context", to.ctx == ctx)
	gv.Ensures("the response passes", gv.Implies(!fails, any(res) == to.res && err == nil))
	gv.Ensures("the status passes", gv.Implies(fails, err == to.err))
	gv.Reach("forwarded")
}

func (c *gvExtendRetractApiClient) Stop(ctx context.Context, req *traits.ExtendRetractStopRequest, _ ...grpc.CallOption) (*traits.Extension, error) {
	c.ctx, c.req = ctx, req
	c.same = c.was.Unchanged() && (req == c.want.(*traits.ExtendRetractStopRequest) || proto.Equal(req, c.want))
	c.called += "Stop."
	if c.err != nil {
		return nil, c.err
	}
	c.res = &traits.Extension{}
	return c.res.(*traits.Extension), nil
}

// Stop passes the request on to the client it names, and the response or status back.
//
//gv:property C12
//gv:for (*ApiRouter).Stop covers ApiRouter.GetExtendRetractApiClient ApiRouter.AddExtendRetractApiClient ApiRouter.Add ApiRouter.HoldsType NewApiRouter
//gv:norun
func gvc_ApiRouter_Stop(req *traits.ExtendRetractStopRequest, a, b string, fails bool) {
	gv.Requires(req != nil)
	was := gv.Freeze(req)
	c1, c2 := &gvExtendRetractApiClient{want: req, was: was}, &gvExtendRetractApiClient{want: req, was: was}
	if fails {
		c1.err, c2.err = errors.New("1"), errors.New("2")
	}
	r := NewApiRouter()
	r.AddExtendRetractApiClient(a, c1)
	r.AddExtendRetractApiClient(b, c2)
	ctx := context.Background()
	res, err := r.Stop(ctx, req)
	to, not := c1, c2
	if req.Name == b {
		to, not = c2, c1
	} else if req.Name != a {
		gv.Ensures("a name with no client is NotFound", status.Code(err) == codes.NotFound && res == nil)
		gv.Ensures("a name with no client touches none", c1.called == "" && c2.called == "")
		gv.Reach("not found")
		return
	}
	gv.Ensures("the request goes to its method of its client, once", to.called == "Stop." && not.called == "")
	gv.Ensures("the request passes unaltered", to.same)
	gv.Ensures("the call is made in the caller's context", to.ctx == ctx)
	gv.Ensures("the response passes", gv.Implies(!fails, any(res) == to.res && err == nil))
	gv.Ensures("the status passes", gv.Implies(fails, err == to.err))
	gv.Reach("forwarded")
}

func (c *gvExtendRetractApiClient) CreateExtensionPreset(ctx context.Context, req *traits.CreateExtensionPresetRequest, _ ...grpc.CallOption) (*traits.ExtensionPreset, error) {
	c.ctx, c.req = ctx, req
	c.same = c.was.Unchanged() && (req == c.want.(*traits.CreateExtensionPresetRequest) || proto.Equal(req, c.want))
	c.called += "CreateExtensionPreset."
	if c.err != nil {
		return nil, c.err
	}
	c.res = &traits.ExtensionPreset{}
	return c.res.(*traits.ExtensionPreset), nil
}

// CreateExtensionPreset passes the request on to the client it names, and the response or status back.
//
//gv:property C12
//gv:for (*ApiRouter).CreateExtensionPreset covers ApiRouter.GetExtendRetractApiClient ApiRouter.AddExtendRetractApiClient ApiRouter.Add ApiRouter.HoldsType NewApiRouter
//gv:norun
func gvc_ApiRouter_CreateExtensionPreset(req *traits.CreateExtensionPresetRequest, a, b string, fails bool) {
	gv.Requires(req != nil)
	was := gv.Freeze(req)
	c1, c2 := &gvExtendRetractApiClient{want: req, was: was}, &gvExtendRetractApiClient{want: req, was: was}
	if fails {
		c1.err, c2.err = errors.New("1"), errors.New("2")
	}
	r := NewApiRouter()
	r.AddExtendRetractApiClient(a, c1)
	r.AddExtendRetractApiClient(b, c2)
	ctx := context.Background()
	res, err := r.CreateExtensionPreset(ctx, req)
	to, not := c1, c2
	if req.Name == b {
		to, not = c2, c1
	} else if req.Name != a {
		gv.Ensures("a name with no client is NotFound", status.Code(err) == codes.NotFound && res == nil)
		gv.Ensures("a name with no client touches none", c1.called == "" && c2.called == "")
		gv.Reach("not found")
		return
	}
	gv.Ensures("the request goes to its method of its client, once", to.called == "CreateExtensionPreset." && not.called == "")
	gv.Ensures("the request passes unaltered", to.same)
	gv.Ensures("the call is made in the caller's context", to.ctx == ctx)
	gv.Ensures("the response passes", gv.Implies(!fails, any(res) == to.res && err == nil))
	gv.Ensures("the status passes", gv.Implies(fails, err == to.err))
	gv.Reach("forwarded")
}

func (c *gvExtendRetractApiClient) PullExtensions(ctx context.Context, req *traits.PullExtensionsRequest, _ ...grpc.CallOption) (traits.ExtendRetractApi_PullExtensionsClient, error) {
	c.ctx, c.req = ctx, req
	c.same = c.was.Unchanged() && (req == c.want.(*traits.PullExtensionsRequest) || proto.Equal(req, c.want))
	c.called += "PullExtensions."
	if c.how == 1 {
		return nil, c.err
	}
	return &gvExtendRetractApiClientPullExtensions{c: c}, nil
}

type gvExtendRetractApiClientPullExtensions struct {
	grpc.ClientStream
	c    *gvExtendRetractApiClient
	said []*traits.PullExtensionsResponse
}

func (s *gvExtendRetractApiClientPullExtensions) Header() (metadata.MD, error) {
	if s.c.how == 2 {
		return nil, s.c.err
	}
	return metadata.MD{"h": []string{s.c.header}}, nil
}
func (s *gvExtendRetractApiClientPullExtensions) Trailer() metadata.MD {
	return metadata.MD{"t": []string{s.c.header}}
}
func (s *gvExtendRetractApiClientPullExtensions) Recv() (*traits.PullExtensionsResponse, error) {
	if len(s.said) == s.c.n {
		if s.c.how == 3 {
			return nil, s.c.err
		}
		return nil, io.EOF
	}
	m := &traits.PullExtensionsResponse{}
	s.said = append(s.said, m)
	s.c.res = m
	s.c.got++
	return m, nil
}

// gvApiRouterPullExtensions is the caller's side.
type gvApiRouterPullExtensions struct {
	grpc.ServerStream
	ctx     context.Context
	to      *gvExtendRetractApiClient
	drop    int // the message that can't be sent
	fail    error
	n       int
	inOrder bool
	headers int
	header  string
	trailer string
}

func (s *gvApiRouterPullExtensions) Context() context.Context { return s.ctx }
func (s *gvApiRouterPullExtensions) SendHeader(md metadata.MD) error {
	s.headers++
	s.header = md["h"][0]
	return nil
}
func (s *gvApiRouterPullExtensions) SetTrailer(md metadata.MD) { s.trailer = md["t"][0] }
func (s *gvApiRouterPullExtensions) Send(m *traits.PullExtensionsResponse) error {
	if s.n == s.drop {
		return s.fail
	}
	s.n++
	s.inOrder = s.inOrder && any(m) == s.to.res && s.n == s.to.got
	return nil
}

// PullExtensions passes the request on to the client it names, and the header, responses, trailer and status of the stream back.
//
//gv:property C12
//gv:for (*ApiRouter).PullExtensions covers ApiRouter.GetExtendRetractApiClient ApiRouter.AddExtendRetractApiClient ApiRouter.Add ApiRouter.HoldsType NewApiRouter
//gv:norun
func gvc_ApiRouter_PullExtensions(req *traits.PullExtensionsRequest, a, b string, how, n, drop int, header string) {
	gv.Requires(req != nil && how >= 0 && how <= 3 && n >= 0 && n <= 2)
	gv.Bound("responses", n, 2)
	was := gv.Freeze(req)
	c1, c2 := &gvExtendRetractApiClient{want: req, was: was, how: how, n: n, header: header}, &gvExtendRetractApiClient{want: req, was: was, how: how, n: n, header: header}
	c1.err, c2.err = errors.New("1"), errors.New("2")
	r := NewApiRouter()
	r.AddExtendRetractApiClient(a, c1)
	r.AddExtendRetractApiClient(b, c2)
	to, not := c1, c2
	if req.Name == b {
		to, not = c2, c1
	}
	ss := &gvApiRouterPullExtensions{ctx: context.Background(), to: to, drop: drop, fail: errors.New("gone"), inOrder: true}
	err := r.PullExtensions(req, ss)
	if req.Name != b && req.Name != a {
		gv.Ensures("a name with no client is NotFound", status.Code(err) == codes.NotFound)
		gv.Ensures("a name with no client touches none", c1.called == "" && c2.called == "")
		gv.Reach("not found")
		return
	}
	gv.Ensures("the request goes to its method of its client, once", to.called == "PullExtensions." && not.called == "")
	gv.Ensures("the request passes unaltered", to.same)
	if how == 1 || how == 2 {
		gv.Ensures("the status passes", err == to.err)
		gv.Reach("no stream")
		return
	}
	gv.Ensures("the header passes, once", ss.headers == 1 && ss.header == header)
	gv.Ensures("the responses pass in order, unaltered", ss.inOrder)
	if 0 <= drop && drop < n {
		gv.Ensures("when the caller has gone, so has the request to the client", to.ctx.Err() != nil)
		gv.Reach("left")
		return
	}
	gv.Ensures("all the responses pass", ss.n == n && to.got == n)
	gv.Ensures("the trailer passes", ss.trailer == header)
	gv.Ensures("the status passes", gv.Implies(how == 3, err == to.err) && gv.Implies(how == 0, err == nil))
	gv.Reach("forwarded")
}
