// Written by contracts/gen_c12.py.

package electricpb

import (
	"context"
	"errors"
	"io"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-golang/internal/gv"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
)

// gvElectricApiClient is a client that tells what it was asked, and answers as it is told.
type gvElectricApiClient struct {
	traits.ElectricApiClient
	called string
	ctx    context.Context
	req    any
	want   proto.Message
	was    gv.Frozen
	same   bool
	res    any
	err    error
	how    int // 1: no stream, 2: no header, 3: fails in the end
	n      int // responses
	got    int
	header string
}

func (c *gvElectricApiClient) GetDemand(ctx context.Context, req *traits.GetDemandRequest, _ ...grpc.CallOption) (*traits.ElectricDemand, error) {
	c.ctx, c.req = ctx, req
	c.same = c.was.Unchanged() && (req == c.want.(*traits.GetDemandRequest) || proto.Equal(req, c.want))
	c.called += "GetDemand."
	if c.err != nil {
		return nil, c.err
	}
	c.res = &traits.ElectricDemand{}
	return c.res.(*traits.ElectricDemand), nil
}

// GetDemand passes the request on to the client it names, and the response or status back.
//
//gv:property C12
//gv:for (*ApiRouter).GetDemand covers ApiRouter.GetElectricApiClient ApiRouter.AddElectricApiClient ApiRouter.Add ApiRouter.HoldsType NewApiRouter
//gv:norun
func gvc_ApiRouter_GetDemand(req *traits.GetDemandRequest, a, b string, fails bool) {
	gv.Requires(req != nil)
	was := gv.Freeze(req)
	c1, c2 := &gvElectricApiClient{want: req, was: was}, &gvElectricApiClient{want: req, was: was}
	if fails {
		c1.err, c2.err = errors.New("1"), errors.New("2")
	}
	r := NewApiRouter()
	r.AddElectricApiClient(a, c1)
	r.AddElectricApiClient(b, c2)
	ctx := context.Background()
	res, err := r.GetDemand(ctx, req)
	to, not := c1, c2
	if req.Name == b {
		to, not = c2, c1
	} else if req.Name != a {
		gv.Ensures("a name with no client is NotFound", status.Code(err) == codes.NotFound && res == nil)
		gv.Ensures("a name with no client touches none", c1.called == "" && c2.called == "")
		gv.Reach("not found")
		return
	}
	gv.Ensures("the request goes to its method of its client, once", to.called == "GetDemand." && not.called == "")
	gv.Ensures("the request passes unaltered", to.same)
	gv.Ensures("the call is made in the caller's context", to.ctx == ctx)
	gv.Ensures("the response passes", gv.Implies(!fails, any(res) == to.res && err == nil))
	gv.Ensures("the status passes", gv.Implies(fails, err == to.err))
	gv.Reach("forwarded")
}

func (c *gvElectricApiClient) PullDemand(ctx context.Context, req *traits.PullDemandRequest, _ ...grpc.CallOption) (traits.ElectricApi_PullDemandClient, error) {
	c.ctx, c.req = ctx, req
	c.same = c.was.Unchanged() && (req == c.want.(*traits.PullDemandRequest) || proto.Equal(req, c.want))
	c.called += "PullDemand."
	if c.how == 1 {
		return nil, c.err
	}
	return &gvElectricApiClientPullDemand{c: c}, nil
}

type gvElectricApiClientPullDemand struct {
	grpc.ClientStream
	c    *gvElectricApiClient
	said []*traits.PullDemandResponse
}

func (s *gvElectricApiClientPullDemand) Header() (metadata.MD, error) {
	if s.c.how == 2 {
		return nil, s.c.err
	}
	return metadata.MD{"h": []string{s.c.header}}, nil
}
func (s *gvElectricApiClientPullDemand) Trailer() metadata.MD {
	return metadata.MD{"t": []string{s.c.header}}
}
func (s *gvElectricApiClientPullDemand) Recv() (*traits.PullDemandResponse, error) {
	if len(s.said) == s.c.n {
		if s.c.how == 3 {
			return nil, s.c.err
		}
		return nil, io.EOF
	}
	m := &traits.PullDemandResponse{}
	s.said = append(s.said, m)
	s.c.res = m
	s.c.got++
	return m, nil
}

// gvApiRouterPullDemand is the caller's side.
type gvApiRouterPullDemand struct {
	grpc.ServerStream
	ctx     context.Context
	to      *gvElectricApiClient
	drop    int // the message that can't be sent
	fail    error
	n       int
	inOrder bool
	headers int
	header  string
	trailer string
}

func (s *gvApiRouterPullDemand) Context() context.Context { return s.ctx }
func (s *gvApiRouterPullDemand) SendHeader(md metadata.MD) error {
	s.headers++
	s.header = md["h"][0]
	return nil
}
func (s *gvApiRouterPullDemand) SetTrailer(md metadata.MD) { s.trailer = md["t"][0] }
func (s *gvApiRouterPullDemand) Send(m *traits.PullDemandResponse) error {
	if s.n == s.drop {
		return s.fail
	}
	s.n++
	s.inOrder = s.inOrder && any(m) == s.to.res && s.n == s.to.got
	return nil
}

// PullDemand passes the request on to the client it names, and the header, responses, trailer and status of the stream back.
//
//gv:property C12
//gv:for (*ApiRouter).PullDemand covers ApiRouter.GetElectricApiClient ApiRouter.AddElectricApiClient ApiRouter.Add ApiRouter.HoldsType NewApiRouter
//gv:norun
func gvc_ApiRouter_PullDemand(req *traits.PullDemandRequest, a, b string, how, n, drop int, header string) {
	gv.Requires(req != nil && how >= 0 && how <= 3 && n >= 0 && n <= 2)
	gv.Bound("responses", n, 2)
	was := gv.Freeze(req)
	c1, c2 := &gvElectricApiClient{want: req, was: was, how: how, n: n, header: header}, &gvElectricApiClient{want: req, was: was, how: how, n: n, header: header}
	c1.err, c2.err = errors.New("1"), errors.New("2")
	r := NewApiRouter()
	r.AddElectricApiClient(a, c1)
	r.AddElectricApiClient(b, c2)
	to, not := c1, c2
	if req.Name == b {
		to, not = c2, c1
	}
	ss := &gvApiRouterPullDemand{ctx: context.Background(), to: to, drop: drop, fail: errors.New("gone"), inOrder: true}
	err := r.PullDemand(req, ss)
	if req.Name != b && req.Name != a {
		gv.Ensures("a name with no client is NotFound", status.Code(err) == codes.NotFound)
		gv.Ensures("a name with no client touches none", c1.called == "" && c2.called == "")
		gv.Reach("not found")
		return
	}
	gv.Ensures("the request goes to its method of its client, once", to.called == "PullDemand." && not.called == "")
	gv.Ensures("the request passes unaltered", to.same)
	if how == 1 || how == 2 {
		gv.Ensures("the status passes", err == to.err)
		gv.Reach("no stream")
		return
	}
	gv.Ensures("the header passes, once", ss.headers == 1 && ss.header == header)
	gv.Ensures("the responses pass in order, unaltered", ss.inOrder)
	if 0 <= drop && drop < n {
		gv.Ensures("when the caller has gone, so has the request to the client", to.ctx.Err() != nil)
		gv.Reach("left")
		return
	}
	gv.Ensures("all the responses pass", ss.n == n && to.got == n)
	gv.Ensures("the trailer passes", ss.trailer == header)
	gv.Ensures("the status passes", gv.Implies(how == 3, err == to.err) && gv.Implies(how == 0, err == nil))
	gv.Reach("forwarded")
}

func (c *gvElectricApiClient) GetActiveMode(ctx context.Context, req *traits.GetActiveModeRequest, _ ...grpc.CallOption) (*traits.ElectricMode, error) {
	c.ctx, c.req = ctx, req
	c.same = c.was.Unchanged() && (req == c.want.(*traits.GetActiveModeRequest) || proto.Equal(req, c.want))
	c.called += "GetActiveMode."
	if c.err != nil {
		return nil, c.err
	}
	c.res = &traits.ElectricMode{}
	return c.res.(*traits.ElectricMode), nil
}

// GetActiveMode passes the request on to the client it names, and the response or status back.
//
//gv:property C12
//gv:for (*ApiRouter).GetActiveMode covers ApiRouter.GetElectricApiClient ApiRouter.AddElectricApiClient ApiRouter.Add ApiRouter.HoldsType NewApiRouter
//gv:norun
func gvc_ApiRouter_GetActiveMode(req *traits.GetActiveModeRequest, a, b string, fails bool) {
	gv.Requires(req != nil)
	was := gv.Freeze(req)
	c1, c2 := &gvElectricApiClient{want: req, was: was}, &gvElectricApiClient{want: req, was: was}
	if fails {
		c1.err, c2.err = errors.New("1"), errors.New("2")
	}
	r := NewApiRouter()
	r.AddElectricApiClient(a, c1)
	r.AddElectricApiClient(b, c2)
	ctx := context.Background()
	res, err := r.GetActiveMode(ctx, req)
	to, not := c1, c2
	if req.Name == b {
		to, not = c2, c1
	} else if req.Name != a {
		gv.Ensures("a name with no client is NotFound", status.Code(err) == codes.NotFound && res == nil)
		gv.Ensures("a name with no client touches none", c1.called == "" && c2.called == "")
		gv.Reach("not found")
		return
	}
	gv.Ensures("the request goes to its method of its client, once", to.called == "GetActiveMode." && not.called == "")
	gv.Ensures("the request passes unaltered", to.same)
	gv.Ensures("the call is made in the caller's context", to.ctx == ctx)
	gv.Ensures("the response passes", gv.Implies(!fails, any(res) == to.res && err == nil))
	gv.Ensures("the status passes", gv.Implies(fails, err == to.err))
	gv.Reach("forwarded")
}

func (c *gvElectricApiClient) UpdateActiveMode(ctx context.Context, req *traits.UpdateActiveModeRequest, _ ...grpc.CallOption) (*traits.ElectricMode, error) {
	c.ctx, c.req = ctx, req
	c.same = c.was.Unchanged() && (req == c.want.(*traits.UpdateActiveModeRequest) || proto.Equal(req, c.want))
	c.called += "UpdateActiveMode."
	if c.err != nil {
		return nil, c.err
	}
	c.res = &traits.ElectricMode{}
	return c.res.(*traits.ElectricMode), nil
}

// UpdateActiveMode passes the request on to the client it names, and the response or status back.
//
//gv:property C12
//gv:for (*ApiRouter).UpdateActiveMode covers ApiRouter.GetElectricApiClient ApiRouter.AddElectricApiClient ApiRouter.Add ApiRouter.HoldsType NewApiRouter
//gv:norun
func gvc_ApiRouter_UpdateActiveMode(req *traits.UpdateActiveModeRequest, a, b string, fails bool) {
	gv.Requires(req != nil)
	was := gv.Freeze(req)
	c1, c2 := &gvElectricApiClient{want: req, was: was}, &gvElectricApiClient{want: req, was: was}
	if fails {
		c1.err, c2.err = errors.New("1"), errors.New("2")
	}
	r := NewApiRouter()
	r.AddElectricApiClient(a, c1)
	r.AddElectricApiClient(b, c2)
	ctx := context.Background()
	res, err := r.UpdateActiveMode(ctx, req)
	to, not := c1, c2
	if req.Name == b {
		to, not = c2, c1
	} else if req.Name != a {
		gv.Ensures("a name with no client is NotFound", status.Code(err) == codes.NotFound && res == nil)
		gv.Ensures("a name with no client touches none", c1.called == "" && c2.called == "")
		gv.Reach("not found")
		return
	}
	gv.Ensures("the request goes to its method of its client, once", to.called == "UpdateActiveMode." && not.called == "")
	gv.Ensures("the request passes unaltered", to.same)
	gv.Ensures("the call is made in the caller's context", to.ctx == ctx)
	gv.Ensures("the response passes", gv.Implies(!fails, any(res) == to.res && err == nil))
	gv.Ensures("the status passes", gv.Implies(fails, err == to.err))
	gv.Reach("forwarded")
}

func (c *gvElectricApiClient) ClearActiveMode(ctx context.Context, req *traits.ClearActiveModeRequest, _ ...grpc.CallOption) (*traits.ElectricMode, error) {
	c.ctx, c.req = ctx, req
	c.same = c.was.Unchanged() && (req == c.want.(*traits.ClearActiveModeRequest) || proto.Equal(req, c.want))
	c.called += "ClearActiveMode."
	if c.err != nil {
		return nil, c.err
	}
	c.res = &traits.ElectricMode{}
	return c.res.(*traits.ElectricMode), nil
}

// ClearActiveMode passes the request on to the client it names, and the response or status back.
//
//gv:property C12
//gv:for (*ApiRouter).ClearActiveMode covers ApiRouter.GetElectricApiClient ApiRouter.AddElectricApiClient ApiRouter.Add ApiRouter.HoldsType NewApiRouter
//gv:norun
func gvc_ApiRouter_ClearActiveMode(req *traits.ClearActiveModeRequest, a, b string, fails bool) {
	gv.Requires(req != nil)
	was := gv.Freeze(req)
	c1, c2 := &gvElectricApiClient{want: req, was: was}, &gvElectricApiClient{want: req, was: was}
	if fails {
		c1.err, c2.err = errors.New("1"), errors.New("2")
	}
	r := NewApiRouter()
	r.AddElectricApiClient(a, c1)
	r.AddElectricApiClient(b, c2)
	ctx := context.Background()
	res, err := r.ClearActiveMode(ctx, req)
	to, not := c1, c2
	if req.Name == b {
		to, not = c2, c1
	} else if req.Name != a {
		gv.Ensures("a name with no client is NotFound", status.Code(err) == codes.NotFound && res == nil)
		gv.Ensures("a name with no client touches none", c1.called == "" && c2.called == "")
		gv.Reach("not found")
		return
	}
	gv.Ensures("the request goes to its method of its client, once", to.called == "ClearActiveMode." && not.called == "")
	gv.Ensures("the request passes unaltered", to.same)
	gv.Ensures("the call is made in the caller's context", to.ctx == ctx)
	gv.Ensures("the response passes", gv.Implies(!fails, any(res) == to.res && err == nil))
	gv.Ensures("the status passes", gv.Implies(fails, err == to.err))
	gv.Reach("forwarded")
}

func (c *gvElectricApiClient) PullActiveMode(ctx context.Context, req *traits.PullActiveModeRequest, _ ...grpc.CallOption) (traits.ElectricApi_PullActiveModeClient, error) {
	c.ctx, c.req = ctx, req
	c.same = c.was.Unchanged() && (req == c.want.(*traits.PullActiveModeRequest) || proto.Equal(req, c.want))
	c.called += "PullActiveMode."
	if c.how == 1 {
		return nil, c.err
	}
	return &gvElectricApiClientPullActiveMode{c: c}, nil
}

type gvElectricApiClientPullActiveMode struct {
	grpc.ClientStream
	c    *gvElectricApiClient
	said []*traits.PullActiveModeResponse
}

func (s *gvElectricApiClientPullActiveMode) Header() (metadata.MD, error) {
	if s.c.how == 2 {
		return nil, s.c.err
	}
	return metadata.MD{"h": []string{s.c.header}}, nil
}
func (s *gvElectricApiClientPullActiveMode) Trailer() metadata.MD {
	return metadata.MD{"t": []string{s.c.header}}
}
func (s *gvElectricApiClientPullActiveMode) Recv() (*traits.PullActiveModeResponse, error) {
	if len(s.said) == s.c.n {
		if s.c.how == 3 {
			return nil, s.c.err
		}
		return nil, io.EOF
	}
	m := &traits.PullActiveModeResponse{}
	s.said = append(s.said, m)
	s.c.res = m
	s.c.got++
	return m, nil
}

// gvApiRouterPullActiveMode is the caller's side.
type gvApiRouterPullActiveMode struct {
	grpc.ServerStream
	ctx     context.Context
	to      *gvElectricApiClient
	drop    int // the message that can't be sent
	fail    error
	n       int
	inOrder bool
	headers int
	header  string
	trailer string
}

func (s *gvApiRouterPullActiveMode) Context() context.Context { return s.ctx }
func (s *gvApiRouterPullActiveMode) SendHeader(md metadata.MD) error {
	s.headers++
	s.header = md["h"][0]
	return nil
}
func (s *gvApiRouterPullActiveMode) SetTrailer(md metadata.MD) { s.trailer = md["t"][0] }
func (s *gvApiRouterPullActiveMode) Send(m *traits.PullActiveModeResponse) error {
	if s.n == s.drop {
		return s.fail
	}
	s.n++
	s.inOrder = s.inOrder && any(m) == s.to.res && s.n == s.to.got
	return nil
}

// PullActiveMode passes the request on to the client it names, and the header, responses, trailer and status of the stream back.
//
//gv:property C12
//gv:for (*ApiRouter).PullActiveMode covers ApiRouter.GetElectricApiClient ApiRouter.AddElectricApiClient ApiRouter.Add ApiRouter.HoldsType NewApiRouter
//gv:norun
func gvc_ApiRouter_PullActiveMode(req *traits.PullActiveModeRequest, a, b string, how, n, drop int, header string) {
	gv.Requires(req != nil && how >= 0 && how <= 3 && n >= 0 && n <= 2)
	gv.Bound("responses", n, 2)
	was := gv.Freeze(req)
	c1, c2 := &gvElectricApiClient{want: req, was: was, how: how, n: n, header: header}, &gvElectricApiClient{want: req, was: was, how: how, n: n, header: header}
	c1.err, c2.err = errors.New("1"), errors.New("2")
	r := NewApiRouter()
	r.AddElectricApiClient(a, c1)
	r.AddElectricApiClient(b, c2)
	to, not := c1, c2
	if req.Name == b {
		to, not = c2, c1
	}
	ss := &gvApiRouterPullActiveMode{ctx: context.Background(), to: to, drop: drop, fail: errors.New("gone"), inOrder: true}
	err := r.PullActiveMode(req, ss)
	if req.Name != b && req.Name != a {
		gv.Ensures("a name with no client is NotFound", status.Code(err) == codes.NotFound)
		gv.Ensures("a name with no client touches none", c1.called == "" && c2.called == "")
		gv.Reach("not found")
		return
	}
	gv.Ensures("the request goes to its method of its client, once", to.called == "PullActiveMode." && not.called == "")
	gv.Ensures("the request passes unaltered", to.same)
	if how == 1 || how == 2 {
		gv.Ensures("the status passes", err == to.err)
		gv.Reach("no stream")
		return
	}
	gv.Ensures("the header passes, once", ss.headers == 1 && ss.header == header)
	gv.Ensures("the responses pass in order, unaltered", ss.inOrder)
	if 0 <= drop && drop < n {
		gv.Ensures("when the caller has gone, so has the request to the client", to.ctx.Err() != nil)
		gv.Reach("left")
		return
	}
	gv.Ensures("all the responses pass", ss.n == n && to.got == n)
	gv.Ensures("the trailer passes", ss.trailer == header)
	gv.Ensures("the status passes", gv.Implies(how == 3, err == to.err) && gv.Implies(how == 0, err == nil))
	gv.Reach("forwarded")
}

func (c *gvElectricApiClient) ListModes(ctx context.Context, req *traits.ListModesRequest, _ ...grpc.CallOption) (*traits.ListModesResponse, error) {
	c.ctx, c.req = ctx, req
	c.same = c.was.Unchanged() && (req == c.want.(*traits.ListModesRequest) || proto.Equal(req, c.want))
	c.called += "ListModes."
	if c.err != nil {
		return nil, c.err
	}
	c.res = &traits.ListModesResponse{}
	return c.res.(*traits.ListModesResponse), nil
}

// ListModes passes the request on to the client it names, and the response or status back.
//
//gv:property C12
//gv:for (*ApiRouter).ListModes covers ApiRouter.GetElectricApiClient ApiRouter.AddElectricApiClient ApiRouter.Add ApiRouter.HoldsType NewApiRouter
//gv:norun
func gvc_ApiRouter_ListModes(req *traits.ListModesRequest, a, b string, fails bool) {
	gv.Requires(req != nil)
	was := gv.Freeze(req)
	c1, c2 := &gvElectricApiClient{want: req, was: was}, &gvElectricApiClient{want: req, was: was}
	if fails {
		c1.err, c2.err = errors.New("1"), errors.New("2")
	}
	r := NewApiRouter()
	r.AddElectricApiClient(a, c1)
	r.AddElectricApiClient(b, c2)
	ctx := context.Background()
	res, err := r.ListModes(ctx, req)
	to, not := c1, c2
	if req.Name == b {
		to, not = c2, c1
	} else if req.Name != a {
		gv.Ensures("a name with no client is NotFound", status.Code(err) == codes.NotFound && res == nil)
		gv.Ensures("a name with no client touches none", c1.called == "" && c2.called == "")
		gv.Reach("not found")
		return
	}
	gv.Ensures("the request goes to its method of its client, once", to.called == "ListModes." && not.called == "")
	gv.Ensures("the request passes unaltered", to.same)
	gv.Ensures("the call is made in the caller's context", to.ctx == ctx)
	gv.Ensures("the response passes", gv.Implies(!fails, any(res) == to.res && err == nil))
	gv.Ensures("the status passes", gv.Implies(fails, err == to.err))
	gv.Reach("forwarded")
}

func (c *gvElectricApiClient) PullModes(ctx context.Context, req *traits.PullModesRequest, _ ...grpc.CallOption) (traits.ElectricApi_PullModesClient, error) {
	c.ctx, c.req = ctx, req
	c.same = c.was.Unchanged() && (req == c.want.(*traits.PullModesRequest) || proto.Equal(req, c.want))
	c.called += "PullModes."
	if c.how == 1 {
		return nil, c.err
	}
	return &gvElectricApiClientPullModes{c: c}, nil
}

type gvElectricApiClientPullModes struct {
	grpc.ClientStream
	c    *gvElectricApiClient
	said []*traits.PullModesResponse
}

func (s *gvElectricApiClientPullModes) Header() (metadata.MD, error) {
	if s.c.how == 2 {
		return nil, s.c.err
	}
	return metadata.MD{"h": []string{s.c.header}}, nil
}
func (s *gvElectricApiClientPullModes) Trailer() metadata.MD {
	return metadata.MD{"t": []string{s.c.header}}
}
func (s *gvElectricApiClientPullModes) Recv() (*traits.PullModesResponse, error) {
	if len(s.said) == s.c.n {
		if s.c.how == 3 {
			return nil, s.c.err
		}
		return nil, io.EOF
	}
	m := &traits.PullModesResponse{}
	s.said = append(s.said, m)
	s.c.res = m
	s.c.got++
	return m, nil
}

// gvApiRouterPullModes is the caller's side.
type gvApiRouterPullModes struct {
	grpc.ServerStream
	ctx     context.Context
	to      *gvElectricApiClient
	drop    int // the message that can't be sent
	fail    error
	n       int
	inOrder bool
	headers int
	header  string
	trailer string
}

func (s *gvApiRouterPullModes) Context() context.Context { return s.ctx }
func (s *gvApiRouterPullModes) SendHeader(md metadata.MD) error {
	s.headers++
	s.header = md["h"][0]
	return nil
}
func (s *gvApiRouterPullModes) SetTrailer(md metadata.MD) { s.trailer = md["t"][0] }
func (s *gvApiRouterPullModes) Send(m *traits.PullModesResponse) error {
	if s.n == s.drop {
		return s.fail
	}
	s.n++
	s.inOrder = s.inOrder && any(m) == s.to.res && s.n == s.to.got
	return nil
}

// PullModes passes the request on to the client it names, and the header, responses, trailer and status of the stream back.
//
//gv:property C12
//gv:for (*ApiRouter).PullModes covers ApiRouter.GetElectricApiClient ApiRouter.AddElectricApiClient ApiRouter.Add ApiRouter.HoldsType NewApiRouter
//gv:norun
func gvc_ApiRouter_PullModes(req *traits.PullModesRequest, a, b string, how, n, drop int, header string) {
	gv.Requires(req != nil && how >= 0 && how <= 3 && n >= 0 && n <= 2)
	gv.Bound("responses", n, 2)
	was := gv.Freeze(req)
	c1, c2 := &gvElectricApiClient{want: req, was: was, how: how, n: n, header: header}, &gvElectricApiClient{want: req, was: was, how: how, n: n, header: header}
	c1.err, c2.err = errors.New("1"), errors.New("2")
	r := NewApiRouter()
	r.AddElectricApiClient(a, c1)
	r.AddElectricApiClient(b, c2)
	to, not := c1, c2
	if req.Name == b {
		to, not = c2, c1
	}
	ss := &gvApiRouterPullModes{ctx: context.Background(), to: to, drop: drop, fail: errors.New("gone"), inOrder: true}
	err := r.PullModes(req, ss)
	if req.Name != b && req.Name != a {
		gv.Ensures("a name with no client is NotFound", status.Code(err) == codes.NotFound)
		gv.Ensures("a name with no client touches none", c1.called == "" && c2.called == "")
		gv.Reach("not found")
		return
	}
	gv.Ensures("the request goes to its method of its client, once", to.called == "PullModes." && not.called == "")
	gv.Ensures("the request passes unaltered", to.same)
	if how == 1 || how == 2 {
		gv.Ensures("the status passes", err == to.err)
		gv.Reach("no stream")
		return
	}
	gv.Ensures("the header passes, once", ss.headers == 1 && ss.header == header)
	gv.Ensures("the responses pass in order, unaltered", ss.inOrder)
	if 0 <= drop && drop < n {
		gv.Ensures("when the caller has gone, so has the request to the client", to.ctx.Err() != nil)
		gv.Reach("left")
		return
	}
	gv.Ensures("all the responses pass", ss.n == n && to.got == n)
	gv.Ensures("the trailer passes", ss.trailer == header)
	gv.Ensures("the status passes", gv.Implies(how == 3, err == to.err) && gv.Implies(how == 0, err == nil))
	gv.Reach("forwarded")
}
