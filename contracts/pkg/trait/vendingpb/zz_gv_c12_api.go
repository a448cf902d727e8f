// Written by contracts/gen_c12.py.

package vendingpb

import (
	"context"
	"errors"
	"io"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-golang/internal/gv"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
)

// gvVendingApiClient is a client that tells what it was asked, and answers as it is told.
type gvVendingApiClient struct {
	traits.VendingApiClient
	called string
	ctx    context.Context
	req    any
	want   proto.Message
	was    gv.Frozen
	same   bool
	res    any
	err    error
	how    int // 1: no stream, 2: no header, 3: fails in the end
	n      int // responses
	got    int
	header string
}

func (c *gvVendingApiClient) ListConsumables(ctx context.Context, req *traits.ListConsumablesRequest, _ ...grpc.CallOption) (*traits.ListConsumablesResponse, error) {
	c.ctx, c.req = ctx, req
	c.same = c.was.Unchanged() && (req == c.want.(*traits.ListConsumablesRequest) || proto.Equal(req, c.want))
	c.called += "ListConsumables."
	if c.err != nil {
		return nil, c.err
	}
	c.res = &traits.ListConsumablesResponse{}
	return c.res.(*traits.ListConsumablesResponse), nil
}

// ListConsumables passes the request on to the client it names, and the response or status back.
//
//gv:property C12
//gv:for (*ApiRouter).ListConsumables covers ApiRouter.GetVendingApiClient ApiRouter.AddVendingApiClient ApiRouter.Add ApiRouter.HoldsType NewApiRouter
//gv:norun
func gvc_ApiRouter_ListConsumables(req *traits.ListConsumablesRequest, a, b string, fails bool) {
	gv.Requires(req != nil)
	was := gv.Freeze(req)
	c1, c2 := &gvVendingApiClient{want: req, was: was}, &gvVendingApiClient{want: req, was: was}
	if fails {
		c1.err, c2.err = errors.New("1"), errors.New("2")
	}
	r := NewApiRouter()
	r.AddVendingApiClient(a, c1)
	r.AddVendingApiClient(b, c2)
	ctx := context.Background()
	res, err := r.ListConsumables(ctx, req)
	to, not := c1, c2
	if req.Name == b {
		to, not = c2, c1
	} else if req.Name != a {
		gv.Ensures("a name with no client is NotFound", status.Code(err) == codes.NotFound && res == nil)
		gv.Ensures("a name with no client touches none", c1.called == "" && c2.called == "")
		gv.Reach("not found")
		return
	}
	gv.Ensures("the request goes to its method of its client, once", to.called == "ListConsumables." && not.called == "")
	gv.Ensures("the request passes unaltered", to.same)
	gv.Ensures("the call is made in the caller's context", to.ctx == ctx)
	gv.Ensures("the response passes", gv.Implies(!fails, any(res) == to.res && err == nil))
	gv.Ensures("the status passes", gv.Implies(fails, err == to.err))
	gv.Reach("forwarded")
}

func (c *gvVendingApiClient) PullConsumables(ctx context.Context, req *traits.PullConsumablesRequest, _ ...grpc.CallOption) (traits.VendingApi_PullConsumablesClient, error) {
	c.ctx, c.req = ctx, req
	c.same = c.was.Unchanged() && (req == c.want.(*traits.PullConsumablesRequest) || proto.Equal(req, c.want))
	c.called += "PullConsumables."
	if c.how == 1 {
		return nil, c.err
	}
	return &gvVendingApiClientPullConsumables{c: c}, nil
}

type gvVendingApiClientPullConsumables struct {
	grpc.ClientStream
	c    *gvVendingApiClient
	said []*traits.PullConsumablesResponse
}

func (s *gvVendingApiClientPullConsumables) Header() (metadata.MD, error) {
	if s.c.how == 2 {
		return nil, s.c.err
	}
	return metadata.MD{"h": []string{s.c.header}}, nil
}
func (s *gvVendingApiClientPullConsumables) Trailer() metadata.MD {
	return metadata.MD{"t": []string{s.c.header}}
}
func (s *gvVendingApiClientPullConsumables) Recv() (*traits.PullConsumablesResponse, error) {
	if len(s.said) == s.c.n {
		if s.c.how == 3 {
			return nil, s.c.err
		}
		return nil, io.EOF
	}
	m := &traits.PullConsumablesResponse{}
	s.said = append(s.said, m)
	s.c.res = m
	s.c.got++
	return m, nil
}

// gvApiRouterPullConsumables is the caller's side.
type gvApiRouterPullConsumables struct {
	grpc.ServerStream
	ctx     context.Context
	to      *gvVendingApiClient
	drop    int // the message that can't be sent
	fail    error
	n       int
	inOrder bool
	headers int
	header  string
	trailer string
}

func (s *gvApiRouterPullConsumables) Context() context.Context { return s.ctx }
func (s *gvApiRouterPullConsumables) SendHeader(md metadata.MD) error {
	s.headers++
	s.header = md["h"][0]
	return nil
}
func (s *gvApiRouterPullConsumables) SetTrailer(md metadata.MD) { s.trailer = md["t"][0] }
func (s *gvApiRouterPullConsumables) Send(m *traits.PullConsumablesResponse) error {
	if s.n == s.drop {
		return s.fail
	}
	s.n++
	s.inOrder = s.inOrder && any(m) == s.to.res && s.n == s.to.got
	return nil
}

// PullConsumables passes the request on to the client it names, and the header, responses, trailer and status of the stream back.
//
//gv:property C12
//gv:for (*ApiRouter).PullConsumables covers ApiRouter.GetVendingApiClient ApiRouter.AddVendingApiClient ApiRouter.Add ApiRouter.HoldsType NewApiRouter
//gv:norun
func gvc_ApiRouter_PullConsumables(req *traits.PullConsumablesRequest, a, b string, how, n, drop int, header string) {
	gv.Requires(req != nil && how >= 0 && how <= 3 && n >= 0 && n <= 2)
	gv.Bound("responses", n, 2)
	was := gv.Freeze(req)
	c1, c2 := &gvVendingApiClient{want: req, was: was, how: how, n: n, header: header}, &gvVendingApiClient{want: req, was: was, how: how, n: n, header: header}
	c1.err, c2.err = errors.New("1"), errors.New("2")
	r := NewApiRouter()
	r.AddVendingApiClient(a, c1)
	r.AddVendingApiClient(b, c2)
	to, not := c1, c2
	if req.Name == b {
		to, not = c2, c1
	}
	ss := &gvApiRouterPullConsumables{ctx: context.Background(), to: to, drop: drop, fail: errors.New("gone"), inOrder: true}
	err := r.PullConsumables(req, ss)
	if req.Name != b && req.Name != a {
		gv.Ensures("a name with no client is NotFound", status.Code(err) == codes.NotFound)
		gv.Ensures("a name with no client touches none", c1.called == "" && c2.called == "")
		gv.Reach("not found")
		return
	}
	gv.Ensures("the request goes to its method of its client, once", to.called == "PullConsumables." && not.called == "")
	gv.Ensures("the request passes unaltered", to.same)
	if how == 1 || how == 2 {
		gv.Ensures("the status passes", err == to.err)
		gv.Reach("no stream")
		return
	}
	gv.Ensures("the header passes, once", ss.headers == 1 && ss.header == header)
	gv.Ensures("the responses pass in order, unaltered", ss.inOrder)
	if 0 <= drop && drop < n {
		gv.Ensures("when the caller has gone, so has the request to the client", to.ctx.Err() != nil)
		gv.Reach("left")
		return
	}
	gv.Ensures("all the responses pass", ss.n == n && to.got == n)
	gv.Ensures("the trailer passes", ss.trailer == header)
	gv.Ensures("the status passes", gv.Implies(how == 3, err == to.err) && gv.Implies(how == 0, err == nil))
	gv.Reach("forwarded")
}

func (c *gvVendingApiClient) GetStock(ctx context.Context, req *traits.GetStockRequest, _ ...grpc.CallOption) (*traits.Consumable_Stock, error) {
	c.ctx, c.req = ctx, req
	c.same = c.was.Unchanged() && (req == c.want.(*traits.GetStockRequest) || proto.Equal(req, c.want))
	c.called += "GetStock."
	if c.err != nil {
		return nil, c.err
	}
	c.res = &traits.Consumable_Stock{}
	return c.res.(*traits.Consumable_Stock), nil
}

// GetStock passes the request on to the client it names, and the response or status back.
//
//gv:property C12
//gv:for (*ApiRouter).GetStock covers ApiRouter.GetVendingApiClient ApiRouter.AddVendingApiClient ApiRouter.Add ApiRouter.HoldsType NewApiRouter
//gv:norun
func gvc_ApiRouter_GetStock(req *traits.GetStockRequest, a, b string, fails bool) {
	gv.Requires(req != nil)
	was := gv.Freeze(req)
	c1, c2 := &gvVendingApiClient{want: req, was: was}, &gvVendingApiClient{want: req, was: was}
	if fails {
		c1.err, c2.err = errors.New("1"), errors.New("2")
	}
	r := NewApiRouter()
	r.AddVendingApiClient(a, c1)
	r.AddVendingApiClient(b, c2)
	ctx := context.Background()
	res, err := r.GetStock(ctx, req)
	to, not := c1, c2
	if req.Name == b {
		to, not = c2, c1
	} else if req.Name != a {
		gv.Ensures("a name with no client is NotFound", status.Code(err) == codes.NotFound && res == nil)
		gv.Ensures("a name with no client touches none", c1.called == "" && c2.called == "")
		gv.Reach("not found")
		return
	}
	gv.Ensures("the request goes to its method of its client, once", to.called == "GetStock." && not.called == "")
	gv.Ensures("the request passes unaltered", to.same)
	gv.Ensures("the call is made in the caller's context", to.ctx == ctx)
	gv.Ensures("the response passes", gv.Implies(!fails, any(res) == to.res && err == nil))
	gv.Ensures("the status passes", gv.Implies(fails, err == to.err))
	gv.Reach("forwarded")
}

func (c *gvVendingApiClient) UpdateStock(ctx context.Context, req *traits.UpdateStockRequest, _ ...grpc.CallOption) (*traits.Consumable_Stock, error) {
	c.ctx, c.req = ctx, req
	c.same = c.was.Unchanged() && (req == c.want.(*traits.UpdateStockRequest) || proto.Equal(req, c.want))
	c.called += "UpdateStock."
	if c.err != nil {
		return nil, c.err
	}
	c.res = &traits.Consumable_Stock{}
	return c.res.(*traits.Consumable_Stock), nil
}

// UpdateStock passes the request on to the client it names, and the response or status back.
//
//gv:property C12
//gv:for (*ApiRouter).UpdateStock covers ApiRouter.GetVendingApiClient ApiRouter.AddVendingApiClient ApiRouter.Add ApiRouter.HoldsType NewApiRouter
//gv:norun
func gvc_ApiRouter_UpdateStock(req *traits.UpdateStockRequest, a, b string, fails bool) {
	gv.Requires(req != nil)
	was := gv.Freeze(req)
	c1, c2 := &gvVendingApiClient{want: req, was: was}, &gvVendingApiClient{want: req, was: was}
	if fails {
		c1.err, c2.err = errors.New("1"), errors.New("2")
	}
	r := NewApiRouter()
	r.AddVendingApiClient(a, c1)
	r.AddVendingApiClient(b, c2)
	ctx := context.Background()
	res, err := r.UpdateStock(ctx, req)
	to, not := c1, c2
	if req.Name == b {
		to, not = c2, c1
	} else if req.Name != a {
		gv.Ensures("a name with no client is NotFound", status.Code(err) == codes.NotFound && res == nil)
		gv.Ensures("a name with no client touches none", c1.called == "" && c2.called == "")
		gv.Reach("not found")
		return
	}
	gv.Ensures("the request goes to its method of its client, once", to.called == "UpdateStock." && not.called == "")
	gv.Ensures("the request passes unaltered", to.same)
	gv.Ensures("the call is made in the caller's context", to.ctx == ctx)
	gv.Ensures("the response passes", gv.Implies(!fails, any(res) == to.res && err == nil))
	gv.Ensures("the status passes", gv.Implies(fails, err == to.err))
	gv.Reach("forwarded")
}

func (c *gvVendingApiClient) PullStock(ctx context.Context, req *traits.PullStockRequest, _ ...grpc.CallOption) (traits.VendingApi_PullStockClient, error) {
	c.ctx, c.req = ctx, req
	c.same = c.was.Unchanged() && (req == c.want.(*traits.PullStockRequest) || proto.Equal(req, c.want))
	c.called += "PullStock."
	if c.how == 1 {
		return nil, c.err
	}
	return &gvVendingApiClientPullStock{c: c}, nil
}

type gvVendingApiClientPullStock struct {
	grpc.ClientStream
	c    *gvVendingApiClient
	said []*traits.PullStockResponse
}

func (s *gvVendingApiClientPullStock) Header() (metadata.MD, error) {
	if s.c.how == 2 {
		return nil, s.c.err
	}
	return metadata.MD{"h": []string{s.c.header}}, nil
}
func (s *gvVendingApiClientPullStock) Trailer() metadata.MD {
	return metadata.MD{"t": []string{s.c.header}}
}
func (s *gvVendingApiClientPullStock) Recv() (*traits.PullStockResponse, error) {
	if len(s.said) == s.c.n {
		if s.c.how == 3 {
			return nil, s.c.err
		}
		return nil, io.EOF
	}
	m := &traits.PullStockResponse{}
	s.said = append(s.said, m)
	s.c.res = m
	s.c.got++
	return m, nil
}

// gvApiRouterPullStock is the caller's side.
type gvApiRouterPullStock struct {
	grpc.ServerStream
	ctx     context.Context
	to      *gvVendingApiClient
	drop    int // the message that can't be sent
	fail    error
	n       int
	inOrder bool
	headers int
	header  string
	trailer string
}

func (s *gvApiRouterPullStock) Context() context.Context { return s.ctx }
func (s *gvApiRouterPullStock) SendHeader(md metadata.MD) error {
	s.headers++
	s.header = md["h"][0]
	return nil
}
func (s *gvApiRouterPullStock) SetTrailer(md metadata.MD) { s.trailer = md["t"][0] }
func (s *gvApiRouterPullStock) Send(m *traits.PullStockResponse) error {
	if s.n == s.drop {
		return s.fail
	}
	s.n++
	s.inOrder = s.inOrder && any(m) == s.to.res && s.n == s.to.got
	return nil
}

// PullStock passes the request on to the client it names, and the header, responses, trailer and status of the stream back.
//
//gv:property C12
//gv:for (*ApiRouter).PullStock covers ApiRouter.GetVendingApiClient ApiRouter.AddVendingApiClient ApiRouter.Add ApiRouter.HoldsType NewApiRouter
//gv:norun
func gvc_ApiRouter_PullStock(req *traits.PullStockRequest, a, b string, how, n, drop int, header string) {
	gv.Requires(req != nil && how >= 0 && how <= 3 && n >= 0 && n <= 2)
	gv.Bound("responses", n, 2)
	was := gv.Freeze(req)
	c1, c2 := &gvVendingApiClient{want: req, was: was, how: how, n: n, header: header}, &gvVendingApiClient{want: req, was: was, how: how, n: n, header: header}
	c1.err, c2.err = errors.New("1"), errors.New("2")
	r := NewApiRouter()
	r.AddVendingApiClient(a, c1)
	r.AddVendingApiClient(b, c2)
	to, not := c1, c2
	if req.Name == b {
		to, not = c2, c1
	}
	ss := &gvApiRouterPullStock{ctx: context.Background(), to: to, drop: drop, fail: errors.New("gone"), inOrder: true}
	err := r.PullStock(req, ss)
	if req.Name != b && req.Name != a {
		gv.Ensures("a name with no client is NotFound", status.Code(err) == codes.NotFound)
		gv.Ensures("a name with no client touches none", c1.called == "" && c2.called == "")
		gv.Reach("not found")
		return
	}
	gv.Ensures("the request goes to its method of its client, once", to.called == "PullStock." && not.called == "")
	gv.Ensures("the request passes unaltered", to.same)
	if how == 1 || how == 2 {
		gv.Ensures("the status passes", err == to.err)
		gv.Reach("no stream")
		return
	}
	gv.Ensures("the header passes, once", ss.headers == 1 && ss.header == header)
	gv.Ensures("the responses pass in order, unaltered", ss.inOrder)
	if 0 <= drop && drop < n {
		gv.Ensures("when the caller has gone, so has the request to the client", to.ctx.Err() != nil)
		gv.Reach("left")
		return
	}
	gv.Ensures("all the responses pass", ss.n == n && to.got == n)
	gv.Ensures("the trailer passes", ss.trailer == header)
	gv.Ensures("the status passes", gv.Implies(how == 3, err == to.err) && gv.Implies(how == 0, err == nil))
	gv.Reach("forwarded")
}

func (c *gvVendingApiClient) ListInventory(ctx context.Context, req *traits.ListInventoryRequest, _ ...grpc.CallOption) (*traits.ListInventoryResponse, error) {
	c.ctx, c.req = ctx, req
	c.same = c.was.Unchanged() && (req == c.want.(*traits.ListInventoryRequest) || proto.Equal(req, c.want))
	c.called += "ListInventory."
	if c.err != nil {
		return nil, c.err
	}
	c.res = &traits.ListInventoryResponse{}
	return c.res.(*traits.ListInventoryResponse), nil
}

// ListInventory passes the request on to the client it names, and the response or status back.
//
//gv:property C12
//gv:for (*ApiRouter).ListInventory covers ApiRouter.GetVendingApiClient ApiRouter.AddVendingApiClient ApiRouter.Add ApiRouter.HoldsType NewApiRouter
//gv:norun
func gvc_ApiRouter_ListInventory(req *traits.ListInventoryRequest, a, b string, fails bool) {
	gv.Requires(req != nil)
	was := gv.Freeze(req)
	c1, c2 := &gvVendingApiClient{want: req, was: was}, &gvVendingApiClient{want: req, was: was}
	if fails {
		c1.err, c2.err = errors.New("1"), errors.New("2")
	}
	r := NewApiRouter()
	r.AddVendingApiClient(a, c1)
	r.AddVendingApiClient(b, c2)
	ctx := context.Background()
	res, err := r.ListInventory(ctx, req)
	to, not := c1, c2
	if req.Name == b {
		to, not = c2, c1
	} else if req.Name != a {
		gv.Ensures("a name with no client is NotFound", status.Code(err) == codes.NotFound && res == nil)
		gv.Ensures("a name with no client touches none", c1.called == "" && c2.called == "")
		gv.Reach("not found")
		return
	}
	gv.Ensures("the request goes to its method of its client, once", to.called == "ListInventory." && not.called == "")
	gv.Ensures("the request passes unaltered", to.same)
	gv.Ensures("the call is made in the caller's context", to.ctx == ctx)
	gv.Ensures("the response passes", gv.Implies(!fails, any(res) == to.res && err == nil))
	gv.Ensures("the status passes", gv.Implies(fails, err == to.err))
	gv.Reach("forwarded")
}

func (c *gvVendingApiClient) PullInventory(ctx context.Context, req *traits.PullInventoryRequest, _ ...grpc.CallOption) (traits.VendingApi_PullInventoryClient, error) {
	c.ctx, c.req = ctx, req
	c.same = c.was.Unchanged() && (req == c.want.(*traits.PullInventoryRequest) || proto.Equal(req, c.want))
	c.called += "PullInventory."
	if c.how == 1 {
		return nil, c.err
	}
	return &gvVendingApiClientPullInventory{c: c}, nil
}

type gvVendingApiClientPullInventory struct {
	grpc.ClientStream
	c    *gvVendingApiClient
	said []*traits.PullInventoryResponse
}

func (s *gvVendingApiClientPullInventory) Header() (metadata.MD, error) {
	if s.c.how == 2 {
		return nil, s.c.err
	}
	return metadata.MD{"h": []string{s.c.header}}, nil
}
func (s *gvVendingApiClientPullInventory) Trailer() metadata.MD {
	return metadata.MD{"t": []string{s.c.header}}
}
func (s *gvVendingApiClientPullInventory) Recv() (*traits.PullInventoryResponse, error) {
	if len(s.said) == s.c.n {
		if s.c.how == 3 {
			return nil, s.c.err
		}
		return nil, io.EOF
	}
	m := &traits.PullInventoryResponse{}
	s.said = append(s.said, m)
	s.c.res = m
	s.c.got++
	return m, nil
}

// gvApiRouterPullInventory is the caller's side.
type gvApiRouterPullInventory struct {
	grpc.ServerStream
	ctx     context.Context
	to      *gvVendingApiClient
	drop    int // the message that can't be sent
	fail    error
	n       int
	inOrder bool
	headers int
	header  string
	trailer string
}

func (s *gvApiRouterPullInventory) Context() context.Context { return s.ctx }
func (s *gvApiRouterPullInventory) SendHeader(md metadata.MD) error {
	s.headers++
	s.header = md["h"][0]
	return nil
}
func (s *gvApiRouterPullInventory) SetTrailer(md metadata.MD) { s.trailer = md["t"][0] }
func (s *gvApiRouterPullInventory) Send(m *traits.PullInventoryResponse) error {
	if s.n == s.drop {
		return s.fail
	}
	s.n++
	s.inOrder = s.inOrder && any(m) == s.to.res && s.n == s.to.got
	return nil
}

// PullInventory passes the request on to the client it names, and the header, responses, trailer and status of the stream back.
//
//gv:property C12
//gv:for (*ApiRouter).PullInventory covers ApiRouter.GetVendingApiClient ApiRouter.AddVendingApiClient ApiRouter.Add ApiRouter.HoldsType NewApiRouter
//gv:norun
func gvc_ApiRouter_PullInventory(req *traits.PullInventoryRequest, a, b string, how, n, drop int, header string) {
	gv.Requires(req != nil && how >= 0 && how <= 3 && n >= 0 && n <= 2)
	gv.Bound("responses", n, 2)
	was := gv.Freeze(req)
	c1, c2 := &gvVendingApiClient{want: req, was: was, how: how, n: n, header: header}, &gvVendingApiClient{want: req, was: was, how: how, n: n, header: header}
	c1.err, c2.err = errors.New("1"), errors.New("2")
	r := NewApiRouter()
	r.AddVendingApiClient(a, c1)
	r.AddVendingApiClient(b, c2)
	to, not := c1, c2
	if req.Name == b {
		to, not = c2, c1
	}
	ss := &gvApiRouterPullInventory{ctx: context.Background(), to: to, drop: drop, fail: errors.New("gone"), inOrder: true}
	err := r.PullInventory(req, ss)
	if req.Name != b && req.Name != a {
		gv.Ensures("a name with no client is NotFound", status.Code(err) == codes.NotFound)
		gv.Ensures("a name with no client touches none", c1.called == "" && c2.called == "")
		gv.Reach("not found")
		return
	}
	gv.Ensures("the request goes to its method of its client, once", to.called == "PullInventory." && not.called == "")
	gv.Ensures("the request passes unaltered", to.same)
	if how == 1 || how == 2 {
		gv.Ensures("the status passes", err == to.err)
		gv.Reach("no stream")
		return
	}
	gv.Ensures("the header passes, once", ss.headers == 1 && ss.header == header)
	gv.Ensures("the responses pass in order, unaltered", ss.inOrder)
	if 0 <= drop && drop < n {
		gv.Ensures("when the caller has gone, so has the request to the client", to.ctx.Err() != nil)
		gv.Reach("left")
		return
	}
	gv.Ensures("all the responses pass", ss.n == n && to.got == n)
	gv.Ensures("the trailer passes", ss.trailer == header)
	gv.Ensures("the status passes", gv.Implies(how == 3, err == to.err) && gv.Implies(how == 0, err == nil))
	gv.Reach("forwarded")
}

func (c *gvVendingApiClient) Dispense(ctx context.Context, req *traits.DispenseRequest, _ ...grpc.CallOption) (*traits.Consumable_Stock, error) {
	c.ctx, c.req = ctx, req
	c.same = c.was.Unchanged() && (req == c.want.(*traits.DispenseRequest) || proto.Equal(req, c.want))
	c.called += "Dispense."
	if c.err != nil {
		return nil, c.err
	}
	c.res = &traits.Consumable_Stock{}
	return c.res.(*traits.Consumable_Stock), nil
}

// Dispense passes the request on to the client it names, and the response or status back.
//
//gv:property C12
//gv:for (*ApiRouter).Dispense covers ApiRouter.GetVendingApiClient ApiRouter.AddVendingApiClient ApiRouter.Add ApiRouter.HoldsType NewApiRouter
//gv:norun
func gvc_ApiRouter_Dispense(req *traits.DispenseRequest, a, b string, fails bool) {
	gv.Requires(req != nil)
	was := gv.Freeze(req)
	c1, c2 := &gvVendingApiClient{want: req, was: was}, &gvVendingApiClient{want: req, was: was}
	if fails {
		c1.err, c2.err = errors.New("1"), errors.New("2")
	}
	r := NewApiRouter()
	r.AddVendingApiClient(a, c1)
	r.AddVendingApiClient(b, c2)
	ctx := context.Background()
	res, err := r.Dispense(ctx, req)
	to, not := c1, c2
	if req.Name == b {
		to, not = c2, c1
	} else if req.Name != a {
		gv.Ensures("a name with no client is NotFound", status.Code(err) == codes.NotFound && res == nil)
		gv.Ensures("a name with no client touches none", c1.called == "" && c2.called == "")
		gv.Reach("not found")
		return
	}
	gv.Ensures("the request goes to its method of its client, once", to.called == "Dispense." && not.called == "")
	gv.Ensures("the request passes unaltered", to.same)
	gv.Ensures("the call is made in the caller's context", to.ctx == ctx)
	gv.Ensures("the response passes", gv.Implies(!fails, any(res) == to.res && err == nil))
	gv.Ensures("the status passes", gv.Implies(fails, err == to.err))
	gv.Reach("forwarded")
}

func (c *gvVendingApiClient) StopDispense(ctx context.Context, req *traits.StopDispenseRequest, _ ...grpc.CallOption) (*traits.Consumable_Stock, error) {
	c.ctx, c.req = ctx, req
	c.same = c.was.Unchanged() && (req == c.want.(*traits.StopDispenseRequest) || proto.Equal(req, c.want))
	c.called += "StopDispense."
	if c.err != nil {
		return nil, c.err
	}
	c.res = &traits.Consumable_Stock{}
	return c.res.(*traits.Consumable_Stock), nil
}

// StopDispense passes the request on to the client it names, and the response or status back.
//
//gv:property C12
//gv:for (*ApiRouter).StopDispense covers ApiRouter.GetVendingApiClient ApiRouter.AddVendingApiClient ApiRouter.Add ApiRouter.HoldsType NewApiRouter
//gv:norun
func gvc_ApiRouter_StopDispense(req *traits.StopDispenseRequest, a, b string, fails bool) {
	gv.Requires(req != nil)
	was := gv.Freeze(req)
	c1, c2 := &gvVendingApiClient{want: req, was: was}, &gvVendingApiClient{want: req, was: was}
	if fails {
		c1.err, c2.err = errors.New("1"), errors.New("2")
	}
	r := NewApiRouter()
	r.AddVendingApiClient(a, c1)
	r.AddVendingApiClient(b, c2)
	ctx := context.Background()
	res, err := r.StopDispense(ctx, req)
	to, not := c1, c2
	if req.Name == b {
		to, not = c2, c1
	} else if req.Name != a {
		gv.Ensures("a name with no client is NotFound", status.Code(err) == codes.NotFound && res == nil)
		gv.Ensures("a name with no client touches none", c1.called == "" && c2.called == "")
		gv.Reach("not found")
		return
	}
	gv.Ensures("the request goes to its method of its client, once", to.called == "StopDispense." && not.called == "")
	gv.Ensures("the request passes unaltered", to.same)
	gv.Ensures("the call is made in the caller's context", to.ctx == ctx)
	gv.Ensures("the response passes", gv.Implies(!fails, any(res) == to.res && err == nil))
	gv.Ensures("the status passes", gv.Implies(fails, err == to.err))
	gv.Reach("forwarded")
}
