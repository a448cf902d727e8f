// Written by contracts/gen_c12.py.

package bookingpb

import (
	"context"
	"errors"
	"io"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-golang/internal/gv"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
)

// gvBookingApiClient is a client that tells what it was asked, and answers as it is told.
type gvBookingApiClient struct {
	traits.BookingApiClient
	called string
	ctx    context.Context
	req    any
	want   proto.Message
	was    gv.Frozen
	same   bool
	res    any
	err    error
	how    int // 1: no stream, 2: no header, 3: fails in the end
	n      int // responses
	got    int
	header string
}

func (c *gvBookingApiClient) ListBookings(ctx context.Context, req *traits.ListBookingsRequest, _ ...grpc.CallOption) (*traits.ListBookingsResponse, error) {
	c.ctx, c.req = ctx, req
	c.same = c.was.Unchanged() && (req == c.want.(*traits.ListBookingsRequest) || proto.Equal(req, c.want))
	c.called += "ListBookings."
	if c.err != nil {
		return nil, c.err
	}
	c.res = &traits.ListBookingsResponse{}
	return c.res.(*traits.ListBookingsResponse), nil
}

// ListBookings passes the request on to the client it names, and the response or status back.
//
//gv:property C12
//gv:for (*ApiRouter).ListBookings covers ApiRouter.GetBookingApiClient ApiRouter.AddBookingApiClient ApiRouter.Add ApiRouter.HoldsType NewApiRouter
//gv:norun
func gvc_ApiRouter_ListBookings(req *traits.ListBookingsRequest, a, b string, fails bool) {
	gv.Requires(req != nil)
	was := gv.Freeze(req)
	c1, c2 := &gvBookingApiClient{want: req, was: was}, &gvBookingApiClient{want: req, was: was}
	if fails {
		c1.err, c2.err = errors.New("1"), errors.New("2")
	}
	r := NewApiRouter()
	r.AddBookingApiClient(a, c1)
	r.AddBookingApiClient(b, c2)
	ctx := context.Background()
	res, err := r.ListBookings(ctx, req)
	to, not := c1, c2
	if req.Name == b {
		to, not = c2, c1
	} else if req.Name != a {
		gv.Ensures("a name with no client is NotFound", status.Code(err) == codes.NotFound && res == nil)
		gv.Ensures("a name with no client touches none", c1.called == "" && c2.called == "")
		gv.Reach("not found")
		return
	}
	gv.Ensures("the request goes to its method of its client, once", to.called == "ListBookings." && not.called == "")
	gv.Ensures("the request passes unaltered", to.same)
	gv.Ensures("the call is made in the caller's context", to.ctx == ctx)
	gv.Ensures("the response passes", gv.Implies(!fails, any(res) == to.res && err == nil))
	gv.Ensures("the status passes", gv.Implies(fails, err == to.err))
	gv.Reach("forwarded")
}

func (c *gvBookingApiClient) CheckInBooking(ctx context.Context, req *traits.CheckInBookingRequest, _ ...grpc.CallOption) (*traits.CheckInBookingResponse, error) {
	c.ctx, c.req = ctx, req
	c.same = c.was.Unchanged() && (req == c.want.(*traits.CheckInBookingRequest) || proto.Equal(req, c.want))
	c.called += "CheckInBooking."
	if c.err != nil {
		return nil, c.err
	}
	c.res = &traits.CheckInBookingResponse{}
	return c.res.(*traits.CheckInBookingResponse), nil
}

// CheckInBooking passes the request on to the client it names, and the response or status back.
//
//gv:property C12
//gv:for (*ApiRouter).CheckInBooking covers ApiRouter.GetBookingApiClient ApiRouter.AddBookingApiClient ApiRouter.Add ApiRouter.HoldsType NewApiRouter
//gv:norun
func gvc_ApiRouter_CheckInBooking(req *traits.CheckInBookingRequest, a, b string, fails bool) {
	gv.Requires(req != nil)
	was := gv.Freeze(req)
	c1, c2 := &gvBookingApiClient{want: req, was: was}, &gvBookingApiClient{want: req, was: was}
	if fails {
		c1.err, c2.err = errors.New("1"), errors.New("2")
	}
	r := NewApiRouter()
	r.AddBookingApiClient(a, c1)
	r.AddBookingApiClient(b, c2)
	ctx := context.Background()
	res, err := r.CheckInBooking(ctx, req)
	to, not := c1, c2
	if req.Name == b {
		to, not = c2, c1
	} else if req.Name != a {
		gv.Ensures("a name with no client is NotFound", status.Code(err) == codes.NotFound && res == nil)
		gv.Ensures("a name with no client touches none", c1.called == "" && c2.called == "")
		gv.Reach("not found")
		return
	}
	gv.Ensures("the request goes to its method of its client, once", to.called == "CheckInBooking." && not.called == "")
	gv.Ensures("the request passes unaltered", to.same)
	gv.Ensures("the call is made in the caller's context", to.ctx == ctx)
	gv.Ensures("the response passes", gv.Implies(!fails, any(res) == to.res && err == nil))
	gv.Ensures("the status passes", gv.Implies(fails, err == to.err))
	gv.Reach("forwarded")
}

func (c *gvBookingApiClient) CheckOutBooking(ctx context.Context, req *traits.CheckOutBookingRequest, _ ...grpc.CallOption) (*traits.CheckOutBookingResponse, error) {
	c.ctx, c.req = ctx, req
	c.same = c.was.Unchanged() && (req == c.want.(*traits.CheckOutBookingRequest) || proto.Equal(req, c.want))
	c.called += "CheckOutBooking."
	if c.err != nil {
		return nil, c.err
	}
	c.res = &traits.CheckOutBookingResponse{}
	return c.res.(*traits.CheckOutBookingResponse), nil
}

// CheckOutBooking passes the request on to the client it names, and the response or status back.
//
//gv:property C12
//gv:for (*ApiRouter).CheckOutBooking covers ApiRouter.GetBookingApiClient ApiRouter.AddBookingApiClient ApiRouter.Add ApiRouter.HoldsType NewApiRouter
//gv:norun
func gvc_ApiRouter_CheckOutBooking(req *traits.CheckOutBookingRequest, a, b string, fails bool) {
	gv.Requires(req != nil)
	was := gv.Freeze(req)
	c1, c2 := &gvBookingApiClient{want: req, was: was}, &gvBookingApiClient{want: req, was: was}
	if fails {
		c1.err, c2.err = errors.New("1"), errors.New("2")
	}
	r := NewApiRouter()
	r.AddBookingApiClient(a, c1)
	r.AddBookingApiClient(b, c2)
	ctx := context.Background()
	res, err := r.CheckOutBooking(ctx, req)
	to, not := c1, c2
	if req.Name == b {
		to, not = c2, c1
	} else if req.Name != a {
		gv.Ensures("a name with no client is NotFound", status.Code(err) == codes.NotFound && res == nil)
		gv.Ensures("a name with no client touches none", c1.called == "" && c2.called == "")
		gv.Reach("not found")
		return
	}
	gv.Ensures("the request goes to its method of its client, once", to.called == "CheckOutBooking." && not.called == "")
	gv.Ensures("the request passes unaltered", to.same)
	gv.Ensures("the call is made in the caller's context", to.ctx == ctx)
	gv.Ensures("the response passes", gv.Implies(!fails, any(res) == to.res && err == nil))
	gv.Ensures("the status passes", gv.Implies(fails, err == to.err))
	gv.Reach("forwarded")
}

func (c *gvBookingApiClient) CreateBooking(ctx context.Context, req *traits.CreateBookingRequest, _ ...grpc.CallOption) (*traits.CreateBookingResponse, error) {
	c.ctx, c.req = ctx, req
	c.same = c.was.Unchanged() && (req == c.want.(*traits.CreateBookingRequest) || proto.Equal(req, c.want))
	c.called += "CreateBooking."
	if c.err != nil {
		return nil, c.err
	}
	c.res = &traits.CreateBookingResponse{}
	return c.res.(*traits.CreateBookingResponse), nil
}

// CreateBooking passes the request on to the client it names, and the response or status back.
//
//gv:property C12
//gv:for (*ApiRouter).CreateBooking covers ApiRouter.GetBookingApiClient ApiRouter.AddBookingApiClient ApiRouter.Add ApiRouter.HoldsType NewApiRouter
//gv:norun
func gvc_ApiRouter_CreateBooking(req *traits.CreateBookingRequest, a, b string, fails bool) {
	gv.Requires(req != nil)
	was := gv.Freeze(req)
	c1, c2 := &gvBookingApiClient{want: req, was: was}, &gvBookingApiClient{want: req, was: was}
	if fails {
		c1.err, c2.err = errors.New("1"), errors.New("2")
	}
	r := NewApiRouter()
	r.AddBookingApiClient(a, c1)
	r.AddBookingApiClient(b, c2)
	ctx := context.Background()
	res, err := r.CreateBooking(ctx, req)
	to, not := c1, c2
	if req.Name == b {
		to, not = c2, c1
	} else if req.Name != a {
		gv.Ensures("a name with no client is NotFound", status.Code(err) == codes.NotFound && res == nil)
		gv.Ensures("a name with no client touches none", c1.called == "" && c2.called == "")
		gv.Reach("not found")
		return
	}
	gv.Ensures("the request goes to its method of its client, once", to.called == "CreateBooking." && not.called == "")
	gv.Ensures("the request passes unaltered", to.same)
	gv.Ensures("the call is made in the caller's context", to.ctx == ctx)
	gv.Ensures("the response passes", gv.Implies(!fails, any(res) == to.res && err == nil))
	gv.Ensures("the status passes", gv.Implies(fails, err == to.err))
	gv.Reach("forwarded")
}

func (c *gvBookingApiClient) UpdateBooking(ctx context.Context, req *traits.UpdateBookingRequest, _ ...grpc.CallOption) (*traits.UpdateBookingResponse, error) {
	c.ctx, c.req = ctx, req
	c.same = c.was.Unchanged() && (req == c.want.(*traits.UpdateBookingRequest) || proto.Equal(req, c.want))
	c.called += "UpdateBooking."
	if c.err != nil {
		return nil, c.err
	}
	c.res = &traits.UpdateBookingResponse{}
	return c.res.(*traits.UpdateBookingResponse), nil
}

// UpdateBooking passes the request on to the client it names, and the response or status back.
//
//gv:property C12
//gv:for (*ApiRouter).UpdateBooking covers ApiRouter.GetBookingApiClient ApiRouter.AddBookingApiClient ApiRouter.Add ApiRouter.HoldsType NewApiRouter
//gv:norun
func gvc_ApiRouter_UpdateBooking(req *traits.UpdateBookingRequest, a, b string, fails bool) {
	gv.Requires(req != nil)
	was := gv.Freeze(req)
	c1, c2 := &gvBookingApiClient{want: req, was: was}, &gvBookingApiClient{want: req, was: was}
	if fails {
		c1.err, c2.err = errors.New("1"), errors.New("2")
	}
	r := NewApiRouter()
	r.AddBookingApiClient(a, c1)
	r.AddBookingApiClient(b, c2)
	ctx := context.Background()
	res, err := r.UpdateBooking(ctx, req)
	to, not := c1, c2
	if req.Name == b {
		to, not = c2, c1
	} else if req.Name != a {
		gv.Ensures("a name with no client is NotFound", status.Code(err) == codes.NotFound && res == nil)
		gv.Ensures("a name with no client touches none", c1.called == "" && c2.called == "")
		gv.Reach("not found")
		return
	}
	gv.Ensures("the request goes to its method of its client, once", to.called == "UpdateBooking." && not.called == "")
	gv.Ensures("the request passes unaltered", to.same)
	gv.Ensures("the call is made in the caller's context", to.ctx == ctx)
	gv.Ensures("the response passes", gv.Implies(!fails, any(res) == to.res && err == nil))
	gv.Ensures("the status passes", gv.Implies(fails, err == to.err))
	gv.Reach("forwarded")
}

func (c *gvBookingApiClient) PullBookings(ctx context.Context, req *traits.ListBookingsRequest, _ ...grpc.CallOption) (traits.BookingApi_PullBookingsClient, error) {
	c.ctx, c.req = ctx, req
	c.same = c.was.Unchanged() && (req == c.want.(*traits.ListBookingsRequest) || proto.Equal(req, c.want))
	c.called += "PullBookings."
	if c.how == 1 {
		return nil, c.err
	}
	return &gvBookingApiClientPullBookings{c: c}, nil
}

type gvBookingApiClientPullBookings struct {
	grpc.ClientStream
	c    *gvBookingApiClient
	said []*traits.PullBookingsResponse
}

func (s *gvBookingApiClientPullBookings) Header() (metadata.MD, error) {
	if s.c.how == 2 {
		return nil, s.c.err
	}
	return metadata.MD{"h": []string{s.c.header}}, nil
}
func (s *gvBookingApiClientPullBookings) Trailer() metadata.MD {
	return metadata.MD{"t": []string{s.c.header}}
}
func (s *gvBookingApiClientPullBookings) Recv() (*traits.PullBookingsResponse, error) {
	if len(s.said) == s.c.n {
		if s.c.how == 3 {
			return nil, s.c.err
		}
		return nil, io.EOF
	}
	m := &traits.PullBookingsResponse{}
	s.said = append(s.said, m)
	s.c.res = m
	s.c.got++
	return m, nil
}

// gvApiRouterPullBookings is the caller's side.
type gvApiRouterPullBookings struct {
	grpc.ServerStream
	ctx     context.Context
	to      *gvBookingApiClient
	drop    int // the message that can't be sent
	fail    error
	n       int
	inOrder bool
	headers int
	header  string
	trailer string
}

func (s *gvApiRouterPullBookings) Context() context.Context { return s.ctx }
func (s *gvApiRouterPullBookings) SendHeader(md metadata.MD) error {
	s.headers++
	s.header = md["h"][0]
	return nil
}
func (s *gvApiRouterPullBookings) SetTrailer(md metadata.MD) { s.trailer = md["t"][0] }
func (s *gvApiRouterPullBookings) Send(m *traits.PullBookingsResponse) error {
	if s.n == s.drop {
		return s.fail
	}
	s.n++
	s.inOrder = s.inOrder && any(m) == s.to.res && s.n == s.to.got
	return nil
}

// PullBookings passes the request on to the client it names, and the header, responses, trailer and status of the stream back.
//
//gv:property C12
//gv:for (*ApiRouter).PullBookings covers ApiRouter.GetBookingApiClient ApiRouter.AddBookingApiClient ApiRouter.Add ApiRouter.HoldsType NewApiRouter
//gv:norun
func gvc_ApiRouter_PullBookings(req *traits.ListBookingsRequest, a, b string, how, n, drop int, header string) {
	gv.Requires(req != nil && how >= 0 && how <= 3 && n >= 0 && n <= 2)
	gv.Bound("responses", n, 2)
	was := gv.Freeze(req)
	c1, c2 := &gvBookingApiClient{want: req, was: was, how: how, n: n, header: header}, &gvBookingApiClient{want: req, was: was, how: how, n: n, header: header}
	c1.err, c2.err = errors.New("1"), errors.New("2")
	r := NewApiRouter()
	r.AddBookingApiClient(a, c1)
	r.AddBookingApiClient(b, c2)
	to, not := c1, c2
	if req.Name == b {
		to, not = c2, c1
	}
	ss := &gvApiRouterPullBookings{ctx: context.Background(), to: to, drop: drop, fail: errors.New("gone"), inOrder: true}
	err := r.PullBookings(req, ss)
	if req.Name != b && req.Name != a {
		gv.Ensures("a name with no client is NotFound", status.Code(err) == codes.NotFound)
		gv.Ensures("a name with no client touches none", c1.called == "" && c2.called == "")
		gv.Reach("not found")
		return
	}
	gv.Ensures("the request goes to its method of its client, once", to.called == "PullBookings." && not.called == "")
	gv.Ensures("the request passes unaltered", to.same)
	if how == 1 || how == 2 {
		gv.Ensures("the status passes", err == to.err)
		gv.Reach("no stream")
		return
	}
	gv.Ensures("the header passes, once", ss.headers == 1 && ss.header == header)
	gv.Ensures("the responses pass in order, unaltered", ss.inOrder)
	if 0 <= drop && drop < n {
		gv.Ensures("when the caller has gone, so has the request to the client", to.ctx.Err() != nil)
		gv.Reach("left")
		return
	}
	gv.Ensures("all the responses pass", ss.n == n && to.got == n)
	gv.Ensures("the trailer passes", ss.trailer == header)
	gv.Ensures("the status passes", gv.Implies(how == 3, err == to.err) && gv.Implies(how == 0, err == nil))
	gv.Reach("forwarded")
}
