// Written by contracts/gen_c12.py.

package emergencypb

import (
	"context"
	"errors"
	"io"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-golang/internal/gv"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
)

// gvEmergencyApiClient is a client that tells what it was asked, and answers as it is told.
type gvEmergencyApiClient struct {
	traits.EmergencyApiClient
	called string
	ctx    context.Context
	req    any
	want   proto.Message
	was    gv.Frozen
	same   bool
	res    any
	err    error
	how    int // 1: no stream, 2: no header, 3: fails in the end
	n      int // responses
	got    int
	header string
}

func (c *gvEmergencyApiClient) GetEmergency(ctx context.Context, req *traits.GetEmergencyRequest, _ ...grpc.CallOption) (*traits.Emergency, error) {
	c.ctx, c.req = ctx, req
	c.same = c.was.Unchanged() && (req == c.want.(*traits.GetEmergencyRequest) || proto.Equal(req, c.want))
	c.called += "GetEmergency."
	if c.err != nil {
		return nil, c.err
	}
	c.res = &traits.Emergency{}
	return c.res.(*traits.Emergency), nil
}

// GetEmergency passes the request on to the client it names, and the response or status back.
//
//gv:property C12
//gv:for (*ApiRouter).GetEmergency covers ApiRouter.GetEmergencyApiClient ApiRouter.AddEmergencyApiClient ApiRouter.Add ApiRouter.HoldsType NewApiRouter
//gv:norun
func gvc_ApiRouter_GetEmergency(req *traits.GetEmergencyRequest, a, b string, fails bool) {
	gv.Requires(req != nil)
	was := gv.Freeze(req)
	c1, c2 := &gvEmergencyApiClient{want: req, was: was}, &gvEmergencyApiClient{want: req, was: was}
	if fails {
		c1.err, c2.err = errors.New("1"), errors.New("2")
	}
	r := NewApiRouter()
	r.AddEmergencyApiClient(a, c1)
	r.AddEmergencyApiClient(b, c2)
	ctx := context.Background()
	res, err := r.GetEmergency(ctx, req)
	to, not := c1, c2
	if req.Name == b {
		to, not = c2, c1
	} else if req.Name != a {
		gv.Ensures("a name with no client is NotFound", status.Code(err) == codes.NotFound && res == nil)
		gv.Ensures("a name with no client touches none", c1.called == "" && c2.called == "")
		gv.Reach("not found")
		return
	}
	gv.Ensures("the request goes to its method of its client, once", to.called == "GetEmergency." && not.called == "")
	gv.Ensures("the request passes unaltered", to.same)
	gv.Ensures("the call is made in the caller's context", to.ctx == ctx)
	gv.Ensures("the response passes", gv.Implies(!fails, any(res) == to.res && err == nil))
	gv.Ensures("the status passes", gv.Implies(fails, err == to.err))
	gv.Reach("forwarded")
}

func (c *gvEmergencyApiClient) UpdateEmergency(ctx context.Context, req *traits.UpdateEmergencyRequest, _ ...grpc.CallOption) (*traits.Emergency, error) {
	c.ctx, c.req = ctx, req
	c.same = c.was.Unchanged() && (req == c.want.(*traits.UpdateEmergencyRequest) || proto.Equal(req, c.want))
	c.called += "UpdateEmergency."
	if c.err != nil {
		return nil, c.err
	}
	c.res = &traits.Emergency{}
	return c.res.(*traits.Emergency), nil
}

// UpdateEmergency passes the request on to the client it names, and the response or status back.
//
//gv:property C12
//gv:for (*ApiRouter).UpdateEmergency covers ApiRouter.GetEmergencyApiClient ApiRouter.AddEmergencyApiClient ApiRouter.Add ApiRouter.HoldsType NewApiRouter
//gv:norun
func gvc_ApiRouter_UpdateEmergency(req *traits.UpdateEmergencyRequest, a, b string, fails bool) {
	gv.Requires(req != nil)
	was := gv.Freeze(req)
	c1, c2 := &gvEmergencyApiClient{want: req, was: was}, &gvEmergencyApiClient{want: req, was: was}
	if fails {
		c1.err, c2.err = errors.New("1"), errors.New("2")
	}
	r := NewApiRouter()
	r.AddEmergencyApiClient(a, c1)
	r.AddEmergencyApiClient(b, c2)
	ctx := context.Background()
	res, err := r.UpdateEmergency(ctx, req)
	to, not := c1, c2
	if req.Name == b {
		to, not = c2, c1
	} else if req.Name != a {
		gv.Ensures("a name with no client is NotFound", status.Code(err) == codes.NotFound && res == nil)
		gv.Ensures("a name with no client touches none", c1.called == "" && c2.called == "")
		gv.Reach("not found")
		return
	}
	gv.Ensures("the request goes to its method of its client, once", to.called == "UpdateEmergency." && not.called == "")
	gv.Ensures("the request passes unaltered", to.same)
	gv.Ensures("the call is made in the caller's context", to.ctx == ctx)
	gv.Ensures("the response passes", gv.Implies(!fails, any(res) == to.res && err == nil))
	gv.Ensures("the status passes", gv.Implies(fails, err == to.err))
	gv.Reach("forwarded")
}

func (c *gvEmergencyApiClient) PullEmergency(ctx context.Context, req *traits.PullEmergencyRequest, _ ...grpc.CallOption) (traits.EmergencyApi_PullEmergencyClient, error) {
	c.ctx, c.req = ctx, req
	c.same = c.was.Unchanged() && (req == c.want.(*traits.PullEmergencyRequest) || proto.Equal(req, c.want))
	c.called += "PullEmergency."
	if c.how == 1 {
		return nil, c.err
	}
	return &gvEmergencyApiClientPullEmergency{c: c}, nil
}

type gvEmergencyApiClientPullEmergency struct {
	grpc.ClientStream
	c    *gvEmergencyApiClient
	said []*traits.PullEmergencyResponse
}

func (s *gvEmergencyApiClientPullEmergency) Header() (metadata.MD, error) {
	if s.c.how == 2 {
		return nil, s.c.err
	}
	return metadata.MD{"h": []string{s.c.header}}, nil
}
func (s *gvEmergencyApiClientPullEmergency) Trailer() metadata.MD {
	return metadata.MD{"t": []string{s.c.header}}
}
func (s *gvEmergencyApiClientPullEmergency) Recv() (*traits.PullEmergencyResponse, error) {
	if len(s.said) == s.c.n {
		if s.c.how == 3 {
			return nil, s.c.err
		}
		return nil, io.EOF
	}
	m := &traits.PullEmergencyResponse{}
	s.said = append(s.said, m)
	s.c.res = m
	s.c.got++
	return m, nil
}

// gvApiRouterPullEmergency is the caller's side.
type gvApiRouterPullEmergency struct {
	grpc.ServerStream
	ctx     context.Context
	to      *gvEmergencyApiClient
	drop    int // the message that can't be sent
	fail    error
	n       int
	inOrder bool
	headers int
	header  string
	trailer string
}

func (s *gvApiRouterPullEmergency) Context() context.Context { return s.ctx }
func (s *gvApiRouterPullEmergency) SendHeader(md metadata.MD) error {
	s.headers++
	s.header = md["h"][0]
	return nil
}
func (s *gvApiRouterPullEmergency) SetTrailer(md metadata.MD) { s.trailer = md["t"][0] }
func (s *gvApiRouterPullEmergency) Send(m *traits.PullEmergencyResponse) error {
	if s.n == s.drop {
		return s.fail
	}
	s.n++
	s.inOrder = s.inOrder && any(m) == s.to.res && s.n == s.to.got
	return nil
}

// PullEmergency passes the request on to the client it names, and the header, responses, trailer and status of the stream back.
//
//gv:property C12
//gv:for (*ApiRouter).PullEmergency covers ApiRouter.GetEmergencyApiClient ApiRouter.AddEmergencyApiClient ApiRouter.Add ApiRouter.HoldsType NewApiRouter
//gv:norun
func gvc_ApiRouter_PullEmergency(req *traits.PullEmergencyRequest, a, b string, how, n, drop int, header string) {
	gv.Requires(req != nil && how >= 0 && how <= 3 && n >= 0 && n <= 2)
	gv.Bound("responses", n, 2)
	was := gv.Freeze(req)
	c1, c2 := &gvEmergencyApiClient{want: req, was: was, how: how, n: n, header: header}, &gvEmergencyApiClient{want: req, was: was, how: how, n: n, header: header}
	c1.err, c2.err = errors.New("1"), errors.New("2")
	r := NewApiRouter()
	r.AddEmergencyApiClient(a, c1)
	r.AddEmergencyApiClient(b, c2)
	to, not := c1, c2
	if req.Name == b {
		to, not = c2, c1
	}
	ss := &gvApiRouterPullEmergency{ctx: context.Background(), to: to, drop: drop, fail: errors.New("gone"), inOrder: true}
	err := r.PullEmergency(req, ss)
	if req.Name != b && req.Name != a {
		gv.Ensures("a name with no client is NotFound", status.Code(err) == codes.NotFound)
		gv.Ensures("a name with no client touches none", c1.called == "" && c2.called == "")
		gv.Reach("not found")
		return
	}
	gv.Ensures("the request goes to its method of its client, once", to.called == "PullEmergency." && not.called == "")
	gv.Ensures("the request passes unaltered", to.same)
	if how == 1 || how == 2 {
		gv.Ensures("the status passes", err == to.err)
		gv.Reach("no stream")
		return
	}
	gv.Ensures("the header passes, once", ss.headers == 1 && ss.header == header)
	gv.Ensures("the responses pass in order, unaltered", ss.inOrder)
	if 0 <= drop && drop < n {
		gv.Ensures("when the caller has gone, so has the request to the client", to.ctx.Err() != nil)
		gv.Reach("left")
		return
	}
	gv.Ensures("all the responses pass", ss.n == n && to.got == n)
	gv.Ensures("the trailer passes", ss.trailer == header)
	gv.Ensures("the status passes", gv.Implies(how == 3, err == to.err) && gv.Implies(how == 0, err == nil))
	gv.Reach("forwarded")
}
