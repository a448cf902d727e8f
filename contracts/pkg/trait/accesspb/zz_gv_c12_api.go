// Written by contracts/gen_c12.py.

package accesspb

import (
	"context"
	"errors"
	"io"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-golang/internal/gv"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
)

// gvAccessApiClient is a client that tells what it was asked, and answers as it is told.
type gvAccessApiClient struct {
	traits.AccessApiClient
	called string
	ctx    context.Context
	req    any
	want   proto.Message
	was    gv.Frozen
	same   bool
	res    any
	err    error
	how    int // 1: no stream, 2: no header, 3: fails in the end
	n      int // responses
	got    int
	header string
}

func (c *gvAccessApiClient) GetLastAccessAttempt(ctx context.Context, req *traits.GetLastAccessAttemptRequest, _ ...grpc.CallOption) (*traits.AccessAttempt, error) {
	c.ctx, c.req = ctx, req
	c.same = c.was.Unchanged() && (req == c.want.(*traits.GetLastAccessAttemptRequest) || proto.Equal(req, c.want))
	c.called += "GetLastAccessAttempt."
	if c.err != nil {
		return nil, c.err
	}
	c.res = &traits.AccessAttempt{}
	return c.res.(*traits.AccessAttempt), nil
}

// GetLastAccessAttempt passes the request on to the client it names, and the response or status back.
//
//gv:property C12
//gv:for (*ApiRouter).GetLastAccessAttempt covers ApiRouter.GetAccessApiClient ApiRouter.AddAccessApiClient ApiRouter.Add ApiRouter.HoldsType NewApiRouter
//gv:norun
func gvc_ApiRouter_GetLastAccessAttempt(req *traits.GetLastAccessAttemptRequest, a, b string, fails bool) {
	gv.Requires(req != nil)
	was := gv.Freeze(req)
	c1, c2 := &gvAccessApiClient{want: req, was: was}, &gvAccessApiClient{want: req, was: was}
	if fails {
		c1.err, c2.err = errors.New("1"), errors.New("2")
	}
	r := NewApiRouter()
	r.AddAccessApiClient(a, c1)
	r.AddAccessApiClient(b, c2)
	ctx := context.Background()
	res, err := r.GetLastAccessAttempt(ctx, req)
	to, not := c1, c2
	if req.Name == b {
		to, not = c2, c1
	} else if req.Name != a {
		gv.Ensures("a name with no client is NotFound", status.Code(err) == codes.NotFound && res == nil)
		gv.Ensures("a name with no client touches none", c1.called == "" && c2.called == "")
		gv.Reach("not found")
		return
	}
	gv.Ensures("the request goes to its method of its client, once", to.called == "GetLastAccessAttempt." && not.called == "")
	gv.Ensures("the request passes unaltered", to.same)
	gv.Ensures("the call is made in the caller's context", to.ctx == ctx)
	gv.Ensures("the response passes", gv.Implies(!fails, any(res) == to.res && err == nil))
	gv.Ensures("the status passes", gv.Implies(fails, err == to.err))
	gv.Reach("forwarded")
}

func (c *gvAccessApiClient) PullAccessAttempts(ctx context.Context, req *traits.PullAccessAttemptsRequest, _ ...grpc.CallOption) (traits.AccessApi_PullAccessAttemptsClient, error) {
	c.ctx, c.req = ctx, req
	c.same = c.was.Unchanged() && (req == c.want.(*traits.PullAccessAttemptsRequest) || proto.Equal(req, c.want))
	c.called += "PullAccessAttempts."
	if c.how == 1 {
		return nil, c.err
	}
	return &gvAccessApiClientPullAccessAttempts{c: c}, nil
}

type gvAccessApiClientPullAccessAttempts struct {
	grpc.ClientStream
	c    *gvAccessApiClient
	said []*traits.PullAccessAttemptsResponse
}

func (s *gvAccessApiClientPullAccessAttempts) Header() (metadata.MD, error) {
	if s.c.how == 2 {
		return nil, s.c.err
	}
	return metadata.MD{"h": []string{s.c.header}}, nil
}
func (s *gvAccessApiClientPullAccessAttempts) Trailer() metadata.MD {
	return metadata.MD{"t": []string{s.c.header}}
}
func (s *gvAccessApiClientPullAccessAttempts) Recv() (*traits.PullAccessAttemptsResponse, error) {
	if len(s.said) == s.c.n {
		if s.c.how == 3 {
			return nil, s.c.err
		}
		return nil, io.EOF
	}
	m := &traits.PullAccessAttemptsResponse{}
	s.said = append(s.said, m)
	s.c.res = m
	s.c.got++
	return m, nil
}

// gvApiRouterPullAccessAttempts is the caller's side.
type gvApiRouterPullAccessAttempts struct {
	grpc.ServerStream
	ctx     context.Context
	to      *gvAccessApiClient
	drop    int // the message that can't be sent
	fail    error
	n       int
	inOrder bool
	headers int
	header  string
	trailer string
}

func (s *gvApiRouterPullAccessAttempts) Context() context.Context { return s.ctx }
func (s *gvApiRouterPullAccessAttempts) SendHeader(md metadata.MD) error {
	s.headers++
	s.header = md["h"][0]
	return nil
}
func (s *gvApiRouterPullAccessAttempts) SetTrailer(md metadata.MD) { s.trailer = md["t"][0] }
func (s *gvApiRouterPullAccessAttempts) Send(m *traits.PullAccessAttemptsResponse) error {
	if s.n == s.drop {
		return s.fail
	}
	s.n++
	s.inOrder = s.inOrder && any(m) == s.to.res && s.n == s.to.got
	return nil
}

// PullAccessAttempts passes the request on to the client it names, and the header, responses, trailer and status of the stream back.
//
//gv:property C12
//gv:for (*ApiRouter).PullAccessAttempts covers ApiRouter.GetAccessApiClient ApiRouter.AddAccessApiClient ApiRouter.Add ApiRouter.HoldsType NewApiRouter
//gv:norun
func gvc_ApiRouter_PullAccessAttempts(req *traits.PullAccessAttemptsRequest, a, b string, how, n, drop int, header string) {
	gv.Requires(req != nil && how >= 0 && how <= 3 && n >= 0 && n <= 2)
	gv.Bound("responses", n, 2)
	was := gv.Freeze(req)
	c1, c2 := &gvAccessApiClient{want: req, was: was, how: how, n: n, header: header}, &gvAccessApiClient{want: req, was: was, how: how, n: n, header: header}
	c1.err, c2.err = errors.New("1"), errors.New("2")
	r := NewApiRouter()
	r.AddAccessApiClient(a, c1)
	r.AddAccessApiClient(b, c2)
	to, not := c1, c2
	if req.Name == b {
		to, not = c2, c1
	}
	ss := &gvApiRouterPullAccessAttempts{ctx: context.Background(), to: to, drop: drop, fail: errors.New("gone"), inOrder: true}
	err := r.PullAccessAttempts(req, ss)
	if req.Name != b && req.Name != a {
		gv.Ensures("a name with no client is NotFound", status.Code(err) == codes.NotFound)
		gv.Ensures("a name with no client touches none", c1.called == "" && c2.called == "")
		gv.Reach("not found")
		return
	}
	gv.Ensures("the request goes to its method of its client, once", to.called == "PullAccessAttempts." && not.called == "")
	gv.Ensures("the request passes unaltered", to.same)
	if how == 1 || how == 2 {
		gv.Ensures("the status passes", err == to.err)
		gv.Reach("no stream")
		return
	}
	gv.Ensures("the header passes, once", ss.headers == 1 && ss.header == header)
	gv.Ensures("the responses pass in order, unaltered", ss.inOrder)
	if 0 <= drop && drop < n {
		gv.Ensures("when the caller has gone, so has the request to the client", to.ctx.Err() != nil)
		gv.Reach("left")
		return
	}
	gv.Ensures("all the responses pass", ss.n == n && to.got == n)
	gv.Ensures("the trailer passes", ss.trailer == header)
	gv.Ensures("the status passes", gv.Implies(how == 3, err == to.err) && gv.Implies(how == 0, err == nil))
	gv.Reach("forwarded")
}
