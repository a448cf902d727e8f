// Written by contracts/gen_c12.py.

package publicationpb

import (
	"context"
	"errors"
	"io"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-golang/internal/gv"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
)

// gvPublicationApiClient is a client that tells what it was asked, and answers as it is told.
type gvPublicationApiClient struct {
	traits.PublicationApiClient
	called string
	ctx    context.Context
	req    any
	want   proto.Message
	was    gv.Frozen
	same   bool
	res    any
	err    error
	how    int // 1: no stream, 2: no header, 3: fails in the end
	n      int // responses
	got    int
	header string
}

func (c *gvPublicationApiClient) CreatePublication(ctx context.Context, req *traits.CreatePublicationRequest, _ ...grpc.CallOption) (*traits.Publication, error) {
	c.ctx, c.req = ctx, req
	c.same = c.was.Unchanged() && (req == c.want.(*traits.CreatePublicationRequest) || proto.Equal(req, c.want))
	c.called += "CreatePublication."
	if c.err != nil {
		return nil, c.err
	}
	c.res = &traits.Publication{}
	return c.res.(*traits.Publication), nil
}

// CreatePublication passes the request on to the client it names, and the response or status back.
//
//gv:property C12
//gv:for (*ApiRouter).CreatePublication covers ApiRouter.GetPublicationApiClient ApiRouter.AddPublicationApiClient ApiRouter.Add ApiRouter.HoldsType NewApiRouter
//gv:norun
func gvc_ApiRouter_CreatePublication(req *traits.CreatePublicationRequest, a, b string, fails bool) {
	gv.Requires(req != nil)
	was := gv.Freeze(req)
	c1, c2 := &gvPublicationApiClient{want: req, was: was}, &gvPublicationApiClient{want: req, was: was}
	if fails {
		c1.err, c2.err = errors.New("1"), errors.New("2")
	}
	r := NewApiRouter()
	r.AddPublicationApiClient(a, c1)
	r.AddPublicationApiClient(b, c2)
	ctx := context.Background()
	res, err := r.CreatePublication(ctx, req)
	to, not := c1, c2
	if req.Name == b {
		to, not = c2, c1
	} else if req.Name != a {
		gv.Ensures("a name with no client is NotFound", status.Code(err) == codes.NotFound && res == nil)
		gv.Ensures("a name with no client touches none", c1.called == "" && c2.called == "")
		gv.Reach("not found")
		return
	}
	gv.Ensures("the request goes to its method of its client, once", to.called == "CreatePublication." && not.called == "")
	gv.Ensures("the request passes unaltered", to.same)
	gv.Ensures("the call is made in the caller's context", to.ctx == ctx)
	gv.Ensures("the response passes", gv.Implies(!fails, any(res) == to.res && err == nil))
	gv.Ensures("the status passes", gv.Implies(fails, err == to.err))
	gv.Reach("forwarded")
}

func (c *gvPublicationApiClient) GetPublication(ctx context.Context, req *traits.GetPublicationRequest, _ ...grpc.CallOption) (*traits.Publication, error) {
	c.ctx, c.req = ctx, req
	c.same = c.was.Unchanged() && (req == c.want.(*traits.GetPublicationRequest) || proto.Equal(req, c.want))
	c.called += "GetPublication."
	if c.err != nil {
		return nil, c.err
	}
	c.res = &traits.Publication{}
	return c.res.(*traits.Publication), nil
}

// GetPublication passes the request on to the client it names, and the response or status back.
//
//gv:property C12
//gv:for (*ApiRouter).GetPublication covers ApiRouter.GetPublicationApiClient ApiRouter.AddPublicationApiClient ApiRouter.Add ApiRouter.HoldsType NewApiRouter
//gv:norun
func gvc_ApiRouter_GetPublication(req *traits.GetPublicationRequest, a, b string, fails bool) {
	gv.Requires(req != nil)
	was := gv.Freeze(req)
	c1, c2 := &gvPublicationApiClient{want: req, was: was}, &gvPublicationApiClient{want: req, was: was}
	if fails {
		c1.err, c2.err = errors.New("1"), errors.New("2")
	}
	r := NewApiRouter()
	r.AddPublicationApiClient(a, c1)
	r.AddPublicationApiClient(b, c2)
	ctx := context.Background()
	res, err := r.GetPublication(ctx, req)
	to, not := c1, c2
	if req.Name == b {
		to, not = c2, c1
	} else if req.Name != a {
		gv.Ensures("a name with no client is NotFound", status.Code(err) == codes.NotFound && res == nil)
		gv.Ensures("a name with no client touches none", c1.called == "" && c2.called == "")
		gv.Reach("not found")
		return
	}
	gv.Ensures("the request goes to its method of its client, once", to.called == "GetPublication." && not.called == "")
	gv.Ensures("the request passes unaltered", to.same)
	gv.Ensures("the call is made in the caller's context", to.ctx == ctx)
	gv.Ensures("the response passes", gv.Implies(!fails, any(res) == to.res && err == nil))
	gv.Ensures("the status passes", gv.Implies(fails, err == to.err))
	gv.Reach("forwarded")
}

func (c *gvPublicationApiClient) UpdatePublication(ctx context.Context, req *traits.UpdatePublicationRequest, _ ...grpc.CallOption) (*traits.Publication, error) {
	c.ctx, c.req = ctx, req
	c.same = c.was.Unchanged() && (req == c.want.(*traits.UpdatePublicationRequest) || proto.Equal(req, c.want))
	c.called += "UpdatePublication."
	if c.err != nil {
		return nil, c.err
	}
	c.res = &traits.Publication{}
	return c.res.(*traits.Publication), nil
}

// UpdatePublication passes the request on to the client it names, and the response or status back.
//
//gv:property C12
//gv:for (*ApiRouter).UpdatePublication covers ApiRouter.GetPublicationApiClient ApiRouter.AddPublicationApiClient ApiRouter.Add ApiRouter.HoldsType NewApiRouter
//gv:norun
func gvc_ApiRouter_UpdatePublication(req *traits.UpdatePublicationRequest, a, b string, fails bool) {
	gv.Requires(req != nil)
	was := gv.Freeze(req)
	c1, c2 := &gvPublicationApiClient{want: req, was: was}, &gvPublicationApiClient{want: req, was: was}
	if fails {
		c1.err, c2.err = errors.New("1"), errors.New("2")
	}
	r := NewApiRouter()
	r.AddPublicationApiClient(a, c1)
	r.AddPublicationApiClient(b, c2)
	ctx := context.Background()
	res, err := r.UpdatePublication(ctx, req)
	to, not := c1, c2
	if req.Name == b {
		to, not = c2, c1
	} else if req.Name != a {
		gv.Ensures("a name with no client is NotFound", status.Code(err) == codes.NotFound && res == nil)
		gv.Ensures("a name with no client touches none", c1.called == "" && c2.called == "")
		gv.Reach("not found")
		return
	}
	gv.Ensures("the request goes to its method of its client, once", to.called == "UpdatePublication." && not.called == "")
	gv.Ensures("the request passes unaltered", to.same)
	gv.Ensures("the call is made in the caller's context", to.ctx == ctx)
	gv.Ensures("the response passes", gv.Implies(!fails, any(res) == to.res && err == nil))
	gv.Ensures("the status passes", gv.Implies(fails, err == to.err))
	gv.Reach("forwarded")
}

func (c *gvPublicationApiClient) DeletePublication(ctx context.Context, req *traits.DeletePublicationRequest, _ ...grpc.CallOption) (*traits.Publication, error) {
	c.ctx, c.req = ctx, req
	c.same = c.was.Unchanged() && (req == c.want.(*traits.DeletePublicationRequest) || proto.Equal(req, c.want))
	c.called += "DeletePublication."
	if c.err != nil {
		return nil, c.err
	}
	c.res = &traits.Publication{}
	return c.res.(*traits.Publication), nil
}

// DeletePublication passes the request on to the client it names, and the response or status back.
//
//gv:property C12
//gv:for (*ApiRouter).DeletePublication covers ApiRouter.GetPublicationApiClient ApiRouter.AddPublicationApiClient ApiRouter.Add ApiRouter.HoldsType NewApiRouter
//gv:norun
func gvc_ApiRouter_DeletePublication(req *traits.DeletePublicationRequest, a, b string, fails bool) {
	gv.Requires(req != nil)
	was := gv.Freeze(req)
	c1, c2 := &gvPublicationApiClient{want: req, was: was}, &gvPublicationApiClient{want: req, was: was}
	if fails {
		c1.err, c2.err = errors.New("1"), errors.New("2")
	}
	r := NewApiRouter()
	r.AddPublicationApiClient(a, c1)
	r.AddPublicationApiClient(b, c2)
	ctx := context.Background()
	res, err := r.DeletePublication(ctx, req)
	to, not := c1, c2
	if req.Name == b {
		to, not = c2, c1
	} else if req.Name != a {
		gv.Ensures("a name with no client is NotFound", status.Code(err) == codes.NotFound && res == nil)
		gv.Ensures("a name with no client touches none", c1.called == "" && c2.called == "")
		gv.Reach("not found")
		return
	}
	gv.Ensures("the request goes to its method of its client, once", to.called == "DeletePublication." && not.called == "")
	gv.Ensures("the request passes unaltered", to.same)
	gv.Ensures("the call is made in the caller's context", to.ctx == ctx)
	gv.Ensures("the response passes", gv.Implies(!fails, any(res) == to.res && err == nil))
	gv.Ensures("the status passes", gv.Implies(fails, err == to.err))
	gv.Reach("forwarded")
}

func (c *gvPublicationApiClient) PullPublication(ctx context.Context, req *traits.PullPublicationRequest, _ ...grpc.CallOption) (traits.PublicationApi_PullPublicationClient, error) {
	c.ctx, c.req = ctx, req
	c.same = c.was.Unchanged() && (req == c.want.(*traits.PullPublicationRequest) || proto.Equal(req, c.want))
	c.called += "PullPublication."
	if c.how == 1 {
		return nil, c.err
	}
	return &gvPublicationApiClientPullPublication{c: c}, nil
}

type gvPublicationApiClientPullPublication struct {
	grpc.ClientStream
	c    *gvPublicationApiClient
	said []*traits.PullPublicationResponse
}

func (s *gvPublicationApiClientPullPublication) Header() (metadata.MD, error) {
	if s.c.how == 2 {
		return nil, s.c.err
	}
	return metadata.MD{"h": []string{s.c.header}}, nil
}
func (s *gvPublicationApiClientPullPublication) Trailer() metadata.MD {
	return metadata.MD{"t": []string{s.c.header}}
}
func (s *gvPublicationApiClientPullPublication) Recv() (*traits.PullPublicationResponse, error) {
	if len(s.said) == s.c.n {
		if s.c.how == 3 {
			return nil, s.c.err
		}
		return nil, io.EOF
	}
	m := &traits.PullPublicationResponse{}
	s.said = append(s.said, m)
	s.c.res = m
	s.c.got++
	return m, nil
}

// gvApiRouterPullPublication is the caller's side.
type gvApiRouterPullPublication struct {
	grpc.ServerStream
	ctx     context.Context
	to      *gvPublicationApiClient
	drop    int // the message that can't be sent
	fail    error
	n       int
	inOrder bool
	headers int
	header  string
	trailer string
}

func (s *gvApiRouterPullPublication) Context() context.Context { return s.ctx }
func (s *gvApiRouterPullPublication) SendHeader(md metadata.MD) error {
	s.headers++
	s.header = md["h"][0]
	return nil
}
func (s *gvApiRouterPullPublication) SetTrailer(md metadata.MD) { s.trailer = md["t"][0] }
func (s *gvApiRouterPullPublication) Send(m *traits.PullPublicationResponse) error {
	if s.n == s.drop {
		return s.fail
	}
	s.n++
	s.inOrder = s.inOrder && any(m) == s.to.res && s.n == s.to.got
	return nil
}

// PullPublication passes the request on to the client it names, and the header, responses, trailer and status of the stream back.
//
//gv:property C12
//gv:for (*ApiRouter).PullPublication covers ApiRouter.GetPublicationApiClient ApiRouter.AddPublicationApiClient ApiRouter.Add ApiRouter.HoldsType NewApiRouter
//gv:norun
func gvc_ApiRouter_PullPublication(req *traits.PullPublicationRequest, a, b string, how, n, drop int, header string) {
	gv.Requires(req != nil && how >= 0 && how <= 3 && n >= 0 && n <= 2)
	gv.Bound("responses", n, 2)
	was := gv.Freeze(req)
	c1, c2 := &gvPublicationApiClient{want: req, was: was, how: how, n: n, header: header}, &gvPublicationApiClient{want: req, was: was, how: how, n: n, header: header}
	c1.err, c2.err = errors.New("1"), errors.New("2")
	r := NewApiRouter()
	r.AddPublicationApiClient(a, c1)
	r.AddPublicationApiClient(b, c2)
	to, not := c1, c2
	if req.Name == b {
		to, not = c2, c1
	}
	ss := &gvApiRouterPullPublication{ctx: context.Background(), to: to, drop: drop, fail: errors.New("gone"), inOrder: true}
	err := r.PullPublication(req, ss)
	if req.Name != b && req.Name != a {
		gv.Ensures("a name with no client is NotFound", status.Code(err) == codes.NotFound)
		gv.Ensures("a name with no client touches none", c1.called == "" && c2.called == "")
		gv.Reach("not found")
		return
	}
	gv.Ensures("the request goes to its method of its client, once", to.called == "PullPublication." && not.called == "")
	gv.Ensures("the request passes unaltered", to.same)
	if how == 1 || how == 2 {
		gv.Ensures("the status passes", err == to.err)
		gv.Reach("no stream")
		return
	}
	gv.Ensures("the header passes, once", ss.headers == 1 && ss.header == header)
	gv.Ensures("the responses pass in order, unaltered", ss.inOrder)
	if 0 <= drop && drop < n {
		gv.Ensures("when the caller has gone, so has the request to the client", to.ctx.Err() != nil)
		gv.Reach("left")
		return
	}
	gv.Ensures("all the responses pass", ss.n == n && to.got == n)
	gv.Ensures("the trailer passes", ss.trailer == header)
	gv.Ensures("the status passes", gv.Implies(how == 3, err == to.err) && gv.Implies(how == 0, err == nil))
	gv.Reach("forwarded")
}

func (c *gvPublicationApiClient) ListPublications(ctx context.Context, req *traits.ListPublicationsRequest, _ ...grpc.CallOption) (*traits.ListPublicationsResponse, error) {
	c.ctx, c.req = ctx, req
	c.same = c.was.Unchanged() && (req == c.want.(*traits.ListPublicationsRequest) || proto.Equal(req, c.want))
	c.called += "ListPublications."
	if c.err != nil {
		return nil, c.err
	}
	c.res = &traits.ListPublicationsResponse{}
	return c.res.(*traits.ListPublicationsResponse), nil
}

// ListPublications passes the request on to the client it names, and the response or status back.
//
//gv:property C12
//gv:for (*ApiRouter).ListPublications covers ApiRouter.GetPublicationApiClient ApiRouter.AddPublicationApiClient ApiRouter.Add ApiRouter.HoldsType NewApiRouter
//gv:norun
func gvc_ApiRouter_ListPublications(req *traits.ListPublicationsRequest, a, b string, fails bool) {
	gv.Requires(req != nil)
	was := gv.Freeze(req)
	c1, c2 := &gvPublicationApiClient{want: req, was: was}, &gvPublicationApiClient{want: req, was: was}
	if fails {
		c1.err, c2.err = errors.New("1"), errors.New("2")
	}
	r := NewApiRouter()
	r.AddPublicationApiClient(a, c1)
	r.AddPublicationApiClient(b, c2)
	ctx := context.Background()
	res, err := r.ListPublications(ctx, req)
	to, not := c1, c2
	if req.Name == b {
		to, not = c2, c1
	} else if req.Name != a {
		gv.Ensures("a name with no client is NotFound", status.Code(err) == codes.NotFound && res == nil)
		gv.Ensures("a name with no client touches none", c1.called == "" && c2.called == "")
		gv.Reach("not found")
		return
	}
	gv.Ensures("the request goes to its method of its client, once", to.called == "ListPublications." && not.called == "")
	gv.Ensures("the request passes unaltered", to.same)
	gv.Ensures("the call is made in the caller's context", to.ctx == ctx)
	gv.Ensures("the response passes", gv.Implies(!fails, any(res) == to.res && err == nil))
	gv.Ensures("the status passes", gv.Implies(fails, err == to.err))
	gv.Reach("forwarded")
}

func (c *gvPublicationApiClient) PullPublications(ctx context.Context, req *traits.PullPublicationsRequest, _ ...grpc.CallOption) (traits.PublicationApi_PullPublicationsClient, error) {
	c.ctx, c.req = ctx, req
	c.same = c.was.Unchanged() && (req == c.want.(*traits.PullPublicationsRequest) || proto.Equal(req, c.want))
	c.called += "PullPublications."
	if c.how == 1 {
		return nil, c.err
	}
	return &gvPublicationApiClientPullPublications{c: c}, nil
}

type gvPublicationApiClientPullPublications struct {
	grpc.ClientStream
	c    *gvPublicationApiClient
	said []*traits.PullPublicationsResponse
}

func (s *gvPublicationApiClientPullPublications) Header() (metadata.MD, error) {
	if s.c.how == 2 {
		return nil, s.c.err
	}
	return metadata.MD{"h": []string{s.c.header}}, nil
}
func (s *gvPublicationApiClientPullPublications) Trailer() metadata.MD {
	return metadata.MD{"t": []string{s.c.header}}
}
func (s *gvPublicationApiClientPullPublications) Recv() (*traits.PullPublicationsResponse, error) {
	if len(s.said) == s.c.n {
		if s.c.how == 3 {
			return nil, s.c.err
		}
		return nil, io.EOF
	}
	m := &traits.PullPublicationsResponse{}
	s.said = append(s.said, m)
	s.c.res = m
	s.c.got++
	return m, nil
}

// gvApiRouterPullPublications is the caller's side.
type gvApiRouterPullPublications struct {
	grpc.ServerStream
	ctx     context.Context
	to      *gvPublicationApiClient
	drop    int // the message that can't be sent
	fail    error
	n       int
	inOrder bool
	headers int
	header  string
	trailer string
}

func (s *gvApiRouterPullPublications) Context() context.Context { return s.ctx }
func (s *gvApiRouterPullPublications) SendHeader(md metadata.MD) error {
	s.headers++
	s.header = md["h"][0]
	return nil
}
func (s *gvApiRouterPullPublications) SetTrailer(md metadata.MD) { s.trailer = md["t"][0] }
func (s *gvApiRouterPullPublications) Send(m *traits.PullPublicationsResponse) error {
	if s.n == s.drop {
		return s.fail
	}
	s.n++
	s.inOrder = s.inOrder && any(m) == s.to.res && s.n == s.to.got
	return nil
}

// PullPublications passes the request on to the client it names, and the header, responses, trailer and status of the stream back.
//
//gv:property C12
//gv:for (*ApiRouter).PullPublications covers ApiRouter.GetPublicationApiClient ApiRouter.AddPublicationApiClient ApiRouter.Add ApiRouter.HoldsType NewApiRouter
//gv:norun
func gvc_ApiRouter_PullPublications(req *traits.PullPublicationsRequest, a, b string, how, n, drop int, header string) {
	gv.Requires(req != nil && how >= 0 && how <= 3 && n >= 0 && n <= 2)
	gv.Bound("responses", n, 2)
	was := gv.Freeze(req)
	c1, c2 := &gvPublicationApiClient{want: req, was: was, how: how, n: n, header: header}, &gvPublicationApiClient{want: req, was: was, how: how, n: n, header: header}
	c1.err, c2.err = errors.New("1"), errors.New("2")
	r := NewApiRouter()
	r.AddPublicationApiClient(a, c1)
	r.AddPublicationApiClient(b, c2)
	to, not := c1, c2
	if req.Name == b {
		to, not = c2, c1
	}
	ss := &gvApiRouterPullPublications{ctx: context.Background(), to: to, drop: drop, fail: errors.New("gone"), inOrder: true}
	err := r.PullPublications(req, ss)
	if req.Name != b && req.Name != a {
		gv.Ensures("a name with no client is NotFound", status.Code(err) == codes.NotFound)
		gv.Ensures("a name with no client touches none", c1.called == "" && c2.called == "")
		gv.Reach("not found")
		return
	}
	gv.Ensures("the request goes to its method of its client, once", to.called == "PullPublications." && not.called == "")
	gv.Ensures("the request passes unaltered", to.same)
	if how == 1 || how == 2 {
		gv.Ensures("the status passes", err == to.err)
		gv.Reach("no stream")
		return
	}
	gv.Ensures("the header passes, once", ss.headers == 1 && ss.header == header)
	gv.Ensures("the responses pass in order, unaltered", ss.inOrder)
	if 0 <= drop && drop < n {
		gv.Ensures("when the caller has gone, so has the request to the client", to.ctx.Err() != nil)
		gv.Reach("left")
		return
	}
	gv.Ensures("all the responses pass", ss.n == n && to.got == n)
	gv.Ensures("the trailer passes", ss.trailer == header)
	gv.Ensures("the status passes", gv.Implies(how == 3, err == to.err) && gv.Implies(how == 0, err == nil))
	gv.Reach("forwarded")
}

func (c *gvPublicationApiClient) AcknowledgePublication(ctx context.Context, req *traits.AcknowledgePublicationRequest, _ ...grpc.CallOption) (*traits.Publication, error) {
	c.ctx, c.req = ctx, req
	c.same = c.was.Unchanged() && (req == c.want.(*traits.AcknowledgePublicationRequest) || proto.Equal(req, c.want))
	c.called += "AcknowledgePublication."
	if c.err != nil {
		return nil, c.err
	}
	c.res = &traits.Publication{}
	return c.res.(*traits.Publication), nil
}

// AcknowledgePublication passes the request on to the client it names, and the response or status back.
//
//gv:property C12
//gv:for (*ApiRouter).AcknowledgePublication covers ApiRouter.GetPublicationApiClient ApiRouter.AddPublicationApiClient ApiRouter.Add ApiRouter.HoldsType NewApiRouter
//gv:norun
func gvc_ApiRouter_AcknowledgePublication(req *traits.AcknowledgePublicationRequest, a, b string, fails bool) {
	gv.Requires(req != nil)
	was := gv.Freeze(req)
	c1, c2 := &gvPublicationApiClient{want: req, was: was}, &gvPublicationApiClient{want: req, was: was}
	if fails {
		c1.err, c2.err = errors.New("1"), errors.New("2")
	}
	r := NewApiRouter()
	r.AddPublicationApiClient(a, c1)
	r.AddPublicationApiClient(b, c2)
	ctx := context.Background()
	res, err := r.AcknowledgePublication(ctx, req)
	to, not := c1, c2
	if req.Name == b {
		to, not = c2, c1
	} else if req.Name != a {
		gv.Ensures("a name with no client is NotFound", status.Code(err) == codes.NotFound && res == nil)
		gv.Ensures("a name with no client touches none", c1.called == "" && c2.called == "")
		gv.Reach("not found")
		return
	}
	gv.Ensures("the request goes to its method of its client, once", to.called == "AcknowledgePublication." && not.called == "")
	gv.Ensures("the request passes unaltered", to.same)
	gv.Ensures("the call is made in the caller's context", to.ctx == ctx)
	gv.Ensures("the response passes", gv.Implies(!fails, any(res) == to.res && err == nil))
	gv.Ensures("the status passes", gv.Implies(fails, err == to.err))
	gv.Reach("forwarded")
}
