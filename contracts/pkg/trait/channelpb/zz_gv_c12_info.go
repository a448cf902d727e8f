// Written by contracts/gen_c12.py.

package channelpb

import (
	"context"
	"errors"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-golang/internal/gv"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
)

// gvChannelInfoClient is a client that tells what it was asked, and answers as it is told.
type gvChannelInfoClient struct {
	traits.ChannelInfoClient
	called string
	ctx    context.Context
	req    any
	want   proto.Message
	was    gv.Frozen
	same   bool
	res    any
	err    error
}

func (c *gvChannelInfoClient) DescribeChosenChannel(ctx context.Context, req *traits.DescribeChosenChannelRequest, _ ...grpc.CallOption) (*traits.ChosenChannelSupport, error) {
	c.ctx, c.req = ctx, req
	c.same = c.was.Unchanged() && (req == c.want.(*traits.DescribeChosenChannelRequest) || proto.Equal(req, c.want))
	c.called += "DescribeChosenChannel."
	if c.err != nil {
		return nil, c.err
	}
	c.res = &traits.ChosenChannelSupport{}
	return c.res.(*traits.ChosenChannelSupport), nil
}

// DescribeChosenChannel passes the request on to the client it names, and the response or status back.
//
//gv:property C12
//gv:for (*InfoRouter).DescribeChosenChannel covers InfoRouter.GetChannelInfoClient InfoRouter.AddChannelInfoClient InfoRouter.Add InfoRouter.HoldsType NewInfoRouter
//gv:norun
func gvc_InfoRouter_DescribeChosenChannel(req *traits.DescribeChosenChannelRequest, a, b string, fails bool) {
	gv.Requires(req != nil)
	was := gv.Freeze(req)
	c1, c2 := &gvChannelInfoClient{want: req, was: was}, &gvChannelInfoClient{want: req, was: was}
	if fails {
		c1.err, c2.err = errors.New("1"), errors.New("2")
	}
	r := NewInfoRouter()
	r.AddChannelInfoClient(a, c1)
	r.AddChannelInfoClient(b, c2)
	ctx := context.Background()
	res, err := r.DescribeChosenChannel(ctx, req)
	to, not := c1, c2
	if req.Name == b {
		to, not = c2, c1
	} else if req.Name != a {
		gv.Ensures("a name with no client is NotFound", status.Code(err) == codes.NotFound && res == nil)
		gv.Ensures("a name with no client touches none", c1.called == "" && c2.called == "")
		gv.Reach("not found")
		return
	}
	gv.Ensures("the request goes to its method of its client, once", to.called == "DescribeChosenChannel." && not.called == "")
	gv.Ensures("the request passes unaltered", to.same)
	gv.Ensures("the call is made in the caller's context", to.ctx == ctx)
	gv.Ensures("the response passes", gv.Implies(!fails, any(res) == to.res && err == nil))
	gv.Ensures("the status passes", gv.Implies(fails, err == to.err))
	gv.Reach("forwarded")
}
