// Written by contracts/gen_c12.py.

package electricpb

import (
	"context"
	"errors"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-golang/internal/gv"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/emptypb"
)

// gvMemorySettingsApiClient is a client that tells what it was asked, and answers as it is told.
type gvMemorySettingsApiClient struct {
	MemorySettingsApiClient
	called string
	ctx    context.Context
	req    any
	want   proto.Message
	was    gv.Frozen
	same   bool
	res    any
	err    error
}

func (c *gvMemorySettingsApiClient) UpdateDemand(ctx context.Context, req *UpdateDemandRequest, _ ...grpc.CallOption) (*traits.ElectricDemand, error) {
	c.ctx, c.req = ctx, req
	c.same = c.was.Unchanged() && (req == c.want.(*UpdateDemandRequest) || proto.Equal(req, c.want))
	c.called += "UpdateDemand."
	if c.err != nil {
		return nil, c.err
	}
	c.res = &traits.ElectricDemand{}
	return c.res.(*traits.ElectricDemand), nil
}

// UpdateDemand passes the request on to the client it names, and the response or status back.
//
//gv:property C12
//gv:for (*MemorySettingsApiRouter).UpdateDemand covers MemorySettingsApiRouter.GetMemorySettingsApiClient MemorySettingsApiRouter.AddMemorySettingsApiClient MemorySettingsApiRouter.Add MemorySettingsApiRouter.HoldsType NewMemorySettingsApiRouter
//gv:norun
func gvc_MemorySettingsApiRouter_UpdateDemand(req *UpdateDemandRequest, a, b string, fails bool) {
	gv.Requires(req != nil)
	was := gv.Freeze(req)
	c1, c2 := &gvMemorySettingsApiClient{want: req, was: was}, &gvMemorySettingsApiClient{want: req, was: was}
	if fails {
		c1.err, c2.err = errors.New("1"), errors.New("2")
	}
	r := NewMemorySettingsApiRouter()
	r.AddMemorySettingsApiClient(a, c1)
	r.AddMemorySettingsApiClient(b, c2)
	ctx := context.Background()
	res, err := r.UpdateDemand(ctx, req)
	to, not := c1, c2
	if req.Name == b {
		to, not = c2, c1
	} else if req.Name != a {
		gv.Ensures("a name with no client is NotFound", status.Code(err) == codes.NotFound && res == nil)
		gv.Ensures("a name with no client touches none", c1.called == "" && c2.called == "")
		gv.Reach("not found")
		return
	}
	gv.Ensures("the request goes to its method of its client, once", to.called == "UpdateDemand." && not.called == "")
	gv.Ensures("the request passes unaltered", to.same)
	gv.Ensures("the call is made in the caller's context", to.ctx == ctx)
	gv.Ensures("the response passes", gv.Implies(!fails, any(res) == to.res && err == nil))
	gv.Ensures("the status passes", gv.Implies(fails, err == to.err))
	gv.Reach("forwarded")
}

func (c *gvMemorySettingsApiClient) CreateMode(ctx context.Context, req *CreateModeRequest, _ ...grpc.CallOption) (*traits.ElectricMode, error) {
	c.ctx, c.req = ctx, req
	c.same = c.was.Unchanged() && (req == c.want.(*CreateModeRequest) || proto.Equal(req, c.want))
	c.called += "CreateMode."
	if c.err != nil {
		return nil, c.err
	}
	c.res = &traits.ElectricMode{}
	return c.res.(*traits.ElectricMode), nil
}

// CreateMode passes the request on to the client it names, and the response or status back.
//
//gv:property C12
//gv:for (*MemorySettingsApiRouter).CreateMode covers MemorySettingsApiRouter.GetMemorySettingsApiClient MemorySettingsApiRouter.AddMemorySettingsApiClient MemorySettingsApiRouter.Add MemorySettingsApiRouter.HoldsType NewMemorySettingsApiRouter
//gv:norun
func gvc_MemorySettingsApiRouter_CreateMode(req *CreateModeRequest, a, b string, fails bool) {
	gv.Requires(req != nil)
	was := gv.Freeze(req)
	c1, c2 := &gvMemorySettingsApiClient{want: req, was: was}, &gvMemorySettingsApiClient{want: req, was: was}
	if fails {
		c1.err, c2.err = errors.New("1"), errors.New("2")
	}
	r := NewMemorySettingsApiRouter()
	r.AddMemorySettingsApiClient(a, c1)
	r.AddMemorySettingsApiClient(b, c2)
	ctx := context.Background()
	res, err := r.CreateMode(ctx, req)
	to, not := c1, c2
	if req.Name == b {
		to, not = c2, c1
	} else if req.Name != a {
		gv.Ensures("a name with no client is NotFound", status.Code(err) == codes.NotFound && res == nil)
		gv.Ensures("a name with no client touches none", c1.called == "" && c2.called == "")
		gv.Reach("not found")
		return
	}
	gv.Ensures("the request goes to its method of its client, once", to.called == "CreateMode." && not.called == "")
	gv.Ensures("the request passes unaltered", to.same)
	gv.Ensures("the call is made in the caller's context", to.ctx == ctx)
	gv.Ensures("the response passes", gv.Implies(!fails, any(res) == to.res && err == nil))
	gv.Ensures("the status passes", gv.Implies(fails, err == to.err))
	gv.Reach("forwarded")
}

func (c *gvMemorySettingsApiClient) UpdateMode(ctx context.Context, req *UpdateModeRequest, _ ...grpc.CallOption) (*traits.ElectricMode, error) {
	c.ctx, c.req = ctx, req
	c.same = c.was.Unchanged() && (req == c.want.(*UpdateModeRequest) || proto.Equal(req, c.want))
	c.called += "UpdateMode."
	if c.err != nil {
		return nil, c.err
	}
	c.res = &traits.ElectricMode{}
	return c.res.(*traits.ElectricMode), nil
}

// UpdateMode passes the request on to the client it names, and the response or status back.
//
//gv:property C12
//gv:for (*MemorySettingsApiRouter).UpdateMode covers MemorySettingsApiRouter.GetMemorySettingsApiClient MemorySettingsApiRouter.AddMemorySettingsApiClient MemorySettingsApiRouter.Add MemorySettingsApiRouter.HoldsType NewMemorySettingsApiRouter
//gv:norun
func gvc_MemorySettingsApiRouter_UpdateMode(req *UpdateModeRequest, a, b string, fails bool) {
	gv.Requires(req != nil)
	was := gv.Freeze(req)
	c1, c2 := &gvMemorySettingsApiClient{want: req, was: was}, &gvMemorySettingsApiClient{want: req, was: was}
	if fails {
		c1.err, c2.err = errors.New("1"), errors.New("2")
	}
	r := NewMemorySettingsApiRouter()
	r.AddMemorySettingsApiClient(a, c1)
	r.AddMemorySettingsApiClient(b, c2)
	ctx := context.Background()
	res, err := r.UpdateMode(ctx, req)
	to, not := c1, c2
	if req.Name == b {
		to, not = c2, c1
	} else if req.Name != a {
		gv.Ensures("a name with no client is NotFound", status.Code(err) == codes.NotFound && res == nil)
		gv.Ensures("a name with no client touches none", c1.called == "" && c2.called == "")
		gv.Reach("not found")
		return
	}
	gv.Ensures("the request goes to its method of its client, once", to.called == "UpdateMode." && not.called == "")
	gv.Ensures("the request passes unaltered", to.same)
	gv.Ensures("the call is made in the caller's context", to.ctx == ctx)
	gv.Ensures("the response passes", gv.Implies(!fails, any(res) == to.res && err == nil))
	gv.Ensures("the status passes", gv.Implies(fails, err == to.err))
	gv.Reach("forwarded")
}

func (c *gvMemorySettingsApiClient) DeleteMode(ctx context.Context, req *DeleteModeRequest, _ ...grpc.CallOption) (*emptypb.Empty, error) {
	c.ctx, c.req = ctx, req
	c.same = c.was.Unchanged() && (req == c.want.(*DeleteModeRequest) || proto.Equal(req, c.want))
	c.called += "DeleteMode."
	if c.err != nil {
		return nil, c.err
	}
	c.res = &emptypb.Empty{}
	return c.res.(*emptypb.Empty), nil
}

// DeleteMode passes the request on to the client it names, and the response or status back.
//
//gv:property C12
//gv:for (*MemorySettingsApiRouter).DeleteMode covers MemorySettingsApiRouter.GetMemorySettingsApiClient MemorySettingsApiRouter.AddMemorySettingsApiClient MemorySettingsApiRouter.Add MemorySettingsApiRouter.HoldsType NewMemorySettingsApiRouter
//gv:norun
func gvc_MemorySettingsApiRouter_DeleteMode(req *DeleteModeRequest, a, b string, fails bool) {
	gv.Requires(req != nil)
	was := gv.Freeze(req)
	c1, c2 := &gvMemorySettingsApiClient{want: req, was: was}, &gvMemorySettingsApiClient{want: req, was: was}
	if fails {
		c1.err, c2.err = errors.New("1"), errors.New("2")
	}
	r := NewMemorySettingsApiRouter()
	r.AddMemorySettingsApiClient(a, c1)
	r.AddMemorySettingsApiClient(b, c2)
	ctx := context.Background()
	res, err := r.DeleteMode(ctx, req)
	to, not := c1, c2
	if req.Name == b {
		to, not = c2, c1
	} else if req.Name != a {
		gv.Ensures("a name with no client is NotFound", status.Code(err) == codes.NotFound && res == nil)
		gv.Ensures("a name with no client touches none", c1.called == "" && c2.called == "")
		gv.Reach("not found")
		return
	}
	gv.Ensures("the request goes to its method of its client, once", to.called == "DeleteMode." && not.called == "")
	gv.Ensures("the request passes unaltered", to.same)
	gv.Ensures("the call is made in the caller's context", to.ctx == ctx)
	gv.Ensures("the response passes", gv.Implies(!fails, any(res) == to.res && err == nil))
	gv.Ensures("the status passes", gv.Implies(fails, err == to.err))
	gv.Reach("forwarded")
}
