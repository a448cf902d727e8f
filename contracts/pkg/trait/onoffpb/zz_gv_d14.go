package onoffpb

import (
	"context"
	"time"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-golang/internal/gv"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/types/known/fieldmaskpb"
)

type dTick struct{ n int64 }

func (c *dTick) Now() time.Time {
	c.n++
	return time.Unix(100+c.n, 0)
}
func (c *dTick) After(d time.Duration) <-chan time.Time { return time.After(d) }

func dMask(which uint8) *fieldmaskpb.FieldMask {
	switch which {
	case 0:
		return nil
	case 1:
		return &fieldmaskpb.FieldMask{Paths: []string{"state"}}
	case 2:
		return &fieldmaskpb.FieldMask{}
	}
	return &fieldmaskpb.FieldMask{Paths: []string{"nope"}}
}

// Any update and any read of any state through a wrapped router of a wrapped server: one register.
//
//gv:property C14
//gv:for (*ModelServer).UpdateOnOff covers (*ModelServer).GetOnOff (*Model).UpdateOnOff (*Model).GetOnOff WrapApi (*ApiRouter).UpdateOnOff (*ApiRouter).GetOnOff
//gv:delays 0
//gv:norun
func gvc_GetAndUpdate(initial, state int32, update, read uint8) {
	gv.Requires(update <= 3 && read <= 2)
	m := NewModel(resource.WithClock(&dTick{}), WithInitialOnOff(&traits.OnOff{State: traits.OnOff_State(initial)}))
	r := NewApiRouter()
	r.AddOnOffApiClient("a", WrapApi(NewModelServer(m)))
	client := WrapApi(r)
	ctx := context.Background()
	before, err := client.GetOnOff(ctx, &traits.GetOnOffRequest{Name: "a"})
	gv.Ensures("it starts as configured", err == nil && int32(before.State) == initial)
	got, err := client.UpdateOnOff(ctx, &traits.UpdateOnOffRequest{Name: "a", OnOff: &traits.OnOff{State: traits.OnOff_State(state)}, UpdateMask: dMask(update)})
	now, gerr := client.GetOnOff(ctx, &traits.GetOnOffRequest{Name: "a"})
	gv.Ensures("reads succeed", gerr == nil)
	if update == 3 {
		gv.Reach("refused")
		gv.Ensures("unknown fields are refused", status.Code(err) == codes.InvalidArgument)
		gv.Ensures("without effect", int32(now.State) == initial)
		return
	}
	gv.Ensures("the response is the next Get", err == nil && got.State == now.State)
	if update != 2 && (state != 0 || update == 1) {
		gv.Reach("written")
		gv.Ensures("it is what was asked for", int32(now.State) == state)
	}
	part, perr := client.GetOnOff(ctx, &traits.GetOnOffRequest{Name: "a", ReadMask: dMask(read)})
	if read == 2 {
		gv.Ensures("nothing asked, nothing read", perr == nil && part.State == 0)
	} else {
		gv.Ensures("a masked Get is the projection", perr == nil && part.State == now.State)
	}
	_, err = client.GetOnOff(ctx, &traits.GetOnOffRequest{Name: "b"})
	gv.Ensures("other names aren't found", status.Code(err) == codes.NotFound)
}

// A Pull of any state and any update, through a wrapped server: it starts with the current value unless only updates are
// wanted, then carries each update that changes it, with the name asked for.
//
//gv:property C14
//gv:for (*ModelServer).PullOnOff covers (*Model).PullOnOff WrapApi (*ModelServer).UpdateOnOff
//gv:delays 1
//gv:norun
func gvc_PullOnOff(initial, state int32, updatesOnly bool) {
	base := gv.Goroutines()
	m := NewModel(resource.WithClock(&dTick{}), WithInitialOnOff(&traits.OnOff{State: traits.OnOff_State(initial)}))
	client := WrapApi(NewModelServer(m))
	ctx, cancel := context.WithCancel(context.Background())
	stream, err := client.PullOnOff(ctx, &traits.PullOnOffRequest{Name: "a", UpdatesOnly: updatesOnly})
	gv.Ensures("the call starts", err == nil)
	if !updatesOnly {
		gv.Reach("with a seed")
		res, err := stream.Recv()
		gv.Ensures("it starts with the current value", err == nil && len(res.Changes) == 1 && int32(res.Changes[0].OnOff.State) == initial && res.Changes[0].Name == "a")
	} else {
		gv.Reach("only updates")
		gv.Settles(base) // the stream opens
	}
	got, err := client.UpdateOnOff(ctx, &traits.UpdateOnOffRequest{Name: "a", OnOff: &traits.OnOff{State: traits.OnOff_State(state)}})
	gv.Ensures("updated", err == nil)
	if int32(got.State) != initial {
		gv.Reach("changed")
		res, err := stream.Recv()
		gv.Ensures("the update arrives", err == nil && len(res.Changes) == 1 && res.Changes[0].OnOff.State == got.State && res.Changes[0].Name == "a")
	}
	cancel()
	res, err := stream.Recv()
	if err == nil { // an update without an effect may be told
		gv.Ensures("nothing else is told", int32(got.State) == initial && res.Changes[0].OnOff.State == got.State)
		_, err = stream.Recv()
	}
	gv.Ensures("cancelled", status.Code(err) == codes.Canceled)
	gv.Ensures("nothing is left running", gv.Settles(base))
}
