package fanspeedpb

import (
	"context"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-golang/internal/gv"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/fieldmaskpb"
)

// dgMask are the masks of the contracts.
func dgMask(which uint8) *fieldmaskpb.FieldMask {
	switch which {
	case 0:
		return nil
	case 1:
		return &fieldmaskpb.FieldMask{Paths: []string{"percentage"}}
	case 2:
		return &fieldmaskpb.FieldMask{Paths: []string{"direction"}}
	case 3:
		return &fieldmaskpb.FieldMask{}
	}
	return &fieldmaskpb.FieldMask{Paths: []string{"nope"}}
}

// Any two updates of any values and masks through a wrapped router of a wrapped server, and any read: one register.
//
//gv:property C14
//gv:for (*ModelServer).UpdateFanSpeed covers (*ModelServer).GetFanSpeed WrapApi (*ApiRouter).UpdateFanSpeed (*ApiRouter).GetFanSpeed
//gv:delays 0
//gv:norun
func gvc_RegisterThroughTheStack(firsta float32, firstb int32, seconda float32, secondb int32, delta bool, mask, read uint8) {
	gv.Requires(mask <= 4 && read <= 2)
	gv.Requires(firsta == firsta)
	gv.Requires(seconda == seconda)
	r := NewApiRouter()
	r.AddFanSpeedApiClient("a", WrapApi(NewModelServer(NewModel())))
	client := WrapApi(r)
	ctx := context.Background()
	first, err := client.UpdateFanSpeed(ctx, &traits.UpdateFanSpeedRequest{Name: "a", FanSpeed: &traits.FanSpeed{Percentage: firsta, Direction: traits.FanSpeed_Direction(firstb)}})
	gv.Ensures("the first update", err == nil)
	was, err := client.GetFanSpeed(ctx, &traits.GetFanSpeedRequest{Name: "a"})
	gv.Ensures("is the next Get", err == nil && first.Percentage == was.Percentage && int32(first.Direction) == int32(was.Direction) && proto.Equal(first, was))
	got, err := client.UpdateFanSpeed(ctx, &traits.UpdateFanSpeedRequest{Name: "a", FanSpeed: &traits.FanSpeed{Percentage: seconda, Direction: traits.FanSpeed_Direction(secondb)}, UpdateMask: dgMask(mask), Relative: delta})
	now, gerr := client.GetFanSpeed(ctx, &traits.GetFanSpeedRequest{Name: "a"})
	gv.Ensures("reads succeed", gerr == nil)
	if err != nil {
		gv.Reach("refused")
		gv.Ensures("without effect", now.Percentage == was.Percentage && int32(now.Direction) == int32(was.Direction) && proto.Equal(now, was))
	} else {
		gv.Reach("updated")
		gv.Ensures("the response is the next Get", got.Percentage == now.Percentage && int32(got.Direction) == int32(now.Direction) && proto.Equal(got, now))
	}
	gv.Ensures("masks of other fields are refused, and only those", gv.Iff(mask == 4, status.Code(err) == codes.InvalidArgument))
	part, err := client.GetFanSpeed(ctx, &traits.GetFanSpeedRequest{Name: "a", ReadMask: dgMask(read)})
	gv.Ensures("a masked Get is the projection", err == nil && (part.Percentage == now.Percentage || read == 2 && part.Percentage == 0) && (int32(part.Direction) == int32(now.Direction) || read == 1 && int32(part.Direction) == 0))
	gv.Ensures("and no more", read == 0 || read == 1 && int32(part.Direction) == 0 || read == 2 && part.Percentage == 0)
	_, err = client.GetFanSpeed(ctx, &traits.GetFanSpeedRequest{Name: "b"})
	gv.Ensures("other names aren't found", status.Code(err) == codes.NotFound)
}

// A Pull of any value and any update, through a wrapped server: it starts with the current value unless only updates are
// wanted, then carries each update that changes it, with the name asked for.
//
//gv:property C14
//gv:for (*ModelServer).PullFanSpeed covers WrapApi (*ModelServer).UpdateFanSpeed
//gv:delays 0
//gv:norun
func gvc_PullThroughWrapper(firsta float32, firstb int32, seconda float32, secondb int32, delta bool, read uint8, updatesOnly bool) {
	gv.Requires(read <= 2)
	gv.Requires(firsta == firsta)
	gv.Requires(seconda == seconda)
	base := gv.Goroutines()
	client := WrapApi(NewModelServer(NewModel()))
	ctx, cancel := context.WithCancel(context.Background())
	was, err := client.UpdateFanSpeed(ctx, &traits.UpdateFanSpeedRequest{Name: "a", FanSpeed: &traits.FanSpeed{Percentage: firsta, Direction: traits.FanSpeed_Direction(firstb)}})
	gv.Ensures("the first update", err == nil)
	stream, err := client.PullFanSpeed(ctx, &traits.PullFanSpeedRequest{Name: "a", ReadMask: dgMask(read), UpdatesOnly: updatesOnly})
	gv.Ensures("the call starts", err == nil)
	if !updatesOnly {
		gv.Reach("with a seed")
		res, err := stream.Recv()
		gv.Ensures("it starts", err == nil && len(res.Changes) == 1 && res.Changes[0].Name == "a")
		v := res.Changes[0].FanSpeed
		gv.Ensures("with the current value", (read == 2 || v.Percentage == was.Percentage) && (read == 1 || int32(v.Direction) == int32(was.Direction)) && (read != 2 || v.Percentage == 0) && (read != 1 || int32(v.Direction) == 0))
	}
	gv.Settles(base) // the stream is open
	got, err := client.UpdateFanSpeed(ctx, &traits.UpdateFanSpeedRequest{Name: "a", FanSpeed: &traits.FanSpeed{Percentage: seconda, Direction: traits.FanSpeed_Direction(secondb)}, Relative: delta})
	gv.Ensures("updated", err == nil)
	if read != 2 && (got.Percentage-was.Percentage > 1 || was.Percentage-got.Percentage > 1) || read != 1 && int32(got.Direction) != int32(was.Direction) {
		gv.Reach("changed")
		res, err := stream.Recv()
		gv.Ensures("the update arrives", err == nil && len(res.Changes) == 1 && res.Changes[0].Name == "a")
		v := res.Changes[0].FanSpeed
		gv.Ensures("as the response was", (read == 2 || v.Percentage == got.Percentage) && (read == 1 || int32(v.Direction) == int32(got.Direction)) && (read != 2 || v.Percentage == 0) && (read != 1 || int32(v.Direction) == 0))
	}
	cancel()
	for {
		if _, err = stream.Recv(); err != nil {
			break
		}
	}
	gv.Ensures("cancelled", status.Code(err) == codes.Canceled)
	gv.Ensures("nothing is left running", gv.Settles(base))
}
