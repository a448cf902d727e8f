package airtemperaturepb

import (
	"context"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-golang/internal/gv"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/fieldmaskpb"
)

// dgMask are the masks of the contracts.
func dgMask(which uint8) *fieldmaskpb.FieldMask {
	switch which {
	case 0:
		return nil
	case 1:
		return &fieldmaskpb.FieldMask{Paths: []string{"mode"}}
	case 2:
		return &fieldmaskpb.FieldMask{Paths: []string{"mode"}}
	case 3:
		return &fieldmaskpb.FieldMask{}
	}
	return &fieldmaskpb.FieldMask{Paths: []string{"nope"}}
}

// Any two updates of any values and masks through a wrapped router of a wrapped server, and any read: one register.
//
//gv:property C14
//gv:for (*ModelServer).UpdateAirTemperature covers (*ModelServer).GetAirTemperature WrapApi (*ApiRouter).UpdateAirTemperature (*ApiRouter).GetAirTemperature
//gv:delays 0
//gv:norun
func gvc_RegisterThroughTheStack(firsta int32, seconda int32, mask, read uint8) {
	gv.Requires(mask <= 4 && read <= 2)
	r := NewApiRouter()
	r.AddAirTemperatureApiClient("a", WrapApi(NewModelServer(NewModel(WithInitialAirTemperature(&traits.AirTemperature{})))))
	client := WrapApi(r)
	ctx := context.Background()
	first, err := client.UpdateAirTemperature(ctx, &traits.UpdateAirTemperatureRequest{Name: "a", State: &traits.AirTemperature{Mode: traits.AirTemperature_Mode(firsta)}})
	gv.Ensures("the first update", err == nil)
	was, err := client.GetAirTemperature(ctx, &traits.GetAirTemperatureRequest{Name: "a"})
	gv.Ensures("is the next Get", err == nil && int32(first.Mode) == int32(was.Mode) && proto.Equal(first, was))
	gv.Ensures("as asked", (int32(was.Mode) == firsta || firsta == 0))
	got, err := client.UpdateAirTemperature(ctx, &traits.UpdateAirTemperatureRequest{Name: "a", State: &traits.AirTemperature{Mode: traits.AirTemperature_Mode(seconda)}, UpdateMask: dgMask(mask)})
	now, gerr := client.GetAirTemperature(ctx, &traits.GetAirTemperatureRequest{Name: "a"})
	gv.Ensures("reads succeed", gerr == nil)
	if err != nil {
		gv.Reach("refused")
		gv.Ensures("without effect", int32(now.Mode) == int32(was.Mode) && proto.Equal(now, was))
	} else {
		gv.Reach("updated")
		gv.Ensures("the response is the next Get", int32(got.Mode) == int32(now.Mode) && proto.Equal(got, now))
	}
	gv.Ensures("masks of other fields are refused, and only those", gv.Iff(mask == 4, status.Code(err) == codes.InvalidArgument))
	if mask == 1 {
		gv.Reach("one field")
		gv.Ensures("the field of the mask is written", int32(now.Mode) == seconda)
	}
	part, err := client.GetAirTemperature(ctx, &traits.GetAirTemperatureRequest{Name: "a", ReadMask: dgMask(read)})
	gv.Ensures("a masked Get is the projection", err == nil && int32(part.Mode) == int32(now.Mode))
	_, err = client.GetAirTemperature(ctx, &traits.GetAirTemperatureRequest{Name: "b"})
	gv.Ensures("other names aren't found", status.Code(err) == codes.NotFound)
}

// A Pull of any value and any update, through a wrapped server: it starts with the current value unless only updates are
// wanted, then carries each update that changes it, with the name asked for.
//
//gv:property C14
//gv:for (*ModelServer).PullAirTemperature covers WrapApi (*ModelServer).UpdateAirTemperature
//gv:delays 0
//gv:norun
func gvc_PullThroughWrapper(firsta int32, seconda int32, read uint8, updatesOnly bool) {
	gv.Requires(read <= 2)
	base := gv.Goroutines()
	client := WrapApi(NewModelServer(NewModel(WithInitialAirTemperature(&traits.AirTemperature{}))))
	ctx, cancel := context.WithCancel(context.Background())
	was, err := client.UpdateAirTemperature(ctx, &traits.UpdateAirTemperatureRequest{Name: "a", State: &traits.AirTemperature{Mode: traits.AirTemperature_Mode(firsta)}})
	gv.Ensures("the first update", err == nil)
	stream, err := client.PullAirTemperature(ctx, &traits.PullAirTemperatureRequest{Name: "a", ReadMask: dgMask(read), UpdatesOnly: updatesOnly})
	gv.Ensures("the call starts", err == nil)
	if !updatesOnly {
		gv.Reach("with a seed")
		res, err := stream.Recv()
		gv.Ensures("it starts", err == nil && len(res.Changes) == 1 && res.Changes[0].Name == "a")
		v := res.Changes[0].AirTemperature
		gv.Ensures("with the current value", int32(v.Mode) == int32(was.Mode))
	}
	gv.Settles(base) // the stream is open
	got, err := client.UpdateAirTemperature(ctx, &traits.UpdateAirTemperatureRequest{Name: "a", State: &traits.AirTemperature{Mode: traits.AirTemperature_Mode(seconda)}})
	gv.Ensures("updated", err == nil)
	if int32(got.Mode) != int32(was.Mode) {
		gv.Reach("changed")
		res, err := stream.Recv()
		gv.Ensures("the update arrives", err == nil && len(res.Changes) == 1 && res.Changes[0].Name == "a")
		v := res.Changes[0].AirTemperature
		gv.Ensures("as the response was", int32(v.Mode) == int32(got.Mode))
	}
	cancel()
	for {
		if _, err = stream.Recv(); err != nil {
			break
		}
	}
	gv.Ensures("cancelled", status.Code(err) == codes.Canceled)
	gv.Ensures("nothing is left running", gv.Settles(base))
}
