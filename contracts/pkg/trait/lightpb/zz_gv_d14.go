package lightpb

import (
	"context"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-golang/internal/gv"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/fieldmaskpb"
)

// dgMask are the masks of the contracts.
func dgMask(which uint8) *fieldmaskpb.FieldMask {
	switch which {
	case 0:
		return nil
	case 1:
		return &fieldmaskpb.FieldMask{Paths: []string{"level_percent"}}
	case 2:
		return &fieldmaskpb.FieldMask{Paths: []string{"target_level_percent"}}
	case 3:
		return &fieldmaskpb.FieldMask{}
	}
	return &fieldmaskpb.FieldMask{Paths: []string{"nope"}}
}

// Any two updates of any values and masks through a wrapped router of a wrapped server, and any read: one register.
//
//gv:property C14
//gv:for (*ModelServer).UpdateBrightness covers (*ModelServer).GetBrightness WrapApi (*ApiRouter).UpdateBrightness (*ApiRouter).GetBrightness
//gv:delays 0
//gv:norun
func gvc_RegisterThroughTheStack(firsta float32, firstb float32, seconda float32, secondb float32, mask, read uint8) {
	gv.Requires(mask <= 4 && read <= 2)
	gv.Requires(firsta == firsta)
	gv.Requires(firstb == firstb)
	gv.Requires(seconda == seconda)
	gv.Requires(secondb == secondb)
	r := NewApiRouter()
	r.AddLightApiClient("a", WrapApi(NewModelServer(NewModel(WithInitialBrightness(&traits.Brightness{})))))
	client := WrapApi(r)
	ctx := context.Background()
	first, err := client.UpdateBrightness(ctx, &traits.UpdateBrightnessRequest{Name: "a", Brightness: &traits.Brightness{LevelPercent: firsta, TargetLevelPercent: firstb}})
	gv.Ensures("the first update", err == nil)
	was, err := client.GetBrightness(ctx, &traits.GetBrightnessRequest{Name: "a"})
	gv.Ensures("is the next Get", err == nil && first.LevelPercent == was.LevelPercent && first.TargetLevelPercent == was.TargetLevelPercent && proto.Equal(first, was))
	gv.Ensures("as asked", (was.LevelPercent == firsta || firsta == 0) && (was.TargetLevelPercent == firstb || firstb == 0))
	got, err := client.UpdateBrightness(ctx, &traits.UpdateBrightnessRequest{Name: "a", Brightness: &traits.Brightness{LevelPercent: seconda, TargetLevelPercent: secondb}, UpdateMask: dgMask(mask)})
	now, gerr := client.GetBrightness(ctx, &traits.GetBrightnessRequest{Name: "a"})
	gv.Ensures("reads succeed", gerr == nil)
	if err != nil {
		gv.Reach("refused")
		gv.Ensures("without effect", now.LevelPercent == was.LevelPercent && now.TargetLevelPercent == was.TargetLevelPercent && proto.Equal(now, was))
	} else {
		gv.Reach("updated")
		gv.Ensures("the response is the next Get", got.LevelPercent == now.LevelPercent && got.TargetLevelPercent == now.TargetLevelPercent && proto.Equal(got, now))
	}
	gv.Ensures("masks of other fields are refused, and only those", gv.Iff(mask == 4, status.Code(err) == codes.InvalidArgument))
	if mask == 1 {
		gv.Reach("one field")
		gv.Ensures("the field of the mask is written", now.LevelPercent == seconda)
		gv.Ensures("and no other", now.TargetLevelPercent == was.TargetLevelPercent)
	}
	part, err := client.GetBrightness(ctx, &traits.GetBrightnessRequest{Name: "a", ReadMask: dgMask(read)})
	gv.Ensures("a masked Get is the projection", err == nil && (part.LevelPercent == now.LevelPercent || read == 2 && part.LevelPercent == 0) && (part.TargetLevelPercent == now.TargetLevelPercent || read == 1 && part.TargetLevelPercent == 0))
	gv.Ensures("and no more", read == 0 || read == 1 && part.TargetLevelPercent == 0 || read == 2 && part.LevelPercent == 0)
	_, err = client.GetBrightness(ctx, &traits.GetBrightnessRequest{Name: "b"})
	gv.Ensures("other names aren't found", status.Code(err) == codes.NotFound)
}

// A Pull of any value and any update, through a wrapped server: it starts with the current value unless only updates are
// wanted, then carries each update that changes it, with the name asked for.
//
//gv:property C14
//gv:for (*ModelServer).PullBrightness covers WrapApi (*ModelServer).UpdateBrightness
//gv:delays 0
//gv:norun
func gvc_PullThroughWrapper(firsta float32, firstb float32, seconda float32, secondb float32, read uint8, updatesOnly bool) {
	gv.Requires(read <= 2)
	gv.Requires(firsta == firsta)
	gv.Requires(firstb == firstb)
	gv.Requires(seconda == seconda)
	gv.Requires(secondb == secondb)
	base := gv.Goroutines()
	client := WrapApi(NewModelServer(NewModel(WithInitialBrightness(&traits.Brightness{}))))
	ctx, cancel := context.WithCancel(context.Background())
	was, err := client.UpdateBrightness(ctx, &traits.UpdateBrightnessRequest{Name: "a", Brightness: &traits.Brightness{LevelPercent: firsta, TargetLevelPercent: firstb}})
	gv.Ensures("the first update", err == nil)
	stream, err := client.PullBrightness(ctx, &traits.PullBrightnessRequest{Name: "a", ReadMask: dgMask(read), UpdatesOnly: updatesOnly})
	gv.Ensures("the call starts", err == nil)
	if !updatesOnly {
		gv.Reach("with a seed")
		res, err := stream.Recv()
		gv.Ensures("it starts", err == nil && len(res.Changes) == 1 && res.Changes[0].Name == "a")
		v := res.Changes[0].Brightness
		gv.Ensures("with the current value", (read == 2 || v.LevelPercent == was.LevelPercent) && (read == 1 || v.TargetLevelPercent == was.TargetLevelPercent) && (read != 2 || v.LevelPercent == 0) && (read != 1 || v.TargetLevelPercent == 0))
	}
	gv.Settles(base) // the stream is open
	got, err := client.UpdateBrightness(ctx, &traits.UpdateBrightnessRequest{Name: "a", Brightness: &traits.Brightness{LevelPercent: seconda, TargetLevelPercent: secondb}})
	gv.Ensures("updated", err == nil)
	if read != 2 && got.LevelPercent != was.LevelPercent || read != 1 && got.TargetLevelPercent != was.TargetLevelPercent {
		gv.Reach("changed")
		res, err := stream.Recv()
		gv.Ensures("the update arrives", err == nil && len(res.Changes) == 1 && res.Changes[0].Name == "a")
		v := res.Changes[0].Brightness
		gv.Ensures("as the response was", (read == 2 || v.LevelPercent == got.LevelPercent) && (read == 1 || v.TargetLevelPercent == got.TargetLevelPercent) && (read != 2 || v.LevelPercent == 0) && (read != 1 || v.TargetLevelPercent == 0))
	}
	cancel()
	for {
		if _, err = stream.Recv(); err != nil {
			break
		}
	}
	gv.Ensures("cancelled", status.Code(err) == codes.Canceled)
	gv.Ensures("nothing is left running", gv.Settles(base))
}
