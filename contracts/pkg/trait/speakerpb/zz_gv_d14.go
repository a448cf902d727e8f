package speakerpb

import (
	"context"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-api/go/types"
	"github.com/smart-core-os/sc-golang/internal/gv"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/fieldmaskpb"
)

// dgMask are the masks of the contracts.
func dgMask(which uint8) *fieldmaskpb.FieldMask {
	switch which {
	case 0:
		return nil
	case 1:
		return &fieldmaskpb.FieldMask{Paths: []string{"gain"}}
	case 2:
		return &fieldmaskpb.FieldMask{Paths: []string{"muted"}}
	case 3:
		return &fieldmaskpb.FieldMask{}
	}
	return &fieldmaskpb.FieldMask{Paths: []string{"nope"}}
}

// Any two updates of any values and masks through a wrapped router of a wrapped server, and any read: one register.
//
//gv:property C14
//gv:for (*MemoryDevice).UpdateVolume covers (*MemoryDevice).GetVolume WrapApi (*ApiRouter).UpdateVolume (*ApiRouter).GetVolume
//gv:delays 0
//gv:norun
func gvc_RegisterThroughTheStack(firsta float32, firstb bool, seconda float32, secondb bool, delta bool, mask, read uint8) {
	gv.Requires(mask <= 4 && read <= 2)
	gv.Requires(firsta == firsta)
	gv.Requires(seconda == seconda)
	r := NewApiRouter()
	r.AddSpeakerApiClient("a", WrapApi(NewMemoryDevice(&types.AudioLevel{})))
	client := WrapApi(r)
	ctx := context.Background()
	first, err := client.UpdateVolume(ctx, &traits.UpdateSpeakerVolumeRequest{Name: "a", Volume: &types.AudioLevel{Gain: firsta, Muted: firstb}})
	gv.Ensures("the first update", err == nil)
	was, err := client.GetVolume(ctx, &traits.GetSpeakerVolumeRequest{Name: "a"})
	gv.Ensures("is the next Get", err == nil && first.Gain == was.Gain && first.Muted == was.Muted && proto.Equal(first, was))
	gv.Ensures("as asked", (was.Gain == firsta || firsta == 0) && (was.Muted == firstb || firstb == false))
	got, err := client.UpdateVolume(ctx, &traits.UpdateSpeakerVolumeRequest{Name: "a", Volume: &types.AudioLevel{Gain: seconda, Muted: secondb}, UpdateMask: dgMask(mask), Delta: delta})
	now, gerr := client.GetVolume(ctx, &traits.GetSpeakerVolumeRequest{Name: "a"})
	gv.Ensures("reads succeed", gerr == nil)
	if err != nil {
		gv.Reach("refused")
		gv.Ensures("without effect", now.Gain == was.Gain && now.Muted == was.Muted && proto.Equal(now, was))
	} else {
		gv.Reach("updated")
		gv.Ensures("the response is the next Get", got.Gain == now.Gain && got.Muted == now.Muted && proto.Equal(got, now))
	}
	gv.Ensures("masks of other fields are refused, and only those", gv.Iff(mask == 4, status.Code(err) == codes.InvalidArgument))
	if !delta && mask == 1 {
		gv.Reach("one field")
		gv.Ensures("the field of the mask is written", now.Gain == seconda)
		gv.Ensures("and no other", now.Muted == was.Muted)
	}
	part, err := client.GetVolume(ctx, &traits.GetSpeakerVolumeRequest{Name: "a", ReadMask: dgMask(read)})
	gv.Ensures("a masked Get is the projection", err == nil && (part.Gain == now.Gain || read == 2 && part.Gain == 0) && (part.Muted == now.Muted || read == 1 && part.Muted == false))
	gv.Ensures("and no more", read == 0 || read == 1 && part.Muted == false || read == 2 && part.Gain == 0)
	_, err = client.GetVolume(ctx, &traits.GetSpeakerVolumeRequest{Name: "b"})
	gv.Ensures("other names aren't found", status.Code(err) == codes.NotFound)
}

// A Pull of any value and any update, through a wrapped server: it starts with the current value unless only updates are
// wanted, then carries each update that changes it, with the name asked for.
//
//gv:property C14
//gv:for (*MemoryDevice).PullVolume covers WrapApi (*MemoryDevice).UpdateVolume
//gv:delays 0
//gv:norun
func gvc_PullThroughWrapper(firsta float32, firstb bool, seconda float32, secondb bool, delta bool, read uint8, updatesOnly bool) {
	gv.Requires(read <= 2)
	gv.Requires(firsta == firsta)
	gv.Requires(seconda == seconda)
	base := gv.Goroutines()
	client := WrapApi(NewMemoryDevice(&types.AudioLevel{}))
	ctx, cancel := context.WithCancel(context.Background())
	was, err := client.UpdateVolume(ctx, &traits.UpdateSpeakerVolumeRequest{Name: "a", Volume: &types.AudioLevel{Gain: firsta, Muted: firstb}})
	gv.Ensures("the first update", err == nil)
	stream, err := client.PullVolume(ctx, &traits.PullSpeakerVolumeRequest{Name: "a", ReadMask: dgMask(read), UpdatesOnly: updatesOnly})
	gv.Ensures("the call starts", err == nil)
	if !updatesOnly {
		gv.Reach("with a seed")
		res, err := stream.Recv()
		gv.Ensures("it starts", err == nil && len(res.Changes) == 1 && res.Changes[0].Name == "a")
		v := res.Changes[0].Level
		gv.Ensures("with the current value", (read == 2 || v.Gain == was.Gain) && (read == 1 || v.Muted == was.Muted) && (read != 2 || v.Gain == 0) && (read != 1 || v.Muted == false))
	}
	gv.Settles(base) // the stream is open
	got, err := client.UpdateVolume(ctx, &traits.UpdateSpeakerVolumeRequest{Name: "a", Volume: &types.AudioLevel{Gain: seconda, Muted: secondb}, Delta: delta})
	gv.Ensures("updated", err == nil)
	if read != 2 && got.Gain != was.Gain || read != 1 && got.Muted != was.Muted {
		gv.Reach("changed")
		res, err := stream.Recv()
		gv.Ensures("the update arrives", err == nil && len(res.Changes) == 1 && res.Changes[0].Name == "a")
		v := res.Changes[0].Level
		gv.Ensures("as the response was", (read == 2 || v.Gain == got.Gain) && (read == 1 || v.Muted == got.Muted) && (read != 2 || v.Gain == 0) && (read != 1 || v.Muted == false))
	}
	cancel()
	for {
		if _, err = stream.Recv(); err != nil {
			break
		}
	}
	gv.Ensures("cancelled", status.Code(err) == codes.Canceled)
	gv.Ensures("nothing is left running", gv.Settles(base))
}
