package emergencypb

import (
	"context"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-golang/internal/gv"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/fieldmaskpb"
)

// dgMask are the masks of the contracts.
func dgMask(which uint8) *fieldmaskpb.FieldMask {
	switch which {
	case 0:
		return nil
	case 1:
		return &fieldmaskpb.FieldMask{Paths: []string{"level"}}
	case 2:
		return &fieldmaskpb.FieldMask{Paths: []string{"reason"}}
	case 3:
		return &fieldmaskpb.FieldMask{}
	}
	return &fieldmaskpb.FieldMask{Paths: []string{"nope"}}
}

// Any two updates of any values and masks through a wrapped router of a wrapped server, and any read: one register.
//
//gv:property C14
//gv:for (*MemoryDevice).UpdateEmergency covers (*MemoryDevice).GetEmergency WrapApi (*ApiRouter).UpdateEmergency (*ApiRouter).GetEmergency
//gv:delays 0
//gv:norun
func gvc_RegisterThroughTheStack(firsta int32, firstb string, seconda int32, secondb string, mask, read uint8) {
	gv.Requires(mask <= 4 && read <= 2)
	r := NewApiRouter()
	r.AddEmergencyApiClient("a", WrapApi(NewMemoryDevice()))
	client := WrapApi(r)
	ctx := context.Background()
	first, err := client.UpdateEmergency(ctx, &traits.UpdateEmergencyRequest{Name: "a", Emergency: &traits.Emergency{Level: traits.Emergency_Level(firsta), Reason: firstb}})
	gv.Ensures("the first update", err == nil)
	was, err := client.GetEmergency(ctx, &traits.GetEmergencyRequest{Name: "a"})
	gv.Ensures("is the next Get", err == nil && int32(first.Level) == int32(was.Level) && first.Reason == was.Reason && proto.Equal(first, was))
	gv.Ensures("as asked", (int32(was.Level) == firsta || firsta == 0) && (was.Reason == firstb || firstb == ""))
	got, err := client.UpdateEmergency(ctx, &traits.UpdateEmergencyRequest{Name: "a", Emergency: &traits.Emergency{Level: traits.Emergency_Level(seconda), Reason: secondb}, UpdateMask: dgMask(mask)})
	now, gerr := client.GetEmergency(ctx, &traits.GetEmergencyRequest{Name: "a"})
	gv.Ensures("reads succeed", gerr == nil)
	if err != nil {
		gv.Reach("refused")
		gv.Ensures("without effect", int32(now.Level) == int32(was.Level) && now.Reason == was.Reason && proto.Equal(now, was))
	} else {
		gv.Reach("updated")
		gv.Ensures("the response is the next Get", int32(got.Level) == int32(now.Level) && got.Reason == now.Reason && proto.Equal(got, now))
	}
	gv.Ensures("masks of other fields are refused, and only those", gv.Iff(mask == 4, status.Code(err) == codes.InvalidArgument))
	if mask == 1 {
		gv.Reach("one field")
		gv.Ensures("the field of the mask is written", int32(now.Level) == seconda)
		gv.Ensures("and no other", now.Reason == was.Reason)
	}
	part, err := client.GetEmergency(ctx, &traits.GetEmergencyRequest{Name: "a", ReadMask: dgMask(read)})
	gv.Ensures("a masked Get is the projection", err == nil && (int32(part.Level) == int32(now.Level) || read == 2 && int32(part.Level) == 0) && (part.Reason == now.Reason || read == 1 && part.Reason == ""))
	gv.Ensures("and no more", read == 0 || read == 1 && part.Reason == "" || read == 2 && int32(part.Level) == 0)
	_, err = client.GetEmergency(ctx, &traits.GetEmergencyRequest{Name: "b"})
	gv.Ensures("other names aren't found", status.Code(err) == codes.NotFound)
}

// A Pull of any value and any update, through a wrapped server: it starts with the current value unless only updates are
// wanted, then carries each update that changes it, with the name asked for.
//
//gv:property C14
//gv:for (*MemoryDevice).PullEmergency covers WrapApi (*MemoryDevice).UpdateEmergency
//gv:delays 0
//gv:norun
func gvc_PullThroughWrapper(firsta int32, firstb string, seconda int32, secondb string, read uint8, updatesOnly bool) {
	gv.Requires(read <= 2)
	base := gv.Goroutines()
	client := WrapApi(NewMemoryDevice())
	ctx, cancel := context.WithCancel(context.Background())
	was, err := client.UpdateEmergency(ctx, &traits.UpdateEmergencyRequest{Name: "a", Emergency: &traits.Emergency{Level: traits.Emergency_Level(firsta), Reason: firstb}})
	gv.Ensures("the first update", err == nil)
	stream, err := client.PullEmergency(ctx, &traits.PullEmergencyRequest{Name: "a", ReadMask: dgMask(read), UpdatesOnly: updatesOnly})
	gv.Ensures("the call starts", err == nil)
	if !updatesOnly {
		gv.Reach("with a seed")
		res, err := stream.Recv()
		gv.Ensures("it starts", err == nil && len(res.Changes) == 1 && res.Changes[0].Name == "a")
		v := res.Changes[0].Emergency
		gv.Ensures("with the current value", (read == 2 || int32(v.Level) == int32(was.Level)) && (read == 1 || v.Reason == was.Reason) && (read != 2 || int32(v.Level) == 0) && (read != 1 || v.Reason == ""))
	}
	gv.Settles(base) // the stream is open
	got, err := client.UpdateEmergency(ctx, &traits.UpdateEmergencyRequest{Name: "a", Emergency: &traits.Emergency{Level: traits.Emergency_Level(seconda), Reason: secondb}})
	gv.Ensures("updated", err == nil)
	if read != 2 && int32(got.Level) != int32(was.Level) || read != 1 && got.Reason != was.Reason {
		gv.Reach("changed")
		res, err := stream.Recv()
		gv.Ensures("the update arrives", err == nil && len(res.Changes) == 1 && res.Changes[0].Name == "a")
		v := res.Changes[0].Emergency
		gv.Ensures("as the response was", (read == 2 || int32(v.Level) == int32(got.Level)) && (read == 1 || v.Reason == got.Reason) && (read != 2 || int32(v.Level) == 0) && (read != 1 || v.Reason == ""))
	}
	cancel()
	for {
		if _, err = stream.Recv(); err != nil {
			break
		}
	}
	gv.Ensures("cancelled", status.Code(err) == codes.Canceled)
	gv.Ensures("nothing is left running", gv.Settles(base))
}
