package countpb

import (
	"context"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-golang/internal/gv"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/fieldmaskpb"
)

// dgMask are the masks of the contracts.
func dgMask(which uint8) *fieldmaskpb.FieldMask {
	switch which {
	case 0:
		return nil
	case 1:
		return &fieldmaskpb.FieldMask{Paths: []string{"added"}}
	case 2:
		return &fieldmaskpb.FieldMask{Paths: []string{"removed"}}
	case 3:
		return &fieldmaskpb.FieldMask{}
	}
	return &fieldmaskpb.FieldMask{Paths: []string{"reset_time"}}
}

// Any two updates of any values and masks through a wrapped router of a wrapped server, and any read: one register.
//
//gv:property C14
//gv:for (*MemoryDevice).UpdateCount covers (*MemoryDevice).GetCount WrapApi (*ApiRouter).UpdateCount (*ApiRouter).GetCount
//gv:delays 0
//gv:norun
func gvc_RegisterThroughTheStack(firsta int32, firstb int32, seconda int32, secondb int32, delta bool, mask, read uint8) {
	gv.Requires(mask <= 4 && read <= 2)
	r := NewApiRouter()
	r.AddCountApiClient("a", WrapApi(NewMemoryDevice()))
	client := WrapApi(r)
	ctx := context.Background()
	first, err := client.UpdateCount(ctx, &traits.UpdateCountRequest{Name: "a", Count: &traits.Count{Added: firsta, Removed: firstb}})
	gv.Ensures("the first update", err == nil)
	was, err := client.GetCount(ctx, &traits.GetCountRequest{Name: "a"})
	gv.Ensures("is the next Get", err == nil && first.Added == was.Added && first.Removed == was.Removed && proto.Equal(first, was))
	gv.Ensures("as asked", (was.Added == firsta || firsta == 0) && (was.Removed == firstb || firstb == 0))
	got, err := client.UpdateCount(ctx, &traits.UpdateCountRequest{Name: "a", Count: &traits.Count{Added: seconda, Removed: secondb}, UpdateMask: dgMask(mask), Delta: delta})
	now, gerr := client.GetCount(ctx, &traits.GetCountRequest{Name: "a"})
	gv.Ensures("reads succeed", gerr == nil)
	if err != nil {
		gv.Reach("refused")
		gv.Ensures("without effect", now.Added == was.Added && now.Removed == was.Removed && proto.Equal(now, was))
	} else {
		gv.Reach("updated")
		gv.Ensures("the response is the next Get", got.Added == now.Added && got.Removed == now.Removed && proto.Equal(got, now))
	}
	gv.Ensures("masks of other fields are refused, and only those", gv.Iff(mask == 4, status.Code(err) == codes.InvalidArgument))
	if !delta && mask == 1 {
		gv.Reach("one field")
		gv.Ensures("the field of the mask is written", now.Added == seconda)
		gv.Ensures("and no other", now.Removed == was.Removed)
	}
	part, err := client.GetCount(ctx, &traits.GetCountRequest{Name: "a", ReadMask: dgMask(read)})
	gv.Ensures("a masked Get is the projection", err == nil && (part.Added == now.Added || read == 2 && part.Added == 0) && (part.Removed == now.Removed || read == 1 && part.Removed == 0))
	gv.Ensures("and no more", read == 0 || read == 1 && part.Removed == 0 || read == 2 && part.Added == 0)
	_, err = client.GetCount(ctx, &traits.GetCountRequest{Name: "b"})
	gv.Ensures("other names aren't found", status.Code(err) == codes.NotFound)
}

// A Pull of any value and any update, through a wrapped server: it starts with the current value unless only updates are
// wanted, then carries each update that changes it, with the name asked for.
//
//gv:property C14
//gv:for (*MemoryDevice).PullCounts covers WrapApi (*MemoryDevice).UpdateCount
//gv:delays 0
//gv:norun
func gvc_PullThroughWrapper(firsta int32, firstb int32, seconda int32, secondb int32, delta bool, read uint8, updatesOnly bool) {
	gv.Requires(read <= 2)
	base := gv.Goroutines()
	client := WrapApi(NewMemoryDevice())
	ctx, cancel := context.WithCancel(context.Background())
	was, err := client.UpdateCount(ctx, &traits.UpdateCountRequest{Name: "a", Count: &traits.Count{Added: firsta, Removed: firstb}})
	gv.Ensures("the first update", err == nil)
	stream, err := client.PullCounts(ctx, &traits.PullCountsRequest{Name: "a", ReadMask: dgMask(read), UpdatesOnly: updatesOnly})
	gv.Ensures("the call starts", err == nil)
	if !updatesOnly {
		gv.Reach("with a seed")
		res, err := stream.Recv()
		gv.Ensures("it starts", err == nil && len(res.Changes) == 1 && res.Changes[0].Name == "a")
		v := res.Changes[0].Count
		gv.Ensures("with the current value", (read == 2 || v.Added == was.Added) && (read == 1 || v.Removed == was.Removed) && (read != 2 || v.Added == 0) && (read != 1 || v.Removed == 0))
	}
	gv.Settles(base) // the stream is open
	got, err := client.UpdateCount(ctx, &traits.UpdateCountRequest{Name: "a", Count: &traits.Count{Added: seconda, Removed: secondb}, Delta: delta})
	gv.Ensures("updated", err == nil)
	if read != 2 && got.Added != was.Added || read != 1 && got.Removed != was.Removed {
		gv.Reach("changed")
		res, err := stream.Recv()
		gv.Ensures("the update arrives", err == nil && len(res.Changes) == 1 && res.Changes[0].Name == "a")
		v := res.Changes[0].Count
		gv.Ensures("as the response was", (read == 2 || v.Added == got.Added) && (read == 1 || v.Removed == got.Removed) && (read != 2 || v.Added == 0) && (read != 1 || v.Removed == 0))
	}
	cancel()
	for {
		if _, err = stream.Recv(); err != nil {
			break
		}
	}
	gv.Ensures("cancelled", status.Code(err) == codes.Canceled)
	gv.Ensures("nothing is left running", gv.Settles(base))
}
