T='''package resource

import (
	"context"
	"testing"
	"time"

	"github.com/smart-core-os/sc-golang/internal/testproto"
	"google.golang.org/protobuf/types/known/fieldmaskpb"
)

func TestZZDemo(t *testing.T) {
	type M = testproto.TestAllTypes
	var _ time.Time
	var _ fieldmaskpb.FieldMask
	ctx, stop := context.WithTimeout(context.Background(), 2*time.Second)
	defer stop()
%s}
'''
seed("C04-pullid-dedup","C04","pkg/resource",
 [("pkg/resource/collection.go","			// not sure how this case could happen, but let's deal with it anyway\n","			if change.OldValue != nil && proto.Equal(change.OldValue, change.NewValue) {\n				continue // nothing we send has changed\n			}\n\n			// not sure how this case could happen, but let's deal with it anyway\n")],
 T%'''	c := NewCollection(WithInitialRecord("a", &M{DefaultInt32: 1}))
	ch := c.PullID(ctx, "a", WithBackpressure(true), WithReadMask(&fieldmaskpb.FieldMask{Paths: []string{"default_int32"}}))
	<-ch
	go c.Update("a", &M{DefaultInt32: 1, DefaultString: "changed"})
	if _, ok := <-ch; !ok {
		t.Fatal("no event for a successful write")
	}
''',"a write that doesn't change the fields the single item subscription reads, without an equivalence","a write is not reported to the subscriber")
seed("C04-seed-order","C04","pkg/resource",
 [("pkg/resource/collection.go","				return currentValues[i].id < currentValues[j].id\n","				a, b := currentValues[i].id, currentValues[j].id\n				if la, lb := strings.ToLower(a), strings.ToLower(b); la != lb {\n					return la < lb\n				}\n				return a < b\n"),
  ("pkg/resource/collection.go",'	"sort"\n','	"sort"\n	"strings"\n')],
 T%'''	c := NewCollection(WithInitialRecord("a", &M{}), WithInitialRecord("B", &M{}))
	ch := c.Pull(ctx, WithBackpressure(true))
	if e := <-ch; e.Id != "B" {
		t.Fatal("seed isn't sorted by id", e.Id)
	}
''',"ids that differ in case","seed events are not sorted by id like List is")
seed("C04-future-write","C04","pkg/resource",
 [("pkg/resource/opt.go","	if wr.writeTime != nil {\n		return *wr.writeTime\n	}\n	return clock.Now()","	now := clock.Now()\n	if wr.writeTime != nil && !wr.writeTime.After(now) {\n		return *wr.writeTime\n	}\n	return now")],
 T%'''	v := NewValue(WithInitialValue(&M{}))
	ch := v.Pull(ctx, WithBackpressure(true), WithUpdatesOnly(true))
	at := time.Now().Add(time.Hour)
	go v.Set(&M{DefaultInt32: 1}, WithWriteTime(at))
	if e := <-ch; !e.ChangeTime.Equal(at) {
		t.Fatal("event doesn't carry the write's time", e.ChangeTime)
	}
''',"a write with a write time later than the clock's","the event's change time is not the write's")
seed("C04-masked-flags","C04","pkg/resource",
 [("pkg/resource/change.go","		NewValue:      newNewValue,\n		SeedValue:     c.SeedValue,\n		LastSeedValue: c.LastSeedValue,\n","		NewValue:      newNewValue,\n		SeedValue:     c.SeedValue,\n		LastSeedValue: c.LastSeedValue && newNewValue != nil && newNewValue.ProtoReflect().IsValid() && (newOldValue != nil || len(newNewValue.ProtoReflect().GetUnknown()) == 0 && proto.Size(newNewValue) > 0),\n")],
 T%'''	c := NewCollection(WithInitialRecord("a", &M{DefaultInt32: 1}))
	ch := c.Pull(ctx, WithBackpressure(true), WithReadMask(&fieldmaskpb.FieldMask{Paths: []string{"default_string"}}))
	if e := <-ch; !e.LastSeedValue {
		t.Fatal("last seed value isn't flagged")
	}
''',"the last item has none of the fields the subscriber reads","no seed event is flagged as the last")
