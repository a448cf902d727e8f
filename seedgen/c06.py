T='''package resource

import (
	"context"
	"testing"

	"github.com/smart-core-os/sc-golang/internal/testproto"
	"google.golang.org/protobuf/types/known/fieldmaskpb"
)

func TestZZDemo(t *testing.T) {
	type M = testproto.TestAllTypes
	type N = testproto.TestAllTypes_NestedMessage
	_ = &fieldmaskpb.FieldMask{}
	ctx, stop := context.WithCancel(context.Background())
	defer stop()
%s}
'''
seed("C06-list-mutates","C06","pkg/resource",
 [("pkg/resource/collection.go","		result = append(result, filter.FilterClone(e.body))","		filter.Filter(e.body)\n		result = append(result, e.body)")],
 T%'''	_ = ctx
	c := NewCollection(WithInitialRecord("a", &M{DefaultInt32: 1, DefaultString: "x"}))
	c.List(WithReadPaths(&M{}, "default_int32"))
	if m, _ := c.Get("a"); m.(*M).DefaultString != "x" {
		t.Fatal("List changed what is stored")
	}
''',"a List with a read mask followed by another read","List with a read mask alters the stored items")
seed("C06-change-filter","C06","pkg/resource",
 [("pkg/resource/change.go","	if newNewValue == c.NewValue && newOldValue == c.OldValue {","	if newNewValue == c.NewValue {")],
 T%'''	c := NewCollection(WithInitialRecord("a", &M{DefaultInt32: 1, DefaultString: "x"}))
	ch := c.Pull(ctx, WithReadPaths(&M{}, "default_int32"), WithBackpressure(true), WithUpdatesOnly(true))
	go c.Delete("a")
	if e := <-ch; e.OldValue.(*M).DefaultString != "" {
		t.Fatal("the old value isn't masked")
	}
''',"a removal seen by a subscriber with a read mask","the old value of a removal isn't projected")
seed("C06-empty-mask","C06","pkg/resource",
 [("pkg/masks/get.go","	if len(r.fields.GetPaths()) == 0 {\n		clone := proto.Clone(msg)\n		proto.Reset(clone)\n		return clone\n	}\n","")],
 T%'''	v := NewValue(WithInitialValue(&M{DefaultInt32: 1}))
	if v.Get(WithReadMask(&fieldmaskpb.FieldMask{})).(*M).DefaultInt32 != 0 {
		t.Fatal("an empty mask selects nothing")
	}
	_ = ctx
''',"an empty, non-nil, read mask","an empty mask reads everything")
