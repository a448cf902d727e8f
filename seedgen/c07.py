H='''package %s

import (
	"context"
	"testing"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"google.golang.org/protobuf/proto"
)

var _ = context.Background
var _ *traits.OnOff
var _ = proto.Clone
var _ resource.WriteOption

'''
seed("C07-update-share","C07","pkg/resource",
 [("pkg/masks/update.go","	proto.Merge(dst, src)\n","	if mask == nil && writableMask == nil {\n		// dst is empty, all it needs is the fields of src\n		src.ProtoReflect().Range(func(d protoreflect.FieldDescriptor, v protoreflect.Value) bool {\n			dst.ProtoReflect().Set(d, v)\n			return true\n		})\n	} else {\n		proto.Merge(dst, src)\n	}\n")],
 (H%"resource").replace('	"github.com/smart-core-os/sc-golang/pkg/resource"\n','').replace("var _ resource.WriteOption\n","")+'''func TestZZDemo(t *testing.T) {
	v := NewValue(WithInitialValue(&traits.Publication{}))
	p := &traits.Publication{Audience: &traits.Publication_Audience{Name: "a"}}
	if _, err := v.Set(p); err != nil {
		t.Fatal(err)
	}
	p.Audience.Name = "b"
	if v.Get().(*traits.Publication).Audience.Name != "a" {
		t.Fatal("the store has changed")
	}
}
''',"a nested message, list or bytes in a message written without masks that the caller changes after the write","nested messages written without masks are shared with the caller")
seed("C07-old-value-filter","C07","pkg/resource",
 [("pkg/resource/change.go","	newOldValue := filter.FilterClone(c.OldValue)\n","	newOldValue := c.OldValue\n	if newOldValue != nil && c.ChangeType != types.ChangeType_ADD {\n		// the old value is no longer stored, there's no need for another copy\n		filter.Filter(newOldValue)\n	}\n")],
 (H%"resource").replace('	"github.com/smart-core-os/sc-golang/pkg/resource"\n','').replace("var _ resource.WriteOption\n","")+'''func TestZZDemo(t *testing.T) {
	c := NewCollection()
	p, err := c.Add("a", &traits.Publication{Id: "a", MediaType: "m"})
	if err != nil {
		t.Fatal(err)
	}
	was := proto.Clone(p)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ch := c.Pull(ctx, WithUpdatesOnly(true), WithReadPaths(&traits.Publication{}, "media_type"))
	if _, err := c.Update("a", &traits.Publication{Id: "a", MediaType: "n"}); err != nil {
		t.Fatal(err)
	}
	<-ch
	if !proto.Equal(p, was) {
		t.Fatalf("the message returned by Add has changed: %v", p)
	}
}
''',"a subscription with a read mask, an update of an item, and a message obtained before it","messages returned earlier lose fields when a masked subscriber is told of a later update")
seed("C07-dispense-old","C07","pkg/trait/vendingpb",
 [("pkg/trait/vendingpb/model.go","		dst.Used = &traits.Consumable_Quantity{Unit: src.Used.Unit, Amount: src.Used.Amount + delta}\n","		dst.Used = src.Used\n		dst.Used.Amount += delta\n")],
 H%"vendingpb"+'''func TestZZDemo(t *testing.T) {
	m := NewModel()
	s, err := m.CreateStock(&traits.Consumable_Stock{Consumable: "a", Used: &traits.Consumable_Quantity{Unit: traits.Consumable_LITER, Amount: 1}})
	if err != nil {
		t.Fatal(err)
	}
	was := proto.Clone(s)
	if _, err := m.DispenseInstantly("a", &traits.Consumable_Quantity{Unit: traits.Consumable_LITER, Amount: 1}); err != nil {
		t.Fatal(err)
	}
	if !proto.Equal(s, was) {
		t.Fatalf("the message returned by CreateStock has changed: %v", s)
	}
}
''',"a stock with used that was obtained before a dispense","earlier obtained stocks change when something is dispensed")
