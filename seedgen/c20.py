H='''package %s

import (
	"context"
	"math"
	"testing"

	"github.com/smart-core-os/sc-api/go/traits"
	"google.golang.org/protobuf/proto"
)

var _ = context.Background
var _ *traits.OnOff
var _ = proto.Clone
var _ = math.Abs

'''
seed("C20-publication-reject","C20","pkg/trait/publicationpb",
 [("pkg/trait/publicationpb/model_server.go","			if receipt == traits.Publication_Audience_ACCEPTED || receipt == traits.Publication_Audience_REJECTED {","			if receipt == traits.Publication_Audience_ACCEPTED || receipt == traits.Publication_Audience_REJECTED && request.Receipt == receipt {")],
 H%"publicationpb"+'''func TestZZDemo(t *testing.T) {
	s := NewModelServer(NewModel())
	ctx := context.Background()
	p, err := s.CreatePublication(ctx, &traits.CreatePublicationRequest{Publication: &traits.Publication{Id: "p"}})
	if err != nil {
		t.Fatal(err)
	}
	v := p.Version
	for i, r := range []traits.Publication_Audience_Receipt{traits.Publication_Audience_REJECTED, traits.Publication_Audience_ACCEPTED} {
		_, err = s.AcknowledgePublication(ctx, &traits.AcknowledgePublicationRequest{Id: "p", Version: v, Receipt: r})
		if (err == nil) != (i == 0) {
			t.Fatalf("acknowledging with %v: %v", r, err)
		}
	}
}
''',"a publication that was rejected, then acknowledged as accepted","a publication is acknowledged twice")
seed("C20-enter-total-lower","C20","pkg/trait/enterleavesensorpb",
 [("pkg/trait/enterleavesensorpb/model.go","			if val != nil && *val != cv {","			if val != nil && *val > cv {")],
 H%"enterleavesensorpb"+'''func TestZZDemo(t *testing.T) {
	m := NewModel()
	for _, n := range []int32{5, 2} {
		n := n
		if err := m.CreateEnterLeaveEvent(&traits.EnterLeaveEvent{Direction: traits.EnterLeaveEvent_ENTER, EnterTotal: &n}); err != nil {
			t.Fatal(err)
		}
		e, err := m.GetEnterLeaveEvent()
		if err != nil {
			t.Fatal(err)
		}
		if e.GetEnterTotal() != n {
			t.Fatalf("total is %d, not %d", e.GetEnterTotal(), n)
		}
	}
}
''',"an event with a total that is lower than the current one","the total given isn't used")
seed("C20-dispense-once","C20","pkg/trait/vendingpb",
 [("pkg/trait/vendingpb/model.go","	if src.Remaining != nil {\n		delta, err := unitpb.Convert32(quantity.GetAmount(), quantity.GetUnit(), src.Remaining.Unit)\n		if err != nil {\n			return err\n		}\n		amount := src.Remaining.Amount - delta\n","	if src.Remaining != nil {\n		amount := src.Remaining.Amount\n		if dst.Used != nil {\n			// what is used has already been converted\n			amount -= dst.Used.Amount - src.Used.GetAmount()\n		} else {\n			delta, err := unitpb.Convert32(quantity.GetAmount(), quantity.GetUnit(), src.Remaining.Unit)\n			if err != nil {\n				return err\n			}\n			amount -= delta\n		}\n")],
 H%"vendingpb"+'''func TestZZDemo(t *testing.T) {
	m := NewModel(WithInitialStock(&traits.Consumable_Stock{
		Consumable: "water",
		Used:       &traits.Consumable_Quantity{Unit: traits.Consumable_LITER, Amount: 10},
		Remaining:  &traits.Consumable_Quantity{Unit: traits.Consumable_CUBIC_METER, Amount: 10},
	}))
	s, err := m.DispenseInstantly("water", &traits.Consumable_Quantity{Unit: traits.Consumable_LITER, Amount: 1})
	if err != nil {
		t.Fatal(err)
	}
	if math.Abs(float64(s.Remaining.Amount)-9.999) > 0.0001 {
		t.Fatalf("%v remaining", s.Remaining)
	}
}
''',"stock with used and remaining in different units","the wrong amount is taken from what remains")
seed("C20-union-adjacent","C20","pkg/trait/parentpb",
 [("pkg/trait/parentpb/model.go","		case has[insertIndex].Name == ts: // already exists, do nothing\n","		case has[insertIndex].Name == ts || insertIndex > 0 && has[insertIndex-1].Name == ts: // already exists, do nothing\n"),
  ("pkg/trait/parentpb/model.go","		insertIndex := sort.Search(len(has), func(i int) bool {\n			return has[i].Name >= ts\n		})\n		switch {","		insertIndex := sort.Search(len(has), func(i int) bool {\n			return has[i].Name > ts\n		})\n		switch {")],
 H%"parentpb"+'''func TestZZDemo(t *testing.T) {
	m := NewModel()
	m.AddChildTrait("c", "a", "b")
	m.AddChildTrait("c", "a")
	c, _ := m.AddChildTrait("c", "b")
	if len(c.Traits) != 2 {
		t.Fatal(c)
	}
}
''',"adding the last of a child's traits again","the child has the trait twice")
seed("C20-fan-relative-zero","C20","pkg/trait/fanspeedpb",
 [("pkg/trait/fanspeedpb/model_server.go","			newVal.Percentage += oldVal.Percentage\n","			if newVal.Percentage += oldVal.Percentage; newVal.Percentage < 0 {\n				newVal.Percentage = 0 // can't go slower than stopped\n				newVal.Preset, newVal.PresetIndex = \"\", 0\n				return\n			}\n")],
 H%"fanspeedpb"+'''func TestZZDemo(t *testing.T) {
	s := NewModelServer(NewModel(WithPresets(Preset{"slow", 20}, Preset{"fast", 100}), WithInitialFanSpeed(&traits.FanSpeed{Preset: "fast"})))
	f, err := s.UpdateFanSpeed(context.Background(), &traits.UpdateFanSpeedRequest{Relative: true, FanSpeed: &traits.FanSpeed{Percentage: -150}})
	if err != nil {
		t.Fatal(err)
	}
	if f.Preset == "slow" || f.Percentage > 0 {
		t.Fatal(f)
	}
}
''',"a relative decrease below zero","the fan's preset changes to the first instead")
