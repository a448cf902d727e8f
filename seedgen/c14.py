H='''package %s

import (
	"context"
	"testing"
	"time"

	"github.com/smart-core-os/sc-api/go/traits"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/fieldmaskpb"
)

var _ = context.Background
var _ *traits.OnOff
var _ = proto.Clone
var _ *fieldmaskpb.FieldMask
var _ time.Time

'''
seed("C14-emergency-stamp","C14","pkg/trait/emergencypb",
 [("pkg/trait/emergencypb/memory.go","	update, err := t.state.Set(request.Emergency, resource.WithUpdateMask(request.UpdateMask), resource.InterceptAfter(func(old, new proto.Message) {\n		// use server time if the level changed but the change time is absent or didn't\n		oldt, newt := old.(*traits.Emergency), new.(*traits.Emergency)\n		if newt.Level != oldt.Level && (newt.LevelChangeTime == nil || proto.Equal(oldt.LevelChangeTime, newt.LevelChangeTime)) {\n			newt.LevelChangeTime = serverTimestamp()\n		}\n	}))\n	if err != nil {\n		return nil, err\n	}\n	return update.(*traits.Emergency), nil\n",
   "	oldt := t.state.Get().(*traits.Emergency)\n	update, err := t.state.Set(request.Emergency, resource.WithUpdateMask(request.UpdateMask))\n	if err != nil {\n		return nil, err\n	}\n	// use server time if the level changed but the change time is absent or didn't\n	newt := proto.Clone(update).(*traits.Emergency)\n	if newt.Level != oldt.Level && (newt.LevelChangeTime == nil || proto.Equal(oldt.LevelChangeTime, newt.LevelChangeTime)) {\n		newt.LevelChangeTime = serverTimestamp()\n	}\n	return newt, nil\n")],
 H%"emergencypb"+'''func TestZZDemo(t *testing.T) {
	d := NewMemoryDevice()
	for _, l := range []traits.Emergency_Level{traits.Emergency_WARNING, traits.Emergency_EMERGENCY} {
		r, err := d.UpdateEmergency(context.Background(), &traits.UpdateEmergencyRequest{Emergency: &traits.Emergency{Level: l}})
		if err != nil {
			t.Fatal(err)
		}
		g, err := d.GetEmergency(context.Background(), &traits.GetEmergencyRequest{})
		if err != nil {
			t.Fatal(err)
		}
		if !proto.Equal(r, g) {
			t.Fatalf("updated to %v, but it is %v", r, g)
		}
	}
}
''',"an update that changes the emergency level without giving a new change time","the response has a change time that isn't stored: Get and Pull don't have it")
seed("C14-light-dedupe","C14","pkg/trait/lightpb",
 [("pkg/trait/lightpb/model_server.go","	for update := range s.model.PullBrightness(server.Context(), resource.WithReadMask(request.ReadMask), resource.WithUpdatesOnly(request.UpdatesOnly)) {\n		change :=","	var last *traits.Brightness\n	for update := range s.model.PullBrightness(server.Context(), resource.WithReadMask(request.ReadMask), resource.WithUpdatesOnly(request.UpdatesOnly)) {\n		// don't tell the client about the same brightness again\n		if last != nil && last.LevelPercent == update.Value.LevelPercent && last.TargetLevelPercent == update.Value.TargetLevelPercent {\n			continue\n		}\n		last = update.Value\n		change :=")],
 (H%"lightpb").replace('	"google.golang.org/protobuf/types','	"google.golang.org/grpc"\n	"google.golang.org/protobuf/types')+'''type zzStream struct {
	grpc.ServerStream
	ctx context.Context
	got chan *traits.PullBrightnessResponse
}

func (s zzStream) Context() context.Context                           { return s.ctx }
func (s zzStream) Send(r *traits.PullBrightnessResponse) error { s.got <- r; return nil }

func TestZZDemo(t *testing.T) {
	m := NewModel(WithPreset(40, &traits.LightPreset{Name: "evening"}))
	s := NewModelServer(m)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	got := make(chan *traits.PullBrightnessResponse, 10)
	go s.PullBrightness(&traits.PullBrightnessRequest{Name: "n"}, zzStream{ctx: ctx, got: got})
	<-got
	for _, b := range []*traits.Brightness{{LevelPercent: 40}, {Preset: &traits.LightPreset{Name: "evening"}}} {
		r, err := s.UpdateBrightness(ctx, &traits.UpdateBrightnessRequest{Name: "n", Brightness: b})
		if err != nil {
			t.Fatal(err)
		}
		select {
		case c := <-got:
			if !proto.Equal(c.Changes[0].Brightness, r) {
				t.Fatalf("got %v, want %v", c.Changes[0].Brightness, r)
			}
		case <-time.After(5 * time.Second):
			t.Fatalf("the stream isn't told of %v", r)
		}
	}
}
''',"an open stream, and an update that changes the preset but not the level","updates that don't change the level don't appear on open streams")
seed("C14-dispense-half","C14","pkg/trait/vendingpb",
 [("pkg/trait/vendingpb/model.go","			// on error we don't want to make any changes to the stock value, reset things\n			maskedErr = err\n			proto.Reset(newVal)\n			proto.Merge(newVal, oldVal)\n			return\n","			// on error there's nothing to change\n			maskedErr = err\n			return\n")],
 (H%"vendingpb")+'''func TestZZDemo(t *testing.T) {
	m := NewModel()
	if _, err := m.CreateStock(&traits.Consumable_Stock{Consumable: "a", Remaining: &traits.Consumable_Quantity{Unit: traits.Consumable_LITER, Amount: 10}}); err != nil {
		t.Fatal(err)
	}
	s := NewModelServer(m)
	ctx := context.Background()
	was, err := s.GetStock(ctx, &traits.GetStockRequest{Consumable: "a"})
	if err != nil {
		t.Fatal(err)
	}
	if _, err := s.Dispense(ctx, &traits.DispenseRequest{Consumable: "a", Quantity: &traits.Consumable_Quantity{Unit: traits.Consumable_KILOGRAM, Amount: 1}}); err == nil {
		t.Fatal("dispensed a kilogram of liters")
	}
	is, err := s.GetStock(ctx, &traits.GetStockRequest{Consumable: "a"})
	if err != nil {
		t.Fatal(err)
	}
	if !proto.Equal(was, is) {
		t.Fatalf("a rejected dispense changed %v to %v", was, is)
	}
}
''',"a Dispense whose unit can't be converted to that of the stock","a rejected Dispense wipes what is known of the stock")
seed("C14-hail-mask-id","C14","pkg/trait/hailpb",
 [("pkg/trait/hailpb/model_server.go","	return hail, nil\n","	if hail.Id == \"\" {\n		// the id isn't always stored\n		hail = proto.Clone(hail).(*traits.Hail)\n		hail.Id = request.Id\n	}\n	return hail, nil\n"),
  ("pkg/trait/hailpb/model_server.go",'	"google.golang.org/grpc/status"\n','	"google.golang.org/grpc/status"\n	"google.golang.org/protobuf/proto"\n')],
 (H%"hailpb")+'''func TestZZDemo(t *testing.T) {
	s := NewModelServer(NewModel())
	ctx := context.Background()
	h, err := s.CreateHail(ctx, &traits.CreateHailRequest{Hail: &traits.Hail{State: traits.Hail_DEPARTED}})
	if err != nil {
		t.Fatal(err)
	}
	g, err := s.GetHail(ctx, &traits.GetHailRequest{Id: h.Id, ReadMask: &fieldmaskpb.FieldMask{Paths: []string{"state"}}})
	if err != nil {
		t.Fatal(err)
	}
	if !proto.Equal(g, &traits.Hail{State: traits.Hail_DEPARTED}) {
		t.Fatalf("got %v, asked for the state only", g)
	}
}
''',"a read mask that doesn't have the id","a masked Get returns a field that the mask doesn't have")
