package gvall

import (
	"time"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-api/go/types"
	"github.com/smart-core-os/sc-golang/internal/gv"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"github.com/smart-core-os/sc-golang/pkg/trait/accesspb"
	"github.com/smart-core-os/sc-golang/pkg/trait/airqualitysensorpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/airtemperaturepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/bookingpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/countpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/electricpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/emergencypb"
	"github.com/smart-core-os/sc-golang/pkg/trait/energystoragepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/enterleavesensorpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/fanspeedpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/hailpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/lightpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/metadatapb"
	"github.com/smart-core-os/sc-golang/pkg/trait/meterpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/modepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/occupancysensorpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/onoffpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/openclosepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/parentpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/presspb"
	"github.com/smart-core-os/sc-golang/pkg/trait/publicationpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/speakerpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/vendingpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/wastepb"
	"google.golang.org/grpc"
	"google.golang.org/protobuf/proto"
)

// Subject is a model, or a server, with the services it serves.
type Subject struct {
	Name string
	// New makes one. The model is nil for those that are only servers.
	New func(g *gv.Gen) (model, server any)
	API []grpc.ServiceDesc
	// Timed subjects change by themselves.
	Timed bool
}

func consumables(g *gv.Gen) (r []*traits.Consumable) {
	for _, id := range ids {
		if g.R.Intn(2) == 0 {
			c := &traits.Consumable{}
			Fill(g, c.ProtoReflect(), nil, 0)
			c.Name = id
			r = append(r, c)
		}
	}
	return r
}

// some are some of the options.
func some(g *gv.Gen, opts ...resource.Option) (r []resource.Option) {
	for _, o := range opts {
		if g.R.Intn(3) == 0 {
			r = append(r, o)
		}
	}
	return r
}

// filled is m, populated.
func filled[M proto.Message](g *gv.Gen, m M) M {
	Fill(g, m.ProtoReflect(), nil, 0)
	still(m)
	return m
}

// writable allows writes of some of the fields of m.
func writable(g *gv.Gen, m proto.Message) resource.Option {
	return resource.WithWritablePaths(m, g.Paths(m.ProtoReflect().Descriptor(), 3, false)...)
}

// Subjects are all the models and memory devices.
var Subjects = []Subject{
	{Name: "access", New: func(g *gv.Gen) (any, any) {
		m := accesspb.NewModel(some(g, resource.WithInitialValue(filled(g, &traits.AccessAttempt{})), writable(g, &traits.AccessAttempt{}))...)
		return m, accesspb.NewModelServer(m)
	}, API: []grpc.ServiceDesc{traits.AccessApi_ServiceDesc}},
	{Name: "airquality", New: func(g *gv.Gen) (any, any) {
		m := airqualitysensorpb.NewModel(some(g, airqualitysensorpb.WithInitialAirQuality(filled(g, &traits.AirQuality{})), airqualitysensorpb.WithAirQualityOption(writable(g, &traits.AirQuality{})))...)
		return m, airqualitysensorpb.NewModelServer(m)
	}, API: []grpc.ServiceDesc{traits.AirQualitySensorApi_ServiceDesc}},
	{Name: "airtemperature", New: func(g *gv.Gen) (any, any) {
		m := airtemperaturepb.NewModel(some(g, airtemperaturepb.WithInitialAirTemperature(filled(g, &traits.AirTemperature{})), airtemperaturepb.WithAirTemperatureOption(writable(g, &traits.AirTemperature{})))...)
		return m, airtemperaturepb.NewModelServer(m)
	}, API: []grpc.ServiceDesc{traits.AirTemperatureApi_ServiceDesc}},
	{Name: "airtemperature memory", New: func(g *gv.Gen) (any, any) { return nil, airtemperaturepb.NewMemoryDevice() }, API: []grpc.ServiceDesc{traits.AirTemperatureApi_ServiceDesc}},
	{Name: "booking", New: func(g *gv.Gen) (any, any) { m := bookingpb.NewModel(); return m, bookingpb.NewModelServer(m) }, API: []grpc.ServiceDesc{traits.BookingApi_ServiceDesc}},
	{Name: "count memory", New: func(g *gv.Gen) (any, any) { return nil, countpb.NewMemoryDevice() }, API: []grpc.ServiceDesc{traits.CountApi_ServiceDesc}},
	{Name: "electric", New: func(g *gv.Gen) (any, any) {
		m := electricpb.NewModel(some(g, electricpb.WithInitialDemand(filled(g, &traits.ElectricDemand{})), electricpb.WithDemandOption(writable(g, &traits.ElectricDemand{})))...)
		for _, id := range ids {
			if g.R.Intn(2) == 0 {
				e := &traits.ElectricMode{}
				Fill(g, e.ProtoReflect(), nil, 0)
				e.Id, e.Normal = id, false
				_ = m.AddMode(e)
			}
		}
		return m, electricpb.NewModelServer(m)
	}, API: []grpc.ServiceDesc{traits.ElectricApi_ServiceDesc, electricpb.MemorySettingsApi_ServiceDesc}},
	{Name: "emergency memory", New: func(g *gv.Gen) (any, any) { return nil, emergencypb.NewMemoryDevice() }, API: []grpc.ServiceDesc{traits.EmergencyApi_ServiceDesc}},
	{Name: "energystorage", New: func(g *gv.Gen) (any, any) {
		m := energystoragepb.NewModel(some(g, energystoragepb.WithInitialEnergyLevel(filled(g, &traits.EnergyLevel{})), energystoragepb.WithEnergyLevelOption(writable(g, &traits.EnergyLevel{})))...)
		return m, energystoragepb.NewModelServer(m)
	}, API: []grpc.ServiceDesc{traits.EnergyStorageApi_ServiceDesc}},
	{Name: "enterleave", New: func(g *gv.Gen) (any, any) {
		m := enterleavesensorpb.NewModel(some(g, enterleavesensorpb.WithInitialEnterLeaveEvent(filled(g, &traits.EnterLeaveEvent{})))...)
		return m, enterleavesensorpb.NewModelServer(m)
	}, API: []grpc.ServiceDesc{traits.EnterLeaveSensorApi_ServiceDesc}},
	{Name: "fanspeed", New: func(g *gv.Gen) (any, any) {
		m := fanspeedpb.NewModel(some(g, fanspeedpb.WithInitialFanSpeed(filled(g, &traits.FanSpeed{})), fanspeedpb.WithPresets(fanspeedpb.Preset{Name: "a", Percentage: 0}, fanspeedpb.Preset{Name: "b", Percentage: 20}, fanspeedpb.Preset{Name: "c", Percentage: 60}))...)
		return m, fanspeedpb.NewModelServer(m)
	}, API: []grpc.ServiceDesc{traits.FanSpeedApi_ServiceDesc}},
	{Name: "hail", New: func(g *gv.Gen) (any, any) {
		m := hailpb.NewModel(hailpb.WithKeepAlive(100 * 365 * 24 * time.Hour))
		return m, hailpb.NewModelServer(m)
	}, API: []grpc.ServiceDesc{traits.HailApi_ServiceDesc}},
	{Name: "hail briefly kept", New: func(g *gv.Gen) (any, any) {
		m := hailpb.NewModel(hailpb.WithKeepAlive(time.Duration(g.R.Intn(3)-1) * time.Millisecond))
		return m, hailpb.NewModelServer(m)
	}, API: []grpc.ServiceDesc{traits.HailApi_ServiceDesc}, Timed: true},
	{Name: "light", New: func(g *gv.Gen) (any, any) {
		opts := some(g, lightpb.WithInitialBrightness(filled(g, &traits.Brightness{})), lightpb.WithBrightnessOption(writable(g, &traits.Brightness{})))
		m := lightpb.NewModel(append(opts, lightpb.WithPreset(20, &traits.LightPreset{Name: "a"}), lightpb.WithPreset(40, &traits.LightPreset{Name: "b"}))...)
		return m, lightpb.NewModelServer(m)
	}, API: []grpc.ServiceDesc{traits.LightApi_ServiceDesc}},
	{Name: "light memory", New: func(g *gv.Gen) (any, any) { return nil, lightpb.NewMemoryDevice() }, API: []grpc.ServiceDesc{traits.LightApi_ServiceDesc}},
	{Name: "metadata", New: func(g *gv.Gen) (any, any) {
		m := metadatapb.NewModel(some(g, resource.WithInitialValue(filled(g, &traits.Metadata{})), writable(g, &traits.Metadata{}))...)
		return m, metadatapb.NewModelServer(m)
	}, API: []grpc.ServiceDesc{traits.MetadataApi_ServiceDesc}},
	{Name: "metadata collection", New: func(g *gv.Gen) (any, any) {
		m := metadatapb.NewCollection()
		return m, metadatapb.NewCollectionServer(m)
	}, API: []grpc.ServiceDesc{traits.MetadataApi_ServiceDesc}},
	{Name: "meter", New: func(g *gv.Gen) (any, any) {
		m := meterpb.NewModel(some(g, resource.WithInitialValue(filled(g, &traits.MeterReading{})), writable(g, &traits.MeterReading{}))...)
		return m, meterpb.NewModelServer(m)
	}, API: []grpc.ServiceDesc{traits.MeterApi_ServiceDesc}},
	{Name: "mode", New: func(g *gv.Gen) (any, any) {
		m := modepb.NewModel()
		if g.R.Intn(2) == 0 {
			m = modepb.NewModelModes(&traits.Modes{Modes: []*traits.Modes_Mode{
				{Name: "a", Values: []*traits.Modes_Value{{Name: "a"}, {Name: "b"}, {Name: "c"}}},
				{Name: "b", Values: []*traits.Modes_Value{{Name: "c"}}},
			}})
		}
		return m, modepb.NewModelServer(m)
	}, API: []grpc.ServiceDesc{traits.ModeApi_ServiceDesc}},
	{Name: "occupancy", New: func(g *gv.Gen) (any, any) {
		m := occupancysensorpb.NewModel(some(g, occupancysensorpb.WithInitialOccupancy(filled(g, &traits.Occupancy{})), occupancysensorpb.WithOccupancyOption(writable(g, &traits.Occupancy{})))...)
		return m, occupancysensorpb.NewModelServer(m)
	}, API: []grpc.ServiceDesc{traits.OccupancySensorApi_ServiceDesc}},
	{Name: "onoff", New: func(g *gv.Gen) (any, any) {
		m := onoffpb.NewModel(some(g, onoffpb.WithInitialOnOff(filled(g, &traits.OnOff{})), onoffpb.WithOnOffOption(writable(g, &traits.OnOff{})))...)
		return m, onoffpb.NewModelServer(m)
	}, API: []grpc.ServiceDesc{traits.OnOffApi_ServiceDesc}},
	{Name: "openclose", New: func(g *gv.Gen) (any, any) {
		m := openclosepb.NewModel(append(some(g, openclosepb.WithInitialPositions(&traits.OpenClosePosition{OpenPercent: 20}, &traits.OpenClosePosition{Direction: traits.OpenClosePosition_UP, OpenPercent: 40})), openclosepb.WithPreset(&traits.OpenClosePositions_Preset{Name: "a"}, &traits.OpenClosePosition{OpenPercent: 20}))...)
		return m, openclosepb.NewModelServer(m)
	}, API: []grpc.ServiceDesc{traits.OpenCloseApi_ServiceDesc}},
	{Name: "parent", New: func(g *gv.Gen) (any, any) {
		m := parentpb.NewModel(some(g, parentpb.WithInitialChildren(&traits.Child{Name: "a"}, &traits.Child{Name: "b", Traits: []*traits.Trait{{Name: "a"}}}))...)
		return m, parentpb.NewModelServer(m)
	}, API: []grpc.ServiceDesc{traits.ParentApi_ServiceDesc}},
	{Name: "press", New: func(g *gv.Gen) (any, any) {
		m := presspb.NewModel(traits.PressedState_UNPRESSED)
		return m, presspb.NewModelServer(m)
	}, API: []grpc.ServiceDesc{traits.PressApi_ServiceDesc}},
	{Name: "publication", New: func(g *gv.Gen) (any, any) {
		m := publicationpb.NewModel(some(g, publicationpb.WithInitialPublication(&traits.Publication{Id: "a", Body: []byte("a")}, &traits.Publication{Id: "b", Version: "b"}))...)
		return m, publicationpb.NewModelServer(m)
	}, API: []grpc.ServiceDesc{traits.PublicationApi_ServiceDesc}},
	{Name: "speaker memory", New: func(g *gv.Gen) (any, any) {
		return nil, speakerpb.NewMemoryDevice(filled(g, &types.AudioLevel{Gain: 20}))
	}, API: []grpc.ServiceDesc{traits.SpeakerApi_ServiceDesc}},
	{Name: "vending", New: func(g *gv.Gen) (any, any) {
		m := vendingpb.NewModel()
		for _, c := range consumables(g) {
			_, _ = m.CreateConsumable(c)
		}
		for _, id := range ids {
			if g.R.Intn(2) == 0 {
				_, _ = m.CreateStock(&traits.Consumable_Stock{Consumable: id, Remaining: &traits.Consumable_Quantity{Amount: 20, Unit: traits.Consumable_LITER}, Used: &traits.Consumable_Quantity{Unit: traits.Consumable_LITER}})
			}
		}
		return m, vendingpb.NewModelServer(m)
	}, API: []grpc.ServiceDesc{traits.VendingApi_ServiceDesc}},
	{Name: "waste", New: func(g *gv.Gen) (any, any) { m := wastepb.NewModel(); return m, wastepb.NewModelServer(m) }, API: []grpc.ServiceDesc{traits.WasteApi_ServiceDesc}},
}
