package gvall

import (
	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-golang/pkg/router"
	"github.com/smart-core-os/sc-golang/pkg/trait/accesspb"
	"github.com/smart-core-os/sc-golang/pkg/trait/airqualitysensorpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/airtemperaturepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/bookingpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/brightnesssensorpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/channelpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/colorpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/countpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/electricpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/emergencypb"
	"github.com/smart-core-os/sc-golang/pkg/trait/energystoragepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/enterleavesensorpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/extendretractpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/fanspeedpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/hailpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/inputselectpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/lightpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/lockunlockpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/metadatapb"
	"github.com/smart-core-os/sc-golang/pkg/trait/meterpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/microphonepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/modepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/motionsensorpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/occupancysensorpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/onoffpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/openclosepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/parentpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/presspb"
	"github.com/smart-core-os/sc-golang/pkg/trait/ptzpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/publicationpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/speakerpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/temperaturepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/vendingpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/wastepb"
	"google.golang.org/grpc"
)

// Router is what the generated routers have in common.
type Router interface {
	router.Router
	HoldsType(client any) bool
	Register(server grpc.ServiceRegistrar)
}

// Service is one of the services with a generated router and wrapper.
type Service struct {
	Name    string
	Desc    grpc.ServiceDesc
	Router  func(...router.Option) Router
	Client  func(grpc.ClientConnInterface) any
	Wrap    func(server any) any
	Factory func(func(string) (any, error)) router.Option
}

// Services are all the services with a generated router and wrapper.
var Services = []Service{
	{"accesspb.NewApiRouter", traits.AccessApi_ServiceDesc,
		func(o ...router.Option) Router { return accesspb.NewApiRouter(o...) },
		func(c grpc.ClientConnInterface) any { return traits.NewAccessApiClient(c) },
		func(s any) any { return accesspb.WrapApi(s.(traits.AccessApiServer)) },
		func(f func(string) (any, error)) router.Option {
			return accesspb.WithAccessApiClientFactory(func(n string) (traits.AccessApiClient, error) {
				c, err := f(n)
				r, _ := c.(traits.AccessApiClient)
				return r, err
			})
		}},
	{"airqualitysensorpb.NewApiRouter", traits.AirQualitySensorApi_ServiceDesc,
		func(o ...router.Option) Router { return airqualitysensorpb.NewApiRouter(o...) },
		func(c grpc.ClientConnInterface) any { return traits.NewAirQualitySensorApiClient(c) },
		func(s any) any { return airqualitysensorpb.WrapApi(s.(traits.AirQualitySensorApiServer)) },
		func(f func(string) (any, error)) router.Option {
			return airqualitysensorpb.WithAirQualitySensorApiClientFactory(func(n string) (traits.AirQualitySensorApiClient, error) {
				c, err := f(n)
				r, _ := c.(traits.AirQualitySensorApiClient)
				return r, err
			})
		}},
	{"airqualitysensorpb.NewInfoRouter", traits.AirQualitySensorInfo_ServiceDesc,
		func(o ...router.Option) Router { return airqualitysensorpb.NewInfoRouter(o...) },
		func(c grpc.ClientConnInterface) any { return traits.NewAirQualitySensorInfoClient(c) },
		func(s any) any { return airqualitysensorpb.WrapInfo(s.(traits.AirQualitySensorInfoServer)) },
		func(f func(string) (any, error)) router.Option {
			return airqualitysensorpb.WithAirQualitySensorInfoClientFactory(func(n string) (traits.AirQualitySensorInfoClient, error) {
				c, err := f(n)
				r, _ := c.(traits.AirQualitySensorInfoClient)
				return r, err
			})
		}},
	{"airtemperaturepb.NewApiRouter", traits.AirTemperatureApi_ServiceDesc,
		func(o ...router.Option) Router { return airtemperaturepb.NewApiRouter(o...) },
		func(c grpc.ClientConnInterface) any { return traits.NewAirTemperatureApiClient(c) },
		func(s any) any { return airtemperaturepb.WrapApi(s.(traits.AirTemperatureApiServer)) },
		func(f func(string) (any, error)) router.Option {
			return airtemperaturepb.WithAirTemperatureApiClientFactory(func(n string) (traits.AirTemperatureApiClient, error) {
				c, err := f(n)
				r, _ := c.(traits.AirTemperatureApiClient)
				return r, err
			})
		}},
	{"airtemperaturepb.NewInfoRouter", traits.AirTemperatureInfo_ServiceDesc,
		func(o ...router.Option) Router { return airtemperaturepb.NewInfoRouter(o...) },
		func(c grpc.ClientConnInterface) any { return traits.NewAirTemperatureInfoClient(c) },
		func(s any) any { return airtemperaturepb.WrapInfo(s.(traits.AirTemperatureInfoServer)) },
		func(f func(string) (any, error)) router.Option {
			return airtemperaturepb.WithAirTemperatureInfoClientFactory(func(n string) (traits.AirTemperatureInfoClient, error) {
				c, err := f(n)
				r, _ := c.(traits.AirTemperatureInfoClient)
				return r, err
			})
		}},
	{"bookingpb.NewApiRouter", traits.BookingApi_ServiceDesc,
		func(o ...router.Option) Router { return bookingpb.NewApiRouter(o...) },
		func(c grpc.ClientConnInterface) any { return traits.NewBookingApiClient(c) },
		func(s any) any { return bookingpb.WrapApi(s.(traits.BookingApiServer)) },
		func(f func(string) (any, error)) router.Option {
			return bookingpb.WithBookingApiClientFactory(func(n string) (traits.BookingApiClient, error) {
				c, err := f(n)
				r, _ := c.(traits.BookingApiClient)
				return r, err
			})
		}},
	{"bookingpb.NewInfoRouter", traits.BookingInfo_ServiceDesc,
		func(o ...router.Option) Router { return bookingpb.NewInfoRouter(o...) },
		func(c grpc.ClientConnInterface) any { return traits.NewBookingInfoClient(c) },
		func(s any) any { return bookingpb.WrapInfo(s.(traits.BookingInfoServer)) },
		func(f func(string) (any, error)) router.Option {
			return bookingpb.WithBookingInfoClientFactory(func(n string) (traits.BookingInfoClient, error) {
				c, err := f(n)
				r, _ := c.(traits.BookingInfoClient)
				return r, err
			})
		}},
	{"brightnesssensorpb.NewApiRouter", traits.BrightnessSensorApi_ServiceDesc,
		func(o ...router.Option) Router { return brightnesssensorpb.NewApiRouter(o...) },
		func(c grpc.ClientConnInterface) any { return traits.NewBrightnessSensorApiClient(c) },
		func(s any) any { return brightnesssensorpb.WrapApi(s.(traits.BrightnessSensorApiServer)) },
		func(f func(string) (any, error)) router.Option {
			return brightnesssensorpb.WithBrightnessSensorApiClientFactory(func(n string) (traits.BrightnessSensorApiClient, error) {
				c, err := f(n)
				r, _ := c.(traits.BrightnessSensorApiClient)
				return r, err
			})
		}},
	{"brightnesssensorpb.NewInfoRouter", traits.BrightnessSensorInfo_ServiceDesc,
		func(o ...router.Option) Router { return brightnesssensorpb.NewInfoRouter(o...) },
		func(c grpc.ClientConnInterface) any { return traits.NewBrightnessSensorInfoClient(c) },
		func(s any) any { return brightnesssensorpb.WrapInfo(s.(traits.BrightnessSensorInfoServer)) },
		func(f func(string) (any, error)) router.Option {
			return brightnesssensorpb.WithBrightnessSensorInfoClientFactory(func(n string) (traits.BrightnessSensorInfoClient, error) {
				c, err := f(n)
				r, _ := c.(traits.BrightnessSensorInfoClient)
				return r, err
			})
		}},
	{"channelpb.NewApiRouter", traits.ChannelApi_ServiceDesc,
		func(o ...router.Option) Router { return channelpb.NewApiRouter(o...) },
		func(c grpc.ClientConnInterface) any { return traits.NewChannelApiClient(c) },
		func(s any) any { return channelpb.WrapApi(s.(traits.ChannelApiServer)) },
		func(f func(string) (any, error)) router.Option {
			return channelpb.WithChannelApiClientFactory(func(n string) (traits.ChannelApiClient, error) {
				c, err := f(n)
				r, _ := c.(traits.ChannelApiClient)
				return r, err
			})
		}},
	{"channelpb.NewInfoRouter", traits.ChannelInfo_ServiceDesc,
		func(o ...router.Option) Router { return channelpb.NewInfoRouter(o...) },
		func(c grpc.ClientConnInterface) any { return traits.NewChannelInfoClient(c) },
		func(s any) any { return channelpb.WrapInfo(s.(traits.ChannelInfoServer)) },
		func(f func(string) (any, error)) router.Option {
			return channelpb.WithChannelInfoClientFactory(func(n string) (traits.ChannelInfoClient, error) {
				c, err := f(n)
				r, _ := c.(traits.ChannelInfoClient)
				return r, err
			})
		}},
	{"colorpb.NewApiRouter", traits.ColorApi_ServiceDesc,
		func(o ...router.Option) Router { return colorpb.NewApiRouter(o...) },
		func(c grpc.ClientConnInterface) any { return traits.NewColorApiClient(c) },
		func(s any) any { return colorpb.WrapApi(s.(traits.ColorApiServer)) },
		func(f func(string) (any, error)) router.Option {
			return colorpb.WithColorApiClientFactory(func(n string) (traits.ColorApiClient, error) {
				c, err := f(n)
				r, _ := c.(traits.ColorApiClient)
				return r, err
			})
		}},
	{"colorpb.NewInfoRouter", traits.ColorInfo_ServiceDesc,
		func(o ...router.Option) Router { return colorpb.NewInfoRouter(o...) },
		func(c grpc.ClientConnInterface) any { return traits.NewColorInfoClient(c) },
		func(s any) any { return colorpb.WrapInfo(s.(traits.ColorInfoServer)) },
		func(f func(string) (any, error)) router.Option {
			return colorpb.WithColorInfoClientFactory(func(n string) (traits.ColorInfoClient, error) {
				c, err := f(n)
				r, _ := c.(traits.ColorInfoClient)
				return r, err
			})
		}},
	{"countpb.NewApiRouter", traits.CountApi_ServiceDesc,
		func(o ...router.Option) Router { return countpb.NewApiRouter(o...) },
		func(c grpc.ClientConnInterface) any { return traits.NewCountApiClient(c) },
		func(s any) any { return countpb.WrapApi(s.(traits.CountApiServer)) },
		func(f func(string) (any, error)) router.Option {
			return countpb.WithCountApiClientFactory(func(n string) (traits.CountApiClient, error) {
				c, err := f(n)
				r, _ := c.(traits.CountApiClient)
				return r, err
			})
		}},
	{"countpb.NewInfoRouter", traits.CountInfo_ServiceDesc,
		func(o ...router.Option) Router { return countpb.NewInfoRouter(o...) },
		func(c grpc.ClientConnInterface) any { return traits.NewCountInfoClient(c) },
		func(s any) any { return countpb.WrapInfo(s.(traits.CountInfoServer)) },
		func(f func(string) (any, error)) router.Option {
			return countpb.WithCountInfoClientFactory(func(n string) (traits.CountInfoClient, error) {
				c, err := f(n)
				r, _ := c.(traits.CountInfoClient)
				return r, err
			})
		}},
	{"electricpb.NewApiRouter", traits.ElectricApi_ServiceDesc,
		func(o ...router.Option) Router { return electricpb.NewApiRouter(o...) },
		func(c grpc.ClientConnInterface) any { return traits.NewElectricApiClient(c) },
		func(s any) any { return electricpb.WrapApi(s.(traits.ElectricApiServer)) },
		func(f func(string) (any, error)) router.Option {
			return electricpb.WithElectricApiClientFactory(func(n string) (traits.ElectricApiClient, error) {
				c, err := f(n)
				r, _ := c.(traits.ElectricApiClient)
				return r, err
			})
		}},
	{"electricpb.NewInfoRouter", traits.ElectricInfo_ServiceDesc,
		func(o ...router.Option) Router { return electricpb.NewInfoRouter(o...) },
		func(c grpc.ClientConnInterface) any { return traits.NewElectricInfoClient(c) },
		func(s any) any { return electricpb.WrapInfo(s.(traits.ElectricInfoServer)) },
		func(f func(string) (any, error)) router.Option {
			return electricpb.WithElectricInfoClientFactory(func(n string) (traits.ElectricInfoClient, error) {
				c, err := f(n)
				r, _ := c.(traits.ElectricInfoClient)
				return r, err
			})
		}},
	{"electricpb.NewMemorySettingsApiRouter", electricpb.MemorySettingsApi_ServiceDesc,
		func(o ...router.Option) Router { return electricpb.NewMemorySettingsApiRouter(o...) },
		func(c grpc.ClientConnInterface) any { return electricpb.NewMemorySettingsApiClient(c) },
		func(s any) any { return electricpb.WrapMemorySettingsApi(s.(electricpb.MemorySettingsApiServer)) },
		func(f func(string) (any, error)) router.Option {
			return electricpb.WithMemorySettingsApiClientFactory(func(n string) (electricpb.MemorySettingsApiClient, error) {
				c, err := f(n)
				r, _ := c.(electricpb.MemorySettingsApiClient)
				return r, err
			})
		}},
	{"emergencypb.NewApiRouter", traits.EmergencyApi_ServiceDesc,
		func(o ...router.Option) Router { return emergencypb.NewApiRouter(o...) },
		func(c grpc.ClientConnInterface) any { return traits.NewEmergencyApiClient(c) },
		func(s any) any { return emergencypb.WrapApi(s.(traits.EmergencyApiServer)) },
		func(f func(string) (any, error)) router.Option {
			return emergencypb.WithEmergencyApiClientFactory(func(n string) (traits.EmergencyApiClient, error) {
				c, err := f(n)
				r, _ := c.(traits.EmergencyApiClient)
				return r, err
			})
		}},
	{"emergencypb.NewInfoRouter", traits.EmergencyInfo_ServiceDesc,
		func(o ...router.Option) Router { return emergencypb.NewInfoRouter(o...) },
		func(c grpc.ClientConnInterface) any { return traits.NewEmergencyInfoClient(c) },
		func(s any) any { return emergencypb.WrapInfo(s.(traits.EmergencyInfoServer)) },
		func(f func(string) (any, error)) router.Option {
			return emergencypb.WithEmergencyInfoClientFactory(func(n string) (traits.EmergencyInfoClient, error) {
				c, err := f(n)
				r, _ := c.(traits.EmergencyInfoClient)
				return r, err
			})
		}},
	{"energystoragepb.NewApiRouter", traits.EnergyStorageApi_ServiceDesc,
		func(o ...router.Option) Router { return energystoragepb.NewApiRouter(o...) },
		func(c grpc.ClientConnInterface) any { return traits.NewEnergyStorageApiClient(c) },
		func(s any) any { return energystoragepb.WrapApi(s.(traits.EnergyStorageApiServer)) },
		func(f func(string) (any, error)) router.Option {
			return energystoragepb.WithEnergyStorageApiClientFactory(func(n string) (traits.EnergyStorageApiClient, error) {
				c, err := f(n)
				r, _ := c.(traits.EnergyStorageApiClient)
				return r, err
			})
		}},
	{"energystoragepb.NewInfoRouter", traits.EnergyStorageInfo_ServiceDesc,
		func(o ...router.Option) Router { return energystoragepb.NewInfoRouter(o...) },
		func(c grpc.ClientConnInterface) any { return traits.NewEnergyStorageInfoClient(c) },
		func(s any) any { return energystoragepb.WrapInfo(s.(traits.EnergyStorageInfoServer)) },
		func(f func(string) (any, error)) router.Option {
			return energystoragepb.WithEnergyStorageInfoClientFactory(func(n string) (traits.EnergyStorageInfoClient, error) {
				c, err := f(n)
				r, _ := c.(traits.EnergyStorageInfoClient)
				return r, err
			})
		}},
	{"enterleavesensorpb.NewApiRouter", traits.EnterLeaveSensorApi_ServiceDesc,
		func(o ...router.Option) Router { return enterleavesensorpb.NewApiRouter(o...) },
		func(c grpc.ClientConnInterface) any { return traits.NewEnterLeaveSensorApiClient(c) },
		func(s any) any { return enterleavesensorpb.WrapApi(s.(traits.EnterLeaveSensorApiServer)) },
		func(f func(string) (any, error)) router.Option {
			return enterleavesensorpb.WithEnterLeaveSensorApiClientFactory(func(n string) (traits.EnterLeaveSensorApiClient, error) {
				c, err := f(n)
				r, _ := c.(traits.EnterLeaveSensorApiClient)
				return r, err
			})
		}},
	{"enterleavesensorpb.NewInfoRouter", traits.EnterLeaveSensorInfo_ServiceDesc,
		func(o ...router.Option) Router { return enterleavesensorpb.NewInfoRouter(o...) },
		func(c grpc.ClientConnInterface) any { return traits.NewEnterLeaveSensorInfoClient(c) },
		func(s any) any { return enterleavesensorpb.WrapInfo(s.(traits.EnterLeaveSensorInfoServer)) },
		func(f func(string) (any, error)) router.Option {
			return enterleavesensorpb.WithEnterLeaveSensorInfoClientFactory(func(n string) (traits.EnterLeaveSensorInfoClient, error) {
				c, err := f(n)
				r, _ := c.(traits.EnterLeaveSensorInfoClient)
				return r, err
			})
		}},
	{"extendretractpb.NewApiRouter", traits.ExtendRetractApi_ServiceDesc,
		func(o ...router.Option) Router { return extendretractpb.NewApiRouter(o...) },
		func(c grpc.ClientConnInterface) any { return traits.NewExtendRetractApiClient(c) },
		func(s any) any { return extendretractpb.WrapApi(s.(traits.ExtendRetractApiServer)) },
		func(f func(string) (any, error)) router.Option {
			return extendretractpb.WithExtendRetractApiClientFactory(func(n string) (traits.ExtendRetractApiClient, error) {
				c, err := f(n)
				r, _ := c.(traits.ExtendRetractApiClient)
				return r, err
			})
		}},
	{"extendretractpb.NewInfoRouter", traits.ExtendRetractInfo_ServiceDesc,
		func(o ...router.Option) Router { return extendretractpb.NewInfoRouter(o...) },
		func(c grpc.ClientConnInterface) any { return traits.NewExtendRetractInfoClient(c) },
		func(s any) any { return extendretractpb.WrapInfo(s.(traits.ExtendRetractInfoServer)) },
		func(f func(string) (any, error)) router.Option {
			return extendretractpb.WithExtendRetractInfoClientFactory(func(n string) (traits.ExtendRetractInfoClient, error) {
				c, err := f(n)
				r, _ := c.(traits.ExtendRetractInfoClient)
				return r, err
			})
		}},
	{"fanspeedpb.NewApiRouter", traits.FanSpeedApi_ServiceDesc,
		func(o ...router.Option) Router { return fanspeedpb.NewApiRouter(o...) },
		func(c grpc.ClientConnInterface) any { return traits.NewFanSpeedApiClient(c) },
		func(s any) any { return fanspeedpb.WrapApi(s.(traits.FanSpeedApiServer)) },
		func(f func(string) (any, error)) router.Option {
			return fanspeedpb.WithFanSpeedApiClientFactory(func(n string) (traits.FanSpeedApiClient, error) {
				c, err := f(n)
				r, _ := c.(traits.FanSpeedApiClient)
				return r, err
			})
		}},
	{"fanspeedpb.NewInfoRouter", traits.FanSpeedInfo_ServiceDesc,
		func(o ...router.Option) Router { return fanspeedpb.NewInfoRouter(o...) },
		func(c grpc.ClientConnInterface) any { return traits.NewFanSpeedInfoClient(c) },
		func(s any) any { return fanspeedpb.WrapInfo(s.(traits.FanSpeedInfoServer)) },
		func(f func(string) (any, error)) router.Option {
			return fanspeedpb.WithFanSpeedInfoClientFactory(func(n string) (traits.FanSpeedInfoClient, error) {
				c, err := f(n)
				r, _ := c.(traits.FanSpeedInfoClient)
				return r, err
			})
		}},
	{"hailpb.NewApiRouter", traits.HailApi_ServiceDesc,
		func(o ...router.Option) Router { return hailpb.NewApiRouter(o...) },
		func(c grpc.ClientConnInterface) any { return traits.NewHailApiClient(c) },
		func(s any) any { return hailpb.WrapApi(s.(traits.HailApiServer)) },
		func(f func(string) (any, error)) router.Option {
			return hailpb.WithHailApiClientFactory(func(n string) (traits.HailApiClient, error) {
				c, err := f(n)
				r, _ := c.(traits.HailApiClient)
				return r, err
			})
		}},
	{"hailpb.NewInfoRouter", traits.HailInfo_ServiceDesc,
		func(o ...router.Option) Router { return hailpb.NewInfoRouter(o...) },
		func(c grpc.ClientConnInterface) any { return traits.NewHailInfoClient(c) },
		func(s any) any { return hailpb.WrapInfo(s.(traits.HailInfoServer)) },
		func(f func(string) (any, error)) router.Option {
			return hailpb.WithHailInfoClientFactory(func(n string) (traits.HailInfoClient, error) {
				c, err := f(n)
				r, _ := c.(traits.HailInfoClient)
				return r, err
			})
		}},
	{"inputselectpb.NewApiRouter", traits.InputSelectApi_ServiceDesc,
		func(o ...router.Option) Router { return inputselectpb.NewApiRouter(o...) },
		func(c grpc.ClientConnInterface) any { return traits.NewInputSelectApiClient(c) },
		func(s any) any { return inputselectpb.WrapApi(s.(traits.InputSelectApiServer)) },
		func(f func(string) (any, error)) router.Option {
			return inputselectpb.WithInputSelectApiClientFactory(func(n string) (traits.InputSelectApiClient, error) {
				c, err := f(n)
				r, _ := c.(traits.InputSelectApiClient)
				return r, err
			})
		}},
	{"inputselectpb.NewInfoRouter", traits.InputSelectInfo_ServiceDesc,
		func(o ...router.Option) Router { return inputselectpb.NewInfoRouter(o...) },
		func(c grpc.ClientConnInterface) any { return traits.NewInputSelectInfoClient(c) },
		func(s any) any { return inputselectpb.WrapInfo(s.(traits.InputSelectInfoServer)) },
		func(f func(string) (any, error)) router.Option {
			return inputselectpb.WithInputSelectInfoClientFactory(func(n string) (traits.InputSelectInfoClient, error) {
				c, err := f(n)
				r, _ := c.(traits.InputSelectInfoClient)
				return r, err
			})
		}},
	{"lightpb.NewApiRouter", traits.LightApi_ServiceDesc,
		func(o ...router.Option) Router { return lightpb.NewApiRouter(o...) },
		func(c grpc.ClientConnInterface) any { return traits.NewLightApiClient(c) },
		func(s any) any { return lightpb.WrapApi(s.(traits.LightApiServer)) },
		func(f func(string) (any, error)) router.Option {
			return lightpb.WithLightApiClientFactory(func(n string) (traits.LightApiClient, error) {
				c, err := f(n)
				r, _ := c.(traits.LightApiClient)
				return r, err
			})
		}},
	{"lightpb.NewInfoRouter", traits.LightInfo_ServiceDesc,
		func(o ...router.Option) Router { return lightpb.NewInfoRouter(o...) },
		func(c grpc.ClientConnInterface) any { return traits.NewLightInfoClient(c) },
		func(s any) any { return lightpb.WrapInfo(s.(traits.LightInfoServer)) },
		func(f func(string) (any, error)) router.Option {
			return lightpb.WithLightInfoClientFactory(func(n string) (traits.LightInfoClient, error) {
				c, err := f(n)
				r, _ := c.(traits.LightInfoClient)
				return r, err
			})
		}},
	{"lockunlockpb.NewApiRouter", traits.LockUnlockApi_ServiceDesc,
		func(o ...router.Option) Router { return lockunlockpb.NewApiRouter(o...) },
		func(c grpc.ClientConnInterface) any { return traits.NewLockUnlockApiClient(c) },
		func(s any) any { return lockunlockpb.WrapApi(s.(traits.LockUnlockApiServer)) },
		func(f func(string) (any, error)) router.Option {
			return lockunlockpb.WithLockUnlockApiClientFactory(func(n string) (traits.LockUnlockApiClient, error) {
				c, err := f(n)
				r, _ := c.(traits.LockUnlockApiClient)
				return r, err
			})
		}},
	{"lockunlockpb.NewInfoRouter", traits.LockUnlockInfo_ServiceDesc,
		func(o ...router.Option) Router { return lockunlockpb.NewInfoRouter(o...) },
		func(c grpc.ClientConnInterface) any { return traits.NewLockUnlockInfoClient(c) },
		func(s any) any { return lockunlockpb.WrapInfo(s.(traits.LockUnlockInfoServer)) },
		func(f func(string) (any, error)) router.Option {
			return lockunlockpb.WithLockUnlockInfoClientFactory(func(n string) (traits.LockUnlockInfoClient, error) {
				c, err := f(n)
				r, _ := c.(traits.LockUnlockInfoClient)
				return r, err
			})
		}},
	{"metadatapb.NewApiRouter", traits.MetadataApi_ServiceDesc,
		func(o ...router.Option) Router { return metadatapb.NewApiRouter(o...) },
		func(c grpc.ClientConnInterface) any { return traits.NewMetadataApiClient(c) },
		func(s any) any { return metadatapb.WrapApi(s.(traits.MetadataApiServer)) },
		func(f func(string) (any, error)) router.Option {
			return metadatapb.WithMetadataApiClientFactory(func(n string) (traits.MetadataApiClient, error) {
				c, err := f(n)
				r, _ := c.(traits.MetadataApiClient)
				return r, err
			})
		}},
	{"metadatapb.NewInfoRouter", traits.MetadataInfo_ServiceDesc,
		func(o ...router.Option) Router { return metadatapb.NewInfoRouter(o...) },
		func(c grpc.ClientConnInterface) any { return traits.NewMetadataInfoClient(c) },
		func(s any) any { return metadatapb.WrapInfo(s.(traits.MetadataInfoServer)) },
		func(f func(string) (any, error)) router.Option {
			return metadatapb.WithMetadataInfoClientFactory(func(n string) (traits.MetadataInfoClient, error) {
				c, err := f(n)
				r, _ := c.(traits.MetadataInfoClient)
				return r, err
			})
		}},
	{"meterpb.NewApiRouter", traits.MeterApi_ServiceDesc,
		func(o ...router.Option) Router { return meterpb.NewApiRouter(o...) },
		func(c grpc.ClientConnInterface) any { return traits.NewMeterApiClient(c) },
		func(s any) any { return meterpb.WrapApi(s.(traits.MeterApiServer)) },
		func(f func(string) (any, error)) router.Option {
			return meterpb.WithMeterApiClientFactory(func(n string) (traits.MeterApiClient, error) {
				c, err := f(n)
				r, _ := c.(traits.MeterApiClient)
				return r, err
			})
		}},
	{"meterpb.NewInfoRouter", traits.MeterInfo_ServiceDesc,
		func(o ...router.Option) Router { return meterpb.NewInfoRouter(o...) },
		func(c grpc.ClientConnInterface) any { return traits.NewMeterInfoClient(c) },
		func(s any) any { return meterpb.WrapInfo(s.(traits.MeterInfoServer)) },
		func(f func(string) (any, error)) router.Option {
			return meterpb.WithMeterInfoClientFactory(func(n string) (traits.MeterInfoClient, error) {
				c, err := f(n)
				r, _ := c.(traits.MeterInfoClient)
				return r, err
			})
		}},
	{"microphonepb.NewApiRouter", traits.MicrophoneApi_ServiceDesc,
		func(o ...router.Option) Router { return microphonepb.NewApiRouter(o...) },
		func(c grpc.ClientConnInterface) any { return traits.NewMicrophoneApiClient(c) },
		func(s any) any { return microphonepb.WrapApi(s.(traits.MicrophoneApiServer)) },
		func(f func(string) (any, error)) router.Option {
			return microphonepb.WithMicrophoneApiClientFactory(func(n string) (traits.MicrophoneApiClient, error) {
				c, err := f(n)
				r, _ := c.(traits.MicrophoneApiClient)
				return r, err
			})
		}},
	{"microphonepb.NewInfoRouter", traits.MicrophoneInfo_ServiceDesc,
		func(o ...router.Option) Router { return microphonepb.NewInfoRouter(o...) },
		func(c grpc.ClientConnInterface) any { return traits.NewMicrophoneInfoClient(c) },
		func(s any) any { return microphonepb.WrapInfo(s.(traits.MicrophoneInfoServer)) },
		func(f func(string) (any, error)) router.Option {
			return microphonepb.WithMicrophoneInfoClientFactory(func(n string) (traits.MicrophoneInfoClient, error) {
				c, err := f(n)
				r, _ := c.(traits.MicrophoneInfoClient)
				return r, err
			})
		}},
	{"modepb.NewApiRouter", traits.ModeApi_ServiceDesc,
		func(o ...router.Option) Router { return modepb.NewApiRouter(o...) },
		func(c grpc.ClientConnInterface) any { return traits.NewModeApiClient(c) },
		func(s any) any { return modepb.WrapApi(s.(traits.ModeApiServer)) },
		func(f func(string) (any, error)) router.Option {
			return modepb.WithModeApiClientFactory(func(n string) (traits.ModeApiClient, error) {
				c, err := f(n)
				r, _ := c.(traits.ModeApiClient)
				return r, err
			})
		}},
	{"modepb.NewInfoRouter", traits.ModeInfo_ServiceDesc,
		func(o ...router.Option) Router { return modepb.NewInfoRouter(o...) },
		func(c grpc.ClientConnInterface) any { return traits.NewModeInfoClient(c) },
		func(s any) any { return modepb.WrapInfo(s.(traits.ModeInfoServer)) },
		func(f func(string) (any, error)) router.Option {
			return modepb.WithModeInfoClientFactory(func(n string) (traits.ModeInfoClient, error) {
				c, err := f(n)
				r, _ := c.(traits.ModeInfoClient)
				return r, err
			})
		}},
	{"motionsensorpb.NewApiRouter", traits.MotionSensorApi_ServiceDesc,
		func(o ...router.Option) Router { return motionsensorpb.NewApiRouter(o...) },
		func(c grpc.ClientConnInterface) any { return traits.NewMotionSensorApiClient(c) },
		func(s any) any { return motionsensorpb.WrapApi(s.(traits.MotionSensorApiServer)) },
		func(f func(string) (any, error)) router.Option {
			return motionsensorpb.WithMotionSensorApiClientFactory(func(n string) (traits.MotionSensorApiClient, error) {
				c, err := f(n)
				r, _ := c.(traits.MotionSensorApiClient)
				return r, err
			})
		}},
	{"motionsensorpb.NewSensorInfoRouter", traits.MotionSensorSensorInfo_ServiceDesc,
		func(o ...router.Option) Router { return motionsensorpb.NewSensorInfoRouter(o...) },
		func(c grpc.ClientConnInterface) any { return traits.NewMotionSensorSensorInfoClient(c) },
		func(s any) any { return motionsensorpb.WrapSensorInfo(s.(traits.MotionSensorSensorInfoServer)) },
		func(f func(string) (any, error)) router.Option {
			return motionsensorpb.WithMotionSensorSensorInfoClientFactory(func(n string) (traits.MotionSensorSensorInfoClient, error) {
				c, err := f(n)
				r, _ := c.(traits.MotionSensorSensorInfoClient)
				return r, err
			})
		}},
	{"occupancysensorpb.NewApiRouter", traits.OccupancySensorApi_ServiceDesc,
		func(o ...router.Option) Router { return occupancysensorpb.NewApiRouter(o...) },
		func(c grpc.ClientConnInterface) any { return traits.NewOccupancySensorApiClient(c) },
		func(s any) any { return occupancysensorpb.WrapApi(s.(traits.OccupancySensorApiServer)) },
		func(f func(string) (any, error)) router.Option {
			return occupancysensorpb.WithOccupancySensorApiClientFactory(func(n string) (traits.OccupancySensorApiClient, error) {
				c, err := f(n)
				r, _ := c.(traits.OccupancySensorApiClient)
				return r, err
			})
		}},
	{"occupancysensorpb.NewInfoRouter", traits.OccupancySensorInfo_ServiceDesc,
		func(o ...router.Option) Router { return occupancysensorpb.NewInfoRouter(o...) },
		func(c grpc.ClientConnInterface) any { return traits.NewOccupancySensorInfoClient(c) },
		func(s any) any { return occupancysensorpb.WrapInfo(s.(traits.OccupancySensorInfoServer)) },
		func(f func(string) (any, error)) router.Option {
			return occupancysensorpb.WithOccupancySensorInfoClientFactory(func(n string) (traits.OccupancySensorInfoClient, error) {
				c, err := f(n)
				r, _ := c.(traits.OccupancySensorInfoClient)
				return r, err
			})
		}},
	{"onoffpb.NewApiRouter", traits.OnOffApi_ServiceDesc,
		func(o ...router.Option) Router { return onoffpb.NewApiRouter(o...) },
		func(c grpc.ClientConnInterface) any { return traits.NewOnOffApiClient(c) },
		func(s any) any { return onoffpb.WrapApi(s.(traits.OnOffApiServer)) },
		func(f func(string) (any, error)) router.Option {
			return onoffpb.WithOnOffApiClientFactory(func(n string) (traits.OnOffApiClient, error) {
				c, err := f(n)
				r, _ := c.(traits.OnOffApiClient)
				return r, err
			})
		}},
	{"onoffpb.NewInfoRouter", traits.OnOffInfo_ServiceDesc,
		func(o ...router.Option) Router { return onoffpb.NewInfoRouter(o...) },
		func(c grpc.ClientConnInterface) any { return traits.NewOnOffInfoClient(c) },
		func(s any) any { return onoffpb.WrapInfo(s.(traits.OnOffInfoServer)) },
		func(f func(string) (any, error)) router.Option {
			return onoffpb.WithOnOffInfoClientFactory(func(n string) (traits.OnOffInfoClient, error) {
				c, err := f(n)
				r, _ := c.(traits.OnOffInfoClient)
				return r, err
			})
		}},
	{"openclosepb.NewApiRouter", traits.OpenCloseApi_ServiceDesc,
		func(o ...router.Option) Router { return openclosepb.NewApiRouter(o...) },
		func(c grpc.ClientConnInterface) any { return traits.NewOpenCloseApiClient(c) },
		func(s any) any { return openclosepb.WrapApi(s.(traits.OpenCloseApiServer)) },
		func(f func(string) (any, error)) router.Option {
			return openclosepb.WithOpenCloseApiClientFactory(func(n string) (traits.OpenCloseApiClient, error) {
				c, err := f(n)
				r, _ := c.(traits.OpenCloseApiClient)
				return r, err
			})
		}},
	{"openclosepb.NewInfoRouter", traits.OpenCloseInfo_ServiceDesc,
		func(o ...router.Option) Router { return openclosepb.NewInfoRouter(o...) },
		func(c grpc.ClientConnInterface) any { return traits.NewOpenCloseInfoClient(c) },
		func(s any) any { return openclosepb.WrapInfo(s.(traits.OpenCloseInfoServer)) },
		func(f func(string) (any, error)) router.Option {
			return openclosepb.WithOpenCloseInfoClientFactory(func(n string) (traits.OpenCloseInfoClient, error) {
				c, err := f(n)
				r, _ := c.(traits.OpenCloseInfoClient)
				return r, err
			})
		}},
	{"parentpb.NewApiRouter", traits.ParentApi_ServiceDesc,
		func(o ...router.Option) Router { return parentpb.NewApiRouter(o...) },
		func(c grpc.ClientConnInterface) any { return traits.NewParentApiClient(c) },
		func(s any) any { return parentpb.WrapApi(s.(traits.ParentApiServer)) },
		func(f func(string) (any, error)) router.Option {
			return parentpb.WithParentApiClientFactory(func(n string) (traits.ParentApiClient, error) {
				c, err := f(n)
				r, _ := c.(traits.ParentApiClient)
				return r, err
			})
		}},
	{"parentpb.NewInfoRouter", traits.ParentInfo_ServiceDesc,
		func(o ...router.Option) Router { return parentpb.NewInfoRouter(o...) },
		func(c grpc.ClientConnInterface) any { return traits.NewParentInfoClient(c) },
		func(s any) any { return parentpb.WrapInfo(s.(traits.ParentInfoServer)) },
		func(f func(string) (any, error)) router.Option {
			return parentpb.WithParentInfoClientFactory(func(n string) (traits.ParentInfoClient, error) {
				c, err := f(n)
				r, _ := c.(traits.ParentInfoClient)
				return r, err
			})
		}},
	{"presspb.NewApiRouter", traits.PressApi_ServiceDesc,
		func(o ...router.Option) Router { return presspb.NewApiRouter(o...) },
		func(c grpc.ClientConnInterface) any { return traits.NewPressApiClient(c) },
		func(s any) any { return presspb.WrapApi(s.(traits.PressApiServer)) },
		func(f func(string) (any, error)) router.Option {
			return presspb.WithPressApiClientFactory(func(n string) (traits.PressApiClient, error) {
				c, err := f(n)
				r, _ := c.(traits.PressApiClient)
				return r, err
			})
		}},
	{"ptzpb.NewApiRouter", traits.PtzApi_ServiceDesc,
		func(o ...router.Option) Router { return ptzpb.NewApiRouter(o...) },
		func(c grpc.ClientConnInterface) any { return traits.NewPtzApiClient(c) },
		func(s any) any { return ptzpb.WrapApi(s.(traits.PtzApiServer)) },
		func(f func(string) (any, error)) router.Option {
			return ptzpb.WithPtzApiClientFactory(func(n string) (traits.PtzApiClient, error) {
				c, err := f(n)
				r, _ := c.(traits.PtzApiClient)
				return r, err
			})
		}},
	{"ptzpb.NewInfoRouter", traits.PtzInfo_ServiceDesc,
		func(o ...router.Option) Router { return ptzpb.NewInfoRouter(o...) },
		func(c grpc.ClientConnInterface) any { return traits.NewPtzInfoClient(c) },
		func(s any) any { return ptzpb.WrapInfo(s.(traits.PtzInfoServer)) },
		func(f func(string) (any, error)) router.Option {
			return ptzpb.WithPtzInfoClientFactory(func(n string) (traits.PtzInfoClient, error) {
				c, err := f(n)
				r, _ := c.(traits.PtzInfoClient)
				return r, err
			})
		}},
	{"publicationpb.NewApiRouter", traits.PublicationApi_ServiceDesc,
		func(o ...router.Option) Router { return publicationpb.NewApiRouter(o...) },
		func(c grpc.ClientConnInterface) any { return traits.NewPublicationApiClient(c) },
		func(s any) any { return publicationpb.WrapApi(s.(traits.PublicationApiServer)) },
		func(f func(string) (any, error)) router.Option {
			return publicationpb.WithPublicationApiClientFactory(func(n string) (traits.PublicationApiClient, error) {
				c, err := f(n)
				r, _ := c.(traits.PublicationApiClient)
				return r, err
			})
		}},
	{"speakerpb.NewApiRouter", traits.SpeakerApi_ServiceDesc,
		func(o ...router.Option) Router { return speakerpb.NewApiRouter(o...) },
		func(c grpc.ClientConnInterface) any { return traits.NewSpeakerApiClient(c) },
		func(s any) any { return speakerpb.WrapApi(s.(traits.SpeakerApiServer)) },
		func(f func(string) (any, error)) router.Option {
			return speakerpb.WithSpeakerApiClientFactory(func(n string) (traits.SpeakerApiClient, error) {
				c, err := f(n)
				r, _ := c.(traits.SpeakerApiClient)
				return r, err
			})
		}},
	{"speakerpb.NewInfoRouter", traits.SpeakerInfo_ServiceDesc,
		func(o ...router.Option) Router { return speakerpb.NewInfoRouter(o...) },
		func(c grpc.ClientConnInterface) any { return traits.NewSpeakerInfoClient(c) },
		func(s any) any { return speakerpb.WrapInfo(s.(traits.SpeakerInfoServer)) },
		func(f func(string) (any, error)) router.Option {
			return speakerpb.WithSpeakerInfoClientFactory(func(n string) (traits.SpeakerInfoClient, error) {
				c, err := f(n)
				r, _ := c.(traits.SpeakerInfoClient)
				return r, err
			})
		}},
	{"temperaturepb.NewApiRouter", traits.TemperatureApi_ServiceDesc,
		func(o ...router.Option) Router { return temperaturepb.NewApiRouter(o...) },
		func(c grpc.ClientConnInterface) any { return traits.NewTemperatureApiClient(c) },
		func(s any) any { return temperaturepb.WrapApi(s.(traits.TemperatureApiServer)) },
		func(f func(string) (any, error)) router.Option {
			return temperaturepb.WithTemperatureApiClientFactory(func(n string) (traits.TemperatureApiClient, error) {
				c, err := f(n)
				r, _ := c.(traits.TemperatureApiClient)
				return r, err
			})
		}},
	{"vendingpb.NewApiRouter", traits.VendingApi_ServiceDesc,
		func(o ...router.Option) Router { return vendingpb.NewApiRouter(o...) },
		func(c grpc.ClientConnInterface) any { return traits.NewVendingApiClient(c) },
		func(s any) any { return vendingpb.WrapApi(s.(traits.VendingApiServer)) },
		func(f func(string) (any, error)) router.Option {
			return vendingpb.WithVendingApiClientFactory(func(n string) (traits.VendingApiClient, error) {
				c, err := f(n)
				r, _ := c.(traits.VendingApiClient)
				return r, err
			})
		}},
	{"vendingpb.NewInfoRouter", traits.VendingInfo_ServiceDesc,
		func(o ...router.Option) Router { return vendingpb.NewInfoRouter(o...) },
		func(c grpc.ClientConnInterface) any { return traits.NewVendingInfoClient(c) },
		func(s any) any { return vendingpb.WrapInfo(s.(traits.VendingInfoServer)) },
		func(f func(string) (any, error)) router.Option {
			return vendingpb.WithVendingInfoClientFactory(func(n string) (traits.VendingInfoClient, error) {
				c, err := f(n)
				r, _ := c.(traits.VendingInfoClient)
				return r, err
			})
		}},
	{"wastepb.NewApiRouter", traits.WasteApi_ServiceDesc,
		func(o ...router.Option) Router { return wastepb.NewApiRouter(o...) },
		func(c grpc.ClientConnInterface) any { return traits.NewWasteApiClient(c) },
		func(s any) any { return wastepb.WrapApi(s.(traits.WasteApiServer)) },
		func(f func(string) (any, error)) router.Option {
			return wastepb.WithWasteApiClientFactory(func(n string) (traits.WasteApiClient, error) {
				c, err := f(n)
				r, _ := c.(traits.WasteApiClient)
				return r, err
			})
		}},
	{"wastepb.NewInfoRouter", traits.WasteInfo_ServiceDesc,
		func(o ...router.Option) Router { return wastepb.NewInfoRouter(o...) },
		func(c grpc.ClientConnInterface) any { return traits.NewWasteInfoClient(c) },
		func(s any) any { return wastepb.WrapInfo(s.(traits.WasteInfoServer)) },
		func(f func(string) (any, error)) router.Option {
			return wastepb.WithWasteInfoClientFactory(func(n string) (traits.WasteInfoClient, error) {
				c, err := f(n)
				r, _ := c.(traits.WasteInfoClient)
				return r, err
			})
		}},
}
