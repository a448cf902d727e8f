package fanspeedpb

import (
	"context"
	"time"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-golang/internal/gv"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

type dTick struct{ n int64 }

func (c *dTick) Now() time.Time {
	c.n++
	return time.Unix(100+c.n, 0)
}
func (c *dTick) After(d time.Duration) <-chan time.Time { return time.After(d) }

// Any update of a fan with up to two presets of any names and percentages: preset, index and percentage agree, the one
// that changes decides the others, in that order.
//
//gv:property C20
//gv:for (*Model).UpdateFanSpeed covers NewModel (*Model).DeriveValues WithPresets WithInitialFanSpeed (*ModelServer).UpdateFanSpeed (*ModelServer).ReverseFanSpeedDirection
func gvc_FanSpeed(n int, names [2]string, at [2]float32, initial, percentage float32, which uint8, preset string, index int32, relative, reverse bool) {
	gv.Requires(n >= 0)
	gv.Bound("presets", n, 2)
	for i := 0; i < 2; i++ {
		gv.Requires(names[i] != "" && at[i] >= 0 && at[i] <= 100)
		for j := 0; j < i; j++ {
			gv.Requires(names[i] != names[j] && at[i] != at[j])
		}
	}
	var presets []Preset
	for i := 0; i < n; i++ {
		presets = append(presets, Preset{names[i], at[i]})
	}
	m := NewModel(resource.WithClock(&dTick{}), WithPresets(presets...), WithInitialFanSpeed(&traits.FanSpeed{Percentage: initial, Direction: traits.FanSpeed_BACKWARD}))
	srv := NewModelServer(m)
	was := m.FanSpeed()
	gv.Ensures("the configured speed is used", was.Percentage == initial && was.Direction == traits.FanSpeed_BACKWARD)
	gv.Ensures("initially they agree", specFan(presets, was))
	oldIndex, oldPercentage, oldPreset := was.PresetIndex, was.Percentage, was.Preset
	if reverse {
		got, err := srv.ReverseFanSpeedDirection(context.Background(), &traits.ReverseFanSpeedDirectionRequest{})
		gv.Ensures("reversed", err == nil && got.Direction == traits.FanSpeed_FORWARD)
		gv.Ensures("and nothing else", got.Percentage == oldPercentage && got.PresetIndex == oldIndex && got.Preset == oldPreset)
		return
	}
	up := &traits.FanSpeed{}
	switch which % 3 {
	case 0:
		up.Preset = preset
	case 1:
		up.PresetIndex = index
	case 2:
		up.Percentage = percentage
	}
	got, err := srv.UpdateFanSpeed(context.Background(), &traits.UpdateFanSpeedRequest{FanSpeed: up, Relative: relative})
	now := m.FanSpeed()
	known := -1
	for i, p := range presets {
		if p.Name == preset {
			known = i
		}
	}
	if which%3 == 0 && preset != "" && known < 0 {
		gv.Ensures("unknown presets are refused", status.Code(err) == codes.InvalidArgument)
		gv.Ensures("without effect", now.PresetIndex == oldIndex && now.Percentage == oldPercentage && now.Preset == oldPreset)
		return
	}
	gv.Ensures("updated", err == nil && got.PresetIndex == now.PresetIndex && got.Percentage == now.Percentage && got.Preset == now.Preset)
	gv.Ensures("they agree", specFan(presets, now))
	switch which % 3 {
	case 0:
		if preset != "" {
			gv.Reach("by preset")
			gv.Ensures("the preset is selected", now.Preset == preset && int(now.PresetIndex) == known && now.Percentage == at[known])
		}
	case 1:
		i := int64(index)
		if relative {
			i += int64(oldIndex)
		}
		if n > 0 && index != 0 {
			gv.Reach("by index")
			if i < 0 {
				i = 0
			}
			if i > int64(n-1) {
				i = int64(n - 1)
			}
			gv.Ensures("the index is selected, within range", int64(now.PresetIndex) == i || int64(oldIndex) == int64(index) && !relative)
		}
	case 2:
		p := percentage
		if relative {
			p += oldPercentage
		}
		gv.Ensures("the percentage is", now.Percentage == p)
	}
}

func gvg_FanSpeed(g *gv.Gen) (n int, names [2]string, at [2]float32, initial, percentage float32, which uint8, preset string, index int32, relative, reverse bool) {
	p := g.R.Perm(11)
	q := func() float32 { return float32(p[g.R.Intn(3)] * 10) }
	preset = []string{"", "x", "y", "z"}[g.R.Intn(4)]
	return g.R.Intn(3), [2]string{"x", "y"}, [2]float32{float32(p[0] * 10), float32(p[1] * 10)}, q(), q(), uint8(g.R.Intn(3)), preset, int32(g.R.Intn(7) - 3), g.R.Intn(2) == 0, g.R.Intn(5) == 0
}
