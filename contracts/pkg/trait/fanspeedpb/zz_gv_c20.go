package fanspeedpb

import (
	"context"
	"fmt"
	"math"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-golang/internal/gv"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/fieldmaskpb"
)

type fanOp struct {
	kind     int // 0: by the model, 1: by the server, 2: reverse
	speed    *traits.FanSpeed
	relative bool
	masked   bool
	mask     []string
}

type fanRun struct {
	configured bool
	presets    []Preset
	initial    *traits.FanSpeed
	ops        []fanOp
}

var gvNames = []string{"off", "low", "med", "high", "full"}

// specFan is what the fan's rules say about a speed: a preset, its index and its percentage agree.
func specFan(presets []Preset, s *traits.FanSpeed) bool {
	if s.Preset == "" { // between presets
		for _, p := range presets {
			if p.Percentage == s.Percentage {
				return false
			}
		}
		return s.PresetIndex < 0 || int(s.PresetIndex) >= len(presets)
	}
	i := int(s.PresetIndex)
	return 0 <= i && i < len(presets) && presets[i].Name == s.Preset && presets[i].Percentage == s.Percentage
}

func gvSpeed(g *gv.Gen, presets []Preset) *traits.FanSpeed {
	s := &traits.FanSpeed{}
	if g.R.Intn(3) == 0 {
		s.Preset = gvNames[g.R.Intn(len(gvNames))]
		if len(presets) > 0 && g.R.Intn(3) > 0 {
			s.Preset = presets[g.R.Intn(len(presets))].Name
		}
	}
	if g.R.Intn(3) == 0 {
		s.PresetIndex = int32(g.R.Intn(9) - 3)
		if g.R.Intn(10) == 0 {
			s.PresetIndex = []int32{math.MaxInt32, math.MinInt32}[g.R.Intn(2)]
		}
	}
	if g.R.Intn(2) == 0 {
		s.Percentage = float32(g.R.Intn(11) * 10)
	}
	s.Direction = traits.FanSpeed_Direction(g.R.Intn(3))
	return s
}

func gvg_Fan(g *gv.Gen) fanRun {
	h := fanRun{configured: g.R.Intn(4) > 0, presets: DefaultPresets}
	if h.configured {
		h.presets = nil
		used := map[float32]bool{}
		for _, n := range g.R.Perm(len(gvNames))[:g.R.Intn(len(gvNames)+1)] {
			p := Preset{gvNames[n], float32(g.R.Intn(11) * 10)}
			if !used[p.Percentage] {
				h.presets = append(h.presets, p)
				used[p.Percentage] = true
			}
		}
	}
	if g.R.Intn(2) == 0 {
		h.initial = &traits.FanSpeed{Percentage: float32(g.R.Intn(11) * 10), Direction: traits.FanSpeed_FORWARD}
		if len(h.presets) > 0 && g.R.Intn(2) == 0 {
			i := g.R.Intn(len(h.presets))
			h.initial.Preset, h.initial.PresetIndex, h.initial.Percentage = h.presets[i].Name, int32(i), h.presets[i].Percentage
			switch g.R.Intn(3) { // parts of it
			case 0:
				h.initial.PresetIndex, h.initial.Percentage = 0, 0
			case 1:
				h.initial.Preset, h.initial.PresetIndex = "", 0
			}
		}
	}
	for i := 1 + g.R.Intn(8); i > 0; i-- {
		o := fanOp{kind: g.R.Intn(6), speed: gvSpeed(g, h.presets), relative: g.R.Intn(2) == 0, masked: g.R.Intn(2) == 0}
		if o.kind > 2 {
			o.kind = 1
		}
		o.relative = o.relative && o.kind == 1
		if o.relative && g.R.Intn(2) == 0 {
			o.speed.Percentage = float32(g.R.Intn(31)*10 - 200)
		}
		for _, p := range []string{"percentage", "preset", "preset_index", "direction"} {
			if g.R.Intn(2) == 0 {
				o.mask = append(o.mask, p)
			}
		}
		h.ops = append(h.ops, o)
	}
	return h
}

func (o fanOp) has(field string) bool {
	if !o.masked {
		return true
	}
	for _, p := range o.mask {
		if p == field {
			return true
		}
	}
	return false
}

// Preset, index and percentage agree, with the first of them that changes deciding the others.
//
//gv:property C20
//gv:for (*Model).UpdateFanSpeed covers NewModel (*Model).DeriveValues WithPresets WithInitialFanSpeed (*ModelServer).UpdateFanSpeed (*ModelServer).ReverseFanSpeedDirection
//gv:bounded up to 8 updates, on generated presets and initial speeds
func gvc_Fan(h fanRun) {
	ctx := context.Background()
	var opts []resource.Option
	if h.configured {
		opts = append(opts, WithPresets(h.presets...))
	}
	if h.initial != nil {
		opts = append(opts, WithInitialFanSpeed(proto.Clone(h.initial).(*traits.FanSpeed)))
	}
	m := NewModel(opts...)
	srv := NewModelServer(m)
	named := func(name string) int {
		for i, p := range h.presets {
			if p.Name == name {
				return i
			}
		}
		return -1
	}
	is := func(s *traits.FanSpeed, i int) bool {
		return s.Preset == h.presets[i].Name && int(s.PresetIndex) == i && s.Percentage == h.presets[i].Percentage
	}
	was := proto.Clone(m.FanSpeed()).(*traits.FanSpeed)
	gv.Note(fmt.Sprintf("initially {%v}", was))
	gv.Ensures("preset, index and percentage agree initially", specFan(h.presets, was))
	if i := h.initial; i != nil {
		gv.Ensures("the configured preset is used", i.Preset == "" || named(i.Preset) < 0 || is(was, named(i.Preset)))
		gv.Ensures("the configured percentage is used", i.Preset != "" || i.PresetIndex != 0 || was.Percentage == i.Percentage)
		gv.Ensures("the configured direction is used", was.Direction == i.Direction)
	}
	for _, o := range h.ops {
		var got *traits.FanSpeed
		var err error
		speed := proto.Clone(o.speed).(*traits.FanSpeed)
		var fm *fieldmaskpb.FieldMask
		var wo []resource.WriteOption
		if o.masked {
			fm = &fieldmaskpb.FieldMask{Paths: append([]string{}, o.mask...)}
			wo = append(wo, resource.WithUpdateMask(fm))
		}
		switch o.kind {
		case 0:
			got, err = m.UpdateFanSpeed(speed, wo...)
		case 1:
			got, err = srv.UpdateFanSpeed(ctx, &traits.UpdateFanSpeedRequest{FanSpeed: speed, UpdateMask: fm, Relative: o.relative})
		case 2:
			got, err = srv.ReverseFanSpeedDirection(ctx, &traits.ReverseFanSpeedDirectionRequest{})
		}
		gv.Note(fmt.Sprintf("%+v: {%v} %v", o, got, err))
		now, _ := srv.GetFanSpeed(ctx, &traits.GetFanSpeedRequest{})
		gv.Ensures("preset, index and percentage agree", specFan(h.presets, now))
		if o.kind == 2 {
			want := proto.Clone(was).(*traits.FanSpeed)
			want.Direction = traits.FanSpeed_BACKWARD
			if was.Direction == traits.FanSpeed_BACKWARD {
				want.Direction = traits.FanSpeed_FORWARD
			}
			gv.Ensures("reversing changes only the direction", err == nil && proto.Equal(got, want) && proto.Equal(now, want))
			was = proto.Clone(now).(*traits.FanSpeed)
			continue
		}
		s := o.speed
		if s.Preset != "" && named(s.Preset) < 0 {
			gv.Ensures("presets that aren't known are refused", status.Code(err) == codes.InvalidArgument && proto.Equal(now, was))
			continue
		}
		gv.Ensures("the update succeeds", err == nil && proto.Equal(got, now))
		gv.Ensures("the direction is that of the update", now.Direction == was.Direction && !o.has("direction") || now.Direction == s.Direction && o.has("direction"))
		switch {
		case o.has("preset") && s.Preset != "" && s.Preset != was.Preset:
			gv.Ensures("a preset decides index and percentage", is(now, named(s.Preset)))
		case o.has("preset_index") && (o.relative || s.PresetIndex != 0 || o.masked) && len(h.presets) > 0 && (!o.relative || s.PresetIndex != 0):
			i := int(s.PresetIndex)
			if o.relative {
				i += int(was.PresetIndex)
			}
			if i == int(was.PresetIndex) {
				break // not changing
			}
			gv.Ensures("an index decides preset and percentage", is(now, max(min(i, len(h.presets)-1), 0)))
		case o.has("percentage") && !o.has("preset") && !o.has("preset_index") ||
			o.has("percentage") && s.Preset == "" && s.PresetIndex == 0 && (o.relative || !o.masked):
			p := s.Percentage
			if o.relative {
				p += was.Percentage
			}
			gv.Ensures("a percentage decides index and preset", now.Percentage == p || math.Abs(float64(now.Percentage-p)) < 0.01)
		case !o.has("percentage") && !o.has("preset") && !o.has("preset_index"):
			gv.Ensures("other updates don't change the speed", now.Preset == was.Preset && now.PresetIndex == was.PresetIndex && now.Percentage == was.Percentage)
		}
		was = proto.Clone(now).(*traits.FanSpeed)
	}
}
