package modepb

import (
	"context"
	"fmt"
	"maps"
	"math"
	"slices"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-golang/internal/gv"
	"google.golang.org/protobuf/proto"
)

type modeStep struct {
	server   bool
	values   map[string]string // nil: none
	relative map[string]int32
}

type modesRun struct {
	modes *traits.Modes // nil: the default
	steps []modeStep
}

var gvModeNames = []string{"temperature", "spin", "speed"}

func gvg_Modes(g *gv.Gen) modesRun {
	h := modesRun{}
	modes := DefaultModes
	if g.R.Intn(4) > 0 {
		modes = &traits.Modes{}
		for _, i := range g.R.Perm(3)[:g.R.Intn(4)] {
			mode := &traits.Modes_Mode{Name: gvModeNames[i], Ordered: g.R.Intn(2) == 0}
			for j := g.R.Intn(5); j > 0; j-- {
				mode.Values = append(mode.Values, &traits.Modes_Value{Name: fmt.Sprint("v", j)})
			}
			modes.Modes = append(modes.Modes, mode)
		}
		h.modes = modes
	}
	value := func(name string) string {
		for _, m := range modes.Modes {
			if m.Name == name && len(m.Values) > 0 && g.R.Intn(6) > 0 {
				return m.Values[g.R.Intn(len(m.Values))].Name
			}
		}
		return "odd"
	}
	for i := 1 + g.R.Intn(8); i > 0; i-- {
		s := modeStep{server: g.R.Intn(5) > 0}
		if g.R.Intn(2) == 0 || !s.server {
			s.values = map[string]string{}
			for _, n := range gvModeNames {
				if g.R.Intn(3) > 0 {
					s.values[n] = value(n)
				}
			}
		}
		if s.server && (s.values == nil || g.R.Intn(3) == 0) {
			s.relative = map[string]int32{}
			for _, n := range gvModeNames {
				if g.R.Intn(2) == 0 {
					s.relative[n] = int32(g.R.Intn(13) - 6)
					switch g.R.Intn(12) {
					case 0:
						s.relative[n] = math.MaxInt32
					case 1:
						s.relative[n] = math.MinInt32
					}
				}
			}
		}
		h.steps = append(h.steps, s)
	}
	return h
}

// Modes start at their first values and wrap around in relative steps.
//
//gv:property C20
//gv:for (*ModelServer).UpdateModeValues covers NewModel NewModelModes (*Model).UpdateModeValues (*Model).Modes (*Model).AvailableValues (*ModelServer).GetModeValues
//gv:bounded up to 8 updates, of generated modes
func gvc_Modes(h modesRun) {
	ctx := context.Background()
	modes := DefaultModes
	var m *Model
	if h.modes != nil {
		modes = h.modes
		m = NewModelModes(proto.Clone(modes).(*traits.Modes))
	} else {
		m = NewModel()
	}
	srv := NewModelServer(m)
	values := map[string][]string{}
	want := map[string]string{}
	for _, mode := range modes.Modes {
		for _, v := range mode.Values {
			values[mode.Name] = append(values[mode.Name], v.Name)
		}
		if len(mode.Values) > 0 {
			want[mode.Name] = mode.Values[0].Name
		}
	}
	gv.Ensures("the configured modes are used", proto.Equal(m.Modes(), modes))
	gv.Ensures("the first values are selected", maps.Equal(m.ModeValues().Values, want))
	for _, s := range h.steps {
		var err error
		var got *traits.ModeValues
		var mv *traits.ModeValues
		if s.values != nil {
			mv = &traits.ModeValues{Values: maps.Clone(s.values)}
		}
		if s.server {
			req := &traits.UpdateModeValuesRequest{ModeValues: mv}
			if s.relative != nil {
				req.Relative = &traits.ModeValuesRelative{Values: maps.Clone(s.relative)}
			}
			got, err = srv.UpdateModeValues(ctx, req)
		} else {
			got, err = m.UpdateModeValues(mv)
		}
		gv.Note(fmt.Sprintf("%+v: {%v} %v", s, got, err))
		next := map[string]string{}
		if s.values != nil {
			next = maps.Clone(s.values)
		} else if len(s.relative) > 0 {
			maps.Copy(next, want)
		}
		for n, by := range s.relative {
			if _, absolute := s.values[n]; absolute && by == 0 {
				continue // either will do
			}
			vs := values[n]
			if len(vs) == 0 {
				continue
			}
			next[n] = vs[0] // if there's no telling where it is
			if now, ok := want[n]; ok && by == 0 && !slices.Contains(vs, now) && got.GetValues()[n] == now {
				next[n] = now // it may stay there
			}
			for i, v := range vs {
				if v == want[n] {
					next[n] = vs[((int64(i)+int64(by))%int64(len(vs))+int64(len(vs)))%int64(len(vs))]
				}
			}
		}
		if s.values == nil && len(s.relative) == 0 {
			next = got.GetValues() // what an update with neither does isn't specified
		}
		gv.Ensures("the update succeeds", err == nil && got != nil)
		gv.Ensures("the values returned are those selected or stepped to", maps.Equal(got.Values, next))
		gv.Ensures("the values are those selected or stepped to", maps.Equal(m.ModeValues().Values, next))
		want = maps.Clone(next)
	}
}
