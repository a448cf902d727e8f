package modepb

import (
	"context"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-golang/internal/gv"
)

// Steps of any size from any value of a mode with up to three values: wrapping around, other modes stay as they are.
//
//gv:property C20
//gv:for (*ModelServer).UpdateModeValues covers NewModelModes (*Model).UpdateModeValues (*Model).AvailableValues (*Model).ModeValues
func gvc_RelativeStep(n int, v [3]string, set bool, cur string, step int32, otherToo bool) {
	gv.Requires(n >= 0)
	gv.Bound("values", n, 3)
	for i := 0; i < 3; i++ {
		gv.Requires(v[i] != "")
		for j := 0; j < i; j++ {
			gv.Requires(v[i] != v[j])
		}
	}
	mode := &traits.Modes_Mode{Name: "m", Ordered: true}
	for i := 0; i < n; i++ {
		mode.Values = append(mode.Values, &traits.Modes_Value{Name: v[i]})
	}
	other := &traits.Modes_Mode{Name: "o", Values: []*traits.Modes_Value{{Name: "p"}, {Name: "q"}}}
	m := NewModelModes(&traits.Modes{Modes: []*traits.Modes_Mode{mode, other}})
	was, ok := m.ModeValues().Values["m"]
	gv.Ensures("the first value is selected", ok == (n > 0) && (n == 0 || was == v[0]))
	gv.Ensures("for every mode", m.ModeValues().Values["o"] == "p")
	if set {
		_, err := m.UpdateModeValues(&traits.ModeValues{Values: map[string]string{"m": cur, "o": "p"}})
		gv.Ensures("it is set", err == nil && m.ModeValues().Values["m"] == cur)
		was, ok = cur, true
	}
	req := &traits.UpdateModeValuesRequest{Relative: &traits.ModeValuesRelative{Values: map[string]int32{"m": step}}}
	if otherToo {
		req.Relative.Values["o"] = 1
	}
	got, err := NewModelServer(m).UpdateModeValues(context.Background(), req)
	gv.Ensures("a step is taken", err == nil)
	now := m.ModeValues()
	at := -1
	for i := 0; i < n; i++ {
		if v[i] == was {
			at = i
		}
	}
	value, has := now.Values["m"]
	gotValue, gotHas := got.Values["m"]
	gv.Ensures("the response is the value now", gotHas == has && gotValue == value)
	switch {
	case n == 0:
		gv.Ensures("a mode of no values stays", has == ok && value == was)
	case at < 0:
		gv.Reach("from an unknown value")
		gv.Ensures("the first value is selected when the current isn't known", value == v[0] || step == 0 && value == was)
	default:
		gv.Reach("a step")
		i := (int64(at) + int64(step)) % int64(n)
		if i < 0 {
			i += int64(n)
		}
		gv.Ensures("by as many values as asked, wrapping", value == v[i])
	}
	if otherToo {
		gv.Ensures("the other mode steps too", now.Values["o"] == "q")
	} else {
		gv.Ensures("the other mode stays", now.Values["o"] == "p")
	}
}

func gvg_RelativeStep(g *gv.Gen) (n int, v [3]string, set bool, cur string, step int32, otherToo bool) {
	step = int32(g.R.Intn(15) - 7)
	if g.R.Intn(5) == 0 {
		step = int32(g.R.Uint32())
	}
	return g.R.Intn(4), [3]string{"a", "b", "c"}, g.R.Intn(2) == 0, []string{"", "a", "b", "c", "d"}[g.R.Intn(5)], step, g.R.Intn(2) == 0
}
