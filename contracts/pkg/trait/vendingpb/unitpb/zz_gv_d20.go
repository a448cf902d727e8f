package unitpb

import (
	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-golang/internal/gv"
)

// unitSize is how many of its category's base unit (length 1, volume 2, weight 3) a unit is.
func unitSize(u traits.Consumable_Unit) (float64, int) {
	switch u {
	case traits.Consumable_METER:
		return 1, 1
	case traits.Consumable_LITER:
		return 1, 2
	case traits.Consumable_CUBIC_METER:
		return 1000, 2
	case traits.Consumable_CUP:
		return 0.2365882365, 2 // a 16th of a US gallon, of 231 cubic inches
	case traits.Consumable_KILOGRAM:
		return 1, 3
	}
	return 0, 0
}

// For every amount (as a real number) and every two units: converted by their sizes, and back, within a category.
//
//gv:property C20
//gv:for Convert covers Convert32
//gv:norun
func gvc_ConvertExactly(v float64, from, to traits.Consumable_Unit) {
	fs, fc := unitSize(from)
	ts, tc := unitSize(to)
	r, err := Convert(v, from, to)
	can := from == to || fc != 0 && fc == tc
	gv.Ensures("it converts within a category, and reports an error otherwise", (err == nil) == can)
	if !can {
		gv.Reach("not convertible")
		return
	}
	gv.Reach("convertible")
	if from == to {
		gv.Ensures("the same unit", r == v)
	} else {
		gv.Ensures("by their sizes", r*ts == v*fs)
	}
	back, err := Convert(r, to, from)
	gv.Ensures("and back", err == nil && back == v)
}
