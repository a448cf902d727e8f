package unitpb

import (
	"math"
	"math/big"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-golang/internal/gv"
)

// gvUnit is how many of its category's base unit (meter, liter, kilogram) a unit is.
type gvUnit struct {
	category string
	size     *big.Rat
}

func gvRat(s string) *big.Rat { r, _ := new(big.Rat).SetString(s); return r }

var gvUnits = map[traits.Consumable_Unit]gvUnit{
	traits.Consumable_METER:       {"length", gvRat("1")},
	traits.Consumable_LITER:       {"volume", gvRat("1")},
	traits.Consumable_CUBIC_METER: {"volume", gvRat("1000")},
	traits.Consumable_CUP:         {"volume", gvRat("0.2365882365")}, // a 16th of a US gallon, of 231 cubic inches
	traits.Consumable_KILOGRAM:    {"weight", gvRat("1")},
}

type conversion struct {
	v        float64
	from, to traits.Consumable_Unit
}

func gvg_Convert(g *gv.Gen) conversion {
	c := conversion{from: traits.Consumable_Unit(g.R.Intn(8)), to: traits.Consumable_Unit(g.R.Intn(8))}
	switch g.R.Intn(4) {
	case 0:
		c.v = float64(g.R.Intn(20) - 5)
	case 1:
		c.v = g.R.NormFloat64() * 1000
	case 2:
		c.v = g.R.NormFloat64() * math.Pow(10, float64(g.R.Intn(60)-30))
	}
	return c
}

func gvClose(got float64, want *big.Rat, eps float64) bool {
	w, _ := want.Float64()
	return math.Abs(got-w) <= eps*math.Abs(w)
}

// Units of a category convert by their sizes and back, others don't.
//
//gv:property C20
//gv:for Convert covers Convert32
//gv:bounded generated amounts, of every pair of units; compared with exact rational arithmetic to 12 digits
func gvc_Convert(c conversion) {
	from, fromOK := gvUnits[c.from]
	to, toOK := gvUnits[c.to]
	can := c.from == c.to || fromOK && toOK && from.category == to.category
	r, err := Convert(c.v, c.from, c.to)
	r32, err32 := Convert32(float32(c.v), c.from, c.to)
	gv.Ensures("conversion succeeds within a category only", (err == nil) == can && (err32 == nil) == can)
	if !can {
		return
	}
	want, want32 := new(big.Rat).SetFloat64(c.v), new(big.Rat).SetFloat64(float64(float32(c.v)))
	if c.from != c.to {
		ratio := new(big.Rat).Quo(from.size, to.size)
		want.Mul(want, ratio)
		want32.Mul(want32, ratio)
	}
	gv.Ensures("the amount is converted", gvClose(r, want, 1e-12))
	gv.Ensures("the amount is converted, at 32 bits", gvClose(float64(r32), want32, 1e-6) || math.Abs(c.v) < 1e-25 || math.Abs(c.v) > 1e25)
	back, err := Convert(r, c.to, c.from)
	gv.Ensures("the amount converts back", err == nil && gvClose(back, new(big.Rat).SetFloat64(c.v), 1e-12))
}
