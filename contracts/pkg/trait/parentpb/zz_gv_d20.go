package parentpb

import (
	"time"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-golang/internal/gv"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"github.com/smart-core-os/sc-golang/pkg/trait"
)

type dTick struct{ n int64 }

func (c *dTick) Now() time.Time {
	c.n++
	return time.Unix(100+c.n, 0)
}
func (c *dTick) After(d time.Duration) <-chan time.Time { return time.After(d) }

// dNames are names in order; the child has the first few of those at 2, 5 and 8, so that up to two more can go before, between
// and after those in any way.
var dNames = [11]string{"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k"}

func dTraits(n int) (ts []*traits.Trait) {
	for i := 0; i < n; i++ {
		ts = append(ts, &traits.Trait{Name: dNames[2+3*i]})
	}
	return ts
}

// dPick is the k'th name.
func dPick(k uint8) string {
	for i := range dNames {
		if int(k) == i {
			return dNames[i]
		}
	}
	return ""
}

func dHas(ts []*traits.Trait, name string) bool {
	for _, t := range ts {
		if t.Name == name {
			return true
		}
	}
	return false
}

func dSorted(ts []*traits.Trait) bool {
	for i := 0; i+1 < len(ts); i++ {
		if ts[i].Name >= ts[i+1].Name {
			return false
		}
	}
	return true
}

// The traits of a child after some are added or removed: the union or difference, sorted and free of duplicates. For
// children with up to three traits and up to two names in any order among them (names are but compared).
//
//gv:property C20
//gv:for (*Model).AddChildTrait covers (*Model).AddChild (*Model).RemoveChildTrait (*Model).ListChildren traitUnion traitRemove
func gvc_ChildTraitsUpdated(exists, remove bool, has, n int, x, y uint8) {
	gv.Requires(has >= 0 && n >= 0 && x < 11 && y < 11)
	gv.Bound("traits of a child", has, 3)
	gv.Bound("names", n, 2)
	const name, other = "child", "another"
	m := NewModel(resource.WithClock(&dTick{}))
	m.AddChild(&traits.Child{Name: other, Traits: dTraits(1)})
	if exists {
		m.AddChild(&traits.Child{Name: name, Traits: dTraits(has)})
	}
	var names []trait.Name
	first, second := "", ""
	if n > 0 {
		first = dPick(x)
		names = append(names, trait.Name(first))
	}
	if n > 1 {
		second = dPick(y)
		names = append(names, trait.Name(second))
	}
	var got *traits.Child
	if remove {
		got = m.RemoveChildTrait(name, names...)
		if !exists {
			gv.Ensures("there is no such child", got == nil)
			gv.Ensures("nor does it appear", len(m.ListChildren()) == 1)
			return
		}
	} else {
		var created bool
		got, created = m.AddChildTrait(name, names...)
		gv.Ensures("created if it wasn't there", created == !exists)
	}
	gv.Ensures("of the child", got.Name == name)
	all := m.ListChildren()
	gv.Ensures("other children stay", len(all) == 2 && all[0].Name == other && len(all[0].Traits) == 1 && all[0].Traits[0].Name == dNames[2])
	gv.Ensures("it is stored", all[1].Name == name)
	for _, c := range []*traits.Child{got, all[1]} {
		count := 0
		for i, q := range dNames {
			had := exists && i >= 2 && (i-2)%3 == 0 && (i-2)/3 < has
			named := q == first || q == second
			want := had || named
			if remove {
				want = had && !named
			}
			if want {
				count++
			}
			gv.Ensures("the union or difference", dHas(c.Traits, q) == want)
		}
		gv.Ensures("sorted, without duplicates", len(c.Traits) == count && dSorted(c.Traits))
	}
}

func gvg_ChildTraitsUpdated(g *gv.Gen) (exists, remove bool, has, n int, x, y uint8) {
	return g.R.Intn(3) > 0, g.R.Intn(2) == 0, g.R.Intn(4), g.R.Intn(3), uint8(g.R.Intn(11)), uint8(g.R.Intn(11))
}
