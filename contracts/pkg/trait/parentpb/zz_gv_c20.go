package parentpb

import (
	"context"
	"fmt"
	"slices"
	"sync"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-golang/internal/gv"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"github.com/smart-core-os/sc-golang/pkg/trait"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
)

type childOp struct {
	kind   int // add traits, remove traits, add child, remove child
	name   string
	traits []trait.Name
	allow  bool
}

type childRun struct {
	initial []*traits.Child
	tracks  [][]childOp
}

// childTraits is a set of trait names for each child.
type childTraits map[string]map[string]bool

func (s childTraits) child(name string) *traits.Child {
	c := &traits.Child{Name: name}
	names := make([]string, 0)
	for t := range s[name] {
		names = append(names, t)
	}
	slices.Sort(names)
	for _, t := range names {
		c.Traits = append(c.Traits, &traits.Trait{Name: t})
	}
	return c
}

func (s childTraits) same(list []*traits.Child) bool {
	if len(list) != len(s) {
		return false
	}
	for i, c := range list {
		if s[c.Name] == nil || !proto.Equal(c, s.child(c.Name)) || i > 0 && list[i-1].Name >= c.Name {
			return false
		}
	}
	return true
}

func (s childTraits) put(c *traits.Child) {
	s[c.Name] = map[string]bool{}
	for _, t := range c.Traits {
		s[c.Name][t.Name] = true
	}
}

var gvTraits = []string{"a", "aa", "ab", "b", "c", "smartcore.traits.Light", "smartcore.traits.OnOff", "smartcore.traits.OnOffInfo", "z", "é"}

func gvChild(g *gv.Gen, name string) *traits.Child {
	s := childTraits{name: {}}
	for i := g.R.Intn(6); i > 0; i-- {
		s[name][gvTraits[g.R.Intn(len(gvTraits))]] = true
	}
	return s.child(name)
}

func gvChildOp(g *gv.Gen, names []string) childOp {
	o := childOp{kind: g.R.Intn(10), name: names[g.R.Intn(len(names))], allow: g.R.Intn(2) == 0}
	for i := g.R.Intn(5); i > 0; i-- {
		o.traits = append(o.traits, trait.Name(gvTraits[g.R.Intn(len(gvTraits))]))
	}
	return o
}

func gvChildRun(g *gv.Gen, names []string) childRun {
	h := childRun{}
	for _, n := range names {
		if g.R.Intn(2) == 0 {
			h.initial = append(h.initial, gvChild(g, n))
		}
	}
	return h
}

func (h childRun) model() (*Model, childTraits) {
	s := childTraits{}
	var opts []resource.Option
	for _, c := range h.initial {
		opts = append(opts, WithInitialChildren(proto.Clone(c).(*traits.Child)))
		s.put(c)
	}
	return NewModel(opts...), s
}

func gvg_ChildTraits(g *gv.Gen) childRun {
	names := []string{"x", "y", "z/1"}[:1+g.R.Intn(3)]
	h := gvChildRun(g, names)
	var t []childOp
	for i := 1 + g.R.Intn(12); i > 0; i-- {
		t = append(t, gvChildOp(g, names))
	}
	h.tracks = [][]childOp{t}
	return h
}

// A child's traits are the sorted union and difference of what was added and removed.
//
//gv:property C20
//gv:for (*Model).AddChildTrait covers (*Model).RemoveChildTrait (*Model).AddChild (*Model).RemoveChildByName (*Model).ListChildren NewModel WithInitialChildren (*ModelServer).ListChildren
//gv:bounded up to 12 calls over up to 3 children and 10 traits, on generated initial children
func gvc_ChildTraits(h childRun) {
	m, s := h.model()
	srv := NewModelServer(m)
	gv.Ensures("the configured children are used", s.same(m.ListChildren()))
	for _, o := range h.tracks[0] {
		gv.Note(fmt.Sprintf("%+v", o))
		_, known := s[o.name]
		switch o.kind {
		default:
			if !known {
				s[o.name] = map[string]bool{}
			}
			for _, t := range o.traits {
				s[o.name][string(t)] = true
			}
			given := slices.Clone(o.traits)
			c, created := m.AddChildTrait(o.name, given...)
			gv.Ensures("a child is created if it wasn't known", created == !known)
			gv.Ensures("the child returned has the union of its traits and those added, sorted", proto.Equal(c, s.child(o.name)))
			gv.Ensures("the names passed aren't changed", slices.Equal(given, o.traits))
		case 4, 5, 6, 7:
			for _, t := range o.traits {
				delete(s[o.name], string(t))
			}
			c := m.RemoveChildTrait(o.name, slices.Clone(o.traits)...)
			gv.Ensures("removing from an unknown child returns nil", known == (c != nil))
			gv.Ensures("the child returned has its traits without those removed, sorted", !known || proto.Equal(c, s.child(o.name)))
		case 8:
			c := childTraits{o.name: {}}
			for _, t := range o.traits {
				c[o.name][string(t)] = true
			}
			m.AddChild(c.child(o.name))
			if !known {
				s[o.name] = c[o.name]
			}
		case 9:
			want := s.child(o.name)
			c, err := m.RemoveChildByName(o.name, resource.WithAllowMissing(o.allow))
			gv.Ensures("removing an unknown child fails unless that's allowed", known && err == nil || !known && (err == nil) == o.allow && (err == nil || status.Code(err) == codes.NotFound))
			gv.Ensures("removing a child returns it", !known || proto.Equal(c, want))
			delete(s, o.name)
		}
		gv.Ensures("the children are as specified", s.same(m.ListChildren()))
	}
	r, err := srv.ListChildren(context.Background(), &traits.ListChildrenRequest{})
	gv.Ensures("the server lists the children", err == nil && s.same(r.Children))
}

func gvg_ChildTraitsTogether(g *gv.Gen) childRun {
	names := []string{"x", "y"}[:1+g.R.Intn(2)]
	h := gvChildRun(g, names)
	for i := 2 + g.R.Intn(3); i > 0; i-- {
		var t []childOp
		for n := 1 + g.R.Intn(4); n > 0; n-- {
			t = append(t, gvChildOp(g, names))
		}
		h.tracks = append(h.tracks, t)
	}
	return h
}

// Traits added concurrently are all there, and those removed concurrently aren't.
//
//gv:property C20
//gv:for (*Model).AddChildTrait covers (*Model).RemoveChildTrait
//gv:bounded up to 4 callers of up to 4 calls over 2 children; schedules perturbed at every statement of the package
//gv:sched
func gvc_ChildTraitsTogether(h childRun) {
	m, s := h.model()
	// traits that are both added and removed are left out of this
	removes := childTraits{}
	for _, c := range []string{"x", "y"} {
		removes[c] = map[string]bool{}
	}
	for i := range h.tracks {
		for j, o := range h.tracks[i] {
			for _, t := range o.traits {
				if i%2 == 1 {
					removes[o.name][string(t)] = true
				}
			}
			h.tracks[i][j].allow = i%2 == 1 // removes
		}
	}
	for i := range h.tracks {
		for j, o := range h.tracks[i] {
			var ts []trait.Name
			for _, t := range o.traits {
				if i%2 == 1 || !removes[o.name][string(t)] {
					ts = append(ts, t)
				}
			}
			h.tracks[i][j].traits = ts
			if i%2 == 0 && s[o.name] == nil {
				s[o.name] = map[string]bool{}
			}
		}
	}
	for i := range h.tracks {
		for _, o := range h.tracks[i] {
			for _, t := range o.traits {
				if i%2 == 1 {
					delete(s[o.name], string(t))
				} else {
					s[o.name][string(t)] = true
				}
			}
		}
	}
	var wg sync.WaitGroup
	var panicked sync.Map
	for i := range h.tracks {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					panicked.Store(i, e)
				}
			}()
			for _, o := range h.tracks[i] {
				if o.allow {
					m.RemoveChildTrait(o.name, o.traits...)
				} else {
					m.AddChildTrait(o.name, o.traits...)
				}
			}
		}()
	}
	wg.Wait()
	none := true
	panicked.Range(func(k, v any) bool { gv.Note(fmt.Sprint(v)); none = false; return true })
	gv.Ensures("no call panics", none)
	gv.Ensures("the children have the traits added, without those removed", s.same(m.ListChildren()))
}
