package resource

import (
	"context"

	"github.com/smart-core-os/sc-golang/internal/gv"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/fieldmaskpb"
)

type maskedRead struct {
	items   []proto.Message
	paths   []string // nil: no mask
	invalid bool
}

func gvg_MaskedRead(g *gv.Gen) maskedRead {
	var r maskedRead
	m := gvAnyMessage(g)
	for i := 1 + g.R.Intn(3); i > 0; i-- {
		n := m.ProtoReflect().New()
		g.Message(n, 1)
		r.items = append(r.items, n.Interface())
	}
	r.invalid = g.R.Intn(4) == 0
	if g.R.Intn(6) > 0 {
		r.paths = g.Paths(m.ProtoReflect().Descriptor(), g.R.Intn(5), r.invalid)
	}
	r.invalid = !gv.ValidPaths(m, r.paths)
	return r
}

func (r maskedRead) is(got, stored proto.Message) bool {
	return r.invalid || sameMsg(got, gv.ProjectPaths(stored, r.paths))
}

// Get, List and Pull return the projection of what is stored, and leave it alone.
//
//gv:property C06
//gv:for Value.Get covers Collection.Get Collection.List Value.Pull Collection.Pull ReadRequest.FilterClone CollectionChange.filter ValueChange.filter masks.ResponseFilter.FilterClone
//gv:bounded generated messages of every field kind and trait messages, with generated valid and invalid read masks
func gvc_MaskedReads(r maskedRead) {
	var ro []ReadOption
	if r.paths != nil {
		ro = append(ro, WithReadMask(&fieldmaskpb.FieldMask{Paths: append([]string{}, r.paths...)}))
	}
	ctx, stop := context.WithCancel(context.Background())
	defer stop()
	first := r.items[0]

	v := NewValue(WithInitialValue(proto.Clone(first)))
	stored := v.Get()
	gv.Ensures("Get is the projection of the value", r.is(v.Get(ro...), first))
	gv.Ensures("Get alters nothing", sameMsg(stored, first) && sameMsg(v.Get(), first))
	n := 0
	out := collect(v.Pull(ctx, append(ro, WithBackpressure(true))...), func(*ValueChange) bool { n++; return n > len(r.items) })
	for _, m := range r.items {
		_, err := v.Set(proto.Clone(m))
		gv.Ensures("the write succeeds", err == nil)
	}
	got := await("the subscriber receives every value", out)
	gv.Ensures("the seed is the projection of the value", r.is(got[0].Value, first))
	for i, m := range r.items {
		gv.Ensures("each change is the projection of the new value", r.is(got[i+1].Value, m))
	}
	gv.Ensures("Pull alters nothing", sameMsg(v.Get(), r.items[len(r.items)-1]) && sameMsg(stored, first))

	opts := []Option{WithInitialRecord("a", proto.Clone(first))}
	for i, m := range r.items[1:] {
		opts = append(opts, WithInitialRecord(string(rune('b'+i)), proto.Clone(m)))
	}
	c := NewCollection(opts...)
	one, ok := c.Get("a", ro...)
	gv.Ensures("Get is the projection of the item", ok && r.is(one, first))
	unchanged := func() bool {
		all := c.List()
		if len(all) != len(r.items) {
			return false
		}
		for i, m := range r.items {
			if !sameMsg(all[i], m) {
				return false
			}
		}
		return true
	}
	list := c.List(ro...)
	gv.Ensures("List returns every item", len(list) == len(r.items))
	for i, m := range r.items {
		gv.Ensures("List is the projection of each item", r.is(list[i], m))
	}
	gv.Ensures("Get and List alter nothing", unchanged())
	k := 0
	cout := collect(c.Pull(ctx, append(ro, WithBackpressure(true))...), func(*CollectionChange) bool { k++; return k >= len(r.items)+2 })
	last := r.items[len(r.items)-1]
	_, err := c.Update("a", proto.Clone(last))
	gv.Ensures("the write succeeds", err == nil)
	_, err = c.Delete("a")
	gv.Ensures("the write succeeds", err == nil)
	evs := await("the subscriber receives every change", cout)
	for i, m := range r.items {
		gv.Ensures("each seed is the projection of the item", r.is(evs[i].NewValue, m))
	}
	up, rm := evs[len(r.items)], evs[len(r.items)+1]
	gv.Ensures("old and new values of an update are projections", r.is(up.OldValue, first) && r.is(up.NewValue, last))
	gv.Ensures("the old value of a removal is a projection", r.is(rm.OldValue, last) && rm.NewValue == nil)
}

func gvg_MaskedReads(g *gv.Gen) maskedRead { return gvg_MaskedRead(g) }
