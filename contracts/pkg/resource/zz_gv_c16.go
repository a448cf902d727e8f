package resource

import (
	"context"

	"github.com/smart-core-os/sc-golang/internal/gv"
	"github.com/smart-core-os/sc-golang/internal/testproto"
	"github.com/smart-core-os/sc-golang/pkg/cmp"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/fieldmaskpb"
)

type dedupHistory struct {
	tolerance float64 // negative for exact equality
	mask      []string
	include   int // which ids and values are included
	initial   map[string]*testproto.TestAllTypes
	ops       []dedupOp
	updates   bool
}

type dedupOp struct {
	id  string
	msg *testproto.TestAllTypes // nil for delete
}

var dedupMasks = [][]string{nil, nil, {"default_int32"}, {"default_float"}, {"default_string", "default_float"}, {"default_nested_message"}}

func gvg_Dedup(g *gv.Gen) dedupHistory {
	h := dedupHistory{tolerance: []float64{-1, -1, 0.25, 0.5}[g.R.Intn(4)], mask: dedupMasks[g.R.Intn(len(dedupMasks))], include: g.R.Intn(4)}
	h.updates = h.tolerance < 0 && g.R.Intn(3) == 0
	h.initial = map[string]*testproto.TestAllTypes{}
	for i := g.R.Intn(3); i > 0; i-- {
		h.initial[gvIds[1+g.R.Intn(3)]] = gvMsg(g)
	}
	for i := 1 + g.R.Intn(12); i > 0; i-- {
		o := dedupOp{gvIds[1+g.R.Intn(3)], gvMsg(g)}
		if g.R.Intn(3) > 0 { // only the float differs
			o.msg = &testproto.TestAllTypes{DefaultFloat: float32(g.R.Intn(5)) / 4}
		}
		if g.R.Intn(5) == 0 {
			o.msg = nil
		}
		h.ops = append(h.ops, o)
	}
	return h
}

func gvg_DedupValue(g *gv.Gen) dedupHistory      { return gvg_Dedup(g) }
func gvg_DedupCollection(g *gv.Gen) dedupHistory { return gvg_Dedup(g) }

func (h dedupHistory) equiv() cmp.Message {
	if h.tolerance < 0 {
		return cmp.Equal()
	}
	return cmp.Equal(cmp.FloatValueApprox(0, h.tolerance))
}

func (h dedupHistory) option() Option {
	if h.tolerance < 0 {
		return WithNoDuplicates()
	}
	return WithMessageEquivalence(h.equiv())
}

func (h dedupHistory) project(m proto.Message) proto.Message {
	if m == nil {
		return nil
	}
	t := m.(*testproto.TestAllTypes)
	if h.mask == nil {
		return proto.Clone(t)
	}
	r := &testproto.TestAllTypes{}
	for _, p := range h.mask {
		switch p {
		case "default_int32":
			r.DefaultInt32 = t.DefaultInt32
		case "default_float":
			r.DefaultFloat = t.DefaultFloat
		case "default_string":
			r.DefaultString = t.DefaultString
		case "default_nested_message":
			if t.DefaultNestedMessage != nil {
				r.DefaultNestedMessage = proto.Clone(t.DefaultNestedMessage).(*testproto.TestAllTypes_NestedMessage)
			}
		}
	}
	return r
}

func (h dedupHistory) readOptions() []ReadOption {
	ro := []ReadOption{WithBackpressure(true), WithUpdatesOnly(h.updates)}
	if h.mask != nil {
		ro = append(ro, WithReadMask(&fieldmaskpb.FieldMask{Paths: h.mask}))
	}
	return ro
}

// A Value with an equivalence delivers exactly the values that aren't equivalent to the one the subscriber has.
//
//gv:property C16
//gv:for Value.Pull
//gv:bounded generated histories of up to 12 writes, exact and tolerant equivalences, with read masks
func gvc_DedupValue(h dedupHistory) {
	eq := h.equiv()
	v := NewValue(WithInitialValue(&testproto.TestAllTypes{}), h.option())
	for _, m := range h.initial {
		_, err := v.Set(m)
		gv.Ensures("the write succeeds", err == nil)
	}
	ctx, stop := context.WithCancel(context.Background())
	defer stop()
	cur := v.Get()
	// what the subscriber should see
	var want []proto.Message
	var held proto.Message
	optional := -1 // updates only: the subscriber might be taken to have the value from before it subscribed
	if h.updates {
		held = nil
	} else {
		held = h.project(cur)
		want = append(want, held)
	}
	before := h.project(cur)
	see := func(m proto.Message) {
		p := h.project(m)
		if held != nil && eq(held, p) {
			return
		}
		if held == nil && eq(before, p) {
			optional = len(want)
		}
		held = p
		want = append(want, p)
	}
	for _, o := range h.ops {
		if o.msg == nil {
			continue
		}
		see(o.msg)
	}
	// a last write that can't be equivalent to anything, whatever the mask
	end := &testproto.TestAllTypes{DefaultInt32: 99, DefaultFloat: 99, DefaultString: gvEnd, DefaultNestedMessage: &testproto.TestAllTypes_NestedMessage{A: 99}}
	see(end)
	stopAt := h.project(end)
	stop2 := collectValue(v, ctx, h, stopAt)
	for _, o := range h.ops {
		if o.msg == nil {
			continue
		}
		_, err := v.Set(proto.Clone(o.msg))
		gv.Ensures("the write succeeds", err == nil)
	}
	_, err := v.Set(end)
	gv.Ensures("the write succeeds", err == nil)
	got := await("the subscriber receives the final value", stop2)
	var vals []proto.Message
	for _, c := range got {
		vals = append(vals, c.Value)
	}
	ok := sameSeq(vals, want)
	if !ok && optional >= 0 {
		ok = sameSeq(vals, append(append([]proto.Message{}, want[:optional]...), want[optional+1:]...))
	}
	gv.Ensures("the subscriber receives exactly the values that aren't equivalent to the one it has", ok)
}

func collectValue(v *Value, ctx context.Context, h dedupHistory, end proto.Message) <-chan []*ValueChange {
	return collect(v.Pull(ctx, h.readOptions()...), func(c *ValueChange) bool { return proto.Equal(c.Value, end) })
}

func sameSeq(a, b []proto.Message) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !sameMsg(a[i], b[i]) {
			return false
		}
	}
	return true
}

func (h dedupHistory) included(id string, m proto.Message) bool {
	if m == nil {
		return false
	}
	t := m.(*testproto.TestAllTypes)
	switch h.include {
	case 1:
		return t.DefaultFloat < 0.5 || t.DefaultFloat > 1
	case 2:
		return id != "b" && t.DefaultInt32 != 1
	}
	return true
}

type seen struct {
	id  string
	new proto.Message
}

// A Collection with an equivalence delivers exactly the changes that aren't equivalent to the item the subscriber has.
//
//gv:property C16
//gv:for Collection.Pull covers CollectionChange.include CollectionChange.filter
//gv:bounded generated histories of up to 12 writes over 3 ids, exact and tolerant equivalences, with read masks and filters
func gvc_DedupCollection(h dedupHistory) {
	eq := h.equiv()
	opts := []Option{h.option()}
	for id, m := range h.initial {
		opts = append(opts, WithInitialRecord(id, m))
	}
	c := NewCollection(opts...)
	ro := h.readOptions()
	if h.include > 0 {
		ro = append(ro, WithInclude(func(id string, m proto.Message) bool { return h.included(id, m) }))
	}
	ctx, stop := context.WithCancel(context.Background())
	defer stop()
	out := collect(c.Pull(ctx, ro...), func(c *CollectionChange) bool { return c.Id == gvEnd })

	held := map[string]proto.Message{}
	stored := map[string]proto.Message{}
	var want []seen
	for _, id := range gvIds {
		if m := h.initial[id]; m != nil {
			stored[id] = m
			if h.included(id, m) {
				held[id] = h.project(m)
				if !h.updates {
					want = append(want, seen{id, held[id]})
				}
			}
		}
	}
	see := func(id string, m proto.Message) {
		if m == nil {
			delete(stored, id)
		} else {
			stored[id] = m
		}
		var p proto.Message
		if m != nil && h.included(id, m) {
			p = h.project(m)
		}
		was := held[id]
		if was == nil && p == nil || was != nil && p != nil && eq(was, p) {
			return
		}
		if p == nil {
			delete(held, id)
		} else {
			held[id] = p
		}
		want = append(want, seen{id, p})
	}
	for _, o := range append(h.ops, dedupOp{gvEnd, &testproto.TestAllTypes{DefaultFloat: 5}}) {
		if o.msg == nil {
			if stored[o.id] == nil {
				continue
			}
			_, err := c.Delete(o.id)
			gv.Ensures("the write succeeds", err == nil)
			see(o.id, nil)
			continue
		}
		_, err := c.Update(o.id, proto.Clone(o.msg), WithCreateIfAbsent())
		gv.Ensures("the write succeeds", err == nil)
		see(o.id, o.msg)
	}
	got := await("the subscriber receives the final change", out)
	ok := len(got) == len(want)
	for i := 0; ok && i < len(want); i++ {
		ok = got[i].Id == want[i].id && sameMsg(got[i].NewValue, want[i].new)
	}
	gv.Ensures("the subscriber receives exactly the changes that aren't equivalent to what it has", ok)
}
