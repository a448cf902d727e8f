package resource

import (
	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-golang/internal/gv"
	"github.com/smart-core-os/sc-golang/internal/testproto"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/fieldmaskpb"
)

type maskedWrite struct {
	stored, written proto.Message
	update          []string // nil: no mask
	writable        []string
	more            []string
	reset           []string
	allWritable     bool
}

func gvAnyMessage(g *gv.Gen) proto.Message {
	switch g.R.Intn(12) {
	case 0:
		return &traits.ElectricMode{}
	case 1:
		return &traits.EnergyLevel{}
	case 2:
		return &traits.AirTemperature{}
	case 3:
		return &traits.Metadata{}
	case 4:
		return &traits.Booking{}
	}
	return &testproto.TestAllTypes{}
}

func gvg_MaskedWrite(g *gv.Gen) maskedWrite {
	var w maskedWrite
	w.stored = gvAnyMessage(g)
	d := w.stored.ProtoReflect().Descriptor()
	g.Message(w.stored.ProtoReflect(), 1)
	if g.R.Intn(2) == 0 {
		w.written = proto.Clone(w.stored)
		g.Mutate(w.written.ProtoReflect(), g.R.Intn(5))
	} else {
		w.written = w.stored.ProtoReflect().New().Interface()
		g.Message(w.written.ProtoReflect(), 1)
		g.Mutate(w.written.ProtoReflect(), g.R.Intn(3))
	}
	if g.R.Intn(3) > 0 {
		w.writable = g.Paths(d, g.R.Intn(4), false)
	}
	if g.R.Intn(4) == 0 {
		w.more = g.Paths(d, g.R.Intn(3), false)
	}
	w.allWritable = g.R.Intn(8) == 0
	if g.R.Intn(4) == 0 {
		w.reset = g.Paths(d, g.R.Intn(3), false)
	}
	switch g.R.Intn(5) {
	case 0:
	case 1, 2: // pick from what is writable, and below
		w.update = []string{}
		for _, p := range append(append([]string{}, w.writable...), w.more...) {
			if g.R.Intn(3) > 0 {
				w.update = append(w.update, p)
			}
		}
		if g.R.Intn(8) == 0 {
			w.update = append(w.update, g.Paths(d, 1, false)...)
		}
		if n := len(w.update); n > 0 && g.R.Intn(4) == 0 {
			w.update = append(w.update, w.update[g.R.Intn(n)])
		}
	default:
		w.update = g.Paths(d, g.R.Intn(4), g.R.Intn(6) == 0)
	}
	return w
}

func maskOf(paths []string) *fieldmaskpb.FieldMask {
	if paths == nil {
		return nil
	}
	return &fieldmaskpb.FieldMask{Paths: append([]string{}, paths...)}
}

// effective is the writable paths of the write, nil for all.
func (w maskedWrite) effective() []string {
	if w.allWritable || w.writable == nil {
		return nil
	}
	return append(append([]string{}, w.writable...), w.more...)
}

// writeOptions for the masks of the write.
func (w maskedWrite) writeOptions() []WriteOption {
	var wo []WriteOption
	if w.update != nil {
		wo = append(wo, WithUpdateMask(maskOf(w.update)))
	}
	if w.more != nil {
		// in two parts, they add up
		n := len(w.more) / 2
		wo = append(wo, WithMoreWritableFields(maskOf(w.more[:n])), WithMoreWritablePaths(w.more[n:]...))
	}
	if w.allWritable {
		wo = append(wo, WithAllFieldsWritable())
	}
	if w.reset != nil {
		wo = append(wo, WithResetMask(maskOf(w.reset)))
	}
	return wo
}

func (w maskedWrite) options() []Option {
	if w.writable == nil {
		return nil
	}
	return []Option{WithWritableFields(maskOf(w.writable))}
}

// rejected says whether the update mask must be rejected. Unsure: a mask naming a message, all of whose fields are
// writable one by one, may be accepted.
func (w maskedWrite) rejected() (rejected, unsure bool) {
	if w.update == nil {
		return false, false
	}
	if !gv.ValidPaths(w.stored, w.update) {
		return true, false
	}
	eff := w.effective()
	if eff == nil {
		return false, false
	}
	t := gv.Tree(eff)
	for _, p := range w.update {
		if !t.Covers(p) {
			rejected = true
			for _, q := range eff {
				if len(q) > len(p) && q[:len(p)+1] == p+"." {
					unsure = true
				}
			}
		}
	}
	return
}

// check compares the result of a write with what the masks allow.
func (w maskedWrite) check(what string, pre, got, after proto.Message, err error) {
	rej, unsure := w.rejected()
	if rej && !(unsure && err == nil) {
		gv.Ensures(what+": a mask naming unknown or read-only fields is rejected with InvalidArgument", status.Code(err) == codes.InvalidArgument)
		gv.Ensures(what+": a rejected write changes nothing", sameMsg(pre, after))
		return
	}
	if rej {
		return
	}
	gv.Ensures(what+": a valid mask of writable fields is accepted", err == nil)
	base := pre
	if base == nil {
		base = w.written.ProtoReflect().New().Interface()
	}
	want := gv.MaskedWrite(base, w.written, w.update, w.effective(), w.reset)
	eff := w.effective()
	trees := []gv.MaskTree{gv.Tree(w.update), gv.Tree(eff), gv.Tree(w.reset)}
	gv.Ensures(what+": fields outside the masks are as before, fields inside are as written, reset fields are cleared", gv.SameFields(want, after, trees...))
	gv.Ensures(what+": the write returns what is stored", sameMsg(got, after))
}

// Value.Set respects the update, writable and reset masks.
//
//gv:property C05
//gv:for Value.Set covers masks.FieldUpdater.Validate masks.FieldUpdater.Merge WriteRequest.fieldUpdater
//gv:bounded generated messages of every field kind and trait messages, with generated update, writable, extra writable and reset masks
func gvc_ValueMaskedWrite(w maskedWrite) {
	v := NewValue(append(w.options(), WithInitialValue(proto.Clone(w.stored)))...)
	got, err := v.Set(proto.Clone(w.written), w.writeOptions()...)
	w.check("Set", w.stored, got, v.Get(), err)
}

func gvg_ValueMaskedWrite(g *gv.Gen) maskedWrite { return gvg_MaskedWrite(g) }

// Collection.Update respects the update, writable and reset masks, for existing and for created items.
//
//gv:property C05
//gv:for Collection.Update covers masks.FieldUpdater.Validate masks.FieldUpdater.Merge WriteRequest.fieldUpdater Collection.Add
//gv:bounded generated messages of every field kind and trait messages, with generated update, writable, extra writable and reset masks
func gvc_CollectionMaskedWrite(w maskedWrite) {
	c := NewCollection(append(w.options(), WithInitialRecord("a", proto.Clone(w.stored)))...)
	got, err := c.Update("a", proto.Clone(w.written), w.writeOptions()...)
	after, ok := c.Get("a")
	gv.Ensures("the item is still there", ok)
	w.check("Update", w.stored, got, after, err)
	got, err = c.Add("b", proto.Clone(w.written), w.writeOptions()...)
	after, ok = c.Get("b")
	gv.Ensures("an item is added exactly when the write succeeds", ok == (err == nil))
	w.check("Add", nil, got, after, err)
}

func gvg_CollectionMaskedWrite(g *gv.Gen) maskedWrite { return gvg_MaskedWrite(g) }

// A sequence of masked writes, each relative to what the previous ones left.
//
//gv:property C05
//gv:for Value.Set covers masks.FieldUpdater.Validate masks.FieldUpdater.Merge
//gv:bounded generated sequences of 3 masked writes to one value
func gvc_MaskedWrites(ws [3]maskedWrite) {
	v := NewValue(append(ws[0].options(), WithInitialValue(proto.Clone(ws[0].stored)))...)
	for _, w := range ws {
		w.stored = proto.Clone(v.Get())
		got, err := v.Set(proto.Clone(w.written), w.writeOptions()...)
		w.check("Set", w.stored, got, v.Get(), err)
	}
}

func gvg_MaskedWrites(g *gv.Gen) [3]maskedWrite {
	var r [3]maskedWrite
	r[0] = gvg_MaskedWrite(g)
	for i := 1; i < 3; {
		w := gvg_MaskedWrite(g)
		if w.stored.ProtoReflect().Descriptor() != r[0].stored.ProtoReflect().Descriptor() {
			continue
		}
		w.writable = r[0].writable
		r[i] = w
		i++
	}
	return r
}
