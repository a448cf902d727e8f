package cmp

import (
	"bytes"
	"math"
	"math/big"
	"time"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-golang/internal/gv"
	"github.com/smart-core-os/sc-golang/internal/testproto"
	"google.golang.org/protobuf/encoding/protowire"
	"google.golang.org/protobuf/proto"
	pref "google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/timestamppb"
)

// And and Or are the conjunction and disjunction of their members, whatever the members answer.
//
//gv:property C16
//gv:for And covers Or
//gv:unroll 8
func gvc_AndOr(bs []bool) {
	gv.Bound("comparers", len(bs), 6)
	n := len(bs)
	eqs := make([]Message, n)
	for i := range eqs {
		b := bs[i]
		eqs[i] = func(x, y proto.Message) bool { return b }
	}
	all := And(eqs...)(nil, nil)
	some := Or(eqs...)(nil, nil)
	gv.Ensures("And is true exactly when every comparer is", all == gv.Forall(0, n, func(i int) bool { return bs[i] }))
	gv.Ensures("Or is true exactly when some comparer is", some == gv.Exists(0, n, func(i int) bool { return bs[i] }))
}

// ValueAnd and ValueOr combine only the comparers that apply, and apply when one of them does.
//
//gv:property C16
//gv:for ValueAnd covers ValueOr
//gv:unroll 8
func gvc_ValueAndOr(bs, oks []bool) {
	gv.Bound("comparers", len(bs), 5)
	n := len(bs)
	gv.Requires(len(oks) == n)
	eqs := make([]Value, n)
	for i := range eqs {
		b, ok := bs[i], oks[i]
		eqs[i] = func(fd pref.FieldDescriptor, x, y pref.Value) (bool, bool) { return b, ok }
	}
	applies := gv.Exists(0, n, func(i int) bool { return oks[i] })
	all, ok := ValueAnd(eqs...)(nil, pref.Value{}, pref.Value{})
	gv.Ensures("ValueAnd applies exactly when some comparer does", ok == applies)
	gv.Ensures("ValueAnd is true exactly when every comparer that applies is", gv.Implies(applies, all == gv.Forall(0, n, func(i int) bool { return !oks[i] || bs[i] })))
	some, ok := ValueOr(eqs...)(nil, pref.Value{}, pref.Value{})
	gv.Ensures("ValueOr applies exactly when some comparer does", ok == applies)
	gv.Ensures("ValueOr is true exactly when some comparer that applies is", gv.Implies(applies, some == gv.Exists(0, n, func(i int) bool { return oks[i] && bs[i] })))
}

// ---- executed contracts

type msgPair struct {
	x, y proto.Message
	// tolerances
	frac, margin float64
	d, t         time.Duration
	which        int
}

func kinds(g *gv.Gen) proto.Message {
	switch g.R.Intn(12) {
	case 0:
		return &testproto.WellKnown{}
	case 1:
		return &testproto.ForeignMessage{}
	case 2:
		return &traits.PullEnergyLevelResponse{}
	case 3:
		return &traits.PullModesResponse{}
	case 4:
		return &traits.PullEnergyLevelResponse_Change{}
	case 5:
		return &traits.ElectricMode{}
	default:
		return &testproto.TestAllTypes{}
	}
}

// mutate changes one thing in m.
func mutate(g *gv.Gen, m pref.Message) {
	fs := m.Descriptor().Fields()
	if fs.Len() == 0 {
		return
	}
	if u := m.GetUnknown(); len(u) > 0 && g.R.Intn(3) == 0 || g.R.Intn(20) == 0 {
		m.SetUnknown(mutateUnknown(g, u))
		return
	}
	// prefer populated fields
	f := fs.Get(g.R.Intn(fs.Len()))
	for k := 0; k < 3 && !m.Has(f); k++ {
		f = fs.Get(g.R.Intn(fs.Len()))
	}
	switch {
	case g.R.Intn(6) == 0:
		m.Clear(f)
	case f.IsMap():
		mp := m.Mutable(f).Map()
		var ks []pref.MapKey
		mp.Range(func(k pref.MapKey, _ pref.Value) bool { ks = append(ks, k); return true })
		switch {
		case len(ks) > 0 && g.R.Intn(3) == 0:
			k := ks[g.R.Intn(len(ks))]
			v := mp.Get(k)
			mp.Clear(k)
			if g.R.Intn(2) == 0 { // the same value under another key
				mp.Set(gvScalar(g, f.MapKey()).MapKey(), v)
			}
		case f.MapValue().Message() != nil && len(ks) > 0 && g.R.Intn(2) == 0:
			mutate(g, mp.Mutable(ks[g.R.Intn(len(ks))]).Message())
		case f.MapValue().Message() != nil:
			mp.Set(gvScalar(g, f.MapKey()).MapKey(), mp.NewValue())
		case len(ks) > 0 && g.R.Intn(2) == 0:
			mp.Set(ks[g.R.Intn(len(ks))], gvScalar(g, f.MapValue()))
		default:
			mp.Set(gvScalar(g, f.MapKey()).MapKey(), gvScalar(g, f.MapValue()))
		}
	case f.IsList():
		l := m.Mutable(f).List()
		n := l.Len()
		switch {
		case n > 1 && g.R.Intn(3) == 0: // swap
			i, j := g.R.Intn(n), g.R.Intn(n)
			a, b := l.Get(i), l.Get(j)
			if f.Message() != nil {
				ca, cb := proto.Clone(a.Message().Interface()), proto.Clone(b.Message().Interface())
				l.Set(i, pref.ValueOfMessage(cb.ProtoReflect()))
				l.Set(j, pref.ValueOfMessage(ca.ProtoReflect()))
			} else {
				l.Set(i, b)
				l.Set(j, a)
			}
		case n > 0 && g.R.Intn(3) == 0:
			l.Truncate(n - 1)
		case n > 0 && g.R.Intn(2) == 0:
			i := g.R.Intn(n)
			if f.Message() != nil {
				mutate(g, l.Get(i).Message())
			} else {
				l.Set(i, gvScalar(g, f))
			}
		case f.Message() != nil:
			l.Append(l.NewElement())
		default:
			l.Append(gvScalar(g, f))
		}
	case f.Message() != nil:
		mutateMessage(g, m.Mutable(f).Message())
	default:
		m.Set(f, gvScalar(g, f))
	}
}

// mutateUnknown changes, adds, removes or swaps a record.
func mutateUnknown(g *gv.Gen, u pref.RawFields) pref.RawFields {
	var rs [][]byte
	for len(u) > 0 {
		_, _, n := protowire.ConsumeField(u)
		rs = append(rs, append([]byte{}, u[:n]...))
		u = u[n:]
	}
	record := func() []byte {
		r := protowire.AppendTag(nil, protowire.Number(5000+g.R.Intn(2)), protowire.VarintType)
		return protowire.AppendVarint(r, uint64(g.R.Intn(3)))
	}
	switch n := len(rs); {
	case n > 0 && g.R.Intn(2) == 0:
		rs[g.R.Intn(n)] = record()
	case n > 1 && g.R.Intn(2) == 0:
		i, j := g.R.Intn(n), g.R.Intn(n)
		rs[i], rs[j] = rs[j], rs[i]
	case n > 1 && g.R.Intn(2) == 0:
		rs = rs[1:]
	default:
		rs = append(rs, record())
	}
	return bytes.Join(rs, nil)
}

func mutateMessage(g *gv.Gen, m pref.Message) {
	steps := []int64{0, 1, 2, 3, 1e6, 999999999}
	switch x := m.Interface().(type) {
	case *timestamppb.Timestamp:
		x.Seconds += int64(g.R.Intn(3)) - 1
		x.Nanos = (x.Nanos + int32(steps[g.R.Intn(len(steps))])) % 1e9
	case *durationpb.Duration:
		x.Seconds += int64(g.R.Intn(3)) - 1
		x.Nanos = (x.Nanos + int32(steps[g.R.Intn(len(steps))])) % 1e9
		if x.Seconds < 0 {
			x.Nanos = 0
		}
	default:
		mutate(g, m)
	}
}

var someFloats = []float64{0, math.Copysign(0, -1), 0.25, 0.5, 0.75, 1, 1.25, -1, -1.25, 2, 4, 5, math.NaN(), math.Inf(1), math.Inf(-1), 1e30, -2, math.MaxFloat32}

func gvScalar(g *gv.Gen, f pref.FieldDescriptor) pref.Value {
	switch f.Kind() {
	case pref.FloatKind:
		return pref.ValueOfFloat32(float32(someFloats[g.R.Intn(len(someFloats))]))
	case pref.DoubleKind:
		return pref.ValueOfFloat64(someFloats[g.R.Intn(len(someFloats))])
	case pref.BoolKind:
		return pref.ValueOfBool(g.R.Intn(2) == 0)
	case pref.StringKind:
		return pref.ValueOfString(g.Str())
	case pref.BytesKind:
		return pref.ValueOfBytes([]byte(g.Str()))
	case pref.EnumKind:
		return pref.ValueOfEnum(f.Enum().Values().Get(g.R.Intn(f.Enum().Values().Len())).Number())
	case pref.Int32Kind, pref.Sint32Kind, pref.Sfixed32Kind:
		return pref.ValueOfInt32(int32(g.R.Intn(5) - 2))
	case pref.Uint32Kind, pref.Fixed32Kind:
		return pref.ValueOfUint32(uint32(g.R.Intn(4)))
	case pref.Int64Kind, pref.Sint64Kind, pref.Sfixed64Kind:
		return pref.ValueOfInt64(int64(g.R.Intn(5) - 2))
	default:
		return pref.ValueOfUint64(uint64(g.R.Intn(4)))
	}
}

func gvg_Pair(g *gv.Gen) msgPair {
	var r msgPair
	m := kinds(g)
	g.Message(m.ProtoReflect(), 2)
	for k := g.R.Intn(3); k > 0; k-- {
		mutate(g, m.ProtoReflect())
	}
	if g.R.Intn(6) == 0 {
		for k := 1 + g.R.Intn(3); k > 0; k-- {
			m.ProtoReflect().SetUnknown(mutateUnknown(g, m.ProtoReflect().GetUnknown()))
		}
	}
	y := proto.Clone(m)
	for k := g.R.Intn(4); k > 0; k-- {
		mutate(g, y.ProtoReflect())
	}
	r.x, r.y = m, y
	switch g.R.Intn(40) {
	case 0:
		r.y = nil
	case 1:
		r.y = (*testproto.TestAllTypes)(nil)
	case 2:
		r.x, r.y = nil, nil
	case 3:
		r.x, r.y = (*testproto.ForeignMessage)(nil), (*testproto.TestAllTypes)(nil)
	case 4:
		r.y = kinds(g)
	case 5:
		r.x, r.y = &testproto.TestAllTypes{}, (*testproto.TestAllTypes)(nil)
	}
	r.frac = []float64{0, 0.25, 0.5, 1, 0.01}[g.R.Intn(5)]
	r.margin = []float64{0, 0.25, 0.5, 1, 2}[g.R.Intn(5)]
	r.d = []time.Duration{0, 1, time.Millisecond, time.Second, 2 * time.Second, time.Hour}[g.R.Intn(6)]
	r.t = []time.Duration{0, 1, time.Millisecond, time.Second, 2 * time.Second, time.Hour}[g.R.Intn(6)]
	r.which = g.R.Intn(8)
	return r
}

// leafSpec compares two singular values: applies says it has an opinion; unsure that the answer is too close to call.
type leafSpec func(fd pref.FieldDescriptor, x, y pref.Value) (equal, applies, unsure bool)

// agree is what protobuf equality says about x and y, other than change_time inside Change messages, and leaves compared by leaf.
func agree(leaf leafSpec, x, y pref.Message, unsure *bool) bool {
	if x.Descriptor() != y.Descriptor() {
		return false
	}
	fs := x.Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		f := fs.Get(i)
		if f.Name() == "change_time" && f.ContainingMessage().Name() == "Change" {
			continue
		}
		if x.Has(f) != y.Has(f) {
			return false
		}
		if !x.Has(f) {
			continue
		}
		vx, vy := x.Get(f), y.Get(f)
		switch {
		case f.IsList():
			if vx.List().Len() != vy.List().Len() {
				return false
			}
			for j := 0; j < vx.List().Len(); j++ {
				if !agreeValue(leaf, f, vx.List().Get(j), vy.List().Get(j), unsure) {
					return false
				}
			}
		case f.IsMap():
			if vx.Map().Len() != vy.Map().Len() {
				return false
			}
			ok := true
			vx.Map().Range(func(k pref.MapKey, v pref.Value) bool {
				ok = vy.Map().Has(k) && agreeValue(leaf, f.MapValue(), v, vy.Map().Get(k), unsure)
				return ok
			})
			if !ok {
				return false
			}
		default:
			if !agreeValue(leaf, f, vx, vy, unsure) {
				return false
			}
		}
	}
	// unknown fields: compare with nothing else in the message
	ux, uy := x.New(), y.New()
	ux.SetUnknown(x.GetUnknown())
	uy.SetUnknown(y.GetUnknown())
	return bytes.Equal(x.GetUnknown(), y.GetUnknown()) || proto.Equal(ux.Interface(), uy.Interface())
}

func agreeValue(leaf leafSpec, f pref.FieldDescriptor, x, y pref.Value, unsure *bool) bool {
	if leaf != nil {
		if eq, ok, un := leaf(f, x, y); ok {
			*unsure = *unsure || un
			return eq
		}
	}
	if f.Message() != nil {
		return agree(leaf, x.Message(), y.Message(), unsure)
	}
	return x.Equal(y)
}

func agreeMessages(leaf leafSpec, x, y proto.Message, unsure *bool) bool {
	if x == nil || y == nil {
		return x == nil && y == nil
	}
	if x.ProtoReflect().IsValid() != y.ProtoReflect().IsValid() {
		return false
	}
	return agree(leaf, x.ProtoReflect(), y.ProtoReflect(), unsure)
}

func hasChange(m pref.MessageDescriptor) bool {
	return m.Name() == "Change" || m.Fields().ByName("changes") != nil
}

// The default comparer is protobuf equality, ignoring change_time inside Change messages.
//
//gv:property C16
//gv:for Equal covers equator.compare equator.equalMessage equator.equalField equator.equalMap equator.equalList equator.equalValue equator.equalUnknown
//gv:bounded generated pairs of messages of every field kind, from a common ancestor mutated in up to 3 places
func gvc_Equal(p msgPair) { genEqual(p) }

func gvg_Equal(g *gv.Gen) msgPair { return gvg_Pair(g) }

func genEqual(p msgPair) {
	eq := Equal()
	was := snapshot(p)
	xy, yx := eq(p.x, p.y), eq(p.y, p.x)
	gv.Ensures("every message equals itself", eq(p.x, p.x) && eq(p.y, p.y))
	gv.Ensures("equality is symmetric", xy == yx)
	if p.x == nil || p.y == nil || !hasChange(p.x.ProtoReflect().Descriptor()) {
		gv.Ensures("the default comparer agrees with proto.Equal", xy == proto.Equal(p.x, p.y))
	}
	unsure := false
	gv.Ensures("the default comparer is protobuf equality that ignores change_time inside Change", xy == agreeMessages(nil, p.x, p.y, &unsure))
	gv.Ensures("comparing modifies nothing", was == snapshot(p))
}

func exactRat(f float64) *big.Rat { return new(big.Rat).SetFloat64(f) }

func near(diff, tol *big.Rat) bool {
	// too close to call in floating point, unless they are identical
	d := new(big.Rat).Sub(diff, tol)
	if d.Sign() == 0 {
		return false
	}
	d.Abs(d)
	eps := new(big.Rat).Mul(new(big.Rat).Abs(tol), big.NewRat(1, 1e12))
	return d.Cmp(eps) < 0
}

func floatSpec(frac, margin float64) leafSpec {
	return func(fd pref.FieldDescriptor, x, y pref.Value) (equal, applies, unsure bool) {
		if fd.Kind() != pref.FloatKind && fd.Kind() != pref.DoubleKind {
			return false, false, false
		}
		a, b := x.Float(), y.Float()
		if math.IsNaN(a) || math.IsNaN(b) {
			return math.IsNaN(a) && math.IsNaN(b), true, false
		}
		if math.IsInf(a, 0) || math.IsInf(b, 0) {
			return a == b, true, false
		}
		ra, rb := exactRat(a), exactRat(b)
		diff := new(big.Rat).Sub(ra, rb)
		diff.Abs(diff)
		ra.Abs(ra)
		rb.Abs(rb)
		if ra.Cmp(rb) > 0 {
			ra = rb
		}
		tol := new(big.Rat).Mul(ra, exactRat(frac))
		if m := exactRat(margin); m.Cmp(tol) > 0 {
			tol = m
		}
		return diff.Cmp(tol) <= 0, true, near(diff, tol)
	}
}

func nanosOf(m pref.Message) *big.Int {
	s := m.Get(m.Descriptor().Fields().ByName("seconds")).Int()
	n := m.Get(m.Descriptor().Fields().ByName("nanos")).Int()
	r := new(big.Int).Mul(big.NewInt(s), big.NewInt(1e9))
	return r.Add(r, big.NewInt(n))
}

func kindSpec(name pref.FullName, within func(x, y *big.Int) (equal, unsure bool)) leafSpec {
	return func(fd pref.FieldDescriptor, x, y pref.Value) (equal, applies, unsure bool) {
		if fd.Message() == nil || fd.Message().FullName() != name {
			return false, false, false
		}
		equal, unsure = within(nanosOf(x.Message()), nanosOf(y.Message()))
		return equal, true, unsure
	}
}

func withinSpec(d time.Duration) func(x, y *big.Int) (bool, bool) {
	return func(x, y *big.Int) (bool, bool) {
		diff := new(big.Int).Sub(x, y)
		diff.Abs(diff)
		return diff.Cmp(big.NewInt(int64(d))) <= 0, false
	}
}

// percentSpec: within p percent of each other; of which of the two is not said, so between the answers is unsure.
func percentSpec(p float64) func(x, y *big.Int) (bool, bool) {
	return func(x, y *big.Int) (bool, bool) {
		diff := new(big.Int).Sub(x, y)
		diff.Abs(diff)
		if diff.Sign() == 0 {
			return true, false
		}
		a, b := new(big.Int).Abs(x), new(big.Int).Abs(y)
		if a.Cmp(b) > 0 {
			a, b = b, a
		}
		pr := new(big.Rat).Quo(exactRat(p), big.NewRat(100, 1))
		d := new(big.Rat).SetInt(diff)
		tolMin, tolMax := new(big.Rat).Mul(pr, new(big.Rat).SetInt(a)), new(big.Rat).Mul(pr, new(big.Rat).SetInt(b))
		in, out := d.Cmp(tolMin) <= 0, d.Cmp(tolMax) > 0
		nearly := func(tol *big.Rat) bool {
			e := new(big.Rat).Sub(d, tol)
			e.Abs(e)
			return e.Cmp(new(big.Rat).Mul(tol, big.NewRat(1, 1e5))) <= 0
		}
		if d.Cmp(new(big.Rat).Mul(big.NewRat(1, 1e6), new(big.Rat).SetInt(b))) <= 0 {
			return true, true // too close to call in floating point
		}
		return in, !in && !out || nearly(tolMin) || nearly(tolMax)
	}
}

func both(a, b leafSpec) leafSpec {
	return func(fd pref.FieldDescriptor, x, y pref.Value) (equal, applies, unsure bool) {
		if eq, ok, un := a(fd, x, y); ok {
			return eq, ok, un
		}
		return b(fd, x, y)
	}
}

// Tolerance comparers are reflexive, symmetric, accept exactly what is within the tolerance, and only affect their kind.
//
//gv:property C16
//gv:for FloatValueApprox covers TimeValueWithin DurationValueWithin DurationValueWithinP ValueAnd ValueOr equator.equalValue cmpDuration
//gv:bounded generated pairs of messages whose floats, times and durations differ by less, exactly and more than the tolerance
func gvc_Tolerance(p msgPair) {
	pc := float32(p.frac * 100)
	var vs []Value
	var leaf leafSpec
	fl := FloatValueApprox(p.frac, p.margin)
	ti, du, dp := TimeValueWithin(p.t), DurationValueWithin(p.d), DurationValueWithinP(pc)
	flS := floatSpec(p.frac, p.margin)
	tiS := kindSpec("google.protobuf.Timestamp", withinSpec(p.t))
	duS := kindSpec("google.protobuf.Duration", withinSpec(p.d))
	dpS := kindSpec("google.protobuf.Duration", percentSpec(float64(pc)))
	switch p.which {
	case 0:
		vs, leaf = []Value{fl}, flS
	case 1:
		vs, leaf = []Value{ti}, tiS
	case 2:
		vs, leaf = []Value{du}, duS
	case 3:
		vs, leaf = []Value{dp}, dpS
	case 4:
		vs, leaf = []Value{fl, ti}, both(flS, tiS)
	case 5:
		vs, leaf = []Value{du, fl, ti}, both(both(flS, tiS), duS)
	case 6:
		vs, leaf = []Value{ValueOr(ti, fl)}, both(flS, tiS)
	default:
		vs, leaf = []Value{ValueAnd(dp, ti), fl}, both(both(flS, tiS), dpS)
	}
	eq := Equal(vs...)
	was := snapshot(p)
	xy, yx := eq(p.x, p.y), eq(p.y, p.x)
	gv.Ensures("every message is within tolerance of itself", eq(p.x, p.x) && eq(p.y, p.y))
	gv.Ensures("being within tolerance is symmetric", xy == yx)
	unsure := false
	want := agreeMessages(leaf, p.x, p.y, &unsure)
	if !unsure {
		gv.Ensures("exactly the pairs within tolerance are equal, other kinds are compared as usual", xy == want)
	}
	gv.Ensures("comparing modifies nothing", was == snapshot(p))
}

func gvg_Tolerance(g *gv.Gen) msgPair {
	r := gvg_Pair(g)
	if g.R.Intn(4) != 0 {
		// a message whose tolerant kinds nearly agree
		x := &testproto.TestAllTypes{DefaultFloat: 1, RepeatedDouble: []float64{4, -2}, MapInt32Float: map[int32]float32{1: 2}, DefaultWellKnown: &testproto.WellKnown{
			DefaultTimestamp: &timestamppb.Timestamp{Seconds: 5, Nanos: 10}, DefaultDuration: &durationpb.Duration{Seconds: 4},
		}}
		if g.R.Intn(3) == 0 {
			x.RepeatedWellKnown = []*testproto.WellKnown{{DefaultDuration: &durationpb.Duration{}}, proto.Clone(x.DefaultWellKnown).(*testproto.WellKnown)}
		}
		if g.R.Intn(6) == 0 { // far away
			x.DefaultWellKnown.DefaultDuration.Seconds = []int64{1e10, -1e10, 3e11, -3e11}[g.R.Intn(4)]
		}
		if g.R.Intn(6) == 0 {
			x.DefaultFloat = float32(someFloats[g.R.Intn(len(someFloats))])
		}
		y := proto.Clone(x).(*testproto.TestAllTypes)
		df := []float64{0, 0.25, -0.25, 0.5, -0.5, 1, -1, 2, 0.0625}[g.R.Intn(9)]
		dt := []int64{0, 1, -1, 1e6, 1e6 + 1, -1e6, 1e9 - 1, 1e9, 1e9 + 1, -1e9, 2e9, 2e9 + 1, 4e9, -4e9}[g.R.Intn(14)]
		wk := y.DefaultWellKnown
		switch g.R.Intn(6) {
		case 0:
			y.DefaultFloat += float32(df)
		case 1:
			y.RepeatedDouble[g.R.Intn(2)] += df
		case 2:
			y.MapInt32Float[1] += float32(df)
		case 3:
			wk.DefaultTimestamp = timestamppb.New(wk.DefaultTimestamp.AsTime().Add(time.Duration(dt)))
		case 4:
			s := wk.DefaultDuration.Seconds*1 + dt/1e9
			wk.DefaultDuration = &durationpb.Duration{Seconds: s, Nanos: int32(dt % 1e9)}
		default:
			if len(y.RepeatedWellKnown) > 0 {
				y.RepeatedWellKnown[0].DefaultDuration = durationpb.New(time.Duration(dt))
			} else if g.R.Intn(2) == 0 {
				wk.DefaultDuration = nil
			} else {
				wk.DefaultTimestamp = nil
			}
		}
		if g.R.Intn(6) == 0 {
			y.DefaultWellKnown.DefaultDuration = &durationpb.Duration{Seconds: []int64{1e10, -1e10, 3e11, -3e11}[g.R.Intn(4)]}
		}
		if g.R.Intn(8) == 0 { // something else too
			y.DefaultInt32 ^= 1
		}
		r.x, r.y = x, y
	}
	return r
}

func snapshot(p msgPair) string {
	o := proto.MarshalOptions{Deterministic: true}
	var b []byte
	for _, m := range []proto.Message{p.x, p.y} {
		if m != nil {
			b, _ = o.MarshalAppend(append(b, 0xff), m)
		}
	}
	return string(b)
}
