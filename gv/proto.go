package main

import (
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// ---- typed protobuf messages: deep copy, equality, merge over the generated structs

func isMsgStruct(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	if _, ok := n.Underlying().(*types.Struct); !ok {
		return false
	}
	for i := 0; i < n.NumMethods(); i++ {
		if n.Method(i).Name() == "ProtoReflect" {
			return true
		}
	}
	return false
}

func msgElem(t types.Type) types.Type {
	if p, ok := types.Unalias(t).(*types.Pointer); ok && isMsgStruct(p.Elem()) {
		return p.Elem()
	}
	return nil
}

type msgField struct {
	i int
	v *types.Var
}

func msgFields(t types.Type) []msgField {
	st := t.Underlying().(*types.Struct)
	var out []msgField
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if !f.Exported() {
			continue
		}
		out = append(out, msgField{i, f})
	}
	return out
}

// oneofWrappers lists the concrete wrapper types of a oneof interface.
func (x *Exec) oneofWrappers(it types.Type) []types.Type {
	n, ok := types.Unalias(it).(*types.Named)
	if !ok {
		return nil
	}
	iface := n.Underlying().(*types.Interface)
	var out []types.Type
	sc := n.Obj().Pkg().Scope()
	for _, name := range sc.Names() {
		tn, ok := sc.Lookup(name).(*types.TypeName)
		if !ok {
			continue
		}
		pt := types.NewPointer(tn.Type())
		if _, ok := tn.Type().Underlying().(*types.Struct); ok && types.Implements(pt, iface) {
			out = append(out, pt)
		}
	}
	return out
}

// concreteLen case-splits a symbolic length (the path condition must bound it).
func (x *Exec) concreteLen(st *State, n *Term) int64 {
	n = x.norm(st, n)
	if k, ok := n.IntVal(); ok {
		return k
	}
	for k := int64(0); k <= 12; k++ {
		if x.branch(st, x.c.Eq(n, x.c.Int(k))) {
			return k
		}
	}
	panic(unsupported("deep operation on a list of unbounded length"))
}

// resolveOneof case-splits an interface value into nil or a known wrapper.
func (x *Exec) resolveIface(st *State, i IfaceV, cands []types.Type) IfaceV {
	if i.Dyn != nil {
		return i
	}
	tag := x.norm(st, i.Tag)
	if k, ok := tag.IntVal(); ok {
		if k == 0 {
			return x.nilIface()
		}
		return x.mkIface(tag, x.ifacePay(i))
	}
	if x.branch(st, x.c.Eq(i.Tag, x.c.Int(0))) {
		return x.nilIface()
	}
	for n, t := range cands {
		id := x.c.Int(x.e.typeTag(t))
		if n == len(cands)-1 {
			x.assume(st, x.c.Eq(i.Tag, id))
			return x.mkIface(id, x.ifacePay(i))
		}
		if x.branch(st, x.c.Eq(i.Tag, id)) {
			return x.mkIface(id, x.ifacePay(i))
		}
	}
	panic(unsupported("oneof without wrappers"))
}

func (x *Exec) loadF(st *State, p Ptr, i int) Val {
	p.Path = append(append([]PathEl{}, p.Path...), PathEl{F: i})
	x.hbAccess(st, p, false)
	return x.load(st, p)
}
func (x *Exec) storeF(st *State, p Ptr, i int, v Val) {
	p.Path = append(append([]PathEl{}, p.Path...), PathEl{F: i})
	x.hbAccess(st, p, true)
	x.store(st, p, v)
}

// cloneMsg deep-copies *p (p may be nil).
func (x *Exec) cloneMsg(st *State, p Ptr, t types.Type) Ptr {
	base := x.norm(st, p.Base)
	isNil := x.c.Eq(base, x.c.Int(0))
	if isNil.IsTrue() || st.pcset[isNil.ID] {
		return x.nilPtr(t)
	}
	known := isNil.IsFalse() || st.pcset[x.c.Not(isNil).ID]
	if !known && (x.hasLists(t, map[types.Type]bool{}) || !x.flat(t)) {
		if x.branch(st, isNil) {
			return x.nilPtr(t)
		}
		known = true
	}
	r := x.alloc(st, t)
	x.copyInto(st, r, p, t)
	if known {
		return r
	}
	return Ptr{Base: x.c.Ite(isNil, x.c.Int(0), r.Base), Root: t}
}

func (x *Exec) flat(t types.Type) bool {
	for _, f := range msgFields(t) {
		switch f.v.Type().Underlying().(type) {
		case *types.Basic:
		default:
			return false
		}
	}
	return true
}

func (x *Exec) hasLists(t types.Type, seen map[types.Type]bool) bool {
	if seen[t] {
		return true
	}
	seen[t] = true
	for _, f := range msgFields(t) {
		switch u := f.v.Type().Underlying().(type) {
		case *types.Slice, *types.Map, *types.Interface:
			return true
		case *types.Pointer:
			if isMsgStruct(u.Elem()) && x.hasLists(u.Elem(), seen) {
				return true
			}
		}
	}
	delete(seen, t)
	return false
}

func (x *Exec) copyInto(st *State, dst, src Ptr, t types.Type) {
	for _, f := range msgFields(t) {
		x.storeF(st, dst, f.i, x.cloneVal(st, x.loadF(st, src, f.i), f.v.Type()))
	}
}

func (x *Exec) cloneVal(st *State, v Val, t types.Type) Val {
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Basic:
		return v
	case *types.Pointer:
		if isMsgStruct(u.Elem()) {
			return x.cloneMsg(st, v.(Ptr), u.Elem())
		}
		// optional scalar
		p := v.(Ptr)
		isNil := x.c.Eq(x.norm(st, p.Base), x.c.Int(0))
		if isNil.IsTrue() || st.pcset[isNil.ID] {
			return x.nilPtr(u.Elem())
		}
		r := x.alloc(st, u.Elem())
		x.hbAccess(st, p, false)
		x.store(st, r, x.load(st, p))
		return Ptr{Base: x.c.Ite(isNil, x.c.Int(0), r.Base), Root: u.Elem()}
	case *types.Slice:
		s := v.(SliceV)
		if _, ok := u.Elem().Underlying().(*types.Basic); ok {
			// scalar list: the array is a value
			x.hbRange(st, s.Arr, s.Off, s.Len, u.Elem(), false)
			n := x.norm(st, s.Len)
			if k, ok := n.IntVal(); ok && k == 0 {
				return x.zero(t)
			}
			_, as, _ := x.elemArrs(st, s.Arr, u.Elem())
			r := x.newRef()
			x.setElemArrs(st, r, u.Elem(), as)
			z := x.c.Eq(n, x.c.Int(0))
			return SliceV{x.c.Ite(z, x.c.Int(0), r), x.c.Ite(z, x.c.Int(0), s.Off), n, n}
		}
		n := x.concreteLen(st, s.Len)
		if n == 0 {
			return x.zero(t)
		}
		r := x.newRef()
		x.setElemArrs(st, r, u.Elem(), x.zeroArr(u.Elem()))
		x.hbRange(st, s.Arr, s.Off, s.Len, u.Elem(), false)
		for i := int64(0); i < n; i++ {
			ev := x.load(st, Ptr{Base: s.Arr, Root: u.Elem(), Elem: true, Idx: x.c.Add(s.Off, x.c.Int(i))})
			cv := x.cloneVal(st, ev, u.Elem())
			x.store(st, Ptr{Base: r, Root: u.Elem(), Elem: true, Idx: x.c.Int(i)}, cv)
		}
		return SliceV{r, x.c.Int(0), x.c.Int(n), x.c.Int(n)}
	case *types.Interface:
		i := x.resolveIface(st, v.(IfaceV), x.oneofWrappers(t))
		if i.Dyn == nil {
			return i
		}
		wt := i.Dyn.Underlying().(*types.Pointer).Elem()
		src := i.V.(Ptr)
		r := x.alloc(st, wt)
		x.copyInto(st, r, src, wt)
		return x.makeIface(r, i.Dyn)
	case *types.Map:
		m := v.(*Term)
		if _, ok := u.Elem().Underlying().(*types.Basic); !ok {
			panic(unsupported("deep copy of a map of messages"))
		}
		isNil := x.c.Eq(x.norm(st, m), x.c.Int(0))
		if isNil.IsTrue() || st.pcset[isNil.ID] {
			return x.c.Int(0)
		}
		r := x.newRef()
		x.copyMap(st, r, m, u)
		empty := x.c.Eq(x.mapLen(st, m, u), x.c.Int(0))
		return x.c.Ite(x.c.Or(isNil, empty), x.c.Int(0), r)
	}
	panic(unsupported("deep copy of " + t.String()))
}

func (x *Exec) copyMap(st *State, dst, src *Term, mt *types.Map) {
	c := x.c
	h, dk := x.mapDom(st, mt)
	_, vk, ks := x.mapKeys(mt)
	x.setHeap(st, dk, c.Store(h, dst, c.Select(h, src)), dst)
	for _, cm := range x.e.comps(mt.Elem()) {
		h := x.heapGet(st, vk+cm.suf, ArrS(IntS, ArrS(ks, cm.s)), cm)
		x.setHeap(st, vk+cm.suf, c.Store(h, dst, c.Select(h, src)), dst)
	}
	x.setGhostInt(st, "maplen", dst, x.ghostInt(st, "maplen", src))
}

// eqMsg: proto.Equal on typed pointers.
func (x *Exec) eqMsg(st *State, p, q Ptr, t types.Type) *Term {
	c := x.c
	pn, qn := c.Eq(x.norm(st, p.Base), c.Int(0)), c.Eq(x.norm(st, q.Base), c.Int(0))
	if p.Base == q.Base && len(p.Path) == 0 && len(q.Path) == 0 {
		return c.T
	}
	decide := func(n *Term) (bool, bool) {
		if n.IsTrue() || st.pcset[n.ID] {
			return true, true
		}
		if n.IsFalse() || st.pcset[c.Not(n).ID] {
			return false, true
		}
		return false, false
	}
	if b, ok := decide(pn); ok && b {
		return qn
	}
	if b, ok := decide(qn); ok && b {
		return pn
	}
	_, pk := decide(pn)
	_, qk := decide(qn)
	if (!pk || !qk) && x.hasLists(t, map[types.Type]bool{}) {
		if x.branch(st, pn) {
			return qn
		}
		if x.branch(st, qn) {
			return c.F
		}
		pk, qk = true, true
	}
	r := c.T
	for _, f := range msgFields(t) {
		r = c.And(r, x.eqVal(st, x.loadF(st, p, f.i), x.loadF(st, q, f.i), f.v.Type()))
		if r.IsFalse() {
			break
		}
	}
	if pk && qk {
		return r
	}
	return c.Or(c.And(pn, qn), c.And(c.Not(pn), c.Not(qn), r))
}

func (x *Exec) eqVal(st *State, a, b Val, t types.Type) *Term {
	c := x.c
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Basic:
		if isFloat(t) && x.e.fp {
			n := func(v *Term) *Term { return c.mk(&Term{Op: "fp.isNaN", S: BoolS, Args: []*Term{v}}) }
			eq := c.mk(&Term{Op: "fp.eq", S: BoolS, Args: []*Term{a.(*Term), b.(*Term)}})
			return c.Or(eq, c.And(n(a.(*Term)), n(b.(*Term))))
		}
		return x.equal(st, a, b, t, t)
	case *types.Pointer:
		if isMsgStruct(u.Elem()) {
			return x.eqMsg(st, a.(Ptr), b.(Ptr), u.Elem())
		}
		p, q := a.(Ptr), b.(Ptr)
		pn, qn := c.Eq(p.Base, c.Int(0)), c.Eq(q.Base, c.Int(0))
		return c.Or(c.And(pn, qn), c.And(c.Not(pn), c.Not(qn), x.equal(st, x.load(st, p), x.load(st, q), u.Elem(), u.Elem())))
	case *types.Slice:
		s, r := a.(SliceV), b.(SliceV)
		if s == r {
			return c.T
		}
		if _, ok := u.Elem().Underlying().(*types.Basic); ok {
			n1, n2 := x.norm(st, s.Len), x.norm(st, r.Len)
			_, k1 := n1.IntVal()
			_, k2 := n2.IntVal()
			if !k1 && !k2 {
				_, as, _ := x.elemArrs(st, s.Arr, u.Elem())
				_, bs, _ := x.elemArrs(st, r.Arr, u.Elem())
				same := c.And(c.Eq(as[0], bs[0]), c.Eq(s.Off, r.Off))
				if same.IsTrue() {
					return c.Eq(n1, n2)
				}
				i := c.BVar("i", IntS)
				return c.And(c.Eq(n1, n2), c.Forall([]*Term{i}, c.Implies(c.And(c.Le(c.Int(0), i), c.Lt(i, n1)), c.Eq(c.Select(as[0], c.Add(s.Off, i)), c.Select(bs[0], c.Add(r.Off, i))))))
			}
		}
		n := x.concreteLen(st, s.Len)
		if !x.branch(st, c.Eq(r.Len, c.Int(n))) {
			return c.F
		}
		x.hbRange(st, s.Arr, s.Off, s.Len, u.Elem(), false)
		x.hbRange(st, r.Arr, r.Off, s.Len, u.Elem(), false)
		out := c.T
		for i := int64(0); i < n; i++ {
			ev := x.load(st, Ptr{Base: s.Arr, Root: u.Elem(), Elem: true, Idx: c.Add(s.Off, c.Int(i))})
			fv := x.load(st, Ptr{Base: r.Arr, Root: u.Elem(), Elem: true, Idx: c.Add(r.Off, c.Int(i))})
			out = c.And(out, x.eqVal(st, ev, fv, u.Elem()))
		}
		return out
	case *types.Interface:
		ws := x.oneofWrappers(t)
		i, j := x.resolveIface(st, a.(IfaceV), ws), x.resolveIface(st, b.(IfaceV), ws)
		if i.Dyn == nil || j.Dyn == nil {
			return c.Bool(i.Dyn == nil && j.Dyn == nil)
		}
		if !types.Identical(i.Dyn, j.Dyn) {
			return c.F
		}
		wt := i.Dyn.Underlying().(*types.Pointer).Elem()
		f := msgFields(wt)[0]
		return x.eqVal(st, x.loadF(st, i.V.(Ptr), f.i), x.loadF(st, j.V.(Ptr), f.i), f.v.Type())
	case *types.Map:
		m, n := a.(*Term), b.(*Term)
		if x.norm(st, m) == x.norm(st, n) {
			return c.T
		}
		if _, ok := u.Elem().Underlying().(*types.Basic); !ok {
			panic(unsupported("equality of maps of messages"))
		}
		d, _ := x.mapDom(st, u)
		_, vk, ks := x.mapKeys(u)
		empty := c.ConstArr(ArrS(ks, BoolS), c.F)
		dm := c.Ite(c.Eq(m, c.Int(0)), empty, c.Select(d, m))
		dn := c.Ite(c.Eq(n, c.Int(0)), empty, c.Select(d, n))
		k := c.BVar("k", ks)
		r := c.Eq(c.Select(dm, k), c.Select(dn, k))
		for _, cm := range x.e.comps(u.Elem()) {
			v := x.heapGet(st, vk+cm.suf, ArrS(IntS, ArrS(ks, cm.s)), cm)
			r = c.And(r, c.Implies(c.Select(dm, k), c.Eq(c.Select(c.Select(v, m), k), c.Select(c.Select(v, n), k))))
		}
		return c.Forall([]*Term{k}, r)
	}
	panic(unsupported("deep equality of " + t.String()))
}

// mergeMsg: proto.Merge(dst, src): populated scalars overwrite, messages merge, lists append.
func (x *Exec) mergeMsg(st *State, dst, src Ptr, t types.Type) {
	c := x.c
	for _, f := range msgFields(t) {
		sv := x.loadF(st, src, f.i)
		switch u := f.v.Type().Underlying().(type) {
		case *types.Basic:
			dv := x.loadF(st, dst, f.i)
			z := x.zero(f.v.Type())
			isz := x.equal(st, sv, z, f.v.Type(), f.v.Type())
			if isFloat(f.v.Type()) && x.e.fp {
				isz = c.Eq(sv.(*Term), z.(*Term)) // -0 and NaN are populated
			}
			x.storeF(st, dst, f.i, c.Ite(isz, dv.(*Term), sv.(*Term)))
		case *types.Pointer:
			if !isMsgStruct(u.Elem()) {
				p := sv.(Ptr)
				if !x.branch(st, c.Eq(p.Base, c.Int(0))) {
					x.storeF(st, dst, f.i, x.cloneVal(st, sv, f.v.Type()))
				}
				continue
			}
			if x.branch(st, c.Eq(sv.(Ptr).Base, c.Int(0))) {
				continue
			}
			dv := x.loadF(st, dst, f.i).(Ptr)
			if x.branch(st, c.Eq(dv.Base, c.Int(0))) {
				x.storeF(st, dst, f.i, x.cloneMsg(st, sv.(Ptr), u.Elem()))
				continue
			}
			x.mergeMsg(st, dv, sv.(Ptr), u.Elem())
		case *types.Slice:
			if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				if !x.branch(st, c.Eq(sv.(SliceV).Len, c.Int(0))) {
					x.storeF(st, dst, f.i, x.cloneVal(st, sv, f.v.Type()))
				}
				continue
			}
			n := x.concreteLen(st, sv.(SliceV).Len)
			if n == 0 {
				continue
			}
			cl := x.cloneVal(st, sv, f.v.Type()).(SliceV)
			x.storeF(st, dst, f.i, x.appendSlice(st, x.loadF(st, dst, f.i).(SliceV), cl, u.Elem()))
		case *types.Interface:
			i := x.resolveIface(st, sv.(IfaceV), x.oneofWrappers(f.v.Type()))
			if i.Dyn == nil {
				continue
			}
			wt := i.Dyn.Underlying().(*types.Pointer).Elem()
			ff := msgFields(wt)[0]
			if me := msgElem(ff.v.Type()); me != nil {
				j := x.resolveIface(st, x.loadF(st, dst, f.i).(IfaceV), x.oneofWrappers(f.v.Type()))
				if j.Dyn != nil && types.Identical(i.Dyn, j.Dyn) {
					dm := x.loadF(st, j.V.(Ptr), ff.i).(Ptr)
					if !x.branch(st, c.Eq(dm.Base, c.Int(0))) {
						x.mergeMsg(st, dm, x.loadF(st, i.V.(Ptr), ff.i).(Ptr), me)
						continue
					}
				}
			}
			x.storeF(st, dst, f.i, x.cloneVal(st, i, f.v.Type()))
		case *types.Map:
			if x.branch(st, c.Eq(sv.(*Term), c.Int(0))) {
				continue
			}
			dv := x.loadF(st, dst, f.i).(*Term)
			if x.branch(st, c.Eq(dv, c.Int(0))) {
				x.storeF(st, dst, f.i, x.cloneVal(st, sv, f.v.Type()))
				continue
			}
			panic(unsupported("merge of maps"))
		}
	}
}

func (x *Exec) resetMsg(st *State, p Ptr, t types.Type) {
	for _, f := range msgFields(t) {
		x.storeF(st, p, f.i, x.zero(f.v.Type()))
	}
}

// msgArg gives the typed pointer inside a proto.Message interface value.
func (x *Exec) msgArg(st *State, v Val) (Ptr, types.Type, IfaceV, bool) {
	i := v.(IfaceV)
	if i.Dyn == nil {
		if tag := x.norm(st, i.Tag); tag != i.Tag {
			i = x.mkIface(tag, x.ifacePay(i))
		}
		i = x.splitIface(st, i)
	}
	if i.Dyn == nil {
		return Ptr{}, nil, i, false
	}
	if t := msgElem(i.Dyn); t != nil {
		if p, ok := i.V.(Ptr); ok {
			return p, t, i, true
		}
	}
	return Ptr{}, nil, i, false
}

var _ ssa.Value
var _ = big.NewInt

func protoIntrinsics() map[string]intrinsic {
	m := map[string]intrinsic{}
	pp := "google.golang.org/protobuf/proto."
	m[pp+"Clone"] = func(x *Exec, st *State, s *Site, a []Val) Val {
		p, t, i, ok := x.msgArg(st, a[0])
		if !ok {
			return x.cloneOpaque(st, i)
		}
		return x.makeIface(x.cloneMsg(st, p, t), i.Dyn)
	}
	m[pp+"Equal"] = func(x *Exec, st *State, s *Site, a []Val) Val {
		p, t, i, ok := x.msgArg(st, a[0])
		q, t2, j, ok2 := x.msgArg(st, a[1])
		if !ok || !ok2 {
			return x.equalOpaque(st, i, j)
		}
		if !types.Identical(t, t2) {
			return x.c.F
		}
		return x.eqMsg(st, p, q, t)
	}
	m[pp+"Merge"] = func(x *Exec, st *State, s *Site, a []Val) Val {
		p, t, i, ok := x.msgArg(st, a[0])
		q, t2, j, ok2 := x.msgArg(st, a[1])
		if !ok || !ok2 || !types.Identical(t, t2) {
			return x.mergeOpaque(st, i, j)
		}
		x.nilCheck(st, p, 0)
		if x.branch(st, x.c.Eq(q.Base, x.c.Int(0))) {
			return unit()
		}
		x.mergeMsg(st, p, q, t)
		return unit()
	}
	m[pp+"Reset"] = func(x *Exec, st *State, s *Site, a []Val) Val {
		p, t, _, ok := x.msgArg(st, a[0])
		if !ok {
			panic(unsupported("proto.Reset of unknown message"))
		}
		x.nilCheck(st, p, 0)
		x.resetMsg(st, p, t)
		return unit()
	}
	return m
}

func (x *Exec) cloneOpaque(st *State, i IfaceV) Val {
	panic(unsupported("proto.Clone of a message of unknown type " + i.Tag.String()))
}
func (x *Exec) equalOpaque(st *State, i, j IfaceV) Val {
	panic(unsupported("proto.Equal of a message of unknown type"))
}
func (x *Exec) mergeOpaque(st *State, i, j IfaceV) Val {
	panic(unsupported("proto.Merge of a message of unknown type"))
}
