package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- symbolic Go values

type Val interface{}

// scalars are *Term

type PathEl struct {
	F int   // field index (struct), -1 for array index
	I *Term // array index
}

// Ptr is a pointer: to a root object (Base), or to an element of a slice/array object (Elem), then a path inside.
type Ptr struct {
	Base *Term
	Root types.Type // type of the root object, or of the element when Elem
	Elem bool
	Idx  *Term // element index when Elem; nil for a pointer to a whole array object
	N    int64 // array length when Elem && Idx==nil
	Path []PathEl
}

type SliceV struct{ Arr, Off, Len, Cap *Term }

type IfaceV struct {
	Tag, Pay *Term
	Dyn      types.Type // known dynamic type, or nil
	V        Val        // its value when Dyn known
}

type StructV struct {
	T types.Type
	F []Val
}

type ArrayV struct {
	Elem types.Type
	N    int64
	C    []*Term // one SMT array per component of Elem
}

type FuncV struct {
	Fn    *ssa.Function
	Binds []Val
	T     *Term // symbolic function value (opaque) or encoded id
	BI    *ssa.Builtin
}

type TupleV []Val

type IterV struct {
	M       *Term
	MT      *types.Map
	Visited []*Term
	VisArr  *Term // symbolic visited set (cut mode), else nil
	Done    bool
}

// ---- components of types

type comp struct {
	suf    string
	s      *Sort
	lo, hi *big.Int
	ref    bool
	str    bool
	dep    int // number of array dimensions added
}

func two(n int) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(n)) }

var maxLen = two(40)

func intRange(t types.Type) (lo, hi *big.Int, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return nil, nil, false
	}
	one := big.NewInt(1)
	s := func(n int) (*big.Int, *big.Int, bool) {
		return new(big.Int).Neg(two(n - 1)), new(big.Int).Sub(two(n-1), one), true
	}
	u := func(n int) (*big.Int, *big.Int, bool) { return big.NewInt(0), new(big.Int).Sub(two(n), one), true }
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return s(64)
	case types.Int32, types.UntypedRune:
		return s(32)
	case types.Int16:
		return s(16)
	case types.Int8:
		return s(8)
	case types.Uint, types.Uint64, types.Uintptr:
		return u(64)
	case types.Uint32:
		return u(32)
	case types.Uint16:
		return u(16)
	case types.Uint8:
		return u(8)
	}
	return nil, nil, false
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isFloat32(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Float32
}
func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func namedPath(t types.Type) (pkg, name string) {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path(), n.Obj().Name()
		}
		return "", n.Obj().Name()
	}
	return "", ""
}

// opaqueStruct: struct types with no modelled components.
func opaqueStruct(t types.Type) bool {
	p, n := namedPath(t)
	switch p {
	case "sync", "sync/atomic", "google.golang.org/protobuf/internal/impl", "google.golang.org/protobuf/internal/pragma":
		return true
	}
	_ = n
	return false
}

func isTime(t types.Type) bool {
	p, n := namedPath(t)
	return p == "time" && n == "Time"
}

// isGhostVal: gv.V, the mathematical value of a message
func isGhostVal(t types.Type) bool {
	p, n := namedPath(t)
	return strings.HasSuffix(p, "internal/gv") && n == "V"
}

func (e *Eng) comps(t types.Type) []comp {
	t = types.Unalias(t)
	if c, ok := e.compCache[t]; ok {
		return c
	}
	c := e.comps1(t)
	e.compCache[t] = c
	return c
}

func (e *Eng) comps1(t types.Type) []comp {
	if isTime(t) {
		return []comp{{suf: "", s: IntS}}
	}
	if isGhostVal(t) {
		return []comp{{suf: "", s: MsgS}}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return []comp{{s: BoolS}}
		case u.Info()&types.IsInteger != 0:
			lo, hi, _ := intRange(t)
			return []comp{{s: IntS, lo: lo, hi: hi}}
		case u.Info()&types.IsFloat != 0:
			if e.fp {
				if isFloat32(t) {
					return []comp{{s: FP32S}}
				}
				return []comp{{s: FP64S}}
			}
			return []comp{{s: RealS}}
		case u.Info()&types.IsString != 0:
			return []comp{{s: RealS, str: true}}
		case u.Kind() == types.UnsafePointer:
			return []comp{{s: IntS, ref: true}}
		case u.Kind() == types.UntypedNil:
			return []comp{{s: IntS, ref: true}}
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return []comp{{s: IntS, ref: true}}
	case *types.Slice:
		z := big.NewInt(0)
		return []comp{{suf: "#arr", s: IntS, ref: true}, {suf: "#off", s: IntS, lo: z, hi: maxLen}, {suf: "#len", s: IntS, lo: z, hi: maxLen}, {suf: "#cap", s: IntS, lo: z, hi: maxLen}}
	case *types.Interface:
		return []comp{{suf: "#tag", s: IntS, lo: big.NewInt(0), hi: two(20)}, {suf: "#pay", s: IntS, ref: true}}
	case *types.Struct:
		if opaqueStruct(t) {
			return nil
		}
		var out []comp
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			for _, c := range e.comps(f.Type()) {
				c.suf = "." + f.Name() + c.suf
				out = append(out, c)
			}
		}
		return out
	case *types.Array:
		var out []comp
		for _, c := range e.comps(u.Elem()) {
			out = append(out, comp{suf: "[]" + c.suf, s: ArrS(IntS, c.s), lo: c.lo, hi: c.hi, ref: c.ref, str: c.str, dep: c.dep + 1})
		}
		return out
	case *types.Tuple:
		var out []comp
		for i := 0; i < u.Len(); i++ {
			out = append(out, e.comps(u.At(i).Type())...)
		}
		return out
	}
	panic(unsupported("type " + t.String()))
}

// structKey gives the canonical heap name of a root type. Types with one shared underlying struct share memory.
func (e *Eng) structKey(t types.Type) string {
	t = types.Unalias(t)
	if st, ok := t.Underlying().(*types.Struct); ok {
		if k, ok := e.structKeys[st]; ok {
			return k
		}
		k := types.TypeString(t, nil)
		if _, isN := t.(*types.Named); !isN {
			k = fmt.Sprintf("anon%d", len(e.structKeys))
		}
		e.structKeys[st] = k
		return k
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return "cell:" + u.Name()
	}
	return "cell:" + types.TypeString(t, nil)
}

func (e *Eng) elemKey(t types.Type) string {
	t = types.Unalias(t)
	if _, ok := t.Underlying().(*types.Struct); ok {
		return "[]" + e.structKey(t)
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		return "[]" + b.Name()
	}
	return "[]" + types.TypeString(t.Underlying(), nil)
}

// ---- flatten / unflatten

func (x *Exec) flatten(v Val, t types.Type) []*Term {
	c := x.c
	t = types.Unalias(t)
	if isTime(t) || isGhostVal(t) {
		return []*Term{v.(*Term)}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return []*Term{v.(*Term)}
	case *types.Pointer:
		switch p := v.(type) {
		case Ptr:
			return []*Term{x.encPtr(p)}
		case *Term:
			return []*Term{p}
		}
	case *types.Map, *types.Chan:
		return []*Term{v.(*Term)}
	case *types.Signature:
		return []*Term{x.encFunc(v)}
	case *types.Slice:
		s := v.(SliceV)
		return []*Term{s.Arr, s.Off, s.Len, s.Cap}
	case *types.Interface:
		i := v.(IfaceV)
		return []*Term{i.Tag, x.ifacePay(i)}
	case *types.Struct:
		if opaqueStruct(t) {
			return nil
		}
		sv := v.(StructV)
		var out []*Term
		for i := 0; i < u.NumFields(); i++ {
			out = append(out, x.flatten(sv.F[i], u.Field(i).Type())...)
		}
		return out
	case *types.Array:
		return v.(ArrayV).C
	case *types.Tuple:
		var out []*Term
		for i := 0; i < u.Len(); i++ {
			out = append(out, x.flatten(v.(TupleV)[i], u.At(i).Type())...)
		}
		return out
	}
	_ = c
	panic(unsupported(fmt.Sprintf("flatten %T as %s", v, t)))
}

func (x *Exec) unflatten(ts []*Term, t types.Type) Val {
	v, rest := x.unflat(ts, t)
	if len(rest) != 0 {
		panic("unflatten: leftover components for " + t.String())
	}
	return v
}

func (x *Exec) unflat(ts []*Term, t types.Type) (Val, []*Term) {
	t = types.Unalias(t)
	if isTime(t) || isGhostVal(t) {
		return ts[0], ts[1:]
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return ts[0], ts[1:]
	case *types.Pointer:
		return x.decPtr(ts[0], u.Elem()), ts[1:]
	case *types.Map, *types.Chan:
		return ts[0], ts[1:]
	case *types.Signature:
		return x.decFunc(ts[0]), ts[1:]
	case *types.Slice:
		return SliceV{ts[0], ts[1], ts[2], ts[3]}, ts[4:]
	case *types.Interface:
		return x.mkIface(ts[0], ts[1]), ts[2:]
	case *types.Struct:
		sv := StructV{T: t}
		if opaqueStruct(t) {
			return sv, ts
		}
		for i := 0; i < u.NumFields(); i++ {
			var f Val
			f, ts = x.unflat(ts, u.Field(i).Type())
			sv.F = append(sv.F, f)
		}
		return sv, ts
	case *types.Array:
		n := len(x.e.comps(u.Elem()))
		return ArrayV{Elem: u.Elem(), N: u.Len(), C: ts[:n]}, ts[n:]
	case *types.Tuple:
		var tv TupleV
		for i := 0; i < u.Len(); i++ {
			var f Val
			f, ts = x.unflat(ts, u.At(i).Type())
			tv = append(tv, f)
		}
		return tv, ts
	}
	panic(unsupported("unflatten " + t.String()))
}

// zero components
func (x *Exec) zeroTerm(s *Sort) *Term {
	switch s.K {
	case SBool:
		return x.c.F
	case SInt:
		return x.c.Int(0)
	case SReal:
		return x.c.RealC(new(big.Rat))
	case SFP:
		return x.fpConst(0, s)
	case SArr:
		return x.c.ConstArr(s, x.zeroTerm(s.B))
	case SUn:
		return x.c.mk(&Term{Op: "const", Name: "|msg0|", S: MsgS})
	}
	panic("zero")
}

// zeroTimeNs: time.Time{} in nanoseconds since the Unix epoch
var zeroTimeNs = new(big.Int).Mul(big.NewInt(-62135596800), big.NewInt(1000000000))

func (x *Exec) zero(t types.Type) Val {
	ts, _ := x.zeroComps(t)
	return x.unflatten(ts, t)
}

func (x *Exec) zeroComps(t types.Type) ([]*Term, error) {
	t = types.Unalias(t)
	if isTime(t) {
		return []*Term{x.c.BigInt(zeroTimeNs)}, nil
	}
	if !opaqueStruct(t) {
		if u, ok := t.Underlying().(*types.Struct); ok {
			var out []*Term
			for i := 0; i < u.NumFields(); i++ {
				f, _ := x.zeroComps(u.Field(i).Type())
				out = append(out, f...)
			}
			return out, nil
		}
	}
	if u, ok := t.Underlying().(*types.Array); ok {
		f, _ := x.zeroComps(u.Elem())
		var out []*Term
		for i, c := range x.e.comps(t) {
			out = append(out, x.c.ConstArr(c.s, f[i]))
		}
		return out, nil
	}
	var out []*Term
	for _, c := range x.e.comps(t) {
		out = append(out, x.zeroTerm(c.s))
	}
	return out, nil
}

// symComps creates fresh symbolic components for a type
func (x *Exec) symVal(name string, t types.Type) Val {
	var ts []*Term
	for _, c := range x.e.comps(t) {
		v := x.c.Fresh(name+c.suf, c.s)
		x.setRange(v, c)
		ts = append(ts, v)
	}
	v := x.unflatten(ts, t)
	return v
}

func (x *Exec) setRange(v *Term, c comp) {
	if c.lo != nil {
		v.Lo, v.Hi = c.lo, c.hi
	}
	if c.ref {
		v.Lo = big.NewInt(0)
	}
	if c.str {
		v.Lo = big.NewInt(0)
	}
}

// valFacts are type invariants of a symbolic value (slice well-formedness, nil interface payload)
func (x *Exec) valFacts(v Val, t types.Type) []*Term {
	c := x.c
	t = types.Unalias(t)
	if isTime(t) || isGhostVal(t) {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		s, ok := v.(SliceV)
		if !ok {
			return nil
		}
		if s.Len.IsConst() && s.Cap.IsConst() {
			return nil
		}
		f := []*Term{c.Le(s.Len, s.Cap), c.Implies(c.Eq(s.Arr, c.Int(0)), c.Eq(s.Cap, c.Int(0)))}
		return f
	case *types.Interface:
		i := v.(IfaceV)
		if i.Dyn != nil || i.Tag.IsConst() {
			return nil
		}
		if tags := x.e.oneofTags(t); tags != nil {
			// data invariant of generated messages: a oneof field is nil or holds a non-nil wrapper
			alts := []*Term{c.Eq(i.Tag, c.Int(0))}
			for _, k := range tags {
				alts = append(alts, c.Eq(i.Tag, c.Int(k)))
			}
			return []*Term{c.Eq(c.Eq(i.Tag, c.Int(0)), c.Eq(i.Pay, c.Int(0))), c.Or(alts...)}
		}
		return []*Term{c.Implies(c.Eq(i.Tag, c.Int(0)), c.Eq(i.Pay, c.Int(0)))}
	case *types.Struct:
		if opaqueStruct(t) {
			return nil
		}
		var out []*Term
		for i := 0; i < u.NumFields(); i++ {
			out = append(out, x.valFacts(v.(StructV).F[i], u.Field(i).Type())...)
		}
		return out
	case *types.Tuple:
		var out []*Term
		for i := 0; i < u.Len(); i++ {
			out = append(out, x.valFacts(v.(TupleV)[i], u.At(i).Type())...)
		}
		return out
	}
	return nil
}

// ---- pointers

func (x *Exec) nilPtr(t types.Type) Ptr { return Ptr{Base: x.c.Int(0), Root: t} }

func (x *Exec) encPtr(p Ptr) *Term {
	if !p.Elem && len(p.Path) == 0 {
		return p.Base
	}
	if p.Elem && p.Idx == nil && len(p.Path) == 0 {
		return p.Base // pointer to an array object
	}
	// interior pointer: a distinct id derived from base and path
	name := "iptr:" + x.e.rootKey(p) + pathStr(p)
	args := []*Term{p.Base}
	if p.Idx != nil {
		args = append(args, p.Idx)
	}
	for _, q := range p.Path {
		if q.I != nil {
			args = append(args, q.I)
		}
	}
	t := x.c.App(name, IntS, args...)
	if t.Lo == nil {
		t.Lo = two(50)
	}
	x.e.iptrMu.Lock()
	x.iptr[t.ID] = p
	x.e.iptrMu.Unlock()
	return t
}

func pathStr(p Ptr) string {
	s := ""
	if p.Idx != nil {
		s += "[i]"
	}
	for _, q := range p.Path {
		if q.I != nil {
			s += "[]"
		} else {
			s += fmt.Sprintf(".%d", q.F)
		}
	}
	return s
}

func (e *Eng) rootKey(p Ptr) string {
	if p.Elem {
		return e.elemKey(p.Root)
	}
	return e.structKey(p.Root)
}

func (x *Exec) decPtr(t *Term, elem types.Type) Val {
	if p, ok := x.iptr[t.ID]; ok {
		return p
	}
	if a, ok := elem.Underlying().(*types.Array); ok {
		return Ptr{Base: t, Root: a.Elem(), Elem: true, N: a.Len()}
	}
	return Ptr{Base: t, Root: elem}
}

// ---- functions

const fnBase = 1 << 41

func (x *Exec) encFunc(v Val) *Term {
	f := v.(FuncV)
	if f.T != nil {
		return f.T
	}
	if f.Fn == nil && f.BI == nil {
		return x.c.Int(0)
	}
	id := int64(fnBase + len(x.fnTab))
	x.fnTab = append(x.fnTab, f)
	return x.c.Int(id)
}

func (x *Exec) decFunc(t *Term) Val {
	if i, ok := t.IntVal(); ok {
		if i == 0 {
			return FuncV{T: t}
		}
		if i >= fnBase && int(i-fnBase) < len(x.fnTab) {
			return x.fnTab[i-fnBase]
		}
	}
	return FuncV{T: t}
}

// ---- interfaces

func (e *Eng) typeTag(t types.Type) int64 {
	t = types.Unalias(t)
	e.tagMu.Lock()
	defer e.tagMu.Unlock()
	if v := e.tags.At(t); v != nil {
		return v.(int64)
	}
	id := int64(e.tags.Len() + 1)
	e.tags.Set(t, id)
	e.tagTypes = append(e.tagTypes, t)
	return id
}

func (e *Eng) tagType(id int64) types.Type {
	e.tagMu.Lock()
	defer e.tagMu.Unlock()
	if id >= 1 && int(id) <= len(e.tagTypes) {
		return e.tagTypes[id-1]
	}
	return nil
}

func (x *Exec) mkIface(tag, pay *Term) IfaceV {
	i := IfaceV{Tag: tag, Pay: pay}
	if id, ok := tag.IntVal(); ok && id != 0 {
		if t := x.e.tagType(id); t != nil {
			i.Dyn = t
			i.V = x.unbox(pay, t)
		}
	}
	return i
}

func (x *Exec) nilIface() IfaceV { return IfaceV{Tag: x.c.Int(0), Pay: x.c.Int(0)} }

func (x *Exec) makeIface(v Val, t types.Type) IfaceV {
	return IfaceV{Tag: x.c.Int(x.e.typeTag(t)), Dyn: t, V: v}
}

func (x *Exec) ifacePay(i IfaceV) *Term {
	if i.Pay != nil {
		return i.Pay
	}
	return x.box(i.V, i.Dyn)
}

// box encodes a value of concrete type t as an interface payload
func (x *Exec) box(v Val, t types.Type) *Term {
	ts := x.flatten(v, t)
	cs := x.e.comps(t)
	if len(ts) == 1 && cs[0].s == IntS {
		return ts[0]
	}
	if len(ts) == 0 {
		return x.c.Int(0)
	}
	tm := x.c.App("box:"+types.TypeString(t, nil), IntS, ts...)
	x.boxes[tm.ID] = ts
	return tm
}

func (x *Exec) unbox(p *Term, t types.Type) Val {
	cs := x.e.comps(t)
	if len(cs) == 1 && cs[0].s == IntS {
		return x.unflatten([]*Term{p}, t)
	}
	if ts, ok := x.boxes[p.ID]; ok {
		return x.unflatten(ts, t)
	}
	if p.Op == "ite" {
		a := x.flatten(x.unbox(p.Args[1], t), t)
		b := x.flatten(x.unbox(p.Args[2], t), t)
		var ts []*Term
		for i := range a {
			ts = append(ts, x.c.Ite(p.Args[0], a[i], b[i]))
		}
		return x.unflatten(ts, t)
	}
	var ts []*Term
	for k, cm := range cs {
		u := x.c.App(fmt.Sprintf("unbox:%s:%d", types.TypeString(t, nil), k), cm.s, p)
		x.setRange(u, cm)
		ts = append(ts, u)
	}
	return x.unflatten(ts, t)
}

// ---- strings as rationals (order-preserving embedding)

func strRat(s string) *big.Rat {
	num := new(big.Int)
	den := big.NewInt(1)
	b257 := big.NewInt(257)
	for i := 0; i < len(s); i++ {
		num.Mul(num, b257)
		num.Add(num, big.NewInt(int64(s[i])+1))
		den.Mul(den, b257)
	}
	return new(big.Rat).SetFrac(num, den)
}

func ratStrDecode(r *big.Rat) string {
	var out []byte
	x := new(big.Rat).Set(r)
	b := big.NewRat(257, 1)
	for i := 0; i < 4096 && x.Sign() > 0; i++ {
		x.Mul(x, b)
		d := new(big.Int).Quo(x.Num(), x.Denom())
		x.Sub(x, new(big.Rat).SetInt(d))
		v := d.Int64()
		if v == 0 {
			v = 1
		}
		out = append(out, byte(v-1))
	}
	return string(out)
}

// oneofTags lists the wrapper types of a generated oneof interface (nil for any other interface).
func (e *Eng) oneofTags(t types.Type) []int64 {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Exported() || !strings.HasPrefix(n.Obj().Name(), "is") || strings.HasPrefix(n.Obj().Pkg().Path(), repoMod) {
		return nil
	}
	it, ok := n.Underlying().(*types.Interface)
	if !ok || it.NumMethods() != 1 || it.Method(0).Name() != n.Obj().Name() {
		return nil
	}
	if r, ok := e.oneofs[n]; ok {
		return r
	}
	var out []int64
	sc := n.Obj().Pkg().Scope()
	for _, nm := range sc.Names() {
		if tn, ok := sc.Lookup(nm).(*types.TypeName); ok {
			p := types.NewPointer(tn.Type())
			if _, isS := tn.Type().Underlying().(*types.Struct); isS && types.Implements(p, it) {
				out = append(out, e.typeTag(p))
			}
		}
	}
	e.oneofs[n] = out
	return out
}

// deep substitutes the values already fixed by the path into a length or index term.
func (x *Exec) deep(st *State, t *Term) *Term {
	if t == nil || t.IsConst() || t.Bnd {
		return t
	}
	if k, ok := st.known[t.ID]; ok {
		return k
	}
	if len(t.Args) == 0 || t.S != IntS {
		return t
	}
	switch t.Op {
	case "+", "*", "-", "ite":
		return x.c.Subst(t, st.known)
	}
	return t
}

func (x *Exec) deepSlice(st *State, s SliceV) SliceV {
	return SliceV{s.Arr, x.deep(st, s.Off), x.deep(st, s.Len), x.deep(st, s.Cap)}
}
