package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var (
	synthPkg   = types.NewPackage("gv/synthetic", "synthetic")
	statusErrT = synthErr("StatusError")
	plainErrT  = synthErr("PlainError")
	nsPerSec   = big.NewInt(1000000000)
	minI64     = new(big.Int).Neg(two(63))
	maxI64     = new(big.Int).Sub(two(63), big.NewInt(1))
)

func synthErr(n string) types.Type {
	tn := types.NewTypeName(token.NoPos, synthPkg, n, nil)
	nt := types.NewNamed(tn, types.NewStruct(nil, nil), nil)
	sig := types.NewSignatureType(types.NewVar(token.NoPos, synthPkg, "e", types.NewPointer(nt)), nil, nil, nil, types.NewTuple(types.NewVar(token.NoPos, synthPkg, "", types.Typ[types.String])), false)
	nt.AddMethod(types.NewFunc(token.NoPos, synthPkg, "Error", sig))
	return types.NewPointer(nt)
}

func isSynth(t types.Type) bool { return t == statusErrT || t == plainErrT }

func (x *Exec) synthMethod(t types.Type) bool { return isSynth(t) }

// newErr allocates an error object.
func (x *Exec) newErr(st *State, t types.Type, code, msg *Term) IfaceV {
	r := x.newRef()
	h := x.heapGet(st, "ghost:errcode", ArrS(IntS, IntS), comp{s: IntS, lo: big.NewInt(0), hi: big.NewInt(100)})
	jset(st, st.heap, (*State).mHeap, "ghost:errcode", x.c.Store(h, r, code))
	m := x.heapGet(st, "ghost:errmsg", ArrS(IntS, RealS), comp{s: RealS, str: true})
	jset(st, st.heap, (*State).mHeap, "ghost:errmsg", x.c.Store(m, r, msg))
	return x.makeIface(Ptr{Base: r, Root: t.(*types.Pointer).Elem()}, t)
}

func (x *Exec) errCode(st *State, e IfaceV) *Term {
	c := x.c
	h := x.heapGet(st, "ghost:errcode", ArrS(IntS, IntS), comp{s: IntS, lo: big.NewInt(0), hi: big.NewInt(100)})
	pay := x.ifacePay(e)
	other := c.Int(2)
	if !e.Tag.IsConst() {
		o := c.App("errcode", IntS, e.Tag, pay)
		o.Lo, o.Hi = big.NewInt(1), big.NewInt(100)
		other = c.Ite(c.Eq(e.Tag, c.Int(x.e.typeTag(plainErrT))), c.Int(2), o)
	}
	return c.Ite(c.Eq(e.Tag, c.Int(0)), c.Int(0), c.Ite(c.Eq(e.Tag, c.Int(x.e.typeTag(statusErrT))), c.Select(h, pay), other))
}

func (x *Exec) errMsg(st *State, e IfaceV) *Term {
	m := x.heapGet(st, "ghost:errmsg", ArrS(IntS, RealS), comp{s: RealS, str: true})
	return x.c.Select(m, x.ifacePay(e))
}

func (x *Exec) freshStr(n string) *Term {
	s := x.c.Fresh(n, RealS)
	s.Lo = big.NewInt(0)
	return s
}

func (x *Exec) clamp64(t *Term) *Term {
	c := x.c
	if t.Lo != nil && t.Hi != nil && t.Lo.Cmp(minI64) >= 0 && t.Hi.Cmp(maxI64) <= 0 {
		return t
	}
	return c.Ite(c.Lt(c.BigInt(maxI64), t), c.BigInt(maxI64), c.Ite(c.Lt(t, c.BigInt(minI64)), c.BigInt(minI64), t))
}

// field addresses a field of a message object by name
func fieldPtr(p Ptr, name string) Ptr {
	st := p.Root.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			p.Path = append(append([]PathEl{}, p.Path...), PathEl{F: i})
			return p
		}
	}
	panic("no field " + name + " in " + p.Root.String())
}

func lockKey(x *Exec, p Ptr) string { return fmt.Sprint(x.encPtr(p).ID) }

func stdIntrinsics() map[string]intrinsic {
	m := map[string]intrinsic{}
	self := func(x *Exec, st *State, s *Site, a []Val) Val { return a[0] }
	// ---- time
	m["(time.Time).Sub"] = func(x *Exec, st *State, s *Site, a []Val) Val {
		return x.named64(st, x.clamp64(x.c.Sub(a[0].(*Term), a[1].(*Term))))
	}
	m["(time.Time).Add"] = func(x *Exec, st *State, s *Site, a []Val) Val { return x.c.Add(a[0].(*Term), a[1].(*Term)) }
	m["(time.Time).After"] = func(x *Exec, st *State, s *Site, a []Val) Val { return x.c.Lt(a[1].(*Term), a[0].(*Term)) }
	m["(time.Time).Before"] = func(x *Exec, st *State, s *Site, a []Val) Val { return x.c.Lt(a[0].(*Term), a[1].(*Term)) }
	m["(time.Time).Equal"] = func(x *Exec, st *State, s *Site, a []Val) Val { return x.c.Eq(a[0].(*Term), a[1].(*Term)) }
	m["(time.Time).Compare"] = func(x *Exec, st *State, s *Site, a []Val) Val {
		p, q := a[0].(*Term), a[1].(*Term)
		return x.c.Ite(x.c.Lt(p, q), x.c.Int(-1), x.c.Ite(x.c.Eq(p, q), x.c.Int(0), x.c.Int(1)))
	}
	m["(time.Time).IsZero"] = func(x *Exec, st *State, s *Site, a []Val) Val {
		return x.c.Eq(a[0].(*Term), x.c.BigInt(zeroTimeNs))
	}
	m["(time.Time).UTC"] = self
	m["(time.Time).Local"] = self
	m["(time.Time).Unix"] = func(x *Exec, st *State, s *Site, a []Val) Val { return x.c.Div(a[0].(*Term), x.c.BigInt(nsPerSec)) }
	m["(time.Time).Nanosecond"] = func(x *Exec, st *State, s *Site, a []Val) Val {
		return x.c.Mod(a[0].(*Term), x.c.BigInt(nsPerSec))
	}
	m["time.Unix"] = func(x *Exec, st *State, s *Site, a []Val) Val {
		return x.c.Add(x.c.Mul(x.c.BigInt(nsPerSec), a[0].(*Term)), a[1].(*Term))
	}
	m["time.Now"] = func(x *Exec, st *State, s *Site, a []Val) Val {
		t := x.c.Fresh("now", IntS)
		t.Lo, t.Hi = big.NewInt(946684800000000000), big.NewInt(7258118400000000000)
		return t
	}
	m["time.Since"] = func(x *Exec, st *State, s *Site, a []Val) Val {
		return x.havocVal(st, "since", types.Typ[types.Int64])
	}
	m["time.Until"] = m["time.Since"]
	m["(time.Duration).Seconds"] = func(x *Exec, st *State, s *Site, a []Val) Val {
		return x.c.RDiv(x.c.ToReal(a[0].(*Term)), x.c.RealC(new(big.Rat).SetInt(nsPerSec)))
	}
	// ---- well-known proto types
	tsp := "google.golang.org/protobuf/types/known/timestamppb."
	dup := "google.golang.org/protobuf/types/known/durationpb."
	newTS := func(x *Exec, st *State, s *Site, t *Term) Val {
		p := x.alloc(st, s.fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem())
		sec := x.c.Div(t, x.c.BigInt(nsPerSec))
		ns := x.c.Mod(t, x.c.BigInt(nsPerSec))
		sec = x.wrap(st, sec, types.Typ[types.Int64])
		x.timeOf[[2]int{sec.ID, ns.ID}] = t
		x.store(st, fieldPtr(p, "Seconds"), sec)
		x.store(st, fieldPtr(p, "Nanos"), ns)
		return p
	}
	m[tsp+"New"] = func(x *Exec, st *State, s *Site, a []Val) Val { return newTS(x, st, s, a[0].(*Term)) }
	m[tsp+"Now"] = func(x *Exec, st *State, s *Site, a []Val) Val {
		return newTS(x, st, s, m["time.Now"](x, st, s, nil).(*Term))
	}
	secNanos := func(x *Exec, st *State, v Val) (*Term, *Term) {
		p := v.(Ptr)
		sec := x.load(st, fieldPtr(p, "Seconds")).(*Term)
		ns := x.load(st, fieldPtr(p, "Nanos")).(*Term)
		z := x.c.Eq(p.Base, x.c.Int(0))
		if z.IsFalse() {
			return sec, ns
		}
		return x.c.Ite(z, x.c.Int(0), sec), x.c.Ite(z, x.c.Int(0), ns)
	}
	m["(*"+tsp+"Timestamp).AsTime"] = func(x *Exec, st *State, s *Site, a []Val) Val {
		sec, ns := secNanos(x, st, a[0])
		if t, ok := x.timeOf[[2]int{sec.ID, ns.ID}]; ok {
			return t
		}
		return x.c.Add(x.c.Mul(x.c.BigInt(nsPerSec), sec), ns)
	}
	m[dup+"New"] = func(x *Exec, st *State, s *Site, a []Val) Val {
		d := a[0].(*Term)
		c := x.c
		p := x.alloc(st, s.fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem())
		sec := x.quoRem(st, d, c.BigInt(nsPerSec), types.Typ[types.Int64], false)
		ns := x.quoRem(st, d, c.BigInt(nsPerSec), types.Typ[types.Int64], true)
		if !d.IsConst() && !d.Bnd {
			sv := c.FreshRange("dsec", big.NewInt(-9223372037), big.NewInt(9223372037))
			nv := c.FreshRange("dns", big.NewInt(-999999999), big.NewInt(999999999))
			x.assume(st, c.Eq(d, c.Add(c.Mul(c.BigInt(nsPerSec), sv), nv)))
			x.assume(st, c.Implies(c.Le(c.Int(0), d), c.And(c.Le(c.Int(0), sv), c.Le(c.Int(0), nv))))
			x.assume(st, c.Implies(c.Le(d, c.Int(0)), c.And(c.Le(sv, c.Int(0)), c.Le(nv, c.Int(0)))))
			sec, ns = sv, nv
		}
		x.durOf[[2]int{sec.ID, ns.ID}] = d
		x.store(st, fieldPtr(p, "Seconds"), sec)
		x.store(st, fieldPtr(p, "Nanos"), ns)
		return p
	}
	m["(*"+dup+"Duration).AsDuration"] = func(x *Exec, st *State, s *Site, a []Val) Val {
		c := x.c
		sec, ns := secNanos(x, st, a[0])
		if t, ok := x.durOf[[2]int{sec.ID, ns.ID}]; ok {
			return t
		}
		ss := c.Mul(c.BigInt(nsPerSec), sec)
		tot := c.Add(ss, ns)
		in := func(t *Term) *Term {
			return c.And(c.Le(c.BigInt(minI64), t), c.Le(t, c.BigInt(maxI64)))
		}
		ok := c.And(in(ss), in(tot))
		if x.provable(st, ok) {
			return tot
		}
		r := c.Ite(ok, tot, c.Ite(c.Lt(sec, c.Int(0)), c.BigInt(minI64), c.BigInt(maxI64)))
		return x.named(st, "dur", r, minI64, maxI64)
	}
	// ---- types at run time, of values whose dynamic types are known
	rtype := func(x *Exec, t types.Type) Val {
		p := x.e.prog.ImportedPackage("reflect")
		if p == nil || t == nil {
			panic(unsupported("reflection on a value of unknown type"))
		}
		k := x.e.typeTag(t)
		root := p.Type("rtype").Type()
		return x.makeIface(Ptr{Base: x.c.Int(rtypeBase + k), Root: root}, types.NewPointer(root))
	}
	typeOf := func(x *Exec, v Val) types.Type {
		if i, ok := v.(IfaceV); ok {
			v = i.V
		}
		if p, ok := v.(Ptr); ok {
			if k, ok := p.Base.IntVal(); ok && k > rtypeBase {
				if t := x.e.tagType(k - rtypeBase); t != nil {
					return t
				}
			}
		}
		panic(unsupported("reflection on an unknown type"))
	}
	m["reflect.TypeOf"] = func(x *Exec, st *State, s *Site, a []Val) Val {
		return rtype(x, x.splitIface(st, a[0].(IfaceV)).Dyn)
	}
	m["(*reflect.rtype).Elem"] = func(x *Exec, st *State, s *Site, a []Val) Val {
		e, ok := typeOf(x, a[0]).Underlying().(interface{ Elem() types.Type })
		if !ok {
			panic(unsupported("reflection: Elem"))
		}
		return rtype(x, e.Elem())
	}
	m["(*reflect.rtype).Implements"] = func(x *Exec, st *State, s *Site, a []Val) Val {
		i, ok := typeOf(x, a[1]).Underlying().(*types.Interface)
		if !ok {
			panic(unsupported("reflection: Implements of what isn't an interface"))
		}
		return x.c.Bool(types.Implements(typeOf(x, a[0]), i))
	}
	// ---- sort
	m["sort.Search"] = func(x *Exec, st *State, s *Site, a []Val) Val {
		c := x.c
		n := x.norm(st, a[0].(*Term))
		if k, ok := n.IntVal(); ok && k <= 0 {
			return c.Int(0)
		}
		if k, ok := n.IntVal(); ok && k <= 12 {
			// as the library does it
			lo, hi := int64(0), k
			for lo < hi {
				h := (lo + hi) / 2
				v, fs := x.evalPure(st, a[1].(FuncV), []Val{c.Int(h)}, types.Typ[types.Bool])
				if v == nil { // no feasible path
					st.dead = true
					return c.Int(0)
				}
				for _, q := range fs {
					x.assume(st, q)
				}
				if x.branch(st, x.deep(st, v.(*Term))) {
					hi = h
				} else {
					lo = h + 1
				}
			}
			return c.Int(lo)
		}
		i := c.FreshRange("search", big.NewInt(0), maxLen)
		x.assume(st, c.And(c.Le(c.Int(0), i), c.Or(c.Le(i, n), c.And(c.Lt(n, c.Int(0)), c.Eq(i, c.Int(0))))))
		f := a[1].(FuncV)
		if x.branch(st, c.Lt(i, n)) {
			v, fs := x.evalPure(st, f, []Val{i}, types.Typ[types.Bool])
			for _, q := range fs {
				x.assume(st, q)
			}
			x.assume(st, v.(*Term))
		}
		if x.branch(st, c.Lt(c.Int(0), i)) {
			v, fs := x.evalPure(st, f, []Val{c.Sub(i, c.Int(1))}, types.Typ[types.Bool])
			for _, q := range fs {
				x.assume(st, q)
			}
			x.assume(st, c.Not(v.(*Term)))
		}
		if x.feasible(st) == Unsat {
			st.dead = true
		}
		return i
	}
	sortSlice := func(x *Exec, st *State, s *Site, a []Val) Val {
		i := a[0].(IfaceV)
		sv := i.V.(SliceV)
		et := i.Dyn.Underlying().(*types.Slice).Elem()
		x.sortModel(st, sv, et, a[1].(FuncV), strings.Contains(originName(s.fn), "Stable"))
		return unit()
	}
	m["sort.SliceIsSorted"] = func(x *Exec, st *State, s *Site, a []Val) Val {
		i := a[0].(IfaceV)
		n, ok := x.deep(st, x.norm(st, i.V.(SliceV).Len)).IntVal()
		if !ok {
			panic(unsupported("sort.SliceIsSorted of unknown length"))
		}
		r := x.c.T
		for k := int64(1); k < n; k++ {
			v, fs := x.evalPure(st, a[1].(FuncV), []Val{x.c.Int(k), x.c.Int(k - 1)}, types.Typ[types.Bool])
			for _, q := range fs {
				x.assume(st, q)
			}
			r = x.c.And(r, x.c.Not(v.(*Term)))
		}
		return r
	}
	m["sort.Slice"] = sortSlice
	m["sort.SliceStable"] = sortSlice
	m["sort.Sort"] = func(x *Exec, st *State, s *Site, a []Val) Val {
		i := a[0].(IfaceV)
		if i.Dyn == nil {
			panic(unsupported("sort.Sort of unknown type"))
		}
		sl, ok := i.Dyn.Underlying().(*types.Slice)
		if !ok {
			panic(unsupported("sort.Sort of " + i.Dyn.String()))
		}
		less := x.e.prog.LookupMethod(i.Dyn, nil, "Less")
		sv := i.V.(SliceV)
		x.sortModel(st, sv, sl.Elem(), FuncV{Fn: less, Binds: []Val{sv}}, false)
		return unit()
	}
	// ---- errors
	m["errors.New"] = func(x *Exec, st *State, s *Site, a []Val) Val {
		return x.newErr(st, plainErrT, x.c.Int(2), a[0].(*Term))
	}
	m["fmt.Errorf"] = func(x *Exec, st *State, s *Site, a []Val) Val {
		return x.newErr(st, plainErrT, x.c.Int(2), x.freshStr("errmsg"))
	}
	m["fmt.Sprintf"] = func(x *Exec, st *State, s *Site, a []Val) Val {
		if r, ok := x.sprintConst(st, a); ok {
			return x.strConst(r)
		}
		return x.freshStr("sprintf")
	}
	m["strings.ToLower"] = func(x *Exec, st *State, s *Site, a []Val) Val {
		r, ok := goStr(x.deep(st, a[0].(*Term)))
		if !ok {
			panic(unsupported("strings.ToLower of a string that isn't constant"))
		}
		return x.strConst(strings.ToLower(r))
	}
	m["fmt.Sprint"] = m["fmt.Sprintf"]
	sp := "google.golang.org/grpc/status."
	m[sp+"Error"] = func(x *Exec, st *State, s *Site, a []Val) Val {
		code := a[0].(*Term)
		if x.branch(st, x.c.Eq(code, x.c.Int(0))) {
			return x.nilIface()
		}
		return x.newErr(st, statusErrT, code, a[1].(*Term))
	}
	m[sp+"Errorf"] = func(x *Exec, st *State, s *Site, a []Val) Val {
		code := a[0].(*Term)
		if x.branch(st, x.c.Eq(code, x.c.Int(0))) {
			return x.nilIface()
		}
		return x.newErr(st, statusErrT, code, x.freshStr("errmsg"))
	}
	m[sp+"Code"] = func(x *Exec, st *State, s *Site, a []Val) Val { return x.errCode(st, a[0].(IfaceV)) }
	m["errors.Is"] = func(x *Exec, st *State, s *Site, a []Val) Val {
		e, t := a[0].(IfaceV), a[1].(IfaceV)
		return x.equal(st, e, t, types.Universe.Lookup("error").Type(), types.Universe.Lookup("error").Type())
	}
	// ---- sync (sequential meaning; lock discipline recorded)
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock"} {
		n := n
		m[n] = func(x *Exec, st *State, s *Site, a []Val) Val {
			return x.lockOp(st, n[strings.LastIndex(n, ".")+1:], a[0].(Ptr))
		}
	}
	m["(*sync.Once).Do"] = func(x *Exec, st *State, s *Site, a []Val) Val {
		x.hbSync(st, "once", a[0].(Ptr))
		done := x.syncInt(st, "once", a[0].(Ptr))
		if x.branch(st, x.c.Eq(done, x.c.Int(0))) {
			x.setSyncInt(st, "once", a[0].(Ptr), 1)
			f := a[1].(FuncV)
			x.pushFrame(st, nil, f, nil)
			st.top().onRet = func(st *State, v Val) {
				// result of Do itself
				if s.dst != nil {
					st.setReg(st.top(), s.dst, unit())
					st.top().ip++
				}
			}
			return framePushed{}
		}
		return unit()
	}
	// ---- math
	m["math.Abs"] = func(x *Exec, st *State, s *Site, a []Val) Val {
		t := a[0].(*Term)
		if x.e.fp {
			return x.c.mk(&Term{Op: "fp.abs", S: t.S, Args: []*Term{t}})
		}
		return x.c.Ite(x.c.Le(x.zeroTerm(RealS), t), t, x.c.Neg(t))
	}
	m["math.IsNaN"] = func(x *Exec, st *State, s *Site, a []Val) Val {
		t := a[0].(*Term)
		if x.e.fp {
			return x.c.mk(&Term{Op: "fp.isNaN", S: BoolS, Args: []*Term{t}})
		}
		return x.c.F
	}
	m["math.IsInf"] = func(x *Exec, st *State, s *Site, a []Val) Val {
		t := a[0].(*Term)
		if x.e.fp {
			inf := x.c.mk(&Term{Op: "fp.isInfinite", S: BoolS, Args: []*Term{t}})
			neg := x.c.mk(&Term{Op: "fp.isNegative", S: BoolS, Args: []*Term{t}})
			sg := a[1].(*Term)
			return x.c.And(inf, x.c.Implies(x.c.Lt(x.c.Int(0), sg), x.c.Not(neg)), x.c.Implies(x.c.Lt(sg, x.c.Int(0)), neg))
		}
		return x.c.F
	}
	m["math.Floor"] = func(x *Exec, st *State, s *Site, a []Val) Val { return x.c.ToReal(x.c.ToInt(a[0].(*Term))) }
	return m
}

func (x *Exec) named64(st *State, t *Term) *Term {
	if t.Op == "ite" && !t.Bnd {
		if x.provable(st, x.c.Not(x.c.Or(t.Args[0], t.Args[2].condOr(x)))) {
			// no clamping possible
			return t.Args[2].elseOr(x)
		}
		return x.named(st, "clamp", t, minI64, maxI64)
	}
	return t
}

func (t *Term) condOr(x *Exec) *Term {
	if t.Op == "ite" {
		return t.Args[0]
	}
	return x.c.F
}
func (t *Term) elseOr(x *Exec) *Term {
	if t.Op == "ite" {
		return t.Args[2]
	}
	return t
}

// sprintConst is what Sprintf prints when it is given only constant strings.
func (x *Exec) sprintConst(st *State, a []Val) (string, bool) {
	format, ok := goStr(x.deep(st, a[0].(*Term)))
	sv, isSlice := a[1].(SliceV)
	if !ok || !isSlice {
		return "", false
	}
	n, ok := x.norm(st, sv.Len).IntVal()
	if !ok {
		return "", false
	}
	any := types.Universe.Lookup("any").Type()
	_, arrs, _ := x.elemArrs(st, sv.Arr, any)
	var args []interface{}
	for i := int64(0); i < n; i++ {
		var ts []*Term
		for _, a := range arrs {
			ts = append(ts, x.deep(st, x.c.Select(a, x.c.Add(sv.Off, x.c.Int(i)))))
		}
		v, ok := x.unflatten(ts, any).(IfaceV)
		if !ok || v.Dyn == nil {
			return "", false
		}
		b, isBasic := v.Dyn.(*types.Basic)
		t, isTerm := v.V.(*Term)
		if !isBasic || b.Kind() != types.String || !isTerm {
			return "", false
		}
		s, ok := goStr(x.deep(st, t))
		if !ok {
			return "", false
		}
		args = append(args, s)
	}
	return fmt.Sprintf(format, args...), true
}

const rtypeBase = int64(1) << 46

// sortModel: the slice becomes a permutation of itself that is ordered by less.
func (x *Exec) sortModel(st *State, sv SliceV, et types.Type, less FuncV, stable bool) {
	c := x.c
	n := x.norm(st, sv.Len)
	keys, arrs, _ := x.elemArrs(st, sv.Arr, et)
	_ = keys
	k, ok := n.IntVal()
	if !ok {
		x.sortModelUnbounded(st, sv, et, less)
		return
	}
	if k <= 1 || x.insertionSort(st, sv, et, k, less) {
		return
	}
	var perm []*Term
	for i := int64(0); i < k; i++ {
		p := c.FreshRange("perm", big.NewInt(0), big.NewInt(k-1))
		for _, q := range perm {
			x.assume(st, c.Not(c.Eq(p, q)))
		}
		perm = append(perm, p)
	}
	var out []*Term
	for _, a := range arrs {
		r := a
		for i := int64(0); i < k; i++ {
			// finite choice, kept as nested ite so that later loads simplify
			v := c.Select(a, c.Add(sv.Off, c.Int(k-1)))
			for j := k - 2; j >= 0; j-- {
				v = c.Ite(c.Eq(perm[i], c.Int(j)), c.Select(a, c.Add(sv.Off, c.Int(j))), v)
			}
			r = c.Store(r, c.Add(sv.Off, c.Int(i)), v)
		}
		out = append(out, r)
	}
	x.setElemArrs(st, sv.Arr, et, out)
	for i := int64(0); i < k; i++ {
		for j := i + 1; j < k; j++ {
			v := x.callLess(st, less, c.Int(j), c.Int(i))
			x.assume(st, c.Not(v))
			if stable {
				w := x.callLess(st, less, c.Int(i), c.Int(j))
				x.assume(st, c.Or(w, c.Lt(perm[i], perm[j])))
			}
		}
	}
}

// insertionSort sorts up to 12 elements as the library does, forking where their order isn't known; for more than 4 elements
// it gives up in that case.
func (x *Exec) insertionSort(st *State, sv SliceV, et types.Type, k int64, less FuncV) bool {
	c := x.c
	if k > 12 {
		return false
	}
	_, before, _ := x.elemArrs(st, sv.Arr, et)
	for i := int64(1); i < k; i++ {
		for j := i; j > 0; j-- {
			v := x.callLess(st, less, c.Int(j), c.Int(j-1))
			if st.dead {
				return true
			}
			v = x.deep(st, v)
			if k > 4 && !v.IsTrue() && !v.IsFalse() && !st.pcset[v.ID] && !st.pcset[c.Not(v).ID] {
				x.setElemArrs(st, sv.Arr, et, before)
				return false
			}
			if !x.branch(st, v) {
				break
			}
			_, arrs, _ := x.elemArrs(st, sv.Arr, et)
			var out []*Term
			p, q := c.Add(sv.Off, c.Int(j)), c.Add(sv.Off, c.Int(j-1))
			for _, a := range arrs {
				out = append(out, c.Store(c.Store(a, p, c.Select(a, q)), q, c.Select(a, p)))
			}
			x.setElemArrs(st, sv.Arr, et, out)
		}
	}
	return true
}

func (x *Exec) callLess(st *State, less FuncV, i, j *Term) *Term {
	args := []Val{i, j}
	f := less
	if len(less.Fn.Params) == 3 {
		args = []Val{less.Binds[0], i, j}
		f = FuncV{Fn: less.Fn}
	}
	v, fs := x.evalPure(st, f, args, types.Typ[types.Bool])
	if v == nil { // no feasible path
		st.dead = true
		return x.c.F
	}
	for _, q := range fs {
		x.assume(st, q)
	}
	return v.(*Term)
}

func (x *Exec) sortModelUnbounded(st *State, sv SliceV, et types.Type, less FuncV) {
	c := x.c
	n := sv.Len
	_, arrs, _ := x.elemArrs(st, sv.Arr, et)
	c.fresh++
	pn, qn := fmt.Sprintf("perm%d", c.fresh), fmt.Sprintf("permi%d", c.fresh)
	i := c.BVar("i", IntS)
	P := func(t *Term) *Term { return c.App(pn, IntS, t) }
	Q := func(t *Term) *Term { return c.App(qn, IntS, t) }
	in := func(t *Term) *Term { return c.And(c.Le(c.Int(0), t), c.Lt(t, n)) }
	x.assume(st, c.Forall([]*Term{i}, c.Implies(in(i), c.And(in(P(i)), c.Eq(Q(P(i)), i))), P(i)))
	x.assume(st, c.Forall([]*Term{i}, c.Implies(in(i), c.And(in(Q(i)), c.Eq(P(Q(i)), i))), Q(i)))
	var out []*Term
	for _, a := range arrs {
		r := c.Fresh("sorted", a.S)
		r.Lo, r.Hi = a.Lo, a.Hi
		x.assume(st, c.Forall([]*Term{i}, c.Implies(in(i), c.Eq(c.Select(r, c.Add(sv.Off, i)), c.Select(a, c.Add(sv.Off, P(i)))))))
		x.assume(st, c.Forall([]*Term{i}, c.Implies(c.Not(c.And(c.Le(sv.Off, i), c.Lt(i, c.Add(sv.Off, n)))), c.Eq(c.Select(r, i), c.Select(a, i)))))
		out = append(out, r)
	}
	x.setElemArrs(st, sv.Arr, et, out)
	// ordered
	a, b := c.FreshRange("si", big.NewInt(0), maxLen), c.FreshRange("sj", big.NewInt(0), maxLen)
	s2 := st.clone()
	x.assume(s2, c.And(c.Lt(a, b), c.Lt(b, n)))
	args := []Val{b, a}
	f := less
	if len(less.Fn.Params) == 3 {
		args = []Val{less.Binds[0], b, a}
		f = FuncV{Fn: less.Fn}
	}
	v, _ := x.evalPure(s2, f, args, types.Typ[types.Bool])
	if v != nil {
		ba, bb := c.BVar("i", IntS), c.BVar("j", IntS)
		x.assume(st, c.Forall([]*Term{ba, bb}, c.Subst(c.Implies(c.And(c.Le(c.Int(0), a), c.Lt(a, b), c.Lt(b, n)), c.Not(v.(*Term))), map[int]*Term{a.ID: ba, b.ID: bb})))
	}
}

func (x *Exec) lockOp(st *State, op string, p Ptr) Val {
	k := lockKey(x, p)
	switch op {
	case "Lock":
		if st.locks[k] != 0 {
			if len(st.threads) > 0 {
				x.wait(st, 0, "a lock")
				return unit()
			}
			x.oblige(st, "lock", "no-deadlock: lock not already held in "+shortFn(st.top().fn), x.c.F)
		}
		jset(st, st.locks, (*State).mLocks, k, -1)
		st.hbAcquire(st.tid, "lock"+k)
		st.hbAcquire(st.tid, "rlock"+k)
		x.onAcquire(st, p, true)
	case "RLock":
		if st.locks[k] < 0 || st.locks[k] != 0 && len(st.threads) == 0 {
			if len(st.threads) > 0 {
				x.wait(st, 0, "a lock")
				return unit()
			}
			x.oblige(st, "lock", "no-deadlock: read lock not already held in "+shortFn(st.top().fn), x.c.F)
		}
		jset(st, st.locks, (*State).mLocks, k, st.locks[k]+1)
		st.hbAcquire(st.tid, "lock"+k)
		x.onAcquire(st, p, false)
	case "Unlock":
		if st.locks[k] != -1 {
			x.oblige(st, "lock", "unlock of a held mutex in "+shortFn(st.top().fn), x.c.F)
		}
		jset(st, st.locks, (*State).mLocks, k, 0)
		st.hbRelease(st.tid, "lock"+k)
		st.epoch++
	case "RUnlock":
		if st.locks[k] <= 0 {
			x.oblige(st, "lock", "unlock of a held mutex in "+shortFn(st.top().fn), x.c.F)
		}
		jset(st, st.locks, (*State).mLocks, k, st.locks[k]-1)
		st.hbRelease(st.tid, "rlock"+k)
		st.epoch++
	}
	return unit()
}

func (x *Exec) onAcquire(st *State, p Ptr, write bool) {
	if x.vf.onLock != nil {
		x.vf.onLock(x, st, p, write)
	}
}

var _ = ssa.BuilderMode(0)

func init() {
	imethods = map[string]func(x *Exec, st *State, cc *ssa.CallCommon, a []Val) Val{
		"(error).Error": func(x *Exec, st *State, cc *ssa.CallCommon, a []Val) Val {
			return x.errMsg(st, a[0].(IfaceV))
		},
	}
}
