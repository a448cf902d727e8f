package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) get(st *State, v ssa.Value) Val { return x.getF(st, st.top(), v) }

func (x *Exec) getF(st *State, f *Frame, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(v)
	case *ssa.Global:
		return x.globalPtr(st, v)
	case *ssa.Function:
		return FuncV{Fn: v}
	case *ssa.Builtin:
		return FuncV{BI: v}
	case *ssa.FreeVar:
		for i, fv := range f.fn.FreeVars {
			if fv == v {
				return f.binds[i]
			}
		}
	}
	r, ok := f.regs[v]
	if !ok {
		panic(unsupported(fmt.Sprintf("register %s (%T) of %s has no value", v.Name(), v, f.fn)))
	}
	return r
}

func (x *Exec) constVal(k *ssa.Const) Val {
	t := k.Type()
	if k.Value == nil {
		return x.zero(t)
	}
	return x.constOf(k.Value, t)
}

func (x *Exec) constOf(v constant.Value, t types.Type) Val {
	switch {
	case isBool(t):
		return x.c.Bool(constant.BoolVal(v))
	case isString(t):
		return x.strConst(constant.StringVal(v))
	case isInteger(t):
		i := constant.ToInt(v)
		b, ok := new(big.Int).SetString(i.ExactString(), 10)
		if !ok {
			panic(unsupported("int const " + v.String()))
		}
		return x.c.BigInt(b)
	case isFloat(t):
		f, _ := constant.Float64Val(v)
		if isFloat32(t) {
			f32, _ := constant.Float32Val(v)
			f = float64(f32)
		}
		return x.floatConst(f, t)
	}
	panic(unsupported("const of type " + t.String()))
}

func (x *Exec) floatConst(f float64, t types.Type) *Term {
	if x.e.fp {
		if isFloat32(t) {
			return x.fpConst(f, FP32S)
		}
		return x.fpConst(f, FP64S)
	}
	r := new(big.Rat)
	if r.SetFloat64(f) == nil {
		return x.c.Var("float:"+fmt.Sprint(f), RealS)
	}
	return x.c.RealC(r)
}

func (x *Exec) fpConst(f float64, s *Sort) *Term {
	var n string
	if s == FP32S {
		b := math.Float32bits(float32(f))
		n = fmt.Sprintf("(fp #b%01b #b%08b #b%023b)", b>>31, (b>>23)&0xff, b&0x7fffff)
	} else {
		b := math.Float64bits(f)
		n = fmt.Sprintf("(fp #b%01b #b%011b #b%052b)", b>>63, (b>>52)&0x7ff, b&0xfffffffffffff)
	}
	return x.c.mk(&Term{Op: "const", Name: n, S: s})
}

func (x *Exec) strConst(s string) *Term {
	t := x.c.RealC(strRat(s))
	x.vf.noteStr(s)
	return t
}

// goStr: the literal string denoted by a constant term
func goStr(t *Term) (string, bool) {
	if t.Op == "const" && t.S == RealS {
		return ratStrDecode(t.Rat), true
	}
	return "", false
}

func (x *Exec) set(st *State, r ssa.Value, v Val) { st.setReg(st.top(), r, v) }

func (x *Exec) step(st *State) {
	f := st.top()
	if f.ip >= len(f.block.Instrs) {
		panic("fell off block in " + f.fn.String())
	}
	ins := f.block.Instrs[f.ip]
	st.begin()
	x.instr(st, f, ins)
}

func (x *Exec) instr(st *State, f *Frame, ins ssa.Instruction) {
	c := x.c
	adv := true
	switch i := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := i.Type().Underlying().(*types.Pointer).Elem()
		x.set(st, i, x.alloc(st, t))
	case *ssa.BinOp:
		x.set(st, i, x.binop(st, i.Op, i.X.Type(), i.Y.Type(), x.get(st, i.X), x.get(st, i.Y), i.Pos()))
	case *ssa.UnOp:
		if v := x.unop(st, i); st.parked == nil {
			x.set(st, i, v)
		} else {
			adv = false
		}
	case *ssa.ChangeInterface:
		x.set(st, i, x.get(st, i.X))
	case *ssa.ChangeType:
		x.set(st, i, x.changeType(x.get(st, i.X), i.Type()))
	case *ssa.Convert:
		x.set(st, i, x.convert(st, x.get(st, i.X), i.X.Type(), i.Type()))
	case *ssa.MultiConvert:
		x.set(st, i, x.convert(st, x.get(st, i.X), i.X.Type(), i.Type()))
	case *ssa.Extract:
		x.set(st, i, x.get(st, i.Tuple).(TupleV)[i.Index])
	case *ssa.Field:
		x.set(st, i, x.get(st, i.X).(StructV).F[i.Field])
	case *ssa.FieldAddr:
		p := x.get(st, i.X).(Ptr)
		x.nilCheck(st, p, i.Pos())
		p.Path = append(append([]PathEl{}, p.Path...), PathEl{F: i.Field})
		x.set(st, i, p)
	case *ssa.Index:
		idx := x.deep(st, x.get(st, i.Index).(*Term))
		switch v := x.get(st, i.X).(type) {
		case ArrayV:
			x.safety(st, "index in range", i.Pos(), c.And(c.Le(c.Int(0), idx), c.Lt(idx, c.Int(v.N))))
			var ts []*Term
			for _, a := range v.C {
				ts = append(ts, c.Select(a, idx))
			}
			x.set(st, i, x.unflatten(ts, v.Elem))
		case *Term: // string
			x.safety(st, "string index in range", i.Pos(), c.And(c.Le(c.Int(0), idx), c.Lt(idx, x.strLen(v))))
			x.set(st, i, x.strAt(v, idx))
		default:
			panic(unsupported(fmt.Sprintf("index of %T", v)))
		}
	case *ssa.IndexAddr:
		idx := x.deep(st, x.get(st, i.Index).(*Term))
		switch v := x.get(st, i.X).(type) {
		case SliceV:
			x.safety(st, "index in range", i.Pos(), c.And(c.Le(c.Int(0), idx), c.Lt(idx, v.Len)))
			et := i.X.Type().Underlying().(*types.Slice).Elem()
			x.set(st, i, Ptr{Base: v.Arr, Root: et, Elem: true, Idx: c.Add(v.Off, idx)})
		case Ptr:
			at := i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			x.safety(st, "index in range", i.Pos(), c.And(c.Le(c.Int(0), idx), c.Lt(idx, c.Int(at.Len()))))
			if v.Elem && v.Idx == nil && len(v.Path) == 0 {
				v.Idx = idx
			} else {
				v.Path = append(append([]PathEl{}, v.Path...), PathEl{F: -1, I: idx})
			}
			x.set(st, i, v)
		default:
			panic(unsupported(fmt.Sprintf("indexaddr of %T", v)))
		}
	case *ssa.Store:
		p := x.get(st, i.Addr).(Ptr)
		x.nilCheck(st, p, i.Pos())
		x.access(st, p, true)
		x.store(st, p, x.get(st, i.Val))
	case *ssa.MakeInterface:
		x.set(st, i, x.makeIface(x.get(st, i.X), i.X.Type()))
	case *ssa.MakeClosure:
		fv := FuncV{Fn: i.Fn.(*ssa.Function)}
		for _, b := range i.Bindings {
			fv.Binds = append(fv.Binds, x.get(st, b))
		}
		x.set(st, i, fv)
	case *ssa.MakeMap:
		r := x.newRef()
		x.initMap(st, r, i.Type().Underlying().(*types.Map))
		x.set(st, i, r)
	case *ssa.MakeChan:
		r := x.newRef()
		n, ok := x.deep(st, x.norm(st, x.get(st, i.Size).(*Term))).IntVal()
		if !ok {
			panic(unsupported("channel of unknown capacity"))
		}
		id, _ := r.IntVal()
		st.setChan(id, &chanSt{cap: n})
		x.set(st, i, r)
	case *ssa.MakeSlice:
		n := x.deep(st, x.get(st, i.Len).(*Term))
		k := x.deep(st, x.get(st, i.Cap).(*Term))
		x.safety(st, "makeslice length non-negative", i.Pos(), c.And(c.Le(c.Int(0), n), c.Le(n, k)))
		r := x.newRef()
		et := i.Type().Underlying().(*types.Slice).Elem()
		p := Ptr{Base: r, Root: et, Elem: true, N: -1}
		x.storeComps(st, x.e.elemKey(et), p, nil, types.NewArray(et, -1), x.zeroArr(et))
		x.set(st, i, SliceV{r, c.Int(0), n, k})
	case *ssa.Slice:
		x.set(st, i, x.slice(st, i))
	case *ssa.Lookup:
		if mt, ok := i.X.Type().Underlying().(*types.Map); ok {
			x.hbMap(st, x.get(st, i.X).(*Term), mt, false)
		}
		x.set(st, i, x.lookup(st, i))
	case *ssa.MapUpdate:
		mt := i.Map.Type().Underlying().(*types.Map)
		m := x.get(st, i.Map).(*Term)
		x.safety(st, "write to non-nil map", i.Pos(), c.Not(c.Eq(m, c.Int(0))))
		x.hbMap(st, m, mt, true)
		x.mapSet(st, m, mt, x.get(st, i.Key), x.get(st, i.Value))
	case *ssa.Range:
		switch t := i.X.Type().Underlying().(type) {
		case *types.Map:
			x.set(st, i, IterV{M: x.get(st, i.X).(*Term), MT: t})
		default:
			panic(unsupported("range over " + t.String()))
		}
	case *ssa.Next:
		if it, ok := x.get(st, i.Iter).(IterV); ok && it.MT != nil {
			x.hbMap(st, it.M, it.MT, false)
		}
		x.next(st, i)
	case *ssa.TypeAssert:
		x.set(st, i, x.typeAssert(st, i))
	case *ssa.Phi:
		panic("phi outside block entry")
	case *ssa.If:
		cond := x.get(st, i.Cond).(*Term)
		if x.branch(st, cond) {
			x.jump(st, f, f.block.Succs[0])
		} else {
			x.jump(st, f, f.block.Succs[1])
		}
		adv = false
	case *ssa.Jump:
		x.jump(st, f, f.block.Succs[0])
		adv = false
	case *ssa.Return:
		var v Val
		switch len(i.Results) {
		case 0:
			v = TupleV{}
		case 1:
			v = x.get(st, i.Results[0])
		default:
			var tv TupleV
			for _, r := range i.Results {
				tv = append(tv, x.get(st, r))
			}
			v = tv
		}
		x.doReturn(st, f, v)
		adv = false
	case *ssa.Panic:
		x.panicked(st, "explicit panic", i.Pos())
		adv = false
	case *ssa.Call:
		adv = x.call(st, f, i, &i.Call)
	case *ssa.Defer:
		d := deferred{call: &i.Call}
		d.fn, d.args = x.callee(st, f, &i.Call)
		f.defers = append(f.defers, d)
	case *ssa.RunDefers:
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			adv = false
			x.invoke(st, nil, d.fn, d.args, d.call)
			if st.parked != nil {
				f.defers = append(f.defers, d)
			}
		}
	case *ssa.Go:
		fn, args := x.callee(st, f, &i.Call)
		x.spawn(st, fn, args)
	case *ssa.Send:
		adv = x.chanSend(st, i)
	case *ssa.Select:
		adv = x.selectOp(st, i)
	default:
		panic(unsupported(fmt.Sprintf("instruction %T", ins)))
	}
	if adv && !st.dead {
		f.ip++
	}
}

func (x *Exec) panicked(st *State, what string, pos token.Pos) {
	if x.noSafety > 0 {
		st.dead = true
		return
	}
	x.oblige(st, "safety", "no-panic: "+what+" in "+shortFn(st.top().fn), x.c.F)
	st.dead = true
}

func (x *Exec) doReturn(st *State, f *Frame, v Val) {
	st.frames = st.frames[:len(st.frames)-1]
	if f.onRet != nil {
		f.onRet(st, v)
		return
	}
	if len(st.frames) == 0 {
		if st.tid != 0 {
			return
		}
		jset(st, st.ghost, (*State).mGhost, "$ret", v)
		return
	}
	if f.dst != nil {
		st.setReg(st.top(), f.dst, v)
		st.top().ip++
	}
}

func (x *Exec) jump(st *State, f *Frame, to *ssa.BasicBlock) {
	from := f.block
	x.enter(st, f, from, to)
}

// moveTo performs the phi assignments of an edge.
func (x *Exec) moveTo(st *State, f *Frame, from, to *ssa.BasicBlock) {
	pi := -1
	for k, p := range to.Preds {
		if p == from {
			pi = k
		}
	}
	var vals []Val
	n := 0
	for _, ins := range to.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, x.get(st, phi.Edges[pi]))
		n++
	}
	for k := 0; k < n; k++ {
		st.setReg(f, to.Instrs[k].(*ssa.Phi), vals[k])
	}
	f.prev = from
	f.block = to
	f.ip = n
}

func (x *Exec) nilCheck(st *State, p Ptr, pos token.Pos) {
	if p.Base.IsConst() {
		if v, ok := p.Base.IntVal(); ok && v != 0 {
			return
		}
	}
	cond := x.c.Not(x.c.Eq(p.Base, x.c.Int(0)))
	if cond.IsTrue() {
		return
	}
	x.safety(st, "nil dereference", pos, cond)
	if cond.IsFalse() {
		st.dead = true
	}
}

// ---- operators

func (x *Exec) unop(st *State, i *ssa.UnOp) Val {
	c := x.c
	v := x.get(st, i.X)
	switch i.Op {
	case token.MUL:
		p := v.(Ptr)
		x.nilCheck(st, p, i.Pos())
		if st.dead {
			return nil
		}
		x.access(st, p, false)
		return x.load(st, p)
	case token.NOT:
		return c.Not(v.(*Term))
	case token.SUB:
		if isFloat(i.X.Type()) {
			if x.e.fp {
				return c.mk(&Term{Op: "fp.neg", S: v.(*Term).S, Args: []*Term{v.(*Term)}})
			}
			return c.Neg(v.(*Term))
		}
		return x.wrap(st, c.Neg(v.(*Term)), i.Type())
	case token.XOR:
		t := i.Type()
		lo, hi, _ := intRange(t)
		if lo.Sign() < 0 {
			return c.Sub(c.Int(-1), v.(*Term))
		}
		return c.Sub(c.BigInt(hi), v.(*Term))
	case token.ARROW:
		return x.chanRecv(st, i)
	}
	panic(unsupported("unop " + i.Op.String()))
}

func (x *Exec) wrap(st *State, t *Term, typ types.Type) *Term {
	lo, hi, ok := intRange(typ)
	if !ok {
		return t
	}
	return x.wrapR(st, t, lo, hi)
}

func (x *Exec) wrapR(st *State, t *Term, lo, hi *big.Int) *Term {
	c := x.c
	if t.Lo != nil && t.Hi != nil && t.Lo.Cmp(lo) >= 0 && t.Hi.Cmp(hi) <= 0 {
		return t
	}
	if t.IsConst() {
		span := new(big.Int).Add(new(big.Int).Sub(hi, lo), big.NewInt(1))
		v := new(big.Int).Sub(t.Rat.Num(), lo)
		v.Mod(v, span)
		return c.BigInt(v.Add(v, lo))
	}
	inr := c.And(c.Le(c.BigInt(lo), t), c.Le(t, c.BigInt(hi)))
	if x.provable(st, inr) {
		return t
	}
	span := new(big.Int).Add(new(big.Int).Sub(hi, lo), big.NewInt(1))
	// one correction suffices when the exact value is within one span of the range
	if t.Lo != nil && t.Hi != nil && new(big.Int).Add(t.Lo, span).Cmp(lo) >= 0 && new(big.Int).Sub(t.Hi, span).Cmp(hi) <= 0 {
		s := c.BigInt(span)
		r := c.Ite(c.Lt(c.BigInt(hi), t), c.Sub(t, s), c.Ite(c.Lt(t, c.BigInt(lo)), c.Add(t, s), t))
		return x.named(st, "wrap", r, lo, hi)
	}
	m := c.Add(c.Mod(c.Sub(t, c.BigInt(lo)), c.BigInt(span)), c.BigInt(lo))
	return x.named(st, "wrap", m, lo, hi)
}

// named gives a complex term a name with a known interval (definitional extension)
func (x *Exec) named(st *State, n string, t *Term, lo, hi *big.Int) *Term {
	key := "named:" + fmt.Sprint(t.ID)
	v, ok := x.h0[key]
	if !ok {
		v = x.c.FreshRange(n, lo, hi)
		x.h0[key] = v
	}
	x.assume(st, x.c.mk(&Term{Op: "=", S: BoolS, Args: []*Term{v, t}}))
	return v
}

func (x *Exec) quoRem(st *State, a, b *Term, typ types.Type, rem bool) *Term {
	c := x.c
	zero := c.Int(0)
	tq := func(a, b *Term) *Term { // truncated quotient for b > 0
		if a.Lo != nil && a.Lo.Sign() >= 0 {
			return c.Div(a, b)
		}
		if a.Hi != nil && a.Hi.Sign() <= 0 {
			return c.Neg(c.Div(c.Neg(a), b))
		}
		return c.Ite(c.Le(zero, a), c.Div(a, b), c.Neg(c.Div(c.Neg(a), b)))
	}
	tr := func(a, b *Term) *Term {
		if a.Lo != nil && a.Lo.Sign() >= 0 {
			return c.Mod(a, b)
		}
		return c.Ite(c.Le(zero, a), c.Mod(a, b), c.Neg(c.Mod(c.Neg(a), b)))
	}
	pos := b.Lo != nil && b.Lo.Sign() > 0
	neg := b.Hi != nil && b.Hi.Sign() < 0
	if rem {
		switch {
		case pos:
			return tr(a, b)
		case neg:
			return tr(a, c.Neg(b))
		}
		return c.Ite(c.Le(c.Int(1), b), tr(a, b), tr(a, c.Neg(b)))
	}
	switch {
	case pos:
		return tq(a, b)
	case neg:
		return x.wrap(st, c.Neg(tq(a, c.Neg(b))), typ)
	}
	return x.wrap(st, c.Ite(c.Le(c.Int(1), b), tq(a, b), c.Neg(tq(a, c.Neg(b)))), typ)
}

func (x *Exec) fpBin(op string, s *Sort, a, b *Term) *Term {
	if op == "fp.lt" || op == "fp.leq" || op == "fp.eq" {
		return x.c.mk(&Term{Op: op, S: BoolS, Args: []*Term{a, b}})
	}
	return x.c.mk(&Term{Op: op + " RNE", S: s, Args: []*Term{a, b}})
}

func (x *Exec) binop(st *State, op token.Token, tx, ty types.Type, a, b Val, pos token.Pos) Val {
	c := x.c
	switch op {
	case token.EQL:
		return x.equal(st, a, b, tx, ty)
	case token.NEQ:
		return c.Not(x.equal(st, a, b, tx, ty))
	}
	p, ok1 := a.(*Term)
	q, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		panic(unsupported(fmt.Sprintf("binop %s on %T", op, a)))
	}
	if isString(tx) {
		switch op {
		case token.ADD:
			return x.strConcat(p, q)
		case token.LSS:
			return c.Lt(p, q)
		case token.LEQ:
			return c.Le(p, q)
		case token.GTR:
			return c.Lt(q, p)
		case token.GEQ:
			return c.Le(q, p)
		}
	}
	if isFloat(tx) {
		if x.e.fp {
			switch op {
			case token.ADD:
				return x.fpBin("fp.add", p.S, p, q)
			case token.SUB:
				return x.fpBin("fp.sub", p.S, p, q)
			case token.MUL:
				return x.fpBin("fp.mul", p.S, p, q)
			case token.QUO:
				return x.fpBin("fp.div", p.S, p, q)
			case token.LSS:
				return x.fpBin("fp.lt", p.S, p, q)
			case token.LEQ:
				return x.fpBin("fp.leq", p.S, p, q)
			case token.GTR:
				return x.fpBin("fp.lt", p.S, q, p)
			case token.GEQ:
				return x.fpBin("fp.leq", p.S, q, p)
			}
		}
		switch op {
		case token.ADD:
			return c.Add(p, q)
		case token.SUB:
			return c.Sub(p, q)
		case token.MUL:
			return c.Mul(p, q)
		case token.QUO:
			return c.RDiv(p, q)
		case token.LSS:
			return c.Lt(p, q)
		case token.LEQ:
			return c.Le(p, q)
		case token.GTR:
			return c.Lt(q, p)
		case token.GEQ:
			return c.Le(q, p)
		}
	}
	if p.S == BoolS {
		switch op {
		case token.AND:
			return c.And(p, q)
		case token.OR:
			return c.Or(p, q)
		}
	}
	switch op {
	case token.ADD:
		return x.wrap(st, c.Add(p, q), tx)
	case token.SUB:
		return x.wrap(st, c.Sub(p, q), tx)
	case token.MUL:
		return x.wrap(st, c.Mul(p, q), tx)
	case token.QUO, token.REM:
		x.safety(st, "division by zero", pos, c.Not(c.Eq(q, c.Int(0))))
		if st.dead {
			return c.Int(0)
		}
		return x.quoRem(st, p, q, tx, op == token.REM)
	case token.LSS:
		return c.Lt(p, q)
	case token.LEQ:
		return c.Le(p, q)
	case token.GTR:
		return c.Lt(q, p)
	case token.GEQ:
		return c.Le(q, p)
	case token.SHL:
		if k, ok := q.IntVal(); ok && k >= 0 && k < 200 {
			return x.wrap(st, c.Mul(c.BigInt(two(int(k))), p), tx)
		}
	case token.SHR:
		if k, ok := q.IntVal(); ok && k >= 0 && k < 200 {
			return c.Div(p, c.BigInt(two(int(k))))
		}
	case token.AND:
		if k, ok := q.IntVal(); ok && k > 0 && (k&(k+1)) == 0 && p.Lo != nil && p.Lo.Sign() >= 0 {
			return c.Mod(p, c.Int(k+1))
		}
	}
	if p.IsConst() && q.IsConst() {
		a, b := p.Rat.Num(), q.Rat.Num()
		switch op {
		case token.AND:
			return c.BigInt(new(big.Int).And(a, b))
		case token.OR:
			return c.BigInt(new(big.Int).Or(a, b))
		case token.XOR:
			return c.BigInt(new(big.Int).Xor(a, b))
		case token.AND_NOT:
			return c.BigInt(new(big.Int).AndNot(a, b))
		}
	}
	t := c.App("bit:"+op.String()+fmt.Sprint(int(op)), IntS, p, q)
	if t.Lo == nil && t.Hi == nil {
		t.Lo, t.Hi, _ = intRange(tx)
	}
	return t
}

func (x *Exec) equal(st *State, a, b Val, tx, ty types.Type) *Term {
	c := x.c
	if isTime(tx) {
		return c.Eq(a.(*Term), b.(*Term))
	}
	_, xi := tx.Underlying().(*types.Interface)
	_, yi := ty.Underlying().(*types.Interface)
	if xi && !yi {
		b = x.makeIface(b, ty)
		ty = tx
	} else if yi && !xi {
		a = x.makeIface(a, tx)
		tx = ty
	}
	switch u := tx.Underlying().(type) {
	case *types.Basic:
		p, q := a.(*Term), b.(*Term)
		if x.e.fp && isFloat(tx) {
			return x.fpBin("fp.eq", p.S, p, q)
		}
		return c.Eq(p, q)
	case *types.Pointer:
		pa, ok1 := a.(Ptr)
		pb, ok2 := b.(Ptr)
		if ok1 && ok2 && len(pa.Path) == 0 && len(pb.Path) == 0 && !pa.Elem && !pb.Elem {
			return c.Eq(pa.Base, pb.Base)
		}
		if ok1 && ok2 && (len(pa.Path) > 0 || pa.Elem) && (len(pb.Path) > 0 || pb.Elem) && x.e.rootKey(pa) == x.e.rootKey(pb) && pathStr(pa) == pathStr(pb) {
			r := c.Eq(pa.Base, pb.Base)
			if pa.Idx != nil {
				r = c.And(r, c.Eq(pa.Idx, pb.Idx))
			}
			return r
		}
		return c.Eq(x.encPtr(pa), x.encPtr(pb))
	case *types.Map, *types.Chan:
		return c.Eq(a.(*Term), b.(*Term))
	case *types.Signature:
		return c.Eq(x.encFunc(a), x.encFunc(b))
	case *types.Slice:
		sa, sb := a.(SliceV), b.(SliceV)
		return c.Eq(sa.Arr, sb.Arr) // only comparable against nil
	case *types.Interface:
		ia, ib := a.(IfaceV), b.(IfaceV)
		te := c.Eq(ia.Tag, ib.Tag)
		if te.IsFalse() {
			return te
		}
		if ia.Dyn != nil && ib.Dyn != nil {
			return c.And(te, x.equal(st, ia.V, ib.V, ia.Dyn, ib.Dyn))
		}
		if ia.Tag.IsConst() && ia.Dyn == nil { // nil interface
			return te
		}
		if ib.Tag.IsConst() && ib.Dyn == nil {
			return te
		}
		return c.And(te, c.Eq(x.ifacePay(ia), x.ifacePay(ib)))
	case *types.Struct:
		r := c.T
		if opaqueStruct(tx) {
			return r
		}
		for i := 0; i < u.NumFields(); i++ {
			r = c.And(r, x.equal(st, a.(StructV).F[i], b.(StructV).F[i], u.Field(i).Type(), u.Field(i).Type()))
		}
		return r
	case *types.Array:
		aa, ab := a.(ArrayV), b.(ArrayV)
		r := c.T
		for k := int64(0); k < u.Len(); k++ {
			for j := range aa.C {
				r = c.And(r, c.Eq(c.Select(aa.C[j], c.Int(k)), c.Select(ab.C[j], c.Int(k))))
			}
		}
		return r
	}
	panic(unsupported("== on " + tx.String()))
}

func (x *Exec) changeType(v Val, t types.Type) Val {
	switch p := v.(type) {
	case Ptr:
		if pt, ok := t.Underlying().(*types.Pointer); ok && len(p.Path) == 0 && !p.Elem {
			p.Root = pt.Elem()
			return p
		}
	case StructV:
		p.T = t
		return p
	}
	return v
}

func (x *Exec) convert(st *State, v Val, from, to types.Type) Val {
	c := x.c
	switch {
	case isInteger(from) && isInteger(to):
		return x.wrap(st, v.(*Term), to)
	case isInteger(from) && isFloat(to):
		if x.e.fp {
			panic(unsupported("int to float in fp mode"))
		}
		return c.ToReal(v.(*Term))
	case isFloat(from) && isInteger(to):
		if x.e.fp {
			panic(unsupported("float to int in fp mode"))
		}
		p := v.(*Term)
		tr := c.Ite(c.Le(x.zeroTerm(RealS), p), c.ToInt(p), c.Neg(c.ToInt(c.Neg(p))))
		return x.wrap(st, tr, to)
	case isFloat(from) && isFloat(to):
		p := v.(*Term)
		if x.e.fp {
			if isFloat32(from) == isFloat32(to) {
				return p
			}
			if isFloat32(to) {
				return c.mk(&Term{Op: "(_ to_fp 8 24) RNE", S: FP32S, Args: []*Term{p}})
			}
			return c.mk(&Term{Op: "(_ to_fp 11 53) RNE", S: FP64S, Args: []*Term{p}})
		}
		return p
	case isString(from) && isString(to):
		return v
	case isString(from):
		if s, ok := to.Underlying().(*types.Slice); ok {
			// []byte(s)
			str := v.(*Term)
			r := x.newRef()
			arr := c.App("strbytes", ArrS(IntS, IntS), str)
			x.storeComps(st, x.e.elemKey(s.Elem()), Ptr{Base: r, Root: s.Elem(), Elem: true, N: -1}, nil, types.NewArray(s.Elem(), -1), []*Term{arr})
			n := x.strLen(str)
			return SliceV{r, c.Int(0), n, n}
		}
	case isString(to):
		if s, ok := from.Underlying().(*types.Slice); ok {
			sv := v.(SliceV)
			arr := c.Select(x.heapGet(st, x.e.elemKey(s.Elem()), ArrS(IntS, ArrS(IntS, IntS)), x.e.comps(s.Elem())[0]), sv.Arr)
			if arr.Op == "app" && arr.Name == clean("strbytes") && sv.Off == c.Int(0) && sv.Len == x.strLen(arr.Args[0]) {
				return arr.Args[0]
			}
			t := c.App("bytesstr", RealS, arr, sv.Off, sv.Len)
			t.Lo = big.NewInt(0)
			return t
		}
		if isInteger(from) {
			t := c.App("runestr", RealS, v.(*Term))
			t.Lo = big.NewInt(0)
			return t
		}
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return x.changeType(v, to)
	}
	if _, ok := from.Underlying().(*types.Pointer); ok {
		if _, ok := to.Underlying().(*types.Pointer); ok {
			return x.changeType(v, to)
		}
	}
	panic(unsupported(fmt.Sprintf("convert %s to %s", from, to)))
}

// ---- strings

func (x *Exec) strLen(s *Term) *Term {
	if g, ok := goStr(s); ok {
		return x.c.Int(int64(len(g)))
	}
	if s.Op == "app" && s.Name == "strcat" {
		return x.c.Add(x.strLen(s.Args[0]), x.strLen(s.Args[1]))
	}
	t := x.c.App("strlen", IntS, s)
	t.Lo, t.Hi = big.NewInt(0), maxLen
	return t
}
func (x *Exec) strAt(s, i *Term) *Term {
	if g, ok := goStr(s); ok {
		if k, ok := i.IntVal(); ok && k >= 0 && int(k) < len(g) {
			return x.c.Int(int64(g[k]))
		}
	}
	t := x.c.App("strat", IntS, s, i)
	t.Lo, t.Hi = big.NewInt(0), big.NewInt(255)
	return t
}
func (x *Exec) strConcat(a, b *Term) *Term {
	ga, ok1 := goStr(a)
	gb, ok2 := goStr(b)
	if ok1 && ok2 {
		return x.strConst(ga + gb)
	}
	if ok1 && ga == "" {
		return b
	}
	if ok2 && gb == "" {
		return a
	}
	t := x.c.App("strcat", RealS, a, b)
	t.Lo = big.NewInt(0)
	return t
}

// ---- slicing

func (x *Exec) slice(st *State, i *ssa.Slice) Val {
	c := x.c
	opt := func(v ssa.Value, d *Term) *Term {
		if v == nil {
			return d
		}
		return x.deep(st, x.get(st, v).(*Term))
	}
	switch v := x.get(st, i.X).(type) {
	case SliceV:
		v = x.deepSlice(st, v)
		lo := opt(i.Low, c.Int(0))
		hi := opt(i.High, v.Len)
		mx := opt(i.Max, v.Cap)
		x.safety(st, "slice bounds in range", i.Pos(), c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, mx), c.Le(mx, v.Cap)))
		if st.dead {
			return v
		}
		ln := c.Sub(hi, lo)
		cp := c.Sub(mx, lo)
		return SliceV{v.Arr, x.nn(st, c.Add(v.Off, lo)), x.nn(st, ln), x.nn(st, cp)}
	case Ptr:
		at := i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if !(v.Elem && v.Idx == nil && len(v.Path) == 0) {
			panic(unsupported("slice of embedded array"))
		}
		n := c.Int(at.Len())
		lo := opt(i.Low, c.Int(0))
		hi := opt(i.High, n)
		mx := opt(i.Max, n)
		x.safety(st, "slice bounds in range", i.Pos(), c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, mx), c.Le(mx, n)))
		return SliceV{v.Base, lo, c.Sub(hi, lo), c.Sub(mx, lo)}
	case *Term: // string
		lo := opt(i.Low, c.Int(0))
		hi := opt(i.High, x.strLen(v))
		x.safety(st, "slice bounds in range", i.Pos(), c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, x.strLen(v))))
		if g, ok := goStr(v); ok {
			a, ok1 := lo.IntVal()
			b, ok2 := hi.IntVal()
			if ok1 && ok2 && 0 <= a && a <= b && int(b) <= len(g) {
				return x.strConst(g[a:b])
			}
		}
		if lo == c.Int(0) && hi == x.strLen(v) {
			return v
		}
		t := c.App("strsub", RealS, v, lo, hi)
		t.Lo = big.NewInt(0)
		return t
	}
	panic(unsupported("slice"))
}

// nn: a term known to be a length (non-negative by a just-established bound)
func (x *Exec) nn(st *State, t *Term) *Term {
	return t
}

// ---- maps

func (x *Exec) mapKeys(mt *types.Map) (dom string, val string, ks *Sort) {
	kc := x.e.comps(mt.Key())
	if len(kc) == 0 {
		panic(unsupported("map key type " + mt.Key().String()))
	}
	base := "map:" + types.TypeString(mt, nil)
	ks = kc[0].s
	if len(kc) > 1 {
		ks = IntS // boxed
	}
	return base + "#dom", base + "#val", ks
}

func (x *Exec) mapKey(st *State, k Val, t types.Type) *Term {
	ts := x.flatten(k, t)
	if len(ts) == 1 {
		return ts[0]
	}
	// composite key: an injective encoding
	tm := x.c.App("key:"+types.TypeString(t, nil), IntS, ts...)
	for j, a := range ts {
		inv := x.c.App(fmt.Sprintf("keyinv:%s:%d", types.TypeString(t, nil), j), a.S, tm)
		x.assume(st, x.c.Eq(inv, a))
	}
	x.boxes[tm.ID] = ts
	return tm
}

func (x *Exec) mapDom(st *State, mt *types.Map) (*Term, string) {
	dk, _, ks := x.mapKeys(mt)
	return x.heapGet(st, dk, ArrS(IntS, ArrS(ks, BoolS)), comp{s: BoolS}), dk
}

func (x *Exec) initMap(st *State, r *Term, mt *types.Map) {
	h, dk := x.mapDom(st, mt)
	_, vk, ks := x.mapKeys(mt)
	x.setHeap(st, dk, x.c.Store(h, r, x.c.ConstArr(ArrS(ks, BoolS), x.c.F)), r)
	zs, _ := x.zeroComps(mt.Elem())
	for i, cm := range x.e.comps(mt.Elem()) {
		s := ArrS(IntS, ArrS(ks, cm.s))
		h := x.heapGet(st, vk+cm.suf, s, cm)
		x.setHeap(st, vk+cm.suf, x.c.Store(h, r, x.c.ConstArr(ArrS(ks, cm.s), zs[i])), r)
	}
	x.setGhostInt(st, "maplen", r, x.c.Int(0))
}

// syncKey identifies a sync object of an allocation of this path, whose state starts as zero.
func (x *Exec) syncKey(st *State, key string, p Ptr) (string, bool) {
	b := x.norm(st, p.Base)
	if v, ok := b.IntVal(); !ok || v >= 0 {
		return "", false
	}
	p.Base = b
	return fmt.Sprintf("%s:%d", key, x.encPtr(p).ID), true
}

// syncInt is the counter of a sync.WaitGroup or sync.Once.
func (x *Exec) syncInt(st *State, key string, p Ptr) *Term {
	if k, ok := x.syncKey(st, key, p); ok {
		return x.c.Int(st.syncs[k])
	}
	return x.deep(st, x.ghostInt(st, key, x.encPtr(p)))
}

func (x *Exec) setSyncInt(st *State, key string, p Ptr, n int64) {
	if k, ok := x.syncKey(st, key, p); ok {
		m := make(map[string]int64, len(st.syncs)+1)
		for k, v := range st.syncs {
			m[k] = v
		}
		m[k] = n
		st.syncs = m
		return
	}
	x.setGhostInt(st, key, x.encPtr(p), x.c.Int(n))
}

func (x *Exec) ghostInt(st *State, key string, r *Term) *Term {
	h := x.heapGet(st, "ghost:"+key, ArrS(IntS, IntS), comp{s: IntS, lo: big.NewInt(0), hi: maxLen})
	return x.norm(st, x.c.Select(h, r))
}
func (x *Exec) setGhostInt(st *State, key string, r, v *Term) {
	h := x.heapGet(st, "ghost:"+key, ArrS(IntS, IntS), comp{s: IntS, lo: big.NewInt(0), hi: maxLen})
	x.setHeap(st, "ghost:"+key, x.c.Store(h, r, v), r)
}

func (x *Exec) mapHas(st *State, m *Term, mt *types.Map, kt *Term) *Term {
	h, _ := x.mapDom(st, mt)
	return x.c.And(x.c.Not(x.c.Eq(m, x.c.Int(0))), x.c.Select(x.c.Select(h, m), kt))
}

func (x *Exec) mapGet(st *State, m *Term, mt *types.Map, kt *Term) Val {
	_, vk, ks := x.mapKeys(mt)
	var ts []*Term
	for _, cm := range x.e.comps(mt.Elem()) {
		h := x.heapGet(st, vk+cm.suf, ArrS(IntS, ArrS(ks, cm.s)), cm)
		ts = append(ts, x.norm(st, x.c.Select(x.c.Select(h, m), kt)))
	}
	v := x.unflatten(ts, mt.Elem())
	for _, f := range x.valFacts(v, mt.Elem()) {
		x.assume(st, f)
	}
	return v
}

func (x *Exec) mapSet(st *State, m *Term, mt *types.Map, k, v Val) {
	_, vk, ks := x.mapKeys(mt)
	kt := x.mapKey(st, k, mt.Key())
	has := x.mapHas(st, m, mt, kt)
	h, dk := x.mapDom(st, mt)
	x.setHeap(st, dk, x.c.Store(h, m, x.c.Store(x.c.Select(h, m), kt, x.c.T)), m)
	vs := x.flatten(v, mt.Elem())
	for i, cm := range x.e.comps(mt.Elem()) {
		h := x.heapGet(st, vk+cm.suf, ArrS(IntS, ArrS(ks, cm.s)), cm)
		x.setHeap(st, vk+cm.suf, x.c.Store(h, m, x.c.Store(x.c.Select(h, m), kt, vs[i])), m)
	}
	n := x.ghostInt(st, "maplen", m)
	x.setGhostInt(st, "maplen", m, x.c.Add(n, x.c.Ite(has, x.c.Int(0), x.c.Int(1))))
}

func (x *Exec) mapDelete(st *State, m *Term, mt *types.Map, k Val) {
	kt := x.mapKey(st, k, mt.Key())
	has := x.mapHas(st, m, mt, kt)
	h, dk := x.mapDom(st, mt)
	x.setHeap(st, dk, x.c.Store(h, m, x.c.Store(x.c.Select(h, m), kt, x.c.F)), m)
	n := x.ghostInt(st, "maplen", m)
	x.setGhostInt(st, "maplen", m, x.c.Sub(n, x.c.Ite(has, x.c.Int(1), x.c.Int(0))))
}

func (x *Exec) mapLen(st *State, m *Term, mt *types.Map) *Term {
	n := x.ghostInt(st, "maplen", m)
	// an empty map has no keys
	if !n.IsConst() {
		_, _, ks := x.mapKeys(mt)
		b := x.c.BVar("k", ks)
		h, _ := x.mapDom(st, mt)
		x.assume(st, x.c.Implies(x.c.Eq(n, x.c.Int(0)), x.c.Forall([]*Term{b}, x.c.Not(x.c.Select(x.c.Select(h, m), b)))))
		x.assume(st, x.c.Le(x.c.Int(0), n))
	}
	return x.c.Ite(x.c.Eq(m, x.c.Int(0)), x.c.Int(0), n)
}

func (x *Exec) lookup(st *State, i *ssa.Lookup) Val {
	mt, ok := i.X.Type().Underlying().(*types.Map)
	if !ok { // string
		s := x.get(st, i.X).(*Term)
		idx := x.deep(st, x.get(st, i.Index).(*Term))
		x.safety(st, "string index in range", i.Pos(), x.c.And(x.c.Le(x.c.Int(0), idx), x.c.Lt(idx, x.strLen(s))))
		return x.strAt(s, idx)
	}
	m := x.get(st, i.X).(*Term)
	kt := x.mapKey(st, x.get(st, i.Index), mt.Key())
	has := x.mapHas(st, m, mt, kt)
	v := x.flatten(x.mapGet(st, m, mt, kt), mt.Elem())
	zs, _ := x.zeroComps(mt.Elem())
	var ts []*Term
	// fork when the element has structure that ite would blur
	if x.branch(st, has) {
		ts = v
		has = x.c.T
	} else {
		ts = zs
		has = x.c.F
	}
	r := x.unflatten(ts, mt.Elem())
	if i.CommaOk {
		return TupleV{r, has}
	}
	return r
}

// mapKeysKnown are the keys that were put in a map that was empty, newest first, if dom is the domain of such a map.
func (x *Exec) mapKeysKnown(st *State, dom *Term) ([]*Term, bool) {
	dom = x.norm(st, dom)
	var keys []*Term
	for dom.Op == "store" {
		keys = append(keys, dom.Args[1])
		dom = dom.Args[0]
		if len(keys) > 16 {
			return nil, false
		}
	}
	return keys, dom.Op == "constarr" && dom.Args[0].IsFalse()
}

// nextKnown is next for such a map.
func (x *Exec) nextKnown(st *State, i *ssa.Next, it IterV, keys []*Term, dom *Term, more bool) {
	c := x.c
	f := st.top()
	mt := it.MT
	left := func(n int) *Term { // key n is the newest that is the same, is in the map, and wasn't visited
		ts := []*Term{c.Select(dom, keys[n])}
		for _, o := range keys[:n] {
			ts = append(ts, c.Not(c.Eq(o, keys[n])))
		}
		for _, v := range it.Visited {
			ts = append(ts, c.Not(c.Eq(v, keys[n])))
		}
		return x.deep(st, x.norm(st, c.And(ts...)))
	}
	var open []int
	for n := range keys {
		if t := left(n); !t.IsFalse() {
			open = append(open, n)
		}
	}
	if !more {
		x.assume(st, c.Not(c.Eq(it.M, c.Int(0))))
		for _, n := range open {
			x.assume(st, c.Not(left(n)))
		}
		if x.feasible(st) == Unsat {
			st.dead = true
			return
		}
		st.setReg(f, i, TupleV{c.F, x.zero(mt.Key()), x.zero(mt.Elem())})
		return
	}
	if len(open) == 0 {
		st.dead = true
		return
	}
	n := open[len(open)-1]
	for _, o := range open[:len(open)-1] {
		if x.nondet(st, "nextkey") {
			n = o
			break
		}
	}
	x.assume(st, left(n))
	if x.feasible(st) == Unsat {
		st.dead = true
		return
	}
	k := keys[n]
	it.Visited = append(append([]*Term{}, it.Visited...), k)
	st.setReg(f, i.Iter, it)
	st.setReg(f, i, TupleV{c.T, x.unflatten([]*Term{k}, mt.Key()), x.mapGet(st, it.M, mt, k)})
}

func (x *Exec) next(st *State, i *ssa.Next) {
	if i.IsString {
		panic(unsupported("range over string"))
	}
	c := x.c
	f := st.top()
	var itReg ssa.Value = i.Iter
	it := x.get(st, itReg).(IterV)
	mt := it.MT
	tt := i.Type().(*types.Tuple)
	h, _ := x.mapDom(st, mt)
	dom := c.Select(h, it.M)
	_, _, ks := x.mapKeys(mt)
	more := false
	if it.M == c.Int(0) {
		more = false
	} else {
		more = x.nondet(st, "next")
	}
	kc := x.e.comps(mt.Key())
	if keys, ok := x.mapKeysKnown(st, dom); ok && it.VisArr == nil && len(kc) == 1 {
		x.nextKnown(st, i, it, keys, dom, more)
		return
	}
	if more {
		k := c.Fresh("key", ks)
		if len(kc) == 1 {
			x.setRange(k, kc[0])
		}
		x.assume(st, c.Not(c.Eq(it.M, c.Int(0))))
		x.assume(st, c.Select(dom, k))
		if it.VisArr != nil {
			x.assume(st, c.Not(c.Select(it.VisArr, k)))
			it.VisArr = c.Store(it.VisArr, k, c.T)
		}
		for _, v := range it.Visited {
			x.assume(st, c.Not(c.Eq(v, k)))
		}
		it.Visited = append(append([]*Term{}, it.Visited...), k)
		if it.VisArr == nil && len(it.Visited) > 1 || true {
			if x.feasible(st) == Unsat {
				st.dead = true
				return
			}
		}
		st.setReg(f, itReg, it)
		var kv Val
		if len(kc) == 1 {
			kv = x.unflatten([]*Term{k}, mt.Key())
		} else {
			var ts []*Term
			for j, cm := range kc {
				u := c.App(fmt.Sprintf("keyinv:%s:%d", types.TypeString(mt.Key(), nil), j), cm.s, k)
				x.setRange(u, cm)
				ts = append(ts, u)
			}
			kv = x.unflatten(ts, mt.Key())
			x.assume(st, c.Eq(c.App("key:"+types.TypeString(mt.Key(), nil), IntS, ts...), k))
		}
		vv := x.mapGet(st, it.M, mt, k)
		_ = tt
		st.setReg(f, i, TupleV{c.T, kv, vv})
		if x.unrollMap > 0 && it.VisArr == nil && len(it.Visited) > x.unrollMap {
			panic(unsupported("map iteration beyond unroll bound"))
		}
		return
	}
	// exhausted: every key was visited
	b := c.BVar("k", ks)
	var vis []*Term
	for _, v := range it.Visited {
		vis = append(vis, c.Eq(b, v))
	}
	if it.VisArr != nil {
		vis = append(vis, c.Select(it.VisArr, b))
	}
	x.assume(st, c.Or(c.Eq(it.M, c.Int(0)), c.Forall([]*Term{b}, c.Or(append(vis, c.Not(c.Select(dom, b)))...))))
	if it.VisArr == nil {
		n := x.ghostInt(st, "maplen", it.M)
		x.assume(st, c.Or(c.Eq(it.M, c.Int(0)), c.Eq(n, c.Int(int64(len(it.Visited))))))
	}
	if x.feasible(st) == Unsat {
		st.dead = true
		return
	}
	kz := x.zero(mt.Key())
	vz := x.zero(mt.Elem())
	st.setReg(f, i, TupleV{c.F, kz, vz})
}

// ---- type assertions

func (x *Exec) implements(st *State, tag *Term, it *types.Interface, itT types.Type) *Term {
	if id, ok := tag.IntVal(); ok {
		if id == 0 {
			return x.c.F
		}
		t := x.e.tagType(id)
		return x.c.Bool(types.Implements(t, it))
	}
	p := x.c.App("impl:"+types.TypeString(itT, nil), BoolS, tag)
	x.assume(st, x.c.Implies(x.c.Eq(tag, x.c.Int(0)), x.c.Not(p)))
	return p
}

func (x *Exec) typeAssert(st *State, i *ssa.TypeAssert) Val {
	c := x.c
	v := x.get(st, i.X).(IfaceV)
	t := i.AssertedType
	if it, ok := t.Underlying().(*types.Interface); ok {
		v = x.splitIface(st, v)
		if st.dead {
			return nil
		}
		cond := x.implements(st, v.Tag, it, t)
		if i.CommaOk {
			if x.branch(st, cond) {
				return TupleV{v, c.T}
			}
			return TupleV{x.nilIface(), c.F}
		}
		x.safety(st, "type assertion holds", i.Pos(), cond)
		return v
	}
	tag := c.Int(x.e.typeTag(t))
	cond := c.Eq(v.Tag, tag)
	var val Val
	get := func() Val {
		if v.Dyn != nil {
			return v.V
		}
		return x.unbox(x.ifacePay(v), t)
	}
	if i.CommaOk {
		if x.branch(st, cond) {
			val = get()
			return TupleV{val, c.T}
		}
		return TupleV{x.zero(t), c.F}
	}
	x.safety(st, "type assertion holds", i.Pos(), cond)
	if st.dead || cond.IsFalse() {
		st.dead = true
		return nil
	}
	return get()
}
