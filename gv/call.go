package main

import (
	"fmt"
	"go/token"
	"go/types"
	"maps"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// IMethod is a method of an interface value whose dynamic type is unknown.
type IMethod struct {
	Recv IfaceV
	T    types.Type
	M    *types.Func
}

func (x *Exec) callee(st *State, f *Frame, cc *ssa.CallCommon) (Val, []Val) {
	var args []Val
	if cc.IsInvoke() {
		r := x.get(st, cc.Value).(IfaceV)
		for _, a := range cc.Args {
			args = append(args, x.get(st, a))
		}
		if r.Dyn == nil {
			tag := x.norm(st, r.Tag)
			if tag != r.Tag {
				r = x.mkIface(tag, x.ifacePay(r))
			}
		}
		r = x.splitIface(st, r)
		if r.Dyn != nil && isSynth(r.Dyn) {
			return IMethod{r, cc.Value.Type(), cc.Method}, args
		}
		if r.Dyn != nil {
			m := x.e.prog.LookupMethod(r.Dyn, cc.Method.Pkg(), cc.Method.Name())
			if m == nil {
				panic(unsupported("method " + cc.Method.Name() + " of " + r.Dyn.String()))
			}
			return FuncV{Fn: m}, append([]Val{r.V}, args...)
		}
		if r.Tag.IsConst() && f.fn.Synthetic != "" && strings.Contains(originName(f.fn), "/internal/gv.refl") {
			panic(unsupported("reflection: " + cc.Method.Name()))
		}
		x.safety(st, "call on nil interface", cc.Pos(), x.c.Not(x.c.Eq(r.Tag, x.c.Int(0))))
		return IMethod{r, cc.Value.Type(), cc.Method}, args
	}
	fn := x.get(st, cc.Value)
	for _, a := range cc.Args {
		args = append(args, x.get(st, a))
	}
	return fn, args
}

// splitIface resolves the dynamic type of an interface value by case split, where it is one of some that are known.
func (x *Exec) splitIface(st *State, r IfaceV) IfaceV {
	for r.Dyn == nil && !st.dead {
		t := r.Tag
		switch {
		case t.Op == "ite":
			b := x.branch(st, t.Args[0])
			k := 2
			if b {
				k = 1
			}
			r = x.mkIface(t.Args[k], pickIte(r.Pay, t.Args[0], b))
		case t.Op == "select" && t.Args[0].Op == "store":
			k, i := t.Args[0].Args[1], t.Args[1]
			pick := func(p *Term, b bool) *Term {
				if p == nil || p.Op != "select" || p.Args[1] != i || p.Args[0].Op != "store" || p.Args[0].Args[1] != k {
					return p
				}
				if b {
					return p.Args[0].Args[2]
				}
				return x.c.Select(p.Args[0].Args[0], i)
			}
			b := x.branch(st, x.c.Eq(k, i))
			r = x.mkIface(pick(t, b), pick(r.Pay, b))
		default:
			return r
		}
	}
	return r
}

func pickIte(p, cond *Term, b bool) *Term {
	if p != nil && p.Op == "ite" && p.Args[0] == cond {
		if b {
			return p.Args[1]
		}
		return p.Args[2]
	}
	return p
}

func (x *Exec) call(st *State, f *Frame, i *ssa.Call, cc *ssa.CallCommon) bool {
	fn, args := x.callee(st, f, cc)
	if st.dead {
		return false
	}
	return x.invoke(st, i, fn, args, cc)
}

// invoke performs a call. It returns true when the result is already available (and the instruction may advance).
func (x *Exec) invoke(st *State, dst ssa.Value, fn Val, args []Val, cc *ssa.CallCommon) bool {
	setRes := func(v Val) bool {
		if st.dead {
			return false
		}
		if dst != nil {
			st.setReg(st.top(), dst, v)
			return true
		}
		return false
	}
	switch fv := fn.(type) {
	case IMethod:
		if h, ok := imethods[fv.M.FullName()]; ok {
			x.noteTrusted(fv.M.FullName())
			return setRes(h(x, st, cc, append([]Val{fv.Recv}, args...)))
		}
		panic(unsupported("call of " + fv.M.FullName() + " on a value of unknown dynamic type"))
	case FuncV:
		if fv.BI != nil {
			return setRes(x.builtin(st, fv.BI.Name(), args, cc))
		}
		if fv.Fn == nil {
			t := x.norm(st, fv.T)
			for t.Op == "ite" {
				if x.branch(st, t.Args[0]) {
					t = x.norm(st, t.Args[1])
				} else {
					t = x.norm(st, t.Args[2])
				}
			}
			fv2 := x.decFunc(t).(FuncV)
			if fv2.Fn == nil {
				x.safety(st, "call of nil function", token.NoPos, x.c.Not(x.c.Eq(t, x.c.Int(0))))
				if st.dead {
					return false
				}
				return setRes(x.opaqueCall(st, t, args, cc))
			}
			fv = fv2
		}
		return x.callFn(st, dst, fv, args, cc, setRes)
	}
	panic(unsupported(fmt.Sprintf("call of %T", fn)))
}

func originName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fn.RelString(nil)
}

// redirected are library functions that are executed as models of them, which are Go code in package gv.
var redirected = map[string]string{
	"context.WithCancel":   "ModelWithCancel",
	"context.WithValue":    "ModelWithValue",
	"context.WithTimeout":  "ModelWithTimeout",
	"context.WithDeadline": "ModelWithDeadline",
	"context.Background":   "ModelBackground",
	"io.WriteString":       "ModelWriteString",

	"crypto/md5.New": "ModelHash",
	"fmt.Fprintf":    "ModelFprintf",

	"math/rand.NewSource":    "ModelRandSource",
	"math/rand.Int63":        "ModelRandInt63",
	"math/rand.New":          "ModelRandNew",
	"(*math/rand.Rand).Read": "ModelRandRead",

	"(google.golang.org/protobuf/reflect/protoreflect.Value).Message": "ModelValueMessage",
	"(google.golang.org/protobuf/reflect/protoreflect.Value).List":    "ModelValueList",
	"(google.golang.org/protobuf/reflect/protoreflect.Value).Bool":    "ModelValueBool",
	"(google.golang.org/protobuf/reflect/protoreflect.Value).Enum":    "ModelValueEnum",
	"(google.golang.org/protobuf/reflect/protoreflect.Value).Int":     "ModelValueInt",
	"(google.golang.org/protobuf/reflect/protoreflect.Value).Uint":    "ModelValueUint",
	"(google.golang.org/protobuf/reflect/protoreflect.Value).Float":   "ModelValueFloat",
	"(google.golang.org/protobuf/reflect/protoreflect.Value).String":  "ModelValueString",
	"(google.golang.org/protobuf/reflect/protoreflect.Value).Bytes":   "ModelValueBytes",
	"bytes.Equal": "ModelBytesEqual",
	"math.Min":    "ModelMin", "math.Max": "ModelMax",
	"google.golang.org/protobuf/types/known/fieldmaskpb.New":         "ModelMaskNew",
	"google.golang.org/protobuf/reflect/protoreflect.ValueOfMessage": "ModelValueOfMessage",

	"(*google.golang.org/protobuf/types/known/fieldmaskpb.FieldMask).IsValid":   "ModelMaskIsValid",
	"(*google.golang.org/protobuf/types/known/fieldmaskpb.FieldMask).Normalize": "ModelMaskNormalize",
	"google.golang.org/protobuf/types/known/fieldmaskpb.Union":                  "ModelMaskUnion",
	"github.com/mennanov/fmutils.NestedMaskFromPaths":                           "ModelNestedMask",

	"(*encoding/base64.Encoding).EncodeToString": "ModelEncode",
	"context.TODO": "ModelBackground",

	"google.golang.org/grpc/status.FromError":              "ModelStatusFromError",
	"google.golang.org/grpc/status.Convert":                "ModelStatusConvert",
	"google.golang.org/grpc/status.FromContextError":       "ModelStatusFromContextError",
	"(*google.golang.org/grpc/internal/status.Status).Err": "ModelStatusErr",
}

func (x *Exec) noteTrusted(n string) { x.trusted[n] = true }

func (x *Exec) callFn(st *State, dst ssa.Value, fv FuncV, args []Val, cc *ssa.CallCommon, setRes func(Val) bool) bool {
	fn := fv.Fn
	name := originName(fn)
	if m := redirected[name]; m != "" {
		if p := x.e.prog.ImportedPackage(repoMod + "/internal/gv"); p != nil && p.Func(m) != nil {
			x.noteTrusted(name + " (as gv." + m + ")")
			fn = p.Func(m)
			fv = FuncV{Fn: fn}
			name = originName(fn)
		}
	}
	if fn.Name() == "ProtoReflect" && len(args) == 1 && fn.Signature.Recv() != nil && msgElem(fn.Signature.Recv().Type()) != nil {
		if p := x.e.prog.ImportedPackage(repoMod + "/internal/gv"); p != nil && p.Func("ModelProtoReflect") != nil {
			x.noteTrusted("protobuf reflection (as gv.ModelProtoReflect)")
			x.pushFrame(st, dst, FuncV{Fn: p.Func("ModelProtoReflect")}, []Val{x.makeIface(args[0], fn.Signature.Recv().Type())})
			return false
		}
	}
	if h, ok := intrinsics[name]; ok {
		if !strings.Contains(name, "/internal/gv.") {
			x.noteTrusted(name)
		}
		cur := st.top()
		v := h(x, st, &Site{fn: fn, cc: cc, dst: dst}, args)
		if st.dead || st.parked != nil {
			return false
		}
		if _, pushed := v.(framePushed); pushed {
			st.top().dst = dst
			_ = cur
			return false
		}
		return setRes(v)
	}
	if x.vf.abstract[fn] {
		rt := fn.Signature.Results().At(0).Type()
		var as []*Term
		for i, a := range args {
			as = append(as, x.flatten(a, fn.Params[i].Type())...)
		}
		for i := range as {
			as[i] = x.norm(st, as[i])
		}
		var out []*Term
		for _, cm := range x.e.comps(rt) {
			r := x.c.App("gh!"+fn.Pkg.Pkg.Name()+"."+fn.Name()+cm.suf, cm.s, as...)
			x.setRange(r, cm)
			out = append(out, x.norm(st, r))
		}
		v := x.unflatten(out, rt)
		for _, f := range x.valFacts(v, rt) {
			x.assume(st, f)
		}
		return setRes(v)
	}
	// contract used as a callee summary
	if k := x.vf.summary(x, fn); k != nil {
		top := st.top()
		if top.fn == k.Fn {
			if top.entry["$summary"] != nil {
				return setRes(x.havocCall(st, fn, args))
			}
			// verifying: execute the real body
		} else if !x.insideOwn(st, k) {
			x.used[k.Name] = true
			x.pushFrame(st, dst, FuncV{Fn: k.Fn}, args)
			st.top().entry = map[string]Val{"$summary": x.c.T}
			return false
		}
	}
	if len(fn.Blocks) == 0 {
		if h := x.synth(st, fn, args, cc); h != nil {
			return setRes(h)
		}
		panic(unsupported("no body for " + name))
	}
	if (strings.HasPrefix(fn.Name(), "spec") || strings.HasPrefix(fn.Name(), "Spec")) && x.vf.isGhost(fn) && fn.Signature.Results().Len() == 1 && x.specDepth < 40 {
		rt := fn.Signature.Results().At(0).Type()
		x.specDepth++
		v, fs := x.evalPure(st, fv, args, rt)
		x.specDepth--
		if v == nil {
			st.dead = true
			return false
		}
		for _, q := range fs {
			x.assume(st, q)
		}
		return setRes(v)
	}
	if !x.vf.mayInline(fn) {
		panic(unsupported("call of " + name + " (not modelled)"))
	}
	if len(st.frames) > 60 {
		panic(unsupported("recursion in " + name))
	}
	if fn.Synthetic == "" && x.vf.isRepo(fn) {
		x.inlined[shortFn(fn)] = true
	}
	x.pushFrame(st, dst, fv, args)
	return false
}

// insideOwn: the contract of fn is being verified and its real body runs below us (recursion uses the summary)
func (x *Exec) insideOwn(st *State, k *Contract) bool { return false }

type framePushed struct{}

func (x *Exec) pushFrame(st *State, dst ssa.Value, fv FuncV, args []Val) {
	fn := fv.Fn
	f := &Frame{fn: fn, block: fn.Blocks[0], regs: map[ssa.Value]Val{}, binds: fv.Binds, dst: dst, iters: map[*ssa.BasicBlock]int{}, cutting: map[*ssa.BasicBlock]bool{}}
	if len(args) != len(fn.Params) {
		panic(unsupported(fmt.Sprintf("arity of %s: %d vs %d", fn, len(args), len(fn.Params))))
	}
	for i, p := range fn.Params {
		f.regs[p] = args[i]
	}
	f.spec = x.vf.isGhost(fn)
	st.frames = append(st.frames, f)
}

// havocCall: the effect of a call known only by its contract: unconstrained results, no effect on existing objects
func (x *Exec) havocCall(st *State, fn *ssa.Function, args []Val) Val {
	res := fn.Signature.Results()
	x.allocN += 1000000 // objects allocated by the callee
	v := x.havocVal(st, "res:"+fn.Name(), res)
	if res.Len() == 1 {
		return v.(TupleV)[0]
	}
	return v
}

// havocVal: a symbolic value that may refer to any object allocated so far
func (x *Exec) havocVal(st *State, name string, t types.Type) Val {
	var ts []*Term
	for _, c := range x.e.comps(t) {
		v := x.c.Fresh(name+c.suf, c.s)
		x.setRange(v, c)
		if c.ref {
			v.Lo = x.c.Int(-x.allocN).Lo
			v.Hi = nil
		}
		ts = append(ts, v)
	}
	v := x.unflatten(ts, t)
	for _, f := range x.valFacts(v, t) {
		x.assume(st, f)
	}
	return v
}

func (x *Exec) opaqueCall(st *State, t *Term, args []Val, cc *ssa.CallCommon) Val {
	panic(unsupported("call of an unknown function value"))
}

func (x *Exec) synth(st *State, fn *ssa.Function, args []Val, cc *ssa.CallCommon) Val { return nil }

// ---- builtins

func (x *Exec) builtin(st *State, name string, args []Val, cc *ssa.CallCommon) Val {
	c := x.c
	switch name {
	case "len", "cap":
		switch v := args[0].(type) {
		case SliceV:
			if name == "cap" {
				return x.deep(st, v.Cap)
			}
			return x.deep(st, v.Len)
		case *Term:
			if mt, ok := cc.Args[0].Type().Underlying().(*types.Map); ok {
				x.hbMap(st, v, mt, false)
				return x.mapLen(st, v, mt)
			}
			if _, ok := cc.Args[0].Type().Underlying().(*types.Chan); ok {
				return c.Fresh("chanlen", IntS)
			}
			return x.strLen(v)
		case ArrayV:
			return c.Int(v.N)
		case Ptr:
			return c.Int(v.N)
		}
	case "append":
		et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
		s := x.deepSlice(st, args[0].(SliceV))
		if str, ok := args[1].(*Term); ok { // append([]byte, string...)
			b := x.convert(st, str, types.Typ[types.String], types.NewSlice(et)).(SliceV)
			return x.appendSlice(st, s, b, et)
		}
		return x.appendSlice(st, s, x.deepSlice(st, args[1].(SliceV)), et)
	case "copy":
		d := x.deepSlice(st, args[0].(SliceV))
		et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
		s, ok := args[1].(SliceV)
		if !ok {
			panic(unsupported("copy from string"))
		}
		s = x.deepSlice(st, s)
		var n *Term
		if x.branch(st, c.Le(d.Len, s.Len)) {
			n = d.Len
		} else {
			n = s.Len
		}
		x.hbRange(st, s.Arr, s.Off, n, et, false)
		x.hbRange(st, d.Arr, d.Off, n, et, true)
		x.copyElems(st, d.Arr, d.Off, s.Arr, s.Off, n, et)
		return n
	case "delete":
		mt := cc.Args[0].Type().Underlying().(*types.Map)
		m := args[0].(*Term)
		x.hbMap(st, m, mt, true)
		if x.branch(st, c.Eq(m, c.Int(0))) {
			return TupleV{}
		}
		x.mapDelete(st, m, mt, args[1])
		return TupleV{}
	case "close":
		x.closeChan(st, args[0].(*Term))
		return TupleV{}
	case "min", "max":
		r := args[0].(*Term)
		for _, a := range args[1:] {
			b := a.(*Term)
			if name == "min" {
				r = c.Ite(c.Le(b, r), b, r)
			} else {
				r = c.Ite(c.Le(r, b), b, r)
			}
		}
		return r
	case "recover":
		return x.nilIface()
	case "print", "println":
		return TupleV{}
	case "ssa:wrapnilchk":
		p := args[0].(Ptr)
		x.nilCheck(st, p, token.NoPos)
		return p
	}
	panic(unsupported("builtin " + name))
}

func (x *Exec) elemArrs(st *State, arr *Term, et types.Type) (keys []string, arrs []*Term, cs []comp) {
	ek := x.e.elemKey(et)
	for _, cm := range x.e.comps(et) {
		h := x.heapGet(st, ek+cm.suf, ArrS(IntS, ArrS(IntS, cm.s)), cm)
		keys = append(keys, ek+cm.suf)
		arrs = append(arrs, x.c.Select(h, arr))
		cs = append(cs, cm)
	}
	return
}

func (x *Exec) setElemArrs(st *State, arr *Term, et types.Type, as []*Term) {
	ek := x.e.elemKey(et)
	for i, cm := range x.e.comps(et) {
		k := ek + cm.suf
		h := x.heapGet(st, k, ArrS(IntS, ArrS(IntS, cm.s)), cm)
		x.setHeap(st, k, x.c.Store(h, arr, as[i]), arr)
	}
}

// copied: the array equal to dst except [do, do+n) taken from src at so
func (x *Exec) copied(st *State, dst, do, src, so, n *Term) *Term {
	c := x.c
	if k, ok := n.IntVal(); ok && k <= 24 {
		r := dst
		var vs []*Term
		for i := int64(0); i < k; i++ {
			vs = append(vs, c.Select(src, c.Add(so, c.Int(i))))
		}
		for i := int64(0); i < k; i++ {
			r = c.Store(r, c.Add(do, c.Int(i)), vs[i])
		}
		return r
	}
	a := c.Fresh("copy", dst.S)
	a.Lo, a.Hi = bmin(dst.Lo, src.Lo), bmax(dst.Hi, src.Hi)
	i := c.BVar("i", IntS)
	body := c.Eq(c.Select(a, i), c.Ite(c.And(c.Le(do, i), c.Lt(i, c.Add(do, n))), c.Select(src, c.Add(c.Sub(i, do), so)), c.Select(dst, i)))
	x.assume(st, c.Forall([]*Term{i}, body, c.Select(a, i)))
	return a
}

func (x *Exec) copyElems(st *State, darr, doff, sarr, soff, n *Term, et types.Type) {
	_, da, _ := x.elemArrs(st, darr, et)
	_, sa, _ := x.elemArrs(st, sarr, et)
	if n == x.c.Int(0) {
		return
	}
	var out []*Term
	for i := range da {
		out = append(out, x.copied(st, da[i], doff, sa[i], soff, n))
	}
	x.setElemArrs(st, darr, et, out)
}

func (x *Exec) appendSlice(st *State, s, a SliceV, et types.Type) Val {
	c := x.c
	n := a.Len
	if n == c.Int(0) {
		return s
	}
	newLen := c.Add(s.Len, n)
	if _, ok := n.IntVal(); !ok && x.branch(st, c.Eq(n, c.Int(0))) {
		return s
	}
	x.hbRange(st, a.Arr, a.Off, n, et, false)
	if x.hasRoom(st, newLen, s.Cap) {
		x.hbRange(st, s.Arr, c.Add(s.Off, s.Len), n, et, true)
		// in place: the shared backing array is written
		x.copyElems(st, s.Arr, c.Add(s.Off, s.Len), a.Arr, a.Off, n, et)
		return SliceV{s.Arr, s.Off, newLen, s.Cap}
	}
	x.hbRange(st, s.Arr, s.Off, s.Len, et, false)
	r := x.newRef()
	_, sa, _ := x.elemArrs(st, s.Arr, et)
	_, aa, _ := x.elemArrs(st, a.Arr, et)
	// appending to an empty slice starts at offset 0
	off, ln := s.Off, s.Len
	if ln == c.Int(0) {
		off = c.Int(0)
		sa = x.zeroArr(et)
	}
	var out []*Term
	for i := range sa {
		out = append(out, x.copied(st, sa[i], c.Add(off, ln), aa[i], a.Off, n))
	}
	x.setElemArrs(st, r, et, out)
	return SliceV{r, off, newLen, x.grownCap(st, newLen, s.Cap, et)}
}

// growth is the capacity of a slice of known length that append made: as the runtime grows slices, or, when "roomy", with
// room for more. An execution is one or the other throughout.
type growth struct{ real, roomy int64 }

func (x *Exec) roomy() *Term { return x.c.Var("append.roomy", BoolS) }

// hasRoom says whether a slice of capacity cp holds n elements.
func (x *Exec) hasRoom(st *State, n, cp *Term) bool {
	if nv, ok := n.IntVal(); ok {
		if g, ok := x.grown[cp.ID]; ok {
			if nv > g.real && nv <= g.roomy {
				return x.branch(st, x.roomy())
			}
			return nv <= g.real
		}
	}
	return x.branch(st, x.c.Le(n, cp))
}

// grownCap is the capacity of a slice of n elements that append makes of one of capacity old.
func (x *Exec) grownCap(st *State, n, old *Term, et types.Type) *Term {
	c := x.c
	nv, ok := n.IntVal()
	ov, okOld := old.IntVal()
	if g, ok := x.grown[old.ID]; ok {
		ov, okOld = g.real, true
	}
	if size := gcSizes.Sizeof(et); ok && okOld && size > 0 && nv <= 128 && nv*size <= 1024 {
		g := growth{goGrow(ov, nv, size), 2*nv + 8}
		if g.roomy <= g.real {
			g.roomy = g.real + 8
		}
		t := c.Ite(x.roomy(), c.Int(g.roomy), c.Int(g.real))
		x.grown[t.ID] = g
		return t
	}
	cp := c.FreshRange("cap", c.Int(0).Lo, maxLen)
	x.assume(st, c.Le(n, cp))
	return cp
}

var gcSizes = types.SizesFor("gc", "amd64")

// goGrow is the runtime's growslice, up to 128 elements and 1024 bytes.
func goGrow(old, n, size int64) int64 {
	cp := n
	if n <= 2*old {
		cp = 2 * old
	}
	for _, class := range []int64{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048} {
		if cp*size <= class {
			return class / size
		}
	}
	return cp
}

// ---- globals

const globBase = int64(1) << 45

func (x *Exec) globalPtr(st *State, g *ssa.Global) Val {
	p, ok := x.globals[g]
	if !ok {
		id := globBase + int64(len(x.globals))
		t := g.Type().Underlying().(*types.Pointer).Elem()
		p = Ptr{Base: x.c.Int(id), Root: t}
		if a, ok := t.Underlying().(*types.Array); ok {
			p = Ptr{Base: x.c.Int(id), Root: a.Elem(), Elem: true, N: a.Len()}
		}
		x.globals[g] = p
	}
	return p
}

// neverStored are the variables of a package of the repository that no function of it assigns to, package initialisation
// included: they are zero.
func (v *Verifier) neverStored(pkg *ssa.Package) []*ssa.Global {
	if r, ok := v.zeroMemo.Load(pkg); ok {
		return r.([]*ssa.Global)
	}
	var l []*ssa.Global
	if f := pkg.Func("init"); f != nil && v.isRepo(f) {
		stored := map[*ssa.Global]bool{}
		for _, fn := range v.funcsOf(pkg) {
			for _, b := range fn.Blocks {
				for _, i := range b.Instrs {
					if u, ok := i.(*ssa.UnOp); ok && u.Op == token.MUL {
						continue // it is read
					}
					st, _ := i.(*ssa.Store)
					for _, o := range i.Operands(nil) {
						g, ok := (*o).(*ssa.Global)
						if !ok {
							continue
						}
						_, basic := g.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Basic)
						if !basic || st != nil && st.Addr == g {
							stored[g] = true // an address that is taken counts, but for basic types
						}
					}
				}
			}
		}
		for _, m := range pkg.Members {
			if g, ok := m.(*ssa.Global); ok && !stored[g] {
				switch g.Type().Underlying().(*types.Pointer).Elem().Underlying().(type) {
				case *types.Basic, *types.Slice, *types.Map, *types.Pointer, *types.Interface, *types.Signature:
					l = append(l, g)
				}
			}
		}
		sort.Slice(l, func(i, j int) bool { return l[i].Name() < l[j].Name() })
	}
	v.zeroMemo.Store(pkg, l)
	return l
}

// funcsOf are the functions of a package, methods and closures included.
func (v *Verifier) funcsOf(pkg *ssa.Package) []*ssa.Function {
	var l []*ssa.Function
	var add func(fn *ssa.Function)
	add = func(fn *ssa.Function) {
		if fn == nil {
			return
		}
		l = append(l, fn)
		for _, a := range fn.AnonFuncs {
			add(a)
		}
	}
	for _, m := range pkg.Members {
		switch m := m.(type) {
		case *ssa.Function:
			add(m)
		case *ssa.Type:
			for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
				ms := v.prog.MethodSets.MethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					if fn := v.prog.MethodValue(ms.At(i)); fn != nil && fn.Synthetic == "" {
						add(fn)
					}
				}
			}
		}
	}
	return l
}

// initSlice are the instructions of a package's initialiser that initialise the given variables.
func initSlice(pkg *ssa.Package, globals map[*ssa.Global]bool) map[ssa.Instruction]bool {
	only := map[ssa.Instruction]bool{}
	init := pkg.Func("init")
	if init == nil {
		return only
	}
	var root func(v ssa.Value) ssa.Value
	root = func(v ssa.Value) ssa.Value {
		switch v := v.(type) {
		case *ssa.FieldAddr:
			return root(v.X)
		case *ssa.IndexAddr:
			return root(v.X)
		case *ssa.Slice:
			return root(v.X)
		}
		return v
	}
	stores := map[ssa.Value][]ssa.Instruction{}
	for _, b := range init.Blocks {
		for _, i := range b.Instrs {
			if s, ok := i.(*ssa.Store); ok {
				stores[root(s.Addr)] = append(stores[root(s.Addr)], s)
			}
		}
	}
	seen := map[ssa.Value]bool{}
	var need func(i ssa.Instruction)
	object := func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		for _, s := range stores[v] {
			need(s)
		}
	}
	need = func(i ssa.Instruction) {
		if only[i] {
			return
		}
		only[i] = true
		for _, o := range i.Operands(nil) {
			if v, ok := (*o).(ssa.Instruction); ok {
				need(v)
				if a, ok := v.(*ssa.Alloc); ok {
					object(a)
				}
			}
		}
	}
	for g := range globals {
		object(g)
	}
	return only
}

// descs are the service descriptors of other modules that a package refers to, by package.
func (v *Verifier) descs(pkg *ssa.Package) map[*ssa.Package]map[*ssa.Global]bool {
	l := map[*ssa.Package]map[*ssa.Global]bool{}
	for _, fn := range v.funcsOf(pkg) {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				for _, o := range i.Operands(nil) {
					if g, ok := (*o).(*ssa.Global); ok && g.Pkg != pkg && g.Pkg != nil && !strings.HasPrefix(g.Pkg.Pkg.Path(), repoMod) &&
						g.Type().Underlying().(*types.Pointer).Elem().String() == "google.golang.org/grpc.ServiceDesc" {
						if l[g.Pkg] == nil {
							l[g.Pkg] = map[*ssa.Global]bool{}
						}
						l[g.Pkg][g] = true
					}
				}
			}
		}
	}
	return l
}

// initGlobals runs the package initialiser symbolically so that package-level variables have their values.
// Instructions outside the modelled subset leave the variable unconstrained.
func (x *Exec) initGlobals(st *State, pkg *ssa.Package, only map[ssa.Instruction]bool) {
	if pkg == nil || x.gInit[pkg] {
		return
	}
	x.gInit[pkg] = true
	init := pkg.Func("init")
	if init == nil || len(init.Blocks) < 2 {
		return
	}
	f := &Frame{fn: init, block: init.Blocks[0], regs: map[ssa.Value]Val{}, iters: map[*ssa.BasicBlock]int{}, cutting: map[*ssa.BasicBlock]bool{}}
	st.frames = append(st.frames, f)
	x.quiet++
	save := x.work
	x.work = [][]*State{nil}
	for _, g := range x.vf.neverStored(pkg) {
		func() {
			defer func() { recover() }()
			x.store(st, x.globalPtr(st, g).(Ptr), x.zero(g.Type().Underlying().(*types.Pointer).Elem()))
		}()
	}
	for _, b := range init.Blocks[1:] {
		f.block = b
		for k, ins := range b.Instrs {
			f.ip = k
			switch ins.(type) {
			case *ssa.Return, *ssa.Jump, *ssa.If:
				continue
			}
			if only != nil && !only[ins] {
				continue
			}
			func() {
				defer func() {
					if r := recover(); r != nil {
						st.dead, st.parked = false, nil
						for len(st.frames) > 0 && st.top() != f {
							st.frames = st.frames[:len(st.frames)-1]
						}
						if v, ok := ins.(ssa.Value); ok {
							func() {
								defer func() { recover() }()
								st.setReg(f, v, x.havocVal(st, "init:"+v.Name(), v.Type()))
							}()
						}
					}
				}()
				if call, ok := ins.(*ssa.Call); ok {
					if sc := call.Call.StaticCallee(); sc != nil && sc.Name() == "init" && sc.Synthetic != "" {
						return
					}
				}
				st.begin()
				pc, pcset := len(st.pc), maps.Clone(st.pcset)
				defer func() {
					if st.dead { // what can't be executed is unknown
						st.pc, st.isBr, st.pcset = st.pc[:pc], st.isBr[:pc], pcset
						panic(unsupported("initialiser"))
					}
				}()
				x.instr(st, f, ins)
				for st.top() != f && !st.dead { // run an inlined initialiser call to completion
					x.steps++
					if x.steps > x.maxSteps {
						panic(unsupported("init budget"))
					}
					st.begin()
					x.step(st)
					st.endStep()
				}
				st.endStep()
				if _, ok := ins.(*ssa.Store); ok {
					x.assume(st, x.c.T)
				}
			}()
			st.dead = false
		}
	}
	x.work = save
	x.quiet--
	st.frames = st.frames[:len(st.frames)-1]
	st.track = false
}
