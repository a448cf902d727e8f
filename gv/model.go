package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strconv"
	"strings"
	"time"
)

// ReplayInput is a Go source rendering of the verifier's counterexample.
type ReplayInput struct {
	Imports map[string]string `json:"imports"` // path -> alias
	Decls   []string          `json:"decls"`
	Args    []string          `json:"args"`
}

type mval struct {
	rat *big.Rat
	b   bool
	raw string
}

type modeler struct {
	x     *Exec
	st    *State
	q     []*Term
	known map[int]mval
	objs  map[string]string
	decls []string
	imps  map[string]string
	n     int
	self  *types.Package
	t0    time.Time
}

type modelFail struct{ why string }

func parseVal(s string) (mval, bool) {
	s = strings.TrimSpace(s)
	switch s {
	case "true":
		return mval{b: true, raw: s}, true
	case "false":
		return mval{raw: s}, true
	}
	var rat func(s string) *big.Rat
	rat = func(s string) *big.Rat {
		s = strings.TrimSpace(s)
		if strings.HasPrefix(s, "(- ") {
			r := rat(s[3 : len(s)-1])
			if r == nil {
				return nil
			}
			return r.Neg(r)
		}
		if strings.HasPrefix(s, "(/ ") {
			in := strings.TrimSpace(s[3 : len(s)-1])
			// split into two sexprs
			d, i := 0, 0
			for i = 0; i < len(in); i++ {
				if in[i] == '(' {
					d++
				} else if in[i] == ')' {
					d--
				} else if in[i] == ' ' && d == 0 {
					break
				}
			}
			a, b := rat(in[:i]), rat(in[i:])
			if a == nil || b == nil || b.Sign() == 0 {
				return nil
			}
			return new(big.Rat).Quo(a, b)
		}
		r, ok := new(big.Rat).SetString(s)
		if !ok {
			return nil
		}
		return r
	}
	if r := rat(s); r != nil {
		return mval{rat: r, raw: s}, true
	}
	return mval{raw: s}, true
}

func (m *modeler) eval(ts []*Term) []mval {
	out := make([]mval, len(ts))
	var want []*Term
	for i, t := range ts {
		if t.IsConst() || t.IsTrue() || t.IsFalse() {
			switch {
			case t.IsTrue():
				out[i] = mval{b: true}
			case t.IsFalse():
				out[i] = mval{}
			default:
				out[i] = mval{rat: t.Rat, raw: t.String()}
			}
			continue
		}
		if v, ok := m.known[t.ID]; ok {
			out[i] = v
			continue
		}
		want = append(want, t)
	}
	if len(want) > 0 {
		if time.Since(m.t0) > 20*time.Second {
			panic(modelFail{"model extraction budget"})
		}
		vals, ok := m.x.c.Model(append(append([]*Term{}, m.q...), m.x.facts(want)...), want, 10*time.Second)
		if !ok {
			panic(modelFail{"no model"})
		}
		for k, w := range want {
			s := strings.TrimSpace(vals[k])
			pre := "((" + w.String() + " "
			if !strings.HasPrefix(s, pre) {
				// normalised printing: take the last sexpr
				s = strings.TrimSuffix(strings.TrimPrefix(s, "(("), "))")
				s = lastSexpr(s)
			} else {
				s = strings.TrimSuffix(s[len(pre):], "))")
			}
			v, _ := parseVal(s)
			m.known[w.ID] = v
			switch {
			case v.rat != nil && w.S == IntS:
				if v.rat.IsInt() {
					m.q = append(m.q, m.x.c.Eq(w, m.x.c.BigInt(v.rat.Num())))
				}
			case v.rat != nil && w.S == RealS:
				m.q = append(m.q, m.x.c.Eq(w, m.x.c.RealC(v.rat)))
			case w.S == BoolS:
				m.q = append(m.q, m.x.c.Eq(w, m.x.c.Bool(v.b)))
			}
		}
	}
	for i, t := range ts {
		if v, ok := m.known[t.ID]; ok {
			out[i] = v
		}
	}
	return out
}

func lastSexpr(s string) string {
	s = strings.TrimSpace(s)
	if !strings.HasSuffix(s, ")") {
		i := strings.LastIndexAny(s, " \t")
		return s[i+1:]
	}
	d := 0
	for i := len(s) - 1; i >= 0; i-- {
		if s[i] == ')' {
			d++
		} else if s[i] == '(' {
			d--
			if d == 0 {
				return s[i:]
			}
		}
	}
	return s
}

func (m *modeler) typ(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string {
		if p == m.self || p.Path() == m.self.Path() {
			return ""
		}
		if a, ok := m.imps[p.Path()]; ok {
			return a
		}
		a := fmt.Sprintf("p%d", len(m.imps))
		m.imps[p.Path()] = a
		return a
	})
}

func (m *modeler) zeroLit(t types.Type) string {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature, *types.Slice, *types.Interface:
		return "nil"
	}
	return "*new(" + m.typ(t) + ")"
}

func (m *modeler) lit(v Val, t types.Type, depth int) string {
	x := m.x
	if depth > 8 {
		return m.zeroLit(t)
	}
	if isTime(t) {
		r := m.eval([]*Term{v.(*Term)})[0].rat
		q, rem := new(big.Int).DivMod(r.Num(), nsPerSec, new(big.Int))
		tp := m.typ(t)
		pk := tp[:strings.LastIndex(tp, ".")]
		return fmt.Sprintf("%s.Unix(%s, %s)", pk, q, rem)
	}
	if isGhostVal(t) {
		panic(modelFail{"ghost input"})
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		e := m.eval([]*Term{v.(*Term)})[0]
		switch {
		case u.Info()&types.IsBoolean != 0:
			return fmt.Sprintf("%s(%v)", m.typ(t), e.b)
		case u.Info()&types.IsInteger != 0:
			return fmt.Sprintf("%s(%s)", m.typ(t), e.rat.Num())
		case u.Info()&types.IsString != 0:
			return fmt.Sprintf("%s(%s)", m.typ(t), strconv.Quote(ratStrDecode(e.rat)))
		case u.Info()&types.IsFloat != 0:
			if e.rat != nil {
				f, _ := e.rat.Float64()
				return fmt.Sprintf("%s(%v)", m.typ(t), strconv.FormatFloat(f, 'g', -1, 64))
			}
			m.imps["math"] = "math"
			return m.fpLit(e.raw, t)
		}
	case *types.Pointer:
		p := v.(Ptr)
		if p.Elem || len(p.Path) > 0 {
			panic(modelFail{"interior pointer"})
		}
		b := m.eval([]*Term{p.Base})[0]
		if b.rat == nil || b.rat.Sign() == 0 {
			return "nil"
		}
		el := u.Elem()
		key := x.e.structKey(el) + "@" + b.rat.RatString()
		if n, ok := m.objs[key]; ok {
			return n
		}
		m.n++
		name := fmt.Sprintf("o%d", m.n)
		m.objs[key] = name
		m.decls = append(m.decls, fmt.Sprintf("%s := new(%s)", name, m.typ(el)))
		if st, ok := el.Underlying().(*types.Struct); ok && !opaqueStruct(el) {
			pv := Ptr{Base: x.c.BigInt(b.rat.Num()), Root: el}
			// keep the symbolic base: entry heap terms are indexed by it
			pv.Base = p.Base
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				if f.Name() == "state" || f.Name() == "sizeCache" || f.Name() == "unknownFields" || f.Name() == "_" {
					continue
				}
				if !f.Exported() && f.Pkg() != m.self {
					continue
				}
				fp := pv
				fp.Path = []PathEl{{F: i}}
				if opaqueStruct(f.Type()) && len(x.e.comps(f.Type())) == 0 {
					continue
				}
				fv := x.load(m.st, fp)
				m.sync()
				l := m.lit(fv, f.Type(), depth+1)
				if l == m.zeroLit(f.Type()) || l == "nil" {
					continue
				}
				m.decls = append(m.decls, fmt.Sprintf("%s.%s = %s", name, f.Name(), l))
			}
		} else {
			fv := x.load(m.st, p)
			m.sync()
			m.decls = append(m.decls, fmt.Sprintf("*%s = %s", name, m.lit(fv, el, depth+1)))
		}
		return name
	case *types.Slice:
		s := v.(SliceV)
		e := m.eval([]*Term{s.Arr, s.Len, s.Cap})
		if e[0].rat.Sign() == 0 {
			return "nil"
		}
		n := e[1].rat.Num().Int64()
		if n > 40 {
			panic(modelFail{"slice too long"})
		}
		extra := new(big.Int).Sub(e[2].rat.Num(), e[1].rat.Num()).Int64()
		if extra > 4 {
			extra = 4
		}
		m.n++
		name := fmt.Sprintf("o%d", m.n)
		m.decls = append(m.decls, fmt.Sprintf("%s := make(%s, %d, %d)", name, m.typ(t), n, n+extra))
		for i := int64(0); i < n; i++ {
			ev := x.load(m.st, Ptr{Base: s.Arr, Root: u.Elem(), Elem: true, Idx: x.c.Add(s.Off, x.c.Int(i))})
			m.sync()
			m.decls = append(m.decls, fmt.Sprintf("%s[%d] = %s", name, i, m.lit(ev, u.Elem(), depth+1)))
		}
		return name
	case *types.Struct:
		sv, ok := v.(StructV)
		if !ok {
			return m.zeroLit(t)
		}
		var fs []string
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if !f.Exported() && f.Pkg() != m.self {
				continue
			}
			if len(x.e.comps(f.Type())) == 0 {
				continue
			}
			fs = append(fs, f.Name()+": "+m.lit(sv.F[i], f.Type(), depth+1))
		}
		return m.typ(t) + "{" + strings.Join(fs, ", ") + "}"
	case *types.Interface:
		iv := v.(IfaceV)
		if iv.Dyn == nil {
			e := m.eval([]*Term{iv.Tag})[0]
			if e.rat.Sign() == 0 {
				return "nil"
			}
			dt := x.e.tagType(e.rat.Num().Int64())
			if dt == nil || isSynth(dt) {
				panic(modelFail{"interface of unknown dynamic type"})
			}
			return m.lit(x.unbox(x.ifacePay(iv), dt), dt, depth+1)
		}
		return m.lit(iv.V, iv.Dyn, depth+1)
	case *types.Map:
		e := m.eval([]*Term{v.(*Term)})[0]
		if e.rat.Sign() == 0 {
			return "nil"
		}
		return m.typ(t) + "{}"
	case *types.Signature:
		e := m.eval([]*Term{v.(*Term)})
		if e[0].rat != nil && e[0].rat.Sign() == 0 {
			return "nil"
		}
	}
	panic(modelFail{"input of type " + t.String()})
}

func (m *modeler) sync() {
	m.q = append(m.q, m.st.pc...)
	m.st.pc = nil
	m.st.isBr = nil
}

func (m *modeler) fpLit(raw string, t types.Type) string {
	bits := 64
	if isFloat32(t) {
		bits = 32
	}
	from := func(b uint64) string {
		if bits == 32 {
			return fmt.Sprintf("%s(math.Float32frombits(0x%x))", m.typ(t), b)
		}
		return fmt.Sprintf("%s(math.Float64frombits(0x%x))", m.typ(t), b)
	}
	sh := func(neg bool, exp, man uint64) uint64 {
		var b uint64
		if bits == 32 {
			b = exp<<23 | man
			if neg {
				b |= 1 << 31
			}
		} else {
			b = exp<<52 | man
			if neg {
				b |= 1 << 63
			}
		}
		return b
	}
	emax := uint64(2047)
	if bits == 32 {
		emax = 255
	}
	switch {
	case strings.Contains(raw, "NaN"):
		return from(sh(false, emax, 1))
	case strings.Contains(raw, "+oo"):
		return from(sh(false, emax, 0))
	case strings.Contains(raw, "-oo"):
		return from(sh(true, emax, 0))
	case strings.Contains(raw, "+zero"):
		return from(0)
	case strings.Contains(raw, "-zero"):
		return from(sh(true, 0, 0))
	}
	f := strings.Fields(strings.Trim(raw, "()"))
	if len(f) == 4 && f[0] == "fp" {
		p := func(s string) uint64 {
			if strings.HasPrefix(s, "#b") {
				v, _ := strconv.ParseUint(s[2:], 2, 64)
				return v
			}
			v, _ := strconv.ParseUint(strings.TrimPrefix(s, "#x"), 16, 64)
			return v
		}
		return from(sh(p(f[1]) == 1, p(f[2]), p(f[3])))
	}
	panic(modelFail{"float value " + raw})
}

// modelInputs renders the satisfying assignment of q as Go source for the contract's arguments.
func (x *Exec) modelInputs(st *State, q []*Term) (res any, lines []string) {
	defer func() {
		if r := recover(); r != nil {
			if f, ok := r.(modelFail); ok {
				lines = append(lines, "no concrete input: "+f.why)
				res = nil
				return
			}
			if f, ok := r.(unsupportedErr); ok {
				lines = append(lines, "no concrete input: "+f.msg)
				res = nil
				return
			}
			panic(r)
		}
	}()
	m := &modeler{x: x, q: append([]*Term{}, q...), known: map[int]mval{}, objs: map[string]string{}, imps: map[string]string{}, self: x.contract.Pkg.Pkg, t0: time.Now()}
	m.st = newState()
	m.st.heap = cpHeap(x.entryHeap)
	m.st.frames = []*Frame{{fn: x.contract.Fn}}
	var args []string
	for _, in := range x.inputs {
		args = append(args, m.lit(in.V, in.T, 0))
	}
	ri := &ReplayInput{Imports: m.imps, Decls: m.decls, Args: args}
	lines = append(append(lines, m.decls...), x.contract.Fn.Name()+"("+strings.Join(args, ", ")+")")
	return ri, lines
}
