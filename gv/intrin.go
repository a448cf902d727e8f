package main

import (
	"fmt"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

type Site struct {
	fn  *ssa.Function
	cc  *ssa.CallCommon
	dst ssa.Value
}

type intrinsic func(x *Exec, st *State, s *Site, a []Val) Val

const gvp = "github.com/smart-core-os/sc-golang/internal/gv."

var intrinsics map[string]intrinsic
var imethods map[string]func(x *Exec, st *State, cc *ssa.CallCommon, a []Val) Val

func unit() Val { return TupleV{} }

// evalPure evaluates a call for its value only, merging all its paths. Heap effects are discarded.
func (x *Exec) evalPure(st *State, fv FuncV, args []Val, rt types.Type) (Val, []*Term) {
	s := st.clone()
	s.endStep()
	s.noSched, s.parked = true, nil
	depth := len(s.frames)
	x.pushFrame(s, nil, fv, args)
	s.top().onRet = func(st *State, v Val) { jset(st, st.ghost, (*State).mGhost, "$pure", v) }
	type res struct {
		cond *Term
		ts   []*Term
	}
	var rs []res
	var factsOut []*Term
	base := len(st.pc)
	nw := len(x.work)
	x.runAll(s, depth, func(e *State) {
		cond := x.c.T
		var fs []*Term
		for i := base; i < len(e.pc); i++ {
			if e.isBr[i] {
				cond = x.c.And(cond, e.pc[i])
			} else {
				fs = append(fs, e.pc[i])
			}
		}
		factsOut = append(factsOut, x.c.Implies(cond, x.c.And(fs...)))
		rs = append(rs, res{cond, x.flatten(e.ghost["$pure"], rt)})
	})
	if len(x.work) != nw {
		panic("work stack")
	}
	if len(rs) == 0 {
		return nil, nil
	}
	out := rs[len(rs)-1].ts
	for i := len(rs) - 2; i >= 0; i-- {
		var n []*Term
		for k := range out {
			n = append(n, x.c.Ite(rs[i].cond, rs[i].ts[k], out[k]))
		}
		out = n
	}
	return x.unflatten(out, rt), factsOut
}

func (x *Exec) quantInt(st *State, a []Val, all bool) Val {
	c := x.c
	lo, hi := a[0].(*Term), a[1].(*Term)
	lo, hi = x.deep(st, lo), x.deep(st, hi)
	l, ok1 := lo.IntVal()
	h, ok2 := hi.IntVal()
	fv := a[2].(FuncV)
	if ok1 && ok2 && h-l <= 8 {
		r := c.Bool(all)
		for i := l; i < h; i++ {
			s := st.clone()
			v, fs := x.evalPure(s, fv, []Val{c.Int(i)}, types.Typ[types.Bool])
			if v == nil {
				continue
			}
			for _, f := range fs {
				x.assume(st, f)
			}
			if all {
				r = c.And(r, v.(*Term))
			} else {
				r = c.Or(r, v.(*Term))
			}
		}
		return r
	}
	k := c.Fresh("q", IntS)
	k.Lo, k.Hi = lo.Lo, nil
	if hi.Hi != nil {
		k.Hi = new(big.Int).Sub(hi.Hi, big.NewInt(1))
	}
	s := st.clone()
	x.assume(s, c.Le(lo, k))
	x.assume(s, c.Lt(k, hi))
	if x.feasible(s) == Unsat {
		return c.Bool(all)
	}
	v, fs := x.evalPure(s, fv, []Val{k}, types.Typ[types.Bool])
	b := c.BVar("i", IntS)
	m := map[int]*Term{k.ID: b}
	rng := c.And(c.Le(lo, b), c.Lt(b, hi)) // over b: the simplifier would drop bounds implied by the range of k
	if v == nil {
		return c.Bool(all)
	}
	fact := c.T
	_ = fs
	body := v.(*Term)
	if all {
		return c.Forall([]*Term{b}, c.Subst(c.Implies(c.And(rng, fact), body), m))
	}
	return c.Exists([]*Term{b}, c.Subst(c.And(rng, body), m))
}

func init() {
	intrinsics = map[string]intrinsic{
		gvp + "Requires": func(x *Exec, st *State, s *Site, a []Val) Val {
			t := a[0].(*Term)
			if st.top().entry["$summary"] != nil {
				x.oblige(st, "pre", "precondition of "+x.vf.forName(st.top().fn), t)
				return unit()
			}
			x.assume(st, t)
			if x.feasible(st) == Unsat {
				st.dead = true
			}
			return unit()
		},
		gvp + "Assume": func(x *Exec, st *State, s *Site, a []Val) Val {
			x.assume(st, a[0].(*Term))
			if x.feasible(st) == Unsat {
				st.dead = true
			}
			return unit()
		},
		gvp + "Ensures": ensures,
		gvp + "Assert":  ensures,
		gvp + "Implies": func(x *Exec, st *State, s *Site, a []Val) Val {
			return x.c.Implies(a[0].(*Term), a[1].(*Term))
		},
		gvp + "Iff": func(x *Exec, st *State, s *Site, a []Val) Val {
			return x.c.Eq(a[0].(*Term), a[1].(*Term))
		},
		gvp + "And": func(x *Exec, st *State, s *Site, a []Val) Val {
			return x.c.And(x.boolSlice(st, a[0].(SliceV))...)
		},
		gvp + "Or": func(x *Exec, st *State, s *Site, a []Val) Val {
			return x.c.Or(x.boolSlice(st, a[0].(SliceV))...)
		},
		gvp + "Forall": func(x *Exec, st *State, s *Site, a []Val) Val { return x.quantInt(st, a, true) },
		gvp + "Exists": func(x *Exec, st *State, s *Site, a []Val) Val { return x.quantInt(st, a, false) },
		gvp + "Pure": func(x *Exec, st *State, s *Site, a []Val) Val {
			rt := s.fn.Signature.Results().At(0).Type()
			v, fs := x.evalPure(st, a[0].(FuncV), nil, rt)
			if v == nil {
				st.dead = true
				return nil
			}
			for _, f := range fs {
				x.assume(st, f)
			}
			return v
		},
		gvp + "Any": func(x *Exec, st *State, s *Site, a []Val) Val {
			n, _ := goStr(a[0].(*Term))
			rt := s.fn.Signature.Results().At(0).Type()
			v := x.havocVal(st, n, rt)
			return v
		},
		gvp + "Bound": func(x *Exec, st *State, s *Site, a []Val) Val {
			n, _ := goStr(a[0].(*Term))
			v := a[1].(*Term)
			max, _ := a[2].(*Term).IntVal()
			note := fmt.Sprintf("%s <= %d", n, max)
			x.noteBound(note)
			if _, ok := v.IntVal(); ok {
				return unit()
			}
			for k := int64(0); k < max; k++ {
				if x.branch(st, x.c.Eq(v, x.c.Int(k))) {
					return unit()
				}
			}
			x.assume(st, x.c.Eq(v, x.c.Int(max)))
			if x.feasible(st) == Unsat {
				st.dead = true
			}
			return unit()
		},
		gvp + "Freeze": func(x *Exec, st *State, s *Site, a []Val) Val {
			st.marks = append(st.marks, mark{cpHeap(st.heap), x.allocN})
			return StructV{T: s.fn.Signature.Results().At(0).Type(), F: []Val{x.c.Int(int64(len(st.marks) - 1))}}
		},
		"(" + gvp + "Frozen).Unchanged": func(x *Exec, st *State, s *Site, a []Val) Val {
			k, _ := a[0].(StructV).F[0].(*Term).IntVal()
			return x.unchanged(st, st.marks[k])
		},
		gvp + "Fresh": func(x *Exec, st *State, s *Site, a []Val) Val {
			i := a[0].(IfaceV)
			k, _ := a[1].(StructV).F[0].(*Term).IntVal()
			m := st.marks[k]
			var r *Term
			switch v := i.V.(type) {
			case SliceV:
				r = v.Arr
			case Ptr:
				r = v.Base
			default:
				r = x.ifacePay(i)
			}
			return x.c.Lt(r, x.c.Int(-m.alloc))
		},
		gvp + "Reach": func(x *Exec, st *State, s *Site, a []Val) Val {
			n, _ := goStr(a[0].(*Term))
			if x.quiet == 0 && !x.reached[n] && x.feasible(st) == Sat {
				x.reached[n] = true
			}
			x.mustReach[n] = true
			return unit()
		},
	}
	for k, v := range stdIntrinsics() {
		intrinsics[k] = v
	}
	for k, v := range protoIntrinsics() {
		intrinsics[k] = v
	}
	for k, v := range reflIntrinsics() {
		intrinsics[k] = v
	}
	for k, v := range concIntrinsics() {
		intrinsics[k] = v
	}
}

func (x *Exec) noteBound(n string) {
	for _, b := range x.bounded {
		if b == n {
			return
		}
	}
	x.bounded = append(x.bounded, n)
}

func (x *Exec) boolSlice(st *State, s SliceV) []*Term {
	n, ok := s.Len.IntVal()
	if !ok {
		panic(unsupported("gv.And/Or of symbolic length"))
	}
	var out []*Term
	for i := int64(0); i < n; i++ {
		out = append(out, x.load(st, Ptr{Base: s.Arr, Root: types.Typ[types.Bool], Elem: true, Idx: x.c.Add(s.Off, x.c.Int(i))}).(*Term))
	}
	return out
}

func ensures(x *Exec, st *State, s *Site, a []Val) Val {
	n, _ := goStr(a[0].(*Term))
	t := a[1].(*Term)
	if st.top().entry["$summary"] != nil {
		x.assume(st, t)
		if x.feasible(st) == Unsat {
			st.dead = true
		}
		return unit()
	}
	x.oblige(st, "post", n, t)
	return unit()
}

// unchanged: no object allocated before the mark was written since
func (x *Exec) unchanged(st *State, m mark) *Term {
	c := x.c
	r := c.T
	for k, h := range st.heap {
		old, ok := m.heap[k]
		if !ok {
			old = x.h0[k]
			if old == nil {
				continue
			}
		}
		if old == h {
			continue
		}
		if len(k) > 6 && k[:6] == "ghost:" {
			continue
		}
		// walk the store chain
		cur := h
		okSyn := true
		var bases []*Term
		for cur != old {
			if cur.Op != "store" {
				okSyn = false
				break
			}
			b := cur.Args[1]
			if b.Hi != nil && b.Hi.Cmp(big.NewInt(-m.alloc)) < 0 {
				cur = cur.Args[0]
				continue
			}
			bases = append(bases, b)
			cur = cur.Args[0]
		}
		if okSyn {
			for _, b := range bases {
				r = c.And(r, c.Or(c.Lt(b, c.Int(-m.alloc)), x.arrEqSel(h, old, b)))
			}
			continue
		}
		sk := c.Fresh("frame", IntS)
		sk.Lo = big.NewInt(-m.alloc)
		r = c.And(r, x.arrEqSel(h, old, sk))
	}
	return r
}

func (x *Exec) arrEqSel(a, b, i *Term) *Term {
	p, q := x.c.Select(a, i), x.c.Select(b, i)
	return x.c.Eq(p, q)
}
