package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// ---- sorts

type SK int

const (
	SBool SK = iota
	SInt
	SReal
	SArr
	SUn
	SFP
)

type Sort struct {
	K    SK
	A, B *Sort
	Name string
}

var (
	BoolS = &Sort{K: SBool, Name: "Bool"}
	IntS  = &Sort{K: SInt, Name: "Int"}
	RealS = &Sort{K: SReal, Name: "Real"}
	FP64S = &Sort{K: SFP, Name: "(_ FloatingPoint 11 53)"}
	FP32S = &Sort{K: SFP, Name: "(_ FloatingPoint 8 24)"}
	MsgS  = &Sort{K: SUn, Name: "MsgVal"}
)

var arrSorts = map[[2]*Sort]*Sort{}

func init() {
	// pre-intern the array sorts in use so that the table is read-only while workers run
	for _, k := range []*Sort{IntS, RealS, BoolS, MsgS, FP64S, FP32S} {
		for _, v := range []*Sort{IntS, RealS, BoolS, MsgS, FP64S, FP32S} {
			a := mkArr(k, v)
			for _, k2 := range []*Sort{IntS, RealS, BoolS, MsgS, FP64S, FP32S} {
				b := mkArr(k2, a)
				mkArr(IntS, b)
			}
		}
	}
}

func mkArr(a, b *Sort) *Sort {
	if s, ok := arrSorts[[2]*Sort{a, b}]; ok {
		return s
	}
	s := &Sort{K: SArr, A: a, B: b, Name: "(Array " + a.Name + " " + b.Name + ")"}
	arrSorts[[2]*Sort{a, b}] = s
	return s
}

// ArrS returns the (interned) array sort.
func ArrS(a, b *Sort) *Sort {
	if s, ok := arrSorts[[2]*Sort{a, b}]; ok {
		return s
	}
	panic(unsupported("array sort " + a.Name + " -> " + b.Name))
}

// ---- terms

type Term struct {
	Op   string // const var bvar app + * div mod <= = not and or ite select store forall exists ...
	Name string
	Args []*Term
	S    *Sort
	ID   int
	Rat  *big.Rat // numeric constants
	Lo   *big.Int // known interval (ints; for arrays: of the innermost elements)
	Hi   *big.Int
	Bnd  bool // contains a bound variable
	Pat  []*Term
}

type Ctx struct {
	tab   map[string]*Term
	next  int
	fresh int
	T, F  *Term
	funs  map[string]string // uninterpreted function declarations
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[string]*Term{}, funs: map[string]string{}}
	c.T = c.mk(&Term{Op: "true", S: BoolS})
	c.F = c.mk(&Term{Op: "false", S: BoolS})
	return c
}

func (c *Ctx) mk(t *Term) *Term {
	var sb strings.Builder
	sb.WriteString(t.Op)
	sb.WriteByte('|')
	sb.WriteString(t.Name)
	sb.WriteByte('|')
	if t.Rat != nil {
		sb.WriteString(t.Rat.String())
	}
	sb.WriteByte('|')
	if t.Op == "const" || t.Op == "var" || t.Op == "bvar" || t.Op == "constarr" {
		sb.WriteString(t.S.Name)
	}
	for _, a := range t.Args {
		fmt.Fprintf(&sb, ",%d", a.ID)
	}
	k := sb.String()
	if o, ok := c.tab[k]; ok {
		return o
	}
	c.next++
	t.ID = c.next
	if t.Op == "bvar" {
		t.Bnd = true
	}
	for _, a := range t.Args {
		if a.Bnd {
			t.Bnd = true
		}
	}
	c.tab[k] = t
	return t
}

func (t *Term) IsConst() bool { return t.Op == "const" }
func (t *Term) IsTrue() bool  { return t.Op == "true" }
func (t *Term) IsFalse() bool { return t.Op == "false" }
func (t *Term) IntVal() (int64, bool) {
	if t.Op == "const" && t.S == IntS && t.Rat.IsInt() && t.Rat.Num().IsInt64() {
		return t.Rat.Num().Int64(), true
	}
	return 0, false
}

func (c *Ctx) Int(i int64) *Term { return c.BigInt(big.NewInt(i)) }
func (c *Ctx) BigInt(i *big.Int) *Term {
	return c.mk(&Term{Op: "const", S: IntS, Rat: new(big.Rat).SetInt(i), Lo: i, Hi: i})
}
func (c *Ctx) RealC(r *big.Rat) *Term { return c.mk(&Term{Op: "const", S: RealS, Rat: r}) }
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.T
	}
	return c.F
}
func (c *Ctx) Var(name string, s *Sort) *Term { return c.mk(&Term{Op: "var", Name: name, S: s}) }
func (c *Ctx) Fresh(prefix string, s *Sort) *Term {
	c.fresh++
	return c.Var(fmt.Sprintf("%s!%d", clean(prefix), c.fresh), s)
}
func (c *Ctx) FreshRange(prefix string, lo, hi *big.Int) *Term {
	t := c.Fresh(prefix, IntS)
	t.Lo, t.Hi = lo, hi
	return t
}
func (c *Ctx) BVar(prefix string, s *Sort) *Term {
	c.fresh++
	return c.mk(&Term{Op: "bvar", Name: fmt.Sprintf("%s?%d", clean(prefix), c.fresh), S: s})
}

func clean(s string) string {
	var sb strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' || r == '-' {
			sb.WriteRune(r)
		} else {
			sb.WriteByte('_')
		}
	}
	return sb.String()
}

func (c *Ctx) App(name string, s *Sort, args ...*Term) *Term {
	name = clean(name)
	if _, ok := c.funs[name]; !ok {
		var as []string
		for _, a := range args {
			as = append(as, a.S.Name)
		}
		c.funs[name] = fmt.Sprintf("(declare-fun |%s| (%s) %s)", name, strings.Join(as, " "), s.Name)
	}
	return c.mk(&Term{Op: "app", Name: name, S: s, Args: args})
}

// ---- boolean

func (c *Ctx) Not(a *Term) *Term {
	switch a.Op {
	case "true":
		return c.F
	case "false":
		return c.T
	case "not":
		return a.Args[0]
	}
	return c.mk(&Term{Op: "not", S: BoolS, Args: []*Term{a}})
}

func (c *Ctx) And(ts ...*Term) *Term { return c.nary("and", c.T, c.F, ts) }
func (c *Ctx) Or(ts ...*Term) *Term  { return c.nary("or", c.F, c.T, ts) }
func (c *Ctx) Implies(a, b *Term) *Term {
	return c.Or(c.Not(a), b)
}

func (c *Ctx) nary(op string, unit, zero *Term, ts []*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == unit {
			return true
		}
		if t == zero {
			return false
		}
		if t.Op == op {
			for _, a := range t.Args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[t.ID] {
			return true
		}
		if seen[c.Not(t).ID] {
			return false
		}
		seen[t.ID] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return zero
		}
	}
	switch len(out) {
	case 0:
		return unit
	case 1:
		return out[0]
	}
	return c.mk(&Term{Op: op, S: BoolS, Args: out})
}

func bmin(a, b *big.Int) *big.Int {
	if a == nil || b == nil {
		return nil
	}
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}
func bmax(a, b *big.Int) *big.Int {
	if a == nil || b == nil {
		return nil
	}
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}

func (c *Ctx) Ite(p, a, b *Term) *Term {
	if p.IsTrue() {
		return a
	}
	if p.IsFalse() {
		return b
	}
	if a == b {
		return a
	}
	if p.Op == "not" {
		return c.Ite(p.Args[0], b, a)
	}
	if a.S == BoolS {
		if a.IsTrue() {
			return c.Or(p, b)
		}
		if a.IsFalse() {
			return c.And(c.Not(p), b)
		}
		if b.IsTrue() {
			return c.Or(c.Not(p), a)
		}
		if b.IsFalse() {
			return c.And(p, a)
		}
	}
	if a.Op == "ite" && a.Args[0] == p {
		a = a.Args[1]
	}
	if b.Op == "ite" && b.Args[0] == p {
		b = b.Args[2]
	}
	if a == b {
		return a
	}
	if a.S != b.S {
		panic(fmt.Sprintf("ite sorts %s %s", a.S.Name, b.S.Name))
	}
	return c.mk(&Term{Op: "ite", S: a.S, Args: []*Term{p, a, b}, Lo: bmin(a.Lo, b.Lo), Hi: bmax(a.Hi, b.Hi)})
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		if a.S.K != SFP {
			return c.T
		}
	}
	if a.S != b.S {
		panic(unsupported(fmt.Sprintf("eq sorts %s %s", a.S.Name, b.S.Name)))
	}
	switch a.S.K {
	case SBool:
		if a.IsTrue() {
			return b
		}
		if b.IsTrue() {
			return a
		}
		if a.IsFalse() {
			return c.Not(b)
		}
		if b.IsFalse() {
			return c.Not(a)
		}
		if a == c.Not(b) {
			return c.F
		}
	case SInt, SReal:
		if a.IsConst() && b.IsConst() {
			return c.Bool(a.Rat.Cmp(b.Rat) == 0)
		}
		if a.S.K == SInt {
			if a.Lo != nil && b.Hi != nil && a.Lo.Cmp(b.Hi) > 0 || a.Hi != nil && b.Lo != nil && a.Hi.Cmp(b.Lo) < 0 {
				return c.F
			}
		}
		// ite distribution against constants
		if b.IsConst() && a.Op == "ite" && (a.Args[1].IsConst() || a.Args[2].IsConst()) {
			return c.Ite(a.Args[0], c.Eq(a.Args[1], b), c.Eq(a.Args[2], b))
		}
		if a.IsConst() && b.Op == "ite" && (b.Args[1].IsConst() || b.Args[2].IsConst()) {
			return c.Ite(b.Args[0], c.Eq(b.Args[1], a), c.Eq(b.Args[2], a))
		}
		if a.Op == "+" || b.Op == "+" || a.Op == "*" || b.Op == "*" {
			d := c.Sub(a, b)
			if d.IsConst() {
				return c.Bool(d.Rat.Sign() == 0)
			}
			if d.S == IntS && (d.Lo != nil && d.Lo.Sign() > 0 || d.Hi != nil && d.Hi.Sign() < 0) {
				return c.F
			}
		}
	case SArr:
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return c.mk(&Term{Op: "=", S: BoolS, Args: []*Term{a, b}})
}

// ---- arithmetic (linear normal form)

type linForm struct {
	coef map[int]*big.Rat
	at   map[int]*Term
	k    *big.Rat
}

func (c *Ctx) lin(t *Term, m *big.Rat, l *linForm) {
	switch {
	case t.IsConst():
		l.k.Add(l.k, new(big.Rat).Mul(t.Rat, m))
	case t.Op == "+":
		for _, a := range t.Args {
			c.lin(a, m, l)
		}
	case t.Op == "*" && t.Args[0].IsConst():
		c.lin(t.Args[1], new(big.Rat).Mul(m, t.Args[0].Rat), l)
	default:
		if o, ok := l.coef[t.ID]; ok {
			o.Add(o, m)
		} else {
			l.coef[t.ID] = new(big.Rat).Set(m)
			l.at[t.ID] = t
		}
	}
}

func (c *Ctx) fromLin(l *linForm, s *Sort) *Term {
	var ids []int
	for id, r := range l.coef {
		if r.Sign() != 0 {
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
	var args []*Term
	for _, id := range ids {
		r := l.coef[id]
		if r.Cmp(big.NewRat(1, 1)) == 0 {
			args = append(args, l.at[id])
		} else {
			k := c.mk(&Term{Op: "const", S: s, Rat: r})
			if s == IntS {
				k = c.BigInt(r.Num())
			}
			lo, hi := mulI(k.Lo, k.Hi, l.at[id].Lo, l.at[id].Hi)
			args = append(args, c.mk(&Term{Op: "*", S: s, Args: []*Term{k, l.at[id]}, Lo: lo, Hi: hi}))
		}
	}
	var kt *Term
	if s == IntS {
		kt = c.BigInt(new(big.Int).Set(l.k.Num()))
	} else {
		kt = c.RealC(l.k)
	}
	if len(args) == 0 {
		return kt
	}
	if l.k.Sign() != 0 {
		args = append(args, kt)
	}
	if len(args) == 1 {
		return args[0]
	}
	var lo, hi *big.Int
	if s == IntS {
		lo, hi = new(big.Int), new(big.Int)
		for _, a := range args {
			if lo != nil && a.Lo != nil {
				lo = new(big.Int).Add(lo, a.Lo)
			} else {
				lo = nil
			}
			if hi != nil && a.Hi != nil {
				hi = new(big.Int).Add(hi, a.Hi)
			} else {
				hi = nil
			}
		}
	}
	return c.mk(&Term{Op: "+", S: s, Args: args, Lo: lo, Hi: hi})
}

func mulI(alo, ahi, blo, bhi *big.Int) (lo, hi *big.Int) {
	if alo == nil || ahi == nil || blo == nil || bhi == nil {
		// constant times half-open
		if alo != nil && alo == ahi || alo != nil && ahi != nil && alo.Cmp(ahi) == 0 {
			k := alo
			if k.Sign() >= 0 {
				if blo != nil {
					lo = new(big.Int).Mul(k, blo)
				}
				if bhi != nil {
					hi = new(big.Int).Mul(k, bhi)
				}
			} else {
				if bhi != nil {
					lo = new(big.Int).Mul(k, bhi)
				}
				if blo != nil {
					hi = new(big.Int).Mul(k, blo)
				}
			}
		}
		return
	}
	for i, x := range []*big.Int{alo, ahi} {
		for j, y := range []*big.Int{blo, bhi} {
			p := new(big.Int).Mul(x, y)
			if i == 0 && j == 0 {
				lo, hi = p, p
			} else {
				if p.Cmp(lo) < 0 {
					lo = p
				}
				if p.Cmp(hi) > 0 {
					hi = p
				}
			}
		}
	}
	return
}

func (c *Ctx) linOf(t *Term, m int64) *linForm {
	l := &linForm{coef: map[int]*big.Rat{}, at: map[int]*Term{}, k: new(big.Rat)}
	c.lin(t, big.NewRat(m, 1), l)
	return l
}

func (c *Ctx) Add(a, b *Term) *Term {
	if a.IsConst() && a.Rat.Sign() == 0 {
		return b
	}
	if b.IsConst() && b.Rat.Sign() == 0 {
		return a
	}
	l := c.linOf(a, 1)
	c.lin(b, big.NewRat(1, 1), l)
	return c.fromLin(l, a.S)
}
func (c *Ctx) Sub(a, b *Term) *Term {
	l := c.linOf(a, 1)
	c.lin(b, big.NewRat(-1, 1), l)
	return c.fromLin(l, a.S)
}
func (c *Ctx) Neg(a *Term) *Term { return c.fromLin(c.linOf(a, -1), a.S) }
func (c *Ctx) Mul(a, b *Term) *Term {
	if b.IsConst() {
		a, b = b, a
	}
	if a.IsConst() {
		l := &linForm{coef: map[int]*big.Rat{}, at: map[int]*Term{}, k: new(big.Rat)}
		c.lin(b, a.Rat, l)
		return c.fromLin(l, a.S)
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	lo, hi := mulI(a.Lo, a.Hi, b.Lo, b.Hi)
	return c.mk(&Term{Op: "nl*", S: a.S, Args: []*Term{a, b}, Lo: lo, Hi: hi})
}

// Div is Euclidean (SMT-LIB) division.
func (c *Ctx) Div(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() && b.Rat.Sign() != 0 {
		q, _ := euclid(a.Rat.Num(), b.Rat.Num())
		return c.BigInt(q)
	}
	if b.IsConst() && b.Rat.Cmp(big.NewRat(1, 1)) == 0 {
		return a
	}
	var lo, hi *big.Int
	if b.IsConst() && b.Rat.Sign() > 0 {
		// div(k*x + r*, k): split when every coefficient is divisible
		if q := c.divLin(a, b.Rat.Num()); q != nil {
			return q
		}
		if a.Lo != nil {
			lo, _ = euclid(a.Lo, b.Rat.Num())
		}
		if a.Hi != nil {
			hi, _ = euclid(a.Hi, b.Rat.Num())
		}
	}
	return c.mk(&Term{Op: "div", S: IntS, Args: []*Term{a, b}, Lo: lo, Hi: hi})
}

// divLin: a = k*q + r with r a term of interval within [0,k)
func (c *Ctx) splitLin(a *Term, k *big.Int) (q, r *Term) {
	l := c.linOf(a, 1)
	ql := &linForm{coef: map[int]*big.Rat{}, at: l.at, k: new(big.Rat)}
	rl := &linForm{coef: map[int]*big.Rat{}, at: l.at, k: new(big.Rat)}
	kr := new(big.Rat).SetInt(k)
	any := false
	for id, co := range l.coef {
		d := new(big.Rat).Quo(co, kr)
		if d.IsInt() && co.Sign() != 0 {
			ql.coef[id] = d
			any = true
		} else {
			rl.coef[id] = co
		}
	}
	if !any {
		return nil, nil
	}
	qk, rk := euclid(l.k.Num(), k)
	ql.k.SetInt(qk)
	rl.k.SetInt(rk)
	return c.fromLin(ql, IntS), c.fromLin(rl, IntS)
}

func (c *Ctx) divLin(a *Term, k *big.Int) *Term {
	q, r := c.splitLin(a, k)
	if q == nil {
		return nil
	}
	if r.Lo != nil && r.Hi != nil && r.Lo.Sign() >= 0 && r.Hi.Cmp(k) < 0 {
		return q
	}
	return c.Add(q, c.Div(r, c.BigInt(k)))
}

func euclid(a, b *big.Int) (q, r *big.Int) {
	q, r = new(big.Int), new(big.Int)
	q.DivMod(a, b, r)
	return
}

func (c *Ctx) Mod(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() && b.Rat.Sign() != 0 {
		_, r := euclid(a.Rat.Num(), b.Rat.Num())
		return c.BigInt(r)
	}
	var lo, hi *big.Int
	if b.IsConst() && b.Rat.Sign() > 0 {
		if q, r := c.splitLin(a, b.Rat.Num()); q != nil {
			return c.Mod(r, b)
		}
		if a.Lo != nil && a.Hi != nil && a.Lo.Sign() >= 0 && a.Hi.Cmp(b.Rat.Num()) < 0 {
			return a
		}
		lo = big.NewInt(0)
		hi = new(big.Int).Sub(b.Rat.Num(), big.NewInt(1))
	}
	return c.mk(&Term{Op: "mod", S: IntS, Args: []*Term{a, b}, Lo: lo, Hi: hi})
}

func (c *Ctx) RDiv(a, b *Term) *Term {
	if b.IsConst() && b.Rat.Sign() != 0 {
		return c.Mul(c.RealC(new(big.Rat).Inv(b.Rat)), a)
	}
	return c.mk(&Term{Op: "/", S: RealS, Args: []*Term{a, b}})
}

func (c *Ctx) ToReal(a *Term) *Term {
	if a.S == RealS {
		return a
	}
	if a.IsConst() {
		return c.RealC(a.Rat)
	}
	return c.mk(&Term{Op: "to_real", S: RealS, Args: []*Term{a}})
}
func (c *Ctx) ToInt(a *Term) *Term { // floor
	if a.Op == "to_real" {
		return a.Args[0]
	}
	if a.IsConst() {
		q, _ := euclid(a.Rat.Num(), a.Rat.Denom())
		return c.BigInt(q)
	}
	return c.mk(&Term{Op: "to_int", S: IntS, Args: []*Term{a}})
}

func (c *Ctx) Le(a, b *Term) *Term {
	d := c.Sub(a, b) // d <= 0
	if d.IsConst() {
		return c.Bool(d.Rat.Sign() <= 0)
	}
	if d.S == IntS {
		if d.Hi != nil && d.Hi.Sign() <= 0 {
			return c.T
		}
		if d.Lo != nil && d.Lo.Sign() > 0 {
			return c.F
		}
	}
	return c.mk(&Term{Op: "<=", S: BoolS, Args: []*Term{a, b}})
}
func (c *Ctx) Lt(a, b *Term) *Term { return c.Not(c.Le(b, a)) }

// ---- arrays

func (c *Ctx) Select(a, i *Term) *Term {
	if a.S.K != SArr {
		panic("select on " + a.S.Name)
	}
	for {
		switch a.Op {
		case "store":
			e := c.Eq(a.Args[1], i)
			if e.IsTrue() {
				return a.Args[2]
			}
			if e.IsFalse() {
				a = a.Args[0]
				continue
			}
		case "constarr":
			return a.Args[0]
		case "ite":
			return c.Ite(a.Args[0], c.Select(a.Args[1], i), c.Select(a.Args[2], i))
		}
		break
	}
	if i.Op == "ite" && a.Op == "store" {
		return c.Ite(i.Args[0], c.Select(a, i.Args[1]), c.Select(a, i.Args[2]))
	}
	if i.Op == "ite" && (i.Args[1].IsConst() || i.Args[2].IsConst()) {
		return c.Ite(i.Args[0], c.Select(a, i.Args[1]), c.Select(a, i.Args[2]))
	}
	return c.mk(&Term{Op: "select", S: a.S.B, Args: []*Term{a, i}, Lo: a.Lo, Hi: a.Hi})
}

func (c *Ctx) Store(a, i, v *Term) *Term {
	if a.S.B != v.S || a.S.A != i.S {
		panic(unsupported(fmt.Sprintf("store %s [%s] := %s", a.S.Name, i.S.Name, v.S.Name)))
	}
	if a.Op == "store" && a.Args[1] == i {
		a = a.Args[0]
	}
	return c.mk(&Term{Op: "store", S: a.S, Args: []*Term{a, i, v}, Lo: bmin(a.Lo, v.Lo), Hi: bmax(a.Hi, v.Hi)})
}

func (c *Ctx) ConstArr(s *Sort, v *Term) *Term {
	return c.mk(&Term{Op: "constarr", S: s, Args: []*Term{v}, Lo: v.Lo, Hi: v.Hi})
}

// ---- quantifiers

func (c *Ctx) Forall(vs []*Term, body *Term, pats ...*Term) *Term {
	return c.quant("forall", vs, body, pats)
}
func (c *Ctx) Exists(vs []*Term, body *Term) *Term { return c.quant("exists", vs, body, nil) }
func (c *Ctx) quant(op string, vs []*Term, body *Term, pats []*Term) *Term {
	if body.IsTrue() || body.IsFalse() {
		return body
	}
	fv := map[int]*Term{}
	freeBVars(body, fv, map[int]bool{})
	any := false
	var used []*Term
	for _, v := range vs {
		if fv[v.ID] != nil {
			any = true
			used = append(used, v)
		}
	}
	if !any {
		return body
	}
	args := append(append([]*Term{}, used...), body)
	t := c.mk(&Term{Op: op, S: BoolS, Args: args, Pat: pats})
	// a quantified term is closed if no other bound variables are free
	t.Bnd = len(fv) > len(used)
	return t
}

func freeBVars(t *Term, out map[int]*Term, seen map[int]bool) {
	if !t.Bnd && t.Op != "bvar" {
		return
	}
	if seen[t.ID] {
		return
	}
	seen[t.ID] = true
	if t.Op == "bvar" {
		out[t.ID] = t
		return
	}
	if t.Op == "forall" || t.Op == "exists" {
		n := len(t.Args) - 1
		inner := map[int]*Term{}
		freeBVars(t.Args[n], inner, map[int]bool{})
		for _, v := range t.Args[:n] {
			delete(inner, v.ID)
		}
		for k, v := range inner {
			out[k] = v
		}
		return
	}
	for _, a := range t.Args {
		freeBVars(a, out, seen)
	}
}

// Subst replaces terms (by identity) bottom-up, re-simplifying.
func (c *Ctx) Subst(t *Term, m map[int]*Term) *Term {
	return c.subst(t, m, map[int]*Term{})
}
func (c *Ctx) subst(t *Term, m map[int]*Term, memo map[int]*Term) *Term {
	if r, ok := m[t.ID]; ok {
		return r
	}
	if len(t.Args) == 0 {
		return t
	}
	if r, ok := memo[t.ID]; ok {
		return r
	}
	args := make([]*Term, len(t.Args))
	ch := false
	for i, a := range t.Args {
		args[i] = c.subst(a, m, memo)
		if args[i] != a {
			ch = true
		}
	}
	r := t
	if ch {
		r = c.rebuild(t, args)
	}
	memo[t.ID] = r
	return r
}

func (c *Ctx) rebuild(t *Term, args []*Term) *Term {
	switch t.Op {
	case "not":
		return c.Not(args[0])
	case "and":
		return c.And(args...)
	case "or":
		return c.Or(args...)
	case "ite":
		return c.Ite(args[0], args[1], args[2])
	case "=":
		return c.Eq(args[0], args[1])
	case "<=":
		return c.Le(args[0], args[1])
	case "+":
		r := args[0]
		for _, a := range args[1:] {
			r = c.Add(r, a)
		}
		return r
	case "*", "nl*":
		return c.Mul(args[0], args[1])
	case "div":
		return c.Div(args[0], args[1])
	case "mod":
		return c.Mod(args[0], args[1])
	case "/":
		return c.RDiv(args[0], args[1])
	case "to_real":
		return c.ToReal(args[0])
	case "to_int":
		return c.ToInt(args[0])
	case "select":
		return c.Select(args[0], args[1])
	case "store":
		return c.Store(args[0], args[1], args[2])
	case "constarr":
		return c.ConstArr(t.S, args[0])
	case "forall", "exists":
		n := len(args) - 1
		return c.quant(t.Op, args[:n], args[n], t.Pat)
	}
	return c.mk(&Term{Op: t.Op, Name: t.Name, S: t.S, Args: args, Rat: t.Rat})
}

func (t *Term) String() string { return printTerm(t, nil) }

func printTerm(t *Term, names map[int]string) string {
	var sb strings.Builder
	wr(&sb, t, names)
	return sb.String()
}

func ratStr(r *big.Rat, s *Sort) string {
	n := new(big.Int).Abs(r.Num()).String()
	var o string
	if s == IntS {
		o = n
	} else if r.IsInt() {
		o = n + ".0"
	} else {
		o = "(/ " + n + ".0 " + r.Denom().String() + ".0)"
	}
	if r.Sign() < 0 {
		o = "(- " + o + ")"
	}
	return o
}

func wr(sb *strings.Builder, t *Term, names map[int]string) {
	if n, ok := names[t.ID]; ok {
		sb.WriteString(n)
		return
	}
	wr1(sb, t, names)
}

func wr1(sb *strings.Builder, t *Term, names map[int]string) {
	switch t.Op {
	case "true", "false":
		sb.WriteString(t.Op)
	case "const":
		if t.S.K == SFP {
			sb.WriteString(t.Name)
			return
		}
		if t.S == MsgS {
			sb.WriteString(t.Name)
			return
		}
		sb.WriteString(ratStr(t.Rat, t.S))
	case "var", "bvar":
		sb.WriteString("|" + t.Name + "|")
	case "app":
		if len(t.Args) == 0 {
			sb.WriteString("|" + t.Name + "|")
			return
		}
		sb.WriteString("(|" + t.Name + "|")
		for _, a := range t.Args {
			sb.WriteByte(' ')
			wr(sb, a, names)
		}
		sb.WriteByte(')')
	case "constarr":
		sb.WriteString("((as const " + t.S.Name + ") ")
		wr(sb, t.Args[0], names)
		sb.WriteByte(')')
	case "forall", "exists":
		n := len(t.Args) - 1
		sb.WriteString("(" + t.Op + " (")
		for _, v := range t.Args[:n] {
			fmt.Fprintf(sb, "(|%s| %s)", v.Name, v.S.Name)
		}
		sb.WriteString(") ")
		if len(t.Pat) > 0 {
			sb.WriteString("(! ")
			wr(sb, t.Args[n], names)
			sb.WriteString(" :pattern (")
			for i, p := range t.Pat {
				if i > 0 {
					sb.WriteByte(' ')
				}
				wr(sb, p, names)
			}
			sb.WriteString("))")
		} else {
			wr(sb, t.Args[n], names)
		}
		sb.WriteByte(')')
	default:
		op := t.Op
		if op == "nl*" {
			op = "*"
		}
		sb.WriteString("(" + op)
		for _, a := range t.Args {
			sb.WriteByte(' ')
			wr(sb, a, names)
		}
		sb.WriteByte(')')
	}
}
