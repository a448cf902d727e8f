package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Eng holds per-contract type tables.
type Eng struct {
	prog       *ssa.Program
	compCache  map[types.Type][]comp
	structKeys map[*types.Struct]string
	tags       typeutil.Map
	tagTypes   []types.Type
	tagMu      sync.Mutex
	iptrMu     sync.Mutex
	fp         bool
	oneofs     map[*types.Named][]int64
}

// Obligation is one named proof obligation, aggregated over paths.
type Obligation struct {
	Contract string   `json:"contract"`
	Name     string   `json:"name"`
	Kind     string   `json:"kind"`
	Queries  int      `json:"queries"`
	Status   string   `json:"status"` // proved, failed, undecided
	Backend  []string `json:"backends"`
	Seconds  float64  `json:"seconds"`
	Detail   string   `json:"detail,omitempty"`
	Model    []string `json:"model,omitempty"`
	Inputs   any      `json:"inputs,omitempty"`
}

type Exec struct {
	c  *Ctx
	e  *Eng
	vf *Verifier

	inc     *incSolver
	partial bool
	iptr    map[int]Ptr
	grown   map[int]growth // capacities, by their term
	fnTab   []FuncV
	boxes   map[int][]*Term

	allocN             int64
	contract           *Contract
	obls               map[string]*Obligation
	order              []string
	bounded            []string
	steps              int
	paths              int
	ended              int // paths reaching the end of the contract
	maxSteps           int
	deadline           time.Time
	unroll             int
	regionN            int64
	feasMemo           map[string]SatRes
	inputs             []inputVar
	globals            map[*ssa.Global]Ptr
	gInit              map[*ssa.Package]bool
	trusted            map[string]bool
	inlined            map[string]bool
	used               map[string]bool // contracts used as callee summaries
	quiet              int             // >0 : obligations not recorded (trial runs)
	noSafety           int             // >0 : evaluating specification code
	trialFail          bool
	overNeeded         bool
	h0                 map[string]*Term
	entryHeap          map[string]*Term
	callDepth          int
	specDepth          int
	work               [][]*State
	unrollMap          int
	timeOf, durOf      map[[2]int]*Term
	reached, mustReach map[string]bool
	loops              map[*ssa.Function]*loopInfo
}

type inputVar struct {
	Name string
	T    types.Type
	V    Val
}

type Frame struct {
	fn      *ssa.Function
	block   *ssa.BasicBlock
	prev    *ssa.BasicBlock
	ip      int
	regs    map[ssa.Value]Val
	binds   []Val
	defers  []deferred
	dst     ssa.Value // register of the caller receiving the result
	iters   map[*ssa.BasicBlock]int
	ret     Val
	onRet   func(st *State, v Val) // native continuation
	spec    bool
	goexit  bool
	cutting map[*ssa.BasicBlock]bool
	entry   map[string]Val
}

type deferred struct {
	fn   Val
	args []Val
	call *ssa.CallCommon
}

type State struct {
	frames     []*Frame
	pc         []*Term
	nbranch    int
	isBr       []bool
	pcset      map[int]bool
	known      map[int]*Term
	heap       map[string]*Term
	locks      map[string]int
	threads    []*thread // the other goroutines
	chans      map[int64]*chanSt
	syncs      map[string]int64
	parked     *thread // set by an instruction that has to wait
	tid        int
	lastTid    int
	epoch      int // counts what others may wait for
	delays     int
	considered bool // schedules that depart here were explored
	inert      bool // the current goroutine only observes
	woken      bool // the current instruction waited for all others to wait, which they did
	noSched    bool
	hb         *hbState
	marks      []mark
	dead       bool
	deadWhy    string
	dec        []bool // decisions of the current instruction
	decI       int
	snap       *snapRec
	undo       []undoRec
	facted     map[int]bool
	ghost      map[string]Val
	written    map[string][]*Term // write log: heap key -> base refs (only when tracking)
	track      bool
	closedCh   map[int]bool
	stash      map[string]map[string]*Term
}

type mark struct {
	heap  map[string]*Term
	alloc int64
}

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

func (st *State) clone() *State {
	n := *st
	n.snap, n.undo = nil, nil
	n.hb = st.hb.clone()
	n.frames = make([]*Frame, len(st.frames))
	for i, f := range st.frames {
		g := *f
		g.regs = make(map[ssa.Value]Val, len(f.regs)+4)
		for k, v := range f.regs {
			g.regs[k] = v
		}
		g.defers = append([]deferred(nil), f.defers...)
		g.iters = map[*ssa.BasicBlock]int{}
		for k, v := range f.iters {
			g.iters[k] = v
		}
		g.cutting = map[*ssa.BasicBlock]bool{}
		for k, v := range f.cutting {
			g.cutting[k] = v
		}
		n.frames[i] = &g
	}
	n.pc = append([]*Term(nil), st.pc...)
	n.isBr = append([]bool(nil), st.isBr...)
	cp := func(m map[int]bool) map[int]bool {
		o := make(map[int]bool, len(m))
		for k, v := range m {
			o[k] = v
		}
		return o
	}
	n.pcset = cp(st.pcset)
	n.facted = cp(st.facted)
	n.closedCh = cp(st.closedCh)
	n.known = make(map[int]*Term, len(st.known))
	for k, v := range st.known {
		n.known[k] = v
	}
	n.heap = cpHeap(st.heap)
	n.locks = make(map[string]int, len(st.locks))
	for k, v := range st.locks {
		n.locks[k] = v
	}
	n.marks = append([]mark(nil), st.marks...)
	n.dec = append([]bool(nil), st.dec...)
	n.ghost = make(map[string]Val, len(st.ghost))
	for k, v := range st.ghost {
		n.ghost[k] = v
	}
	if st.written != nil {
		n.written = make(map[string][]*Term, len(st.written))
		for k, v := range st.written {
			n.written[k] = append([]*Term(nil), v...)
		}
	}
	n.stash = make(map[string]map[string]*Term, len(st.stash))
	for k, v := range st.stash {
		n.stash[k] = v
	}
	return &n
}

func cpHeap(h map[string]*Term) map[string]*Term {
	o := make(map[string]*Term, len(h)+4)
	for k, v := range h {
		o[k] = v
	}
	return o
}

func newState() *State {
	return &State{pcset: map[int]bool{}, facted: map[int]bool{}, closedCh: map[int]bool{}, known: map[int]*Term{}, heap: map[string]*Term{}, locks: map[string]int{}, ghost: map[string]Val{}, stash: map[string]map[string]*Term{}}
}

// ---- path condition

func (x *Exec) assume(st *State, t *Term) { x.addPC(st, t, false) }

func (x *Exec) addPC(st *State, t *Term, br bool) {
	if t.IsTrue() {
		return
	}
	if t.Op == "and" {
		for _, a := range t.Args {
			x.addPC(st, a, br)
		}
		return
	}
	if st.pcset[t.ID] {
		return
	}
	jset(st, st.pcset, (*State).mPcset, t.ID, true)
	st.pc = append(st.pc, t)
	st.isBr = append(st.isBr, br)
	if t.IsFalse() || st.pcset[x.c.Not(t).ID] {
		st.dead = true
		st.deadWhy = "contradiction"
		if os.Getenv("GV_DEAD") == "3" {
			for _, f := range st.frames {
				fmt.Fprintln(os.Stderr, "contra:", shortFn(f.fn), f.block.Instrs[min(f.ip, len(f.block.Instrs)-1)])
			}
		}
	}
	if t.Op == "=" {
		a, b := t.Args[0], t.Args[1]
		if a.IsConst() && !b.IsConst() {
			a, b = b, a
		}
		if b.IsConst() && !a.IsConst() {
			jset(st, st.known, (*State).mKnown, a.ID, b)
		}
	}
}

func (x *Exec) norm(st *State, t *Term) *Term {
	if k, ok := st.known[t.ID]; ok {
		return k
	}
	return t
}

func (x *Exec) facts(ts []*Term) []*Term {
	// interval facts of all variables, selects and applications occurring in ts
	var out []*Term
	seen := map[int]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t.ID] {
			return
		}
		seen[t.ID] = true
		for _, a := range t.Args {
			walk(a)
		}
		if t.Bnd {
			return
		}
		switch t.Op {
		case "var", "select", "app":
			if t.S == IntS {
				if t.Lo != nil {
					out = append(out, x.c.mk(&Term{Op: "<=", S: BoolS, Args: []*Term{x.c.BigInt(t.Lo), t}}))
				}
				if t.Hi != nil {
					out = append(out, x.c.mk(&Term{Op: "<=", S: BoolS, Args: []*Term{t, x.c.BigInt(t.Hi)}}))
				}
			}
			if t.S == RealS && t.Lo != nil {
				out = append(out, x.c.mk(&Term{Op: "<=", S: BoolS, Args: []*Term{x.c.RealC(new(big.Rat).SetInt(t.Lo)), t}}))
			}
			if t.Op == "app" && t.Name == "strlen" {
				out = append(out, x.c.Eq(x.c.Eq(t, x.c.Int(0)), x.c.Eq(t.Args[0], x.zeroTerm(RealS))))
			}
		}
	}
	for _, t := range ts {
		walk(t)
	}
	return out
}

func (x *Exec) query(st *State, extra ...*Term) []*Term {
	q := append(append([]*Term{}, st.pc...), extra...)
	return append(q, x.facts(q)...)
}

// relevant keeps only the assertions connected to the goal through shared symbols (sound for proving: fewer assumptions).
func (x *Exec) feasible(st *State, extra ...*Term) SatRes {
	for _, t := range extra {
		if t.IsFalse() || st.pcset[x.c.Not(t).ID] {
			return Unsat
		}
	}
	key := qkey(append(append([]*Term{}, st.pc...), extra...))
	if r, ok := x.feasMemo[key]; ok {
		return r
	}
	r := x.incCheck(st.pc, extra)
	x.feasMemo[key] = r
	return r
}

func (x *Exec) incCheck(pc, extra []*Term) SatRes {
	if x.inc == nil {
		x.inc = &incSolver{c: x.c, x: x}
	}
	return x.inc.check(pc, extra)
}

func qkey(q []*Term) string {
	ids := make([]int, len(q))
	for i, t := range q {
		ids[i] = t.ID
	}
	sort.Ints(ids)
	var sb strings.Builder
	last := -1
	for _, i := range ids {
		if i != last {
			fmt.Fprintf(&sb, "%d,", i)
		}
		last = i
	}
	return sb.String()
}

// provable: quick entailment check
func (x *Exec) provable(st *State, t *Term) bool {
	if t.IsTrue() || st.pcset[t.ID] {
		return true
	}
	if t.IsFalse() {
		return x.feasible(st) == Unsat
	}
	return x.feasible(st, x.c.Not(t)) == Unsat
}

// branch decides a condition, forking the path when both outcomes are feasible.
func (x *Exec) branch(st *State, cond *Term) bool {
	if cond.IsTrue() {
		return true
	}
	if cond.IsFalse() {
		return false
	}
	if st.pcset[cond.ID] {
		return true
	}
	nc := x.c.Not(cond)
	if st.pcset[nc.ID] {
		return false
	}
	if st.decI < len(st.dec) {
		d := st.dec[st.decI]
		st.decI++
		if d {
			x.addPC(st, cond, true)
		} else {
			x.addPC(st, nc, true)
		}
		return d
	}
	if cond.Bnd {
		// inside a quantifier body: no solver
	} else {
		if x.feasible(st, cond) == Unsat {
			x.decide(st, false)
			x.addPC(st, nc, true)
			return false
		}
		if x.feasible(st, nc) == Unsat {
			x.decide(st, true)
			x.addPC(st, cond, true)
			return true
		}
	}
	// fork: other side
	o := st.snapshot()
	o.dec = append(append([]bool{}, st.dec...), false)
	x.push(o)
	x.decide(st, true)
	x.addPC(st, cond, true)
	return true
}

func (x *Exec) decide(st *State, d bool) {
	st.dec = append(st.dec, d)
	st.decI = len(st.dec)
}

// nondet forks on an unconstrained choice.
func (x *Exec) nondet(st *State, name string) bool {
	if st.decI < len(st.dec) {
		d := st.dec[st.decI]
		st.decI++
		return d
	}
	o := st.snapshot()
	o.dec = append(append([]bool{}, st.dec...), false)
	x.push(o)
	x.decide(st, true)
	return true
}

func (x *Exec) push(st *State) { x.work[len(x.work)-1] = append(x.work[len(x.work)-1], st) }

// ---- heap access

func (x *Exec) h0var(key string, s *Sort, cm comp) *Term {
	if t, ok := x.h0[key]; ok {
		return t
	}
	t := x.c.Var("H0:"+key, s)
	x.setRange(t, cm)
	if cm.ref {
		t.Lo = big.NewInt(0)
		t.Hi = two(44)
	}
	x.h0[key] = t
	return t
}

func nestSort(s *Sort, dims int) *Sort {
	for i := 0; i < dims; i++ {
		s = ArrS(IntS, s)
	}
	return s
}

// loc computes the heap prefix, base and index chain of a pointer together with the type found there.
func (x *Exec) loc(p Ptr) (key string, idxs []*Term, t types.Type) {
	if p.Elem {
		key = x.e.elemKey(p.Root)
		if p.Idx != nil {
			idxs = append(idxs, p.Idx)
			t = p.Root
		} else {
			t = types.NewArray(p.Root, p.N)
		}
	} else {
		key = x.e.structKey(p.Root)
		t = p.Root
	}
	for _, q := range p.Path {
		if q.I == nil {
			st := t.Underlying().(*types.Struct)
			f := st.Field(q.F)
			key += "." + f.Name()
			t = f.Type()
		} else {
			key += "[]"
			idxs = append(idxs, q.I)
			t = t.Underlying().(*types.Array).Elem()
		}
	}
	return
}

func (x *Exec) heapGet(st *State, key string, s *Sort, cm comp) *Term {
	if h, ok := st.heap[key]; ok {
		return h
	}
	h := x.h0var(key, s, cm)
	jset(st, st.heap, (*State).mHeap, key, h)
	return h
}

func (x *Exec) load(st *State, p Ptr) Val {
	key, idxs, t := x.loc(p)
	ts := x.loadComps(st, key, p, idxs, t)
	v := x.unflatten(ts, t)
	if x.c != nil && !p.Base.Bnd {
		bound := false
		for _, tm := range ts {
			if tm.Bnd {
				bound = true
			}
		}
		if !bound {
			for _, f := range x.valFacts(v, t) {
				x.assume(st, f)
			}
		}
	}
	return v
}

func (x *Exec) loadComps(st *State, key string, p Ptr, idxs []*Term, t types.Type) []*Term {
	var ts []*Term
	whole := p.Elem && p.Idx == nil && len(p.Path) == 0
	et := t
	if whole {
		et = p.Root
	}
	for _, cm := range x.e.comps(et) {
		k := key + cm.suf
		dims := len(idxs)
		if whole {
			dims = 1
		}
		s := ArrS(IntS, nestSort(cm.s, dims))
		h := x.heapGet(st, k, s, cm)
		v := x.c.Select(h, p.Base)
		for _, i := range idxs {
			v = x.c.Select(v, i)
		}
		ts = append(ts, x.norm(st, v))
	}
	return ts
}

func (x *Exec) store(st *State, p Ptr, v Val) {
	key, idxs, t := x.loc(p)
	vs := x.flatten(v, t)
	x.storeComps(st, key, p, idxs, t, vs)
}

func (x *Exec) storeComps(st *State, key string, p Ptr, idxs []*Term, t types.Type, vs []*Term) {
	whole := p.Elem && p.Idx == nil && len(p.Path) == 0
	et := t
	if whole {
		et = p.Root
	}
	for n, cm := range x.e.comps(et) {
		k := key + cm.suf
		dims := len(idxs)
		if whole {
			dims = 1
		}
		s := ArrS(IntS, nestSort(cm.s, dims))
		h := x.heapGet(st, k, s, cm)
		x.setHeap(st, k, x.storeAt(h, append([]*Term{p.Base}, idxs...), vs[n]), p.Base)
	}
}

func (x *Exec) setHeap(st *State, k string, h *Term, base *Term) {
	jset(st, st.heap, (*State).mHeap, k, h)
	if st.track {
		if st.written == nil {
			st.written = map[string][]*Term{}
		}
		for _, b := range st.written[k] {
			if b == base {
				return
			}
		}
		jset(st, st.written, (*State).mWritten, k, append(append([]*Term(nil), st.written[k]...), base))
	}
}

func (x *Exec) storeAt(h *Term, idxs []*Term, v *Term) *Term {
	if len(idxs) == 1 {
		return x.c.Store(h, idxs[0], v)
	}
	return x.c.Store(h, idxs[0], x.storeAt(x.c.Select(h, idxs[0]), idxs[1:], v))
}

// alloc creates a new object.
func (x *Exec) newRef() *Term {
	x.allocN++
	return x.c.Int(-x.allocN)
}

func (x *Exec) alloc(st *State, t types.Type) Ptr {
	r := x.newRef()
	if a, ok := t.Underlying().(*types.Array); ok {
		p := Ptr{Base: r, Root: a.Elem(), Elem: true, N: a.Len()}
		x.storeComps(st, x.e.elemKey(a.Elem()), p, nil, t, x.zeroArr(a.Elem()))
		return p
	}
	p := Ptr{Base: r, Root: t}
	zs, _ := x.zeroComps(t)
	x.storeComps(st, x.e.structKey(t), p, nil, t, zs)
	return p
}

func (x *Exec) zeroArr(elem types.Type) []*Term {
	zs, _ := x.zeroComps(elem)
	var out []*Term
	for i, cm := range x.e.comps(elem) {
		out = append(out, x.c.ConstArr(ArrS(IntS, cm.s), zs[i]))
	}
	return out
}

// ---- obligations

func (x *Exec) oblige(st *State, kind, name string, cond *Term) {
	defer func() { x.assume(st, cond) }()
	if x.quiet > 0 {
		if !cond.IsTrue() {
			// trial: result unknown
		}
		return
	}
	full := name
	o := x.obls[full]
	if o == nil {
		o = &Obligation{Contract: x.contract.Name, Name: name, Kind: kind, Status: "proved"}
		x.obls[full] = o
		x.order = append(x.order, full)
	}
	o.Queries++
	if cond.IsTrue() || st.pcset[cond.ID] {
		addBackend(o, "simplifier")
		return
	}
	t0 := time.Now()
	if x.incCheck(st.pc, []*Term{x.c.Not(cond)}) == Unsat {
		o.Seconds += time.Since(t0).Seconds()
		addBackend(o, "z3-new")
		return
	}
	q := x.query(st, x.c.Not(cond))
	to := x.vf.timeout
	r, b := x.c.Check(q, to, true)
	o.Seconds += time.Since(t0).Seconds()
	if r == Unsat {
		addBackend(o, b)
		return
	}
	if o.Status == "failed" {
		return
	}
	if r == Sat {
		o.Status = "failed"
	} else if o.Status == "proved" {
		o.Status = "undecided"
	}
	o.Detail = fmt.Sprintf("%s: %s\ncondition: %s\npath: %s", r, name, trunc(cond.String(), 2000), x.pathDesc(st))
	if r == Sat {
		o.Inputs, o.Model = x.modelInputs(st, q)
	}
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func addBackend(o *Obligation, b string) {
	for _, e := range o.Backend {
		if e == b {
			return
		}
	}
	o.Backend = append(o.Backend, b)
}

func (x *Exec) fail(kind, name, detail string) {
	if x.quiet > 0 {
		x.trialFail = true
		return
	}
	o := x.obls[name]
	if o == nil {
		o = &Obligation{Contract: x.contract.Name, Name: name, Kind: kind}
		x.obls[name] = o
		x.order = append(x.order, name)
	}
	o.Queries++
	if o.Status != "failed" {
		o.Status = "undecided"
		o.Detail = detail
	}
}

func (x *Exec) pathDesc(st *State) string {
	var sb strings.Builder
	n := 0
	for i, t := range st.pc {
		if st.isBr[i] {
			n++
			if n > 30 {
				break
			}
			sb.WriteString("\n   " + trunc(t.String(), 200))
		}
	}
	return sb.String()
}

// safety obligation inside real code
func (x *Exec) safety(st *State, what string, pos token.Pos, cond *Term) {
	if x.noSafety > 0 || cond.Bnd || st.top().spec {
		if !cond.Bnd {
			x.assume(st, cond)
		}
		return
	}
	x.oblige(st, "safety", "no-panic: "+what+" in "+shortFn(st.top().fn), cond)
}

func shortFn(f *ssa.Function) string {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return strings.ReplaceAll(f.String(), "github.com/smart-core-os/sc-golang/", "")
}

// ---- main loop

type outcome struct {
	st  *State
	ret Val
}

func (x *Exec) debugf(f string, a ...any) {
	if os.Getenv("GV_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}

// runAll explores from st until every path has finished the frame at depth; stop may intercept block entry.
func (x *Exec) runAll(st *State, depth int, done func(*State)) {
	x.work = append(x.work, []*State{st})
	lvl := len(x.work) - 1
	defer func() { x.work = x.work[:lvl] }()
	for len(x.work[lvl]) > 0 {
		n := len(x.work[lvl])
		s := x.work[lvl][n-1]
		x.work[lvl] = x.work[lvl][:n-1]
		x.runPath(s, depth, done)
	}
}

type pathEnd struct{ why string }

func (x *Exec) runPath(st *State, depth int, done func(*State)) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupportedErr); ok {
				where := ""
				if len(st.frames) > 0 {
					where = shortFn(st.top().fn)
				}
				if dbgUnsup {
					panic(r)
				}
				if x.quiet > 0 {
					panic(r)
				}
				x.fail("generator", "generator: every path of "+where+" modelled", u.Error()+" in "+where)
				return
			}
			panic(r)
		}
	}()
	x.paths++
	if dbg := os.Getenv("GV_DEAD"); dbg != "" {
		defer func() {
			if st.dead && x.quiet == 0 && len(st.frames) > 0 {
				f := st.top()
				w := ""
				if f.ip < len(f.block.Instrs) {
					w = f.block.Instrs[f.ip].String()
				}
				fmt.Fprintln(os.Stderr, "dead:", shortFn(f.fn), w, st.deadWhy)
				if dbg == "2" {
					for _, t := range st.pc {
						fmt.Fprintln(os.Stderr, "   ", t)
					}
				}
			}
		}()
	}
	for !st.dead {
		if st.parked != nil {
			if st.noSched {
				x.failPark(st)
				return
			}
			x.reschedule(st)
			continue
		}
		if len(st.frames) <= depth {
			if st.tid != 0 && !st.noSched { // the end of a goroutine
				st.epoch++
				x.reschedule(st)
				continue
			}
			done(st)
			return
		}
		x.preempt(st)
		x.steps++
		if x.steps > x.maxSteps || (x.steps%64 == 0 && time.Now().After(x.deadline)) {
			if x.quiet == 0 {
				x.partial = true // a bounded exploration that ran out of time: reported, not an alarm
			} else {
				x.fail("generator", "generator: exploration within budget", "step or time budget exceeded in "+shortFn(st.top().fn))
			}
			x.work[len(x.work)-1] = nil
			return
		}
		x.step(st)
		if st.parked == nil {
			st.considered = false
		}
		st.endStep()
	}
}

func (x *Exec) failPark(st *State) { panic(unsupported("specification code that waits")) }

var dbgUnsup = os.Getenv("GV_PANIC") != ""
