package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Goroutines are executed one at a time: the current one until it has to wait, then the next one that can go on.
// A contract's //gv:delays K explores in addition every schedule that departs from that at most K times, each time
// before an operation of synchronisation (a lock, a channel operation, a go statement): delay bounded scheduling.

type thread struct {
	id     int
	frames []*Frame
	ops    []chanOp // channel operations it waits to complete
	idle   int      // 0: waits for others, 1: waits for all others to wait, 2: waits for time to pass
	epoch  int      // the epoch in which it found that it has to wait, -1: it can go on
	fresh  bool     // it waits before its first instruction
	inert  bool     // it only observes: nothing that others do depends on when it goes on
	why    string
}

type chanOp struct {
	ch   int64
	send bool
	v    Val
	k    int // index of the case
}

type chanSt struct {
	cap    int64
	buf    []Val
	closed bool
}

// access is the hook for guarded-by checking.
func (x *Exec) access(st *State, p Ptr, write bool) {
	x.hbAccess(st, p, write)
	if x.vf.onAccess != nil && x.contract.guard {
		x.vf.onAccess(x, st, p, write)
	}
}

// chanID resolves a channel to the allocation it is, 0 for nil.
func (x *Exec) chanID(st *State, t *Term) int64 {
	for {
		t = x.norm(st, t)
		if v, ok := t.IntVal(); ok {
			return v
		}
		if t.Op == "ite" {
			if x.branch(st, t.Args[0]) {
				t = t.Args[1]
			} else {
				t = t.Args[2]
			}
			continue
		}
		if t.Op == "select" && t.Args[0].Op == "store" {
			if x.branch(st, x.c.Eq(t.Args[0].Args[1], t.Args[1])) {
				t = t.Args[0].Args[2]
			} else {
				t = x.c.Select(t.Args[0].Args[0], t.Args[1])
			}
			continue
		}
		if d := x.deep(st, t); d != t {
			t = d
			continue
		}
		panic(unsupported("channel of unknown identity"))
	}
}

func (st *State) chanAt(id int64) *chanSt {
	c := st.chans[id]
	if c == nil {
		panic(unsupported("channel that was not made on this path"))
	}
	return c
}

func (st *State) setChan(id int64, c *chanSt) {
	m := make(map[int64]*chanSt, len(st.chans)+1)
	for k, v := range st.chans {
		m[k] = v
	}
	m[id] = c
	st.chans = m
	st.epoch++
}

// wait parks the current goroutine at its instruction.
func (x *Exec) wait(st *State, idle int, why string, ops ...chanOp) {
	st.parked = &thread{id: st.tid, ops: ops, idle: idle, why: why}
}

// peer finds a parked goroutine that waits to do the other side of an operation on ch, and its operation.
func (st *State) peer(ch int64, send bool) (int, int) {
	for i, t := range st.threads {
		if t.epoch < 0 {
			continue
		}
		for k, o := range t.ops {
			if o.ch == ch && o.send != send {
				return i, k
			}
		}
	}
	return -1, -1
}

func cloneFrames(fs []*Frame) []*Frame {
	s := State{frames: fs}
	return s.clone().frames
}

// complete lets a parked goroutine go on: its operation k was completed by the other side, v is what it received.
func (x *Exec) complete(st *State, i, k int, v Val) {
	t := *st.threads[i]
	op := t.ops[k]
	st.hbChan(st.tid, op.ch)
	st.hbChan(t.id, op.ch)
	st.hbChan(st.tid, op.ch)
	t.frames = cloneFrames(t.frames)
	f := t.frames[len(t.frames)-1]
	switch ins := f.block.Instrs[f.ip].(type) {
	case *ssa.Send:
	case *ssa.UnOp:
		f.regs[ins] = x.received(ins, v, true)
	case *ssa.Select:
		f.regs[ins] = x.selected(ins, op.k, v, true)
	default:
		panic(fmt.Sprintf("parked at %T", ins))
	}
	f.ip++
	t.ops, t.epoch, t.idle = nil, -1, 0
	ts := append([]*thread(nil), st.threads...)
	ts[i] = &t
	st.threads = ts
	st.epoch++
}

func (x *Exec) received(i *ssa.UnOp, v Val, ok bool) Val {
	if i.CommaOk {
		return TupleV{v, x.c.Bool(ok)}
	}
	return v
}

// selected is the result of a select statement whose case k was chosen.
func (x *Exec) selected(i *ssa.Select, k int, v Val, ok bool) Val {
	tt := i.Type().(*types.Tuple)
	res := make(TupleV, tt.Len())
	for j := range res {
		res[j] = x.zero(tt.At(j).Type())
	}
	res[0] = x.c.Int(int64(k))
	if k < 0 || i.States[k].Dir == types.SendOnly {
		return res
	}
	res[1] = x.c.Bool(ok)
	r := 2
	for j := 0; j < k; j++ {
		if i.States[j].Dir == types.RecvOnly {
			r++
		}
	}
	res[r] = v
	return res
}

// ready says whether an operation on a channel can be done now.
func (x *Exec) ready(st *State, ch int64, send bool) bool {
	if ch == 0 {
		return false
	}
	c := st.chanAt(ch)
	if c.closed {
		return true
	}
	if send && int64(len(c.buf)) < c.cap || !send && len(c.buf) > 0 {
		return true
	}
	i, _ := st.peer(ch, send)
	return i >= 0
}

// doSend sends to a channel that is ready for it.
func (x *Exec) doSend(st *State, ch int64, v Val) {
	c := st.chanAt(ch)
	if c.closed {
		x.safety(st, "send on closed channel", token.NoPos, x.c.F)
		st.dead = true
		return
	}
	if i, k := st.peer(ch, true); i >= 0 {
		x.complete(st, i, k, v)
		return
	}
	st.hbChan(st.tid, ch)
	st.setChan(ch, &chanSt{c.cap, append(append([]Val(nil), c.buf...), v), false})
}

// doRecv receives from a channel that is ready for it.
func (x *Exec) doRecv(st *State, ch int64, et types.Type) (Val, bool) {
	c := st.chanAt(ch)
	st.hbChan(st.tid, ch)
	if len(c.buf) > 0 {
		v := c.buf[0]
		buf := append([]Val(nil), c.buf[1:]...)
		if i, k := st.peer(ch, false); i >= 0 { // a sender waits for room
			buf = append(buf, st.threads[i].ops[k].v)
			x.complete(st, i, k, nil)
		}
		st.setChan(ch, &chanSt{c.cap, buf, c.closed})
		return v, true
	}
	if c.closed {
		return x.zero(et), false
	}
	i, k := st.peer(ch, false)
	v := st.threads[i].ops[k].v
	x.complete(st, i, k, nil)
	return v, true
}

func (x *Exec) chanSend(st *State, i *ssa.Send) bool {
	ch := x.chanID(st, x.get(st, i.Chan).(*Term))
	v := x.get(st, i.X)
	if !x.ready(st, ch, true) {
		x.wait(st, 0, "a send", chanOp{ch: ch, send: true, v: v})
		return false
	}
	x.doSend(st, ch, v)
	return true
}

func (x *Exec) chanRecv(st *State, i *ssa.UnOp) Val {
	ch := x.chanID(st, x.get(st, i.X).(*Term))
	if !x.ready(st, ch, false) {
		x.wait(st, 0, "a receive", chanOp{ch: ch})
		return nil
	}
	v, ok := x.doRecv(st, ch, i.X.Type().Underlying().(*types.Chan).Elem())
	return x.received(i, v, ok)
}

func (x *Exec) closeChan(st *State, t *Term) {
	ch := x.chanID(st, t)
	if ch == 0 || st.chanAt(ch).closed {
		x.safety(st, "close of nil or closed channel", token.NoPos, x.c.F)
		st.dead = true
		return
	}
	c := st.chanAt(ch)
	x.safety(st, "close of closed channel", token.NoPos, x.c.T)
	if i, _ := st.peer(ch, false); i >= 0 {
		x.safety(st, "send on closed channel", token.NoPos, x.c.F)
		st.dead = true
		return
	}
	st.hbChan(st.tid, ch)
	st.setChan(ch, &chanSt{c.cap, c.buf, true})
}

func (x *Exec) selectOp(st *State, i *ssa.Select) bool {
	var can []int
	var ops []chanOp
	for k, s := range i.States {
		ch := x.chanID(st, x.get(st, s.Chan).(*Term))
		o := chanOp{ch: ch, send: s.Dir == types.SendOnly, k: k}
		if o.send {
			o.v = x.get(st, s.Send)
		}
		ops = append(ops, o)
		if x.ready(st, ch, o.send) {
			can = append(can, k)
		}
	}
	if len(can) == 0 {
		if !i.Blocking {
			x.set(st, i, x.selected(i, -1, nil, false))
			return true
		}
		var live []chanOp
		for _, o := range ops {
			if o.ch != 0 {
				live = append(live, o)
			}
		}
		x.wait(st, 0, "a select", live...)
		return false
	}
	k := can[len(can)-1]
	for _, q := range can[:len(can)-1] {
		if x.nondet(st, "select") {
			k = q
			break
		}
	}
	s := i.States[k]
	if s.Dir == types.SendOnly {
		x.doSend(st, ops[k].ch, ops[k].v)
		if !st.dead {
			x.set(st, i, x.selected(i, k, nil, false))
		}
		return true
	}
	v, ok := x.doRecv(st, ops[k].ch, s.Chan.Type().Underlying().(*types.Chan).Elem())
	x.set(st, i, x.selected(i, k, v, ok))
	return true
}

// spawn starts a goroutine.
func (x *Exec) spawn(st *State, fn Val, args []Val) *thread {
	fv, ok := fn.(FuncV)
	if !ok || fv.BI != nil {
		panic(unsupported("go statement with a builtin or unknown method"))
	}
	if fv.Fn == nil {
		fv, ok = x.decFunc(x.norm(st, fv.T)).(FuncV)
		if !ok || fv.Fn == nil {
			panic(unsupported("go statement with an unknown function"))
		}
	}
	if len(fv.Fn.Blocks) == 0 || !x.vf.mayInline(fv.Fn) {
		panic(unsupported("go " + originName(fv.Fn)))
	}
	save := st.frames
	st.frames = nil
	x.pushFrame(st, nil, fv, args)
	fs := st.frames
	st.frames = save
	st.lastTid++
	t := &thread{id: st.lastTid, frames: fs, epoch: -1, inert: x.vf.inert(fv.Fn)}
	st.threads = append(append([]*thread(nil), st.threads...), t)
	st.hbSpawn(t.id)
	return t
}

// inert says whether a goroutine of fn only observes: it waits for contexts, reads, and logs. Nothing that other
// goroutines do then depends on when it runs.
func (v *Verifier) inert(fn *ssa.Function) bool {
	if r, ok := v.inertMemo.Load(fn); ok {
		return r.(bool)
	}
	r := observes(fn)
	v.inertMemo.Store(fn, r)
	return r
}

func observes(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			switch i := i.(type) {
			case *ssa.Alloc, *ssa.BinOp, *ssa.ChangeInterface, *ssa.ChangeType, *ssa.Convert, *ssa.Extract, *ssa.Field, *ssa.FieldAddr,
				*ssa.If, *ssa.Index, *ssa.IndexAddr, *ssa.Jump, *ssa.MakeInterface, *ssa.Phi, *ssa.Return, *ssa.Slice, *ssa.DebugRef:
			case *ssa.Store:
				a := i.Addr
				for {
					if f, ok := a.(*ssa.FieldAddr); ok {
						a = f.X
					} else if x, ok := a.(*ssa.IndexAddr); ok {
						a = x.X
					} else {
						break
					}
				}
				if _, ok := a.(*ssa.Alloc); !ok {
					return false
				}
			case *ssa.UnOp:
				if i.Op == token.ARROW && !isDone(i.X) {
					return false
				}
			case *ssa.Call:
				switch {
				case i.Call.IsInvoke():
					if m := i.Call.Method; m.Pkg() == nil || m.Pkg().Path() != "context" || m.Name() != "Done" && m.Name() != "Err" {
						return false
					}
				case i.Call.StaticCallee() != nil:
					switch originName(i.Call.StaticCallee()) {
					case "errors.Is", "log.Printf", "log.Println", "log.Print":
					default:
						return false
					}
				default:
					return false
				}
			default:
				return false
			}
		}
	}
	return len(fn.Blocks) > 0
}

// isDone says whether v is a context's Done channel.
func isDone(v ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	return ok && c.Call.IsInvoke() && c.Call.Method.Pkg() != nil && c.Call.Method.Pkg().Path() == "context" && c.Call.Method.Name() == "Done"
}

// candidates are the indices of the goroutines that may be able to go on, in the order of turns.
func (st *State) candidates() []int {
	for idle := 0; idle <= 2; idle++ {
		var l []int
		for i, t := range st.threads {
			if t.idle == idle && (idle > 0 || t.epoch != st.epoch) {
				l = append(l, i)
			}
		}
		if len(l) > 0 {
			// those that only observe come last, in any order
			var inert []int
			k := 0
			for _, i := range l {
				if st.threads[i].inert {
					inert = append(inert, i)
				} else {
					l[k] = i
					k++
				}
			}
			if l = l[:k]; k == 0 {
				return inert[:1]
			}
			// those after the current one come first
			n := 0
			for n < len(l) && st.threads[l[n]].id <= st.tid {
				n++
			}
			return append(append([]int(nil), l[n:]...), l[:n]...)
		}
	}
	return nil
}

// switchTo makes thread i the current one, the current one was put among the others before, or has ended.
func (st *State) switchTo(i int) {
	t := st.threads[i]
	st.threads = append(append([]*thread(nil), st.threads[:i]...), st.threads[i+1:]...)
	st.frames = cloneFrames(t.frames)
	st.tid = t.id
	if t.idle > 0 && !t.fresh {
		st.woken = true
	}
	st.inert = t.inert
	st.considered = false
}

// reschedule switches to the goroutine whose turn it is when the current one waits or has ended.
func (x *Exec) reschedule(st *State) {
	if p := st.parked; p != nil {
		st.parked = nil
		p.frames, p.epoch, p.inert = st.frames, st.epoch, st.inert
		st.threads = append(append([]*thread(nil), st.threads...), p)
	}
	l := st.candidates()
	if len(l) == 0 {
		why := ""
		for _, t := range st.threads {
			if t.id == 0 {
				why = t.why + " in " + shortFn(t.frames[len(t.frames)-1].fn)
				st.frames = t.frames
			}
		}
		if x.quiet > 0 || x.noSafety > 0 {
			st.dead = true
			return
		}
		x.oblige(st, "safety", "no-deadlock: "+why, x.c.F)
		st.dead = true
		return
	}
	for _, i := range l[1:] {
		if st.delays >= x.contract.delays {
			x.schedBound()
			break
		}
		o := st.clone()
		o.delays++
		o.switchTo(i)
		x.push(o)
	}
	st.switchTo(l[0])
}

// schedBound notes that there are schedules that aren't explored.
func (x *Exec) schedBound() {
	x.noteBound(fmt.Sprintf("schedules that depart at most %d times from running each goroutine until it waits", x.contract.delays))
}

// preempt explores, before an operation of synchronisation, that other goroutines come first.
func (x *Exec) preempt(st *State) {
	if st.considered || len(st.threads) == 0 || st.noSched || st.inert {
		return
	}
	f := st.top()
	if f.ip >= len(f.block.Instrs) || !syncs(f.block.Instrs[f.ip]) {
		return
	}
	for _, i := range st.candidates() {
		if st.threads[i].idle > 0 || st.threads[i].inert {
			continue
		}
		if st.delays >= x.contract.delays {
			x.schedBound()
			return
		}
		o := st.clone()
		o.delays++
		id := o.threads[i].id
		o.threads = append(append([]*thread(nil), o.threads...), &thread{id: o.tid, frames: o.frames, epoch: -1, inert: o.inert})
		for j, t := range o.threads {
			if t.id == id {
				o.switchTo(j)
				break
			}
		}
		x.push(o)
	}
	st.considered = true
}

func syncs(i ssa.Instruction) bool {
	switch i := i.(type) {
	case *ssa.Send, *ssa.Select:
		return true
	case *ssa.UnOp:
		return i.Op == token.ARROW
	case *ssa.Call:
		if b, ok := i.Call.Value.(*ssa.Builtin); ok {
			return b.Name() == "close"
		}
		if fn := i.Call.StaticCallee(); fn != nil {
			n := fn.Name()
			return (n == "Lock" || n == "RLock") && strings.HasPrefix(originName(fn), "(*sync.")
		}
	}
	return false
}

// concIntrinsics model what waits.
func concIntrinsics() map[string]intrinsic {
	m := map[string]intrinsic{}
	num := func(x *Exec, st *State, t *Term) int64 {
		t = x.deep(st, x.norm(st, t))
		v, ok := t.IntVal()
		if !ok {
			panic(unsupported("number of goroutines to wait for"))
		}
		return v
	}
	wg := func(x *Exec, st *State, p Val) int64 {
		return num(x, st, x.syncInt(st, "waitgroup", p.(Ptr)))
	}
	add := func(x *Exec, st *State, p Val, n int64) Val {
		k := wg(x, st, p) + n
		x.safety(st, "negative WaitGroup counter", token.NoPos, x.c.Bool(k >= 0))
		x.hbSync(st, "wg", p.(Ptr))
		x.setSyncInt(st, "waitgroup", p.(Ptr), k)
		st.epoch++
		return unit()
	}
	m["(*sync.WaitGroup).Add"] = func(x *Exec, st *State, s *Site, a []Val) Val {
		return add(x, st, a[0], num(x, st, a[1].(*Term)))
	}
	m["(*sync.WaitGroup).Done"] = func(x *Exec, st *State, s *Site, a []Val) Val { return add(x, st, a[0], -1) }
	m["(*sync.WaitGroup).Wait"] = func(x *Exec, st *State, s *Site, a []Val) Val {
		if wg(x, st, a[0]) != 0 {
			x.wait(st, 0, "WaitGroup.Wait")
			return unit()
		}
		x.hbSync(st, "wg", a[0].(Ptr))
		return unit()
	}
	idle := func(kind int, why string, res func(x *Exec) Val) intrinsic {
		return func(x *Exec, st *State, s *Site, a []Val) Val {
			if st.woken {
				st.woken = false
				return res(x)
			}
			x.wait(st, kind, why)
			return unit()
		}
	}
	yes := func(x *Exec) Val { return x.c.T }
	none := func(x *Exec) Val { return unit() }
	m[gvp+"Still"] = idle(1, "gv.Still", yes)
	alive := func(st *State) int64 {
		n := int64(1)
		for _, t := range st.threads {
			if t.idle != 2 {
				n++
			}
		}
		return n
	}
	m[gvp+"Settles"] = func(x *Exec, st *State, s *Site, a []Val) Val {
		if st.woken {
			st.woken = false
			return x.c.Le(x.c.Int(alive(st)), a[0].(*Term))
		}
		x.wait(st, 1, "gv.Settles")
		return unit()
	}
	m[gvp+"Pause"] = idle(1, "gv.Pause", none)
	m[gvp+"modelAfter"] = func(x *Exec, st *State, s *Site, a []Val) Val {
		t := x.spawn(st, a[0], nil)
		t.idle, t.fresh, t.why = 2, true, "a timer"
		return unit()
	}
	m["time.Sleep"] = idle(2, "time.Sleep", none)
	m[gvp+"modelIsStatus"] = func(x *Exec, st *State, s *Site, a []Val) Val {
		return x.c.Eq(a[0].(IfaceV).Tag, x.c.Int(x.e.typeTag(statusErrT)))
	}
	m[gvp+"modelErrMsg"] = func(x *Exec, st *State, s *Site, a []Val) Val { return x.errMsg(st, a[0].(IfaceV)) }
	m["log.Printf"] = func(x *Exec, st *State, s *Site, a []Val) Val { return unit() }
	m["log.Println"] = m["log.Printf"]
	m["log.Print"] = m["log.Printf"]
	m[gvp+"modelWrites"] = func(x *Exec, st *State, s *Site, a []Val) Val {
		if i, ok := a[0].(IfaceV); ok {
			if p, ok := i.V.(Ptr); ok {
				x.hbAccess(st, p, true)
			}
		}
		return unit()
	}
	// modelSync is an operation of a model that synchronises
	m[gvp+"modelSync"] = func(x *Exec, st *State, s *Site, a []Val) Val {
		if i, ok := a[0].(IfaceV); ok {
			if p, ok := i.V.(Ptr); ok {
				x.hbSync(st, "model", p)
			}
		}
		return unit()
	}
	// Goroutines counts those that aren't timers
	m[gvp+"Goroutines"] = func(x *Exec, st *State, s *Site, a []Val) Val { return x.c.Int(alive(st)) }
	return m
}
