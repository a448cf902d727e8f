package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Data races, for contracts marked //gv:hb: vector clocks order what the goroutines do. Operations on one channel, mutex,
// WaitGroup, Once, atomic or context order all that was done before with all that is done after (readers of a RWMutex among
// themselves aside), which is at least what the memory model promises. Each access to memory that another goroutine accessed
// before, when one of them writes, has to be ordered after it. Memory is told apart by allocation, field and constant index.

type hbAcc struct {
	w, wc int            // who wrote last, when
	wAt   string         // where
	r     map[int]int    // who read since, when
	rAt   map[int]string // where
}

type hbState struct {
	clocks map[int]map[int]int
	objs   map[string]map[int]int
	acc    map[string]*hbAcc
}

func mClocks(st *State) map[int]map[int]int  { return st.hb.clocks }
func mObjs(st *State) map[string]map[int]int { return st.hb.objs }
func mAcc(st *State) map[string]*hbAcc       { return st.hb.acc }

func newHB() *hbState {
	return &hbState{map[int]map[int]int{0: {0: 1}}, map[string]map[int]int{}, map[string]*hbAcc{}}
}

// clone copies the tables: what is in them isn't changed.
func (h *hbState) clone() *hbState {
	if h == nil {
		return nil
	}
	n := &hbState{make(map[int]map[int]int, len(h.clocks)), make(map[string]map[int]int, len(h.objs)), make(map[string]*hbAcc, len(h.acc))}
	for k, v := range h.clocks {
		n.clocks[k] = v
	}
	for k, v := range h.objs {
		n.objs[k] = v
	}
	for k, v := range h.acc {
		n.acc[k] = v
	}
	return n
}

func joinVC(a, b map[int]int) map[int]int {
	m := make(map[int]int, len(a)+len(b))
	for k, v := range a {
		m[k] = v
	}
	for k, v := range b {
		if v > m[k] {
			m[k] = v
		}
	}
	return m
}

func (st *State) hbAcquire(tid int, obj string) {
	if h := st.hb; h != nil && len(h.objs[obj]) > 0 {
		jset(st, h.clocks, mClocks, tid, joinVC(h.clocks[tid], h.objs[obj]))
	}
}

func (st *State) hbRelease(tid int, obj string) {
	if h := st.hb; h != nil {
		jset(st, h.objs, mObjs, obj, joinVC(h.objs[obj], h.clocks[tid]))
		c := joinVC(h.clocks[tid], nil)
		c[tid]++
		jset(st, h.clocks, mClocks, tid, c)
	}
}

func (st *State) hbTouch(tid int, obj string) {
	st.hbAcquire(tid, obj)
	st.hbRelease(tid, obj)
}

func (st *State) hbChan(tid int, ch int64) { st.hbTouch(tid, fmt.Sprint("chan", ch)) }

// hbSync is an operation on the object at p.
func (x *Exec) hbSync(st *State, kind string, p Ptr) {
	if st.hb != nil {
		st.hbTouch(st.tid, kind+x.hbPlace(st, p))
	}
}

func (st *State) hbSpawn(child int) {
	if h := st.hb; h != nil {
		c := joinVC(h.clocks[st.tid], nil)
		c[child] = 1
		jset(st, h.clocks, mClocks, child, c)
		p := joinVC(h.clocks[st.tid], nil)
		p[st.tid]++
		jset(st, h.clocks, mClocks, st.tid, p)
	}
}

// hbPlace names the memory p points at, "" if it isn't known.
func (x *Exec) hbPlace(st *State, p Ptr) string {
	b := x.norm(st, p.Base)
	if v, ok := b.IntVal(); !ok || v == 0 {
		if b = x.deep(st, b); b == nil {
			return ""
		}
		if v, ok = b.IntVal(); !ok || v == 0 {
			return fmt.Sprint("t", b.ID)
		}
	}
	v, _ := b.IntVal()
	s := fmt.Sprint(v)
	if p.Elem {
		if p.Idx != nil {
			if k, ok := x.norm(st, p.Idx).IntVal(); ok {
				s += fmt.Sprintf("[%d]", k)
			} else {
				return ""
			}
		}
	}
	for _, e := range p.Path {
		if e.F >= 0 {
			s += fmt.Sprintf(".%d", e.F)
			continue
		}
		k, ok := x.norm(st, e.I).IntVal()
		if !ok {
			return ""
		}
		s += fmt.Sprintf("[%d]", k)
	}
	return s
}

// hbName names a field for people.
func hbName(p Ptr) string {
	s := types.TypeString(p.Root, func(p *types.Package) string { return p.Name() })
	if p.Elem {
		s = "[]" + s
	}
	t := p.Root
	for _, e := range p.Path {
		if e.F < 0 {
			s += "[]"
			if a, ok := t.Underlying().(*types.Array); ok {
				t = a.Elem()
			}
			continue
		}
		u, ok := t.Underlying().(*types.Struct)
		if !ok || e.F >= u.NumFields() {
			break
		}
		s += "." + u.Field(e.F).Name()
		t = u.Field(e.F).Type()
	}
	return s
}

// hbAccess is an access of the current goroutine to the memory at p.
func (x *Exec) hbAccess(st *State, p Ptr, write bool) {
	if st.hb == nil || x.quiet > 0 || x.noSafety > 0 {
		return
	}
	if pl := x.hbPlace(st, p); pl != "" {
		x.hbAt(st, pl, hbName(p), write)
	}
}

// hbRange is an access to n elements of an array.
func (x *Exec) hbRange(st *State, arr, off, n *Term, et types.Type, write bool) {
	if st.hb == nil {
		return
	}
	if k, ok := x.norm(st, n).IntVal(); ok && k <= 16 {
		for i := int64(0); i < k; i++ {
			x.hbAccess(st, Ptr{Base: arr, Root: et, Elem: true, Idx: x.c.Add(off, x.c.Int(i))}, write)
		}
	}
}

// hbMap is an access to a map.
func (x *Exec) hbMap(st *State, m *Term, t types.Type, write bool) {
	if st.hb == nil || x.quiet > 0 || x.noSafety > 0 {
		return
	}
	m = x.deep(st, x.norm(st, m))
	if v, ok := m.IntVal(); ok && v != 0 {
		x.hbAt(st, fmt.Sprint("map", v), types.TypeString(t, func(p *types.Package) string { return p.Name() }), write)
	}
}

func (x *Exec) hbAt(st *State, place, name string, write bool) {
	h, tid := st.hb, st.tid
	if len(st.frames) > 0 && x.hbGhost(st.top().fn) && strings.HasPrefix(place, "-") && !strings.Contains(name, "pb.") && !strings.Contains(name, "traits.") {
		// the models' own variables aren't the program's
		if p := pkgOf(st.top().fn); p != nil && strings.HasSuffix(p.Path(), "/internal/gv") {
			return
		}
	}
	a := h.acc[place]
	n := &hbAcc{w: -1}
	if a != nil {
		*n = *a
	}
	me := h.clocks[tid]
	at := "?"
	if len(st.frames) > 0 {
		at = shortFn(st.top().fn)
	}
	other, ordered := "", true
	if n.w >= 0 && n.w != tid {
		other = n.wAt
		ordered = n.wc <= me[n.w]
	}
	if write && ordered {
		for r, c := range n.r {
			if r != tid {
				other = n.rAt[r]
				if c > me[r] {
					ordered = false
					break
				}
			}
		}
	}
	if other != "" {
		x.oblige(st, "safety", fmt.Sprintf("no data race on %s: %s before %s", name, other, at), x.c.Bool(ordered))
	}
	if write {
		n.w, n.wc, n.wAt, n.r, n.rAt = tid, me[tid], at, nil, nil
	} else {
		r, ra := map[int]int{}, map[int]string{}
		for k, v := range n.r {
			r[k], ra[k] = v, n.rAt[k]
		}
		r[tid], ra[tid] = me[tid], at
		n.r, n.rAt = r, ra
	}
	jset(st, h.acc, mAcc, place, n)
}

func (x *Exec) hbGhost(fn *ssa.Function) bool { return x.vf.isGhost(fn) }
