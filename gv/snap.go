package main

import "golang.org/x/tools/go/ssa"

// Snapshots of the state before the current instruction are kept as an undo log: a fork rebuilds the earlier state.

type snapRec struct {
	st     State
	frames []*Frame
	tops   []Frame // shallow copies of the last frames
}

type undoRec func(n *State, fr func(*Frame) *Frame)

func (st *State) mPcset() map[int]bool         { return st.pcset }
func (st *State) mKnown() map[int]*Term        { return st.known }
func (st *State) mHeap() map[string]*Term      { return st.heap }
func (st *State) mGhost() map[string]Val       { return st.ghost }
func (st *State) mLocks() map[string]int       { return st.locks }
func (st *State) mWritten() map[string][]*Term { return st.written }

func jset[K comparable, V any](st *State, m map[K]V, get func(*State) map[K]V, k K, v V) {
	if st.snap != nil {
		old, had := m[k]
		st.undo = append(st.undo, func(n *State, _ func(*Frame) *Frame) {
			if had {
				get(n)[k] = old
			} else {
				delete(get(n), k)
			}
		})
	}
	m[k] = v
}

func (st *State) setReg(f *Frame, r ssa.Value, v Val) {
	if st.snap != nil {
		old, had := f.regs[r]
		st.undo = append(st.undo, func(n *State, fr func(*Frame) *Frame) {
			if g := fr(f); g != nil {
				if had {
					g.regs[r] = old
				} else {
					delete(g.regs, r)
				}
			}
		})
	}
	f.regs[r] = v
}

func (st *State) setIter(f *Frame, b *ssa.BasicBlock, k int) {
	if st.snap != nil {
		old := f.iters[b]
		st.undo = append(st.undo, func(n *State, fr func(*Frame) *Frame) {
			if g := fr(f); g != nil {
				g.iters[b] = old
			}
		})
	}
	f.iters[b] = k
}

func (st *State) begin() {
	r := st.snap
	if r == nil {
		r = &snapRec{}
	}
	st.snap = nil
	r.st = *st
	r.frames = append(r.frames[:0], st.frames...)
	r.tops = r.tops[:0]
	for i := max(0, len(st.frames)-4); i < len(st.frames); i++ {
		r.tops = append(r.tops, *st.frames[i])
	}
	st.undo = st.undo[:0]
	st.snap = r
}

func (st *State) endStep() {
	st.dec, st.decI = nil, 0
	st.snap = nil
	st.undo = st.undo[:0]
}

// snapshot rebuilds the state as it was when begin was called.
func (st *State) snapshot() *State {
	r := st.snap
	if r == nil {
		panic("branch without snapshot")
	}
	b := r.st
	// b shares its maps with st; frames carry their saved scalar fields
	b.frames = make([]*Frame, len(r.frames))
	off := len(r.frames) - len(r.tops)
	for i, f := range r.frames {
		if i >= off {
			g := r.tops[i-off]
			b.frames[i] = &g
		} else {
			b.frames[i] = f
		}
	}
	n := b.clone()
	fr := func(f *Frame) *Frame {
		for i, g := range r.frames {
			if g == f {
				return n.frames[i]
			}
		}
		return nil
	}
	for i := len(st.undo) - 1; i >= 0; i-- {
		st.undo[i](n, fr)
	}
	return n
}
