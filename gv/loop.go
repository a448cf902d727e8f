package main

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

type loopInfo struct {
	headers map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // header -> body blocks (incl. header)
}

func (x *Exec) loopsOf(fn *ssa.Function) *loopInfo {
	if l, ok := x.loops[fn]; ok {
		return l
	}
	l := &loopInfo{headers: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) { // back edge b -> s
				body := l.headers[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					l.headers[s] = body
				}
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					n := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if body[n] {
						continue
					}
					body[n] = true
					stack = append(stack, n.Preds...)
				}
			}
		}
	}
	x.loops[fn] = l
	return l
}

// enter moves a path along the edge from -> to, applying loop treatment at loop headers.
func (x *Exec) enter(st *State, f *Frame, from, to *ssa.BasicBlock) {
	li := x.loopsOf(f.fn)
	if body, ok := li.headers[to]; ok {
		if !body[from] {
			// entering from outside
			st.setIter(f, to, 0)
			if x.tryCut(st, f, from, to, body) {
				return
			}
		} else {
			if f.cutting[to] {
				x.backEdge(st, f, from, to)
				return
			}
			st.setIter(f, to, f.iters[to]+1)
			if f.iters[to] > x.unroll {
				panic(unsupported(fmt.Sprintf("loop in %s not closed after %d iterations (no applicable invariant)", shortFn(f.fn), x.unroll)))
			}
		}
	}
	x.moveTo(st, f, from, to)
}

func (x *Exec) tryCut(st *State, f *Frame, from, to *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) bool {
	return false
}
func (x *Exec) backEdge(st *State, f *Frame, from, to *ssa.BasicBlock) {}
