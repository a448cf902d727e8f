package main

import (
	"fmt"
	"io"
	"math/big"
	"strings"
	"sync/atomic"
	"time"
)

// incSolver keeps one solver process whose assertion stack follows the path condition being explored.
type incSolver struct {
	c      *Ctx
	x      *Exec
	p      *proc
	stack  []int        // asserted path condition terms
	undo   [][]int      // per level: terms made active
	active map[int]bool // terms whose facts are asserted on the stack
	decl   map[string]bool
	names  map[int]string
	checks int
	buf    strings.Builder
	msg    bool
}

func (s *incSolver) reset() {
	if s.p != nil {
		s.p.kill()
		s.p = nil
	}
	s.stack, s.undo = nil, nil
	s.active = map[int]bool{}
	s.decl = map[string]bool{}
	s.names = map[int]string{}
	s.checks = 0
	s.msg = false
	s.buf.Reset()
}

func (s *incSolver) start() bool {
	s.reset()
	p, err := getProc("z3-new")
	if err != nil {
		return false
	}
	s.p = p
	s.buf.WriteString("(reset)\n(set-option :global-declarations true)\n(set-option :timeout 1000)\n(set-logic ALL)\n")
	return true
}

func (s *incSolver) close() {
	if s.p != nil {
		s.p.kill()
		s.p = nil
	}
}

// prep declares the symbols of t, defines its shared subterms and asserts interval facts at the current level.
func (s *incSolver) prep(t *Term, lvl *[]int) {
	if s.active[t.ID] {
		return
	}
	s.active[t.ID] = true
	*lvl = append(*lvl, t.ID)
	if !s.msg && strings.Contains(t.S.Name, "MsgVal") {
		s.buf.WriteString("(declare-sort MsgVal 0)\n")
		s.msg = true
	}
	for _, a := range t.Args {
		s.prep(a, lvl)
	}
	for _, a := range t.Pat {
		s.prep(a, lvl)
	}
	switch t.Op {
	case "var":
		if !s.decl[t.Name] {
			s.decl[t.Name] = true
			fmt.Fprintf(&s.buf, "(declare-const |%s| %s)\n", t.Name, t.S.Name)
		}
	case "app":
		if !s.decl["f:"+t.Name] {
			s.decl["f:"+t.Name] = true
			d := s.c.funs[t.Name]
			if !s.msg && strings.Contains(d, "MsgVal") {
				s.buf.WriteString("(declare-sort MsgVal 0)\n")
				s.msg = true
			}
			s.buf.WriteString(d + "\n")
		}
	case "const":
		if t.S == MsgS {
			n := strings.Trim(t.Name, "|")
			if !s.decl[n] {
				s.decl[n] = true
				fmt.Fprintf(&s.buf, "(declare-const |%s| %s)\n", n, t.S.Name)
			}
		}
	}
	if t.Bnd {
		return
	}
	if len(t.Args) > 0 && s.names[t.ID] == "" {
		var d strings.Builder
		wr1(&d, t, s.names)
		if d.Len() >= 24 {
			n := fmt.Sprintf("t!%d", t.ID)
			fmt.Fprintf(&s.buf, "(define-fun %s () %s %s)\n", n, t.S.Name, d.String())
			s.names[t.ID] = n
		}
	}
	switch t.Op {
	case "var", "select", "app":
		emit := func(f *Term) {
			s.prepNoFacts(f)
			s.buf.WriteString("(assert ")
			wr(&s.buf, f, s.names)
			s.buf.WriteString(")\n")
		}
		if t.S == IntS {
			if t.Lo != nil {
				emit(s.c.mk(&Term{Op: "<=", S: BoolS, Args: []*Term{s.c.BigInt(t.Lo), t}}))
			}
			if t.Hi != nil {
				emit(s.c.mk(&Term{Op: "<=", S: BoolS, Args: []*Term{t, s.c.BigInt(t.Hi)}}))
			}
		}
		if t.S == RealS && t.Lo != nil {
			emit(s.c.mk(&Term{Op: "<=", S: BoolS, Args: []*Term{s.c.RealC(new(big.Rat).SetInt(t.Lo)), t}}))
		}
		if t.Op == "app" && t.Name == "strlen" {
			emit(s.c.Eq(s.c.Eq(t, s.c.Int(0)), s.c.Eq(t.Args[0], s.x.zeroTerm(RealS))))
		}
	}
}

func (s *incSolver) prepNoFacts(t *Term) {}

func (s *incSolver) push(t *Term) {
	s.buf.WriteString("(push 1)\n")
	var lvl []int
	s.prep(t, &lvl)
	s.buf.WriteString("(assert ")
	wr(&s.buf, t, s.names)
	s.buf.WriteString(")\n")
	s.stack = append(s.stack, t.ID)
	s.undo = append(s.undo, lvl)
}

func (s *incSolver) pop(n int) {
	if n == 0 {
		return
	}
	fmt.Fprintf(&s.buf, "(pop %d)\n", n)
	for i := 0; i < n; i++ {
		k := len(s.stack) - 1
		for _, id := range s.undo[k] {
			delete(s.active, id)
		}
		s.stack = s.stack[:k]
		s.undo = s.undo[:k]
	}
}

func (s *incSolver) check(pc []*Term, extra []*Term) SatRes {
	if s.p == nil || s.checks > 4000 {
		if !s.start() {
			return Unknown
		}
	}
	s.checks++
	atomic.AddInt64(&queryCount, 1)
	n := 0
	for n < len(pc) && n < len(s.stack) && pc[n].ID == s.stack[n] {
		n++
	}
	s.pop(len(s.stack) - n)
	for _, t := range pc[n:] {
		s.push(t)
	}
	for _, t := range extra {
		s.push(t)
	}
	s.buf.WriteString("(check-sat)\n(echo \"gv-done\")\n")
	t0 := time.Now()
	script := s.buf.String()
	s.buf.Reset()
	type res struct {
		r  SatRes
		ok bool
	}
	ch := make(chan res, 1)
	p := s.p
	go func() {
		if _, err := io.WriteString(p.in, script); err != nil {
			ch <- res{}
			return
		}
		r := Unknown
		bad := false
		for {
			l, err := p.out.ReadString('\n')
			if err != nil {
				ch <- res{}
				return
			}
			l = strings.TrimSpace(l)
			switch {
			case l == "sat":
				r = Sat
			case l == "unsat":
				r = Unsat
			case strings.HasPrefix(l, "(error"):
				bad = true
				if dumpDir != "" {
					fmt.Println("INC ERROR", l)
				}
			}
			if strings.Contains(l, "gv-done") {
				break
			}
		}
		if bad {
			r = Unknown
		}
		ch <- res{r, !bad}
	}()
	tm := time.NewTimer(4 * time.Second)
	defer tm.Stop()
	var out SatRes
	select {
	case r := <-ch:
		out = r.r
		if !r.ok {
			s.reset()
			statMu.Lock()
			incErrs++
			statMu.Unlock()
			return Unknown
		}
	case <-tm.C:
		s.reset()
		out = Unknown
	}
	if dumpDir != "" && time.Since(t0) > 50*time.Millisecond {
		fmt.Printf("INC SLOW %v %v %v pc=%d new=%d bytes=%d: %.1500s\n", time.Since(t0), out, extra, len(pc), len(pc)-n, len(script), script)
	}
	statMu.Lock()
	statTime["z3-new"] += time.Since(t0).Seconds()
	statMu.Unlock()
	if s.p != nil {
		s.pop(len(extra))
	}
	return out
}

var incErrs int
