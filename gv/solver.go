package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type unsupportedErr struct{ msg string }

func (u unsupportedErr) Error() string    { return "unsupported: " + u.msg }
func unsupported(m string) unsupportedErr { return unsupportedErr{m} }

type SatRes int

const (
	Unknown SatRes = iota
	Sat
	Unsat
)

func (r SatRes) String() string { return [...]string{"unknown", "sat", "unsat"}[r] }

// ---- statistics (per process)
var (
	statMu      sync.Mutex
	statBackend = map[string]int{}
	statTime    = map[string]float64{}
	queryCount  int64
)

type backend struct {
	name string
	bin  string
	args []string
}

var backends = map[string]backend{
	"z3-new": {"z3-new", "z3-new", []string{"-in"}},
	"z3":     {"z3", "z3", []string{"-in"}},
	"cvc5":   {"cvc5", "cvc5", []string{"--lang=smt2", "--produce-models", "--incremental", "--quiet"}},
}

type proc struct {
	b   backend
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

var poolMu sync.Mutex
var pool = map[string][]*proc{}

func getProc(name string) (*proc, error) {
	poolMu.Lock()
	l := pool[name]
	if len(l) > 0 {
		p := l[len(l)-1]
		pool[name] = l[:len(l)-1]
		poolMu.Unlock()
		return p, nil
	}
	poolMu.Unlock()
	b := backends[name]
	cmd := exec.Command(b.bin, b.args...)
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	return &proc{b: b, cmd: cmd, in: in, out: bufio.NewReaderSize(out, 1<<16)}, nil
}

func putProc(p *proc) {
	poolMu.Lock()
	pool[p.b.name] = append(pool[p.b.name], p)
	poolMu.Unlock()
}

func (p *proc) kill() {
	p.cmd.Process.Kill()
	go p.cmd.Wait()
}

func closePool() {
	poolMu.Lock()
	defer poolMu.Unlock()
	for _, l := range pool {
		for _, p := range l {
			p.kill()
		}
	}
	pool = map[string][]*proc{}
}

// script renders assertions as SMT-LIB (without check-sat).
func (c *Ctx) script(asserts []*Term) string {
	var sb strings.Builder
	// collect
	vars := map[string]*Term{}
	funs := map[string]bool{}
	refs := map[int]int{}
	sortUsed := map[string]bool{}
	var order []*Term
	seen := map[int]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		refs[t.ID]++
		if seen[t.ID] {
			return
		}
		seen[t.ID] = true
		if strings.Contains(t.S.Name, "MsgVal") {
			sortUsed["MsgVal"] = true
		}
		switch t.Op {
		case "var":
			vars[t.Name] = t
		case "app":
			funs[t.Name] = true
		case "const":
			if t.S == MsgS {
				vars[strings.Trim(t.Name, "|")] = t
			}
		}
		for _, a := range t.Args {
			walk(a)
		}
		for _, a := range t.Pat {
			walk(a)
		}
		order = append(order, t)
	}
	for _, a := range asserts {
		walk(a)
	}
	for f := range funs {
		if strings.Contains(c.funs[f], "MsgVal") {
			sortUsed["MsgVal"] = true
		}
	}
	if sortUsed["MsgVal"] {
		sb.WriteString("(declare-sort MsgVal 0)\n")
	}
	var vn []string
	for n := range vars {
		vn = append(vn, n)
	}
	sort.Strings(vn)
	for _, n := range vn {
		fmt.Fprintf(&sb, "(declare-const |%s| %s)\n", n, vars[n].S.Name)
	}
	var fn []string
	for n := range funs {
		fn = append(fn, n)
	}
	sort.Strings(fn)
	for _, n := range fn {
		sb.WriteString(c.funs[n] + "\n")
	}
	names := map[int]string{}
	for _, t := range order {
		if len(t.Args) > 0 && !t.Bnd && refs[t.ID] > 1 {
			var d strings.Builder
			wr1(&d, t, names)
			if d.Len() < 24 {
				continue
			}
			n := fmt.Sprintf("t!%d", t.ID)
			fmt.Fprintf(&sb, "(define-fun %s () %s %s)\n", n, t.S.Name, d.String())
			names[t.ID] = n
		}
	}
	for _, a := range asserts {
		sb.WriteString("(assert ")
		wr(&sb, a, names)
		sb.WriteString(")\n")
	}
	return sb.String()
}

var dumpDir = os.Getenv("GV_DUMP")

// runOne runs a script on one backend with a timeout; models are requested for the given terms.
func (c *Ctx) runOne(name, script string, timeout time.Duration, want []*Term, stop <-chan struct{}) (SatRes, []string) {
	p, err := getProc(name)
	if err != nil {
		return Unknown, nil
	}
	t0 := time.Now()
	var full strings.Builder
	full.WriteString("(reset)\n")
	if name == "cvc5" {
		full.WriteString("(set-option :produce-models true)\n")
		fmt.Fprintf(&full, "(set-option :tlimit-per %d)\n", timeout.Milliseconds())
	} else {
		fmt.Fprintf(&full, "(set-option :timeout %d)\n", timeout.Milliseconds())
	}
	full.WriteString("(set-logic ALL)\n")
	full.WriteString(script)
	full.WriteString("(check-sat)\n(echo \"gv-done\")\n")
	type res struct {
		r    SatRes
		vals []string
		ok   bool
	}
	ch := make(chan res, 1)
	go func() {
		if _, err := io.WriteString(p.in, full.String()); err != nil {
			ch <- res{}
			return
		}
		r := Unknown
		errs := ""
		for {
			l, err := p.out.ReadString('\n')
			if err != nil {
				ch <- res{}
				return
			}
			l = strings.TrimSpace(l)
			switch {
			case l == "sat":
				r = Sat
			case l == "unsat":
				r = Unsat
			case strings.HasPrefix(l, "(error"):
				errs += l
			}
			if strings.Contains(l, "gv-done") {
				break
			}
		}
		if errs != "" {
			if dumpDir != "" {
				os.WriteFile(fmt.Sprintf("%s/err-%s-%d.smt2", dumpDir, name, time.Now().UnixNano()), []byte(full.String()+"\n;"+errs), 0o644)
			}
			ch <- res{r: Unknown, ok: true}
			return
		}
		var vals []string
		if r == Sat && len(want) > 0 {
			for _, w := range want {
				io.WriteString(p.in, "(get-value ("+w.String()+"))\n(echo \"gv-val\")\n")
				var v strings.Builder
				for {
					l, err := p.out.ReadString('\n')
					if err != nil {
						ch <- res{}
						return
					}
					if strings.Contains(l, "gv-val") {
						break
					}
					v.WriteString(l)
				}
				vals = append(vals, strings.TrimSpace(v.String()))
			}
		}
		ch <- res{r, vals, true}
	}()
	tm := time.NewTimer(timeout + 2*time.Second)
	defer tm.Stop()
	select {
	case r := <-ch:
		if !r.ok {
			p.kill()
			return Unknown, nil
		}
		putProc(p)
		statMu.Lock()
		statTime[name] += time.Since(t0).Seconds()
		statMu.Unlock()
		return r.r, r.vals
	case <-tm.C:
	case <-stop:
	}
	p.kill()
	statMu.Lock()
	statTime[name] += time.Since(t0).Seconds()
	statMu.Unlock()
	return Unknown, nil
}

// Check decides satisfiability of the conjunction. full selects the portfolio.
func (c *Ctx) Check(asserts []*Term, timeout time.Duration, full bool) (SatRes, string) {
	for _, a := range asserts {
		if a.IsFalse() {
			return Unsat, "simplifier"
		}
	}
	atomic.AddInt64(&queryCount, 1)
	s := c.script(asserts)
	if dumpDir != "" {
		os.WriteFile(fmt.Sprintf("%s/q-%d.smt2", dumpDir, time.Now().UnixNano()), []byte(s+"(check-sat)\n"), 0o644)
	}
	t1 := timeout
	if full && t1 > 3*time.Second {
		t1 = 3 * time.Second
	}
	r, _ := c.runOne("z3-new", s, t1, nil, nil)
	if r != Unknown || !full {
		return r, "z3-new"
	}
	type ans struct {
		r SatRes
		b string
	}
	ch := make(chan ans, 3)
	stop := make(chan struct{})
	names := []string{"z3-new", "z3", "cvc5"}
	for _, b := range names {
		go func(b string) {
			r, _ := c.runOne(b, s, timeout, nil, stop)
			ch <- ans{r, b}
		}(b)
	}
	var out ans
	for range names {
		a := <-ch
		if a.r != Unknown {
			out = a
			break
		}
	}
	close(stop)
	return out.r, out.b
}

// Model evaluates terms in a model of the asserts.
func (c *Ctx) Model(asserts []*Term, want []*Term, timeout time.Duration) ([]string, bool) {
	s := c.script(append(append([]*Term{}, asserts...), c.wantAsserts(want)...))
	for _, b := range []string{"z3-new", "z3"} {
		r, vals := c.runOne(b, s, timeout, want, nil)
		if r == Sat {
			return vals, true
		}
	}
	return nil, false
}

// wantAsserts mentions the wanted terms so that their symbols are declared.
func (c *Ctx) wantAsserts(want []*Term) []*Term {
	var out []*Term
	for _, w := range want {
		out = append(out, c.mk(&Term{Op: "=", S: BoolS, Args: []*Term{w, w}}))
	}
	return out
}
