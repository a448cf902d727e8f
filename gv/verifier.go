package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"runtime/debug"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const repoMod = "github.com/smart-core-os/sc-golang"

// Contract is one contract function gvc_* of /verif/contracts.
type Contract struct {
	Name    string // package-relative name
	Fn      *ssa.Function
	Pkg     *ssa.Package
	Dir     string // repo-relative package directory
	Props   []string
	For     string   // function under contract
	Covers  []string // further functions whose behaviour the contract fixes
	fp      bool
	unroll  int
	summary bool
	guard   bool
	hb      bool
	budget  time.Duration
	target  *ssa.Function
	file    string
	norun   bool // not executable on generated inputs
	doc     string
	lemma   bool
	runOnly string // outside the verifier's reach: executed on generated inputs only, with this stated bound
	race    bool
	once    bool // a single execution
	sched   bool // run with the schedule perturbed
	delays  int  // departures from the schedule that are explored
	par     int  // processes that run it
	regen   bool // run with the generated code regenerated
	runSecs float64
}

type Verifier struct {
	zeroMemo    sync.Map // of *ssa.Package: neverStored
	inertMemo   sync.Map // of *ssa.Function: whether a goroutine of it only observes
	timeout     time.Duration
	prog        *ssa.Program
	fset        *token.FileSet
	contracts   []*Contract
	byTarget    map[*ssa.Function]*Contract
	abstract    map[*ssa.Function]bool // ghost functions left uninterpreted
	onAccess    func(x *Exec, st *State, p Ptr, write bool)
	onLock      func(x *Exec, st *State, p Ptr, write bool)
	strMu       sync.Mutex
	strs        map[string]bool
	tier        string
	pkgs        []*packages.Package
	fnPkgs      map[string]*ssa.Package
	skipped     map[string]bool
	driverViols []violation
	driverNotes []string
	driverRuns  int
}

func (v *Verifier) noteStr(s string) {
	v.strMu.Lock()
	v.strs[s] = true
	v.strMu.Unlock()
}

func (v *Verifier) summary(x *Exec, fn *ssa.Function) *Contract {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	k := v.byTarget[fn]
	if k == nil || k == x.contract {
		return nil
	}
	for _, p := range x.contract.Props {
		if slices.Contains(k.Props, p) {
			return k
		}
	}
	return nil
}

func (v *Verifier) forName(fn *ssa.Function) string {
	for _, k := range v.contracts {
		if k.Fn == fn {
			return k.For
		}
	}
	return fn.Name()
}

func pkgOf(fn *ssa.Function) *types.Package {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg
	}
	if fn.Object() != nil {
		return fn.Object().Pkg()
	}
	if r := fn.Signature.Recv(); r != nil {
		if p, _ := namedOf(r.Type()); p != nil {
			return p
		}
	}
	return nil
}

func namedOf(t types.Type) (*types.Package, string) {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Obj().Pkg(), n.Obj().Name()
	}
	return nil, ""
}

func (v *Verifier) isRepo(fn *ssa.Function) bool {
	p := pkgOf(fn)
	return p != nil && strings.HasPrefix(p.Path(), repoMod) && !v.isGhost(fn)
}

func (v *Verifier) isGhost(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Pos() == token.NoPos {
		return false
	}
	f := v.fset.Position(fn.Pos()).Filename
	return strings.HasPrefix(filepath.Base(f), "zz_gv_")
}

// packages whose functions are executed symbolically when called (everything else needs a model)
var inlinePkgs = []string{"github.com/smart-core-os/sc-api/go", "slices", "cmp", "maps", "golang.org/x/exp/slices", "golang.org/x/exp/maps", "golang.org/x/exp/constraints", "container/list", "github.com/mennanov/fmutils", "google.golang.org/grpc/metadata"}

func (v *Verifier) mayInline(fn *ssa.Function) bool {
	if v.isRepo(fn) || v.isGhost(fn) {
		return true
	}
	if fn.Synthetic != "" || strings.HasPrefix(fn.RelString(nil), "(*google.golang.org/grpc.Generic") {
		return true
	}
	p := pkgOf(fn)
	if p == nil {
		return true
	}
	for _, q := range inlinePkgs {
		if p.Path() == q || strings.HasPrefix(p.Path(), q+"/") {
			return true
		}
	}
	switch fn.RelString(nil) {
	case "(time.Duration).Nanoseconds", "(time.Duration).Milliseconds", "(time.Duration).Abs", "(time.Duration).Truncate",
		"(*google.golang.org/protobuf/types/known/timestamppb.Timestamp).GetSeconds", "(*google.golang.org/protobuf/types/known/timestamppb.Timestamp).GetNanos",
		"(*google.golang.org/protobuf/types/known/durationpb.Duration).GetSeconds", "(*google.golang.org/protobuf/types/known/durationpb.Duration).GetNanos",
		"(*google.golang.org/protobuf/types/known/fieldmaskpb.FieldMask).GetPaths",
		"(*google.golang.org/protobuf/types/known/timestamppb.Timestamp).IsValid", "(*google.golang.org/protobuf/types/known/timestamppb.Timestamp).check",
		"google.golang.org/grpc/status.New", "google.golang.org/grpc/internal/status.New",
		"(*google.golang.org/grpc/internal/status.Status).Code", "(*google.golang.org/grpc/internal/status.Status).Message",
		"google.golang.org/grpc.Header", "google.golang.org/grpc.Trailer", "google.golang.org/grpc.StaticMethod",
		"google.golang.org/grpc.SetHeader", "google.golang.org/grpc.SendHeader", "google.golang.org/grpc.SetTrailer",
		"google.golang.org/grpc.NewContextWithServerTransportStream", "google.golang.org/grpc.ServerTransportStreamFromContext",
		"sort.Float64sAreSorted":
		return true
	}
	return false
}

// overlay maps /repo paths to contract sources.
func overlay() (map[string]string, error) {
	out := map[string]string{}
	root := filepath.Join(verifDir, "contracts")
	err := filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(root, p)
		out[filepath.Join(repoDir, rel)] = p
		return nil
	})
	return out, err
}

func fileProps(p string) []string {
	b, _ := os.ReadFile(p)
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "//gv:property ") {
			out = append(out, strings.Fields(l)[1:]...)
		}
	}
	return out
}

// optionalFile: contracts of internal functions, which need not exist.
func optionalFile(p string) bool {
	b, _ := os.ReadFile(p)
	return strings.Contains(string(b), "\n//gv:optional\n")
}

func has(l []string, s string) bool {
	for _, e := range l {
		if e == s {
			return true
		}
	}
	return false
}

var skipErr = map[string]string{}

// load type-checks and builds SSA for the packages holding contracts of the property.
func load(prop string, extra []string) (*Verifier, error) {
	ov, err := overlay()
	if err != nil {
		return nil, err
	}
	pats := map[string]bool{}
	bytes := map[string][]byte{}
	for to, from := range ov {
		b, err := os.ReadFile(from)
		if err != nil {
			return nil, err
		}
		bytes[to] = b
		rel, _ := filepath.Rel(repoDir, filepath.Dir(to))
		if has(fileProps(from), prop) || prop == "all" {
			if rel != "internal/gv" {
				pats["./"+rel] = true
			}
		}
	}
	if len(pats) == 0 {
		return nil, fmt.Errorf("no contracts for %s", prop)
	}
	var pl []string
	for p := range pats {
		pl = append(pl, p)
	}
	pl = append(pl, extra...)
	sort.Strings(pl)
	var cfg *packages.Config
	var pkgs []*packages.Package
	skipped := map[string]bool{}
	for try := 0; ; try++ {
		cfg = &packages.Config{Mode: packages.LoadAllSyntax, Dir: repoDir, Overlay: bytes, Fset: token.NewFileSet()}
		pkgs, err = packages.Load(cfg, pl...)
		if err != nil {
			return nil, err
		}
		var errs []string
		bad := map[string]bool{}
		packages.Visit(pkgs, nil, func(p *packages.Package) {
			for _, e := range p.Errors {
				errs = append(errs, e.Error())
				f := e.Pos
				for i := 0; i < 2; i++ {
					if j := strings.LastIndex(f, ":"); j > 0 {
						f = f[:j]
					}
				}
				if strings.HasPrefix(filepath.Base(f), "zz_gv_") {
					bad[f] = true
				}
			}
		})
		if len(errs) == 0 {
			break
		}
		if len(bad) == 0 || try > 6 {
			return nil, fmt.Errorf("loading: %s", strings.Join(errs, "\n"))
		}
		// contracts that no longer compile against the code are set aside (and reported)
		for f := range bad {
			if from, ok := ov[f]; ok {
				skipped[from] = true
				skipErr[from] = strings.Join(errs, "\n")
				delete(bytes, f)
				delete(ov, f)
			} else {
				return nil, fmt.Errorf("loading: %s", strings.Join(errs, "\n"))
			}
		}
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	v := &Verifier{prog: prog, fset: cfg.Fset, byTarget: map[*ssa.Function]*Contract{}, abstract: map[*ssa.Function]bool{}, strs: map[string]bool{}, pkgs: pkgs, timeout: 20 * time.Second, fnPkgs: map[string]*ssa.Package{}, skipped: skipped}
	_ = spkgs
	seen := map[*packages.Package]bool{}
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if seen[p] || !strings.HasPrefix(p.PkgPath, repoMod) {
			return
		}
		seen[p] = true
		sp := prog.Package(p.Types)
		for i, f := range p.Syntax {
			fn := p.CompiledGoFiles[i]
			if !strings.HasPrefix(filepath.Base(fn), "zz_gv_") {
				continue
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if ok && fd.Doc != nil {
					for _, c := range fd.Doc.List {
						if strings.HasPrefix(c.Text, "//gv:abstract") {
							v.abstract[sp.Func(fd.Name.Name)] = true
						}
					}
				}
				if !ok || fd.Recv != nil || !strings.HasPrefix(fd.Name.Name, "gvc_") {
					continue
				}
				k := &Contract{Name: p.Types.Name() + "." + fd.Name.Name, Fn: sp.Func(fd.Name.Name), Pkg: sp, file: fn, unroll: 12, budget: 300 * time.Second}
				k.Dir, _ = filepath.Rel(repoDir, filepath.Dir(fn))
				if fd.Doc != nil {
					for _, c := range fd.Doc.List {
						t := c.Text
						if !strings.HasPrefix(t, "//gv:") {
							k.doc += strings.TrimSpace(strings.TrimPrefix(t, "//")) + " "
							continue
						}
						w := strings.Fields(strings.TrimPrefix(t, "//gv:"))
						if len(w) == 0 {
							continue
						}
						switch w[0] {
						case "property":
							k.Props = append(k.Props, w[1:]...)
						case "for":
							k.For = w[1]
							k.Covers = w[2:]
						case "fp":
							k.fp = true
						case "unroll":
							k.unroll, _ = strconv.Atoi(w[1])
						case "summary":
							k.summary = true
						case "hb":
							k.hb = true
						case "guard":
							k.guard = true
						case "bounded":
							k.runOnly = strings.TrimSpace(strings.TrimPrefix(t, "//gv:bounded"))
						case "race":
							k.race = true
						case "once":
							k.once = true
						case "sched":
							k.sched = true
						case "delays":
							k.delays, _ = strconv.Atoi(w[1])
						case "par":
							k.par, _ = strconv.Atoi(w[1])
						case "regen":
							k.regen = true
						case "run":
							k.runSecs, _ = strconv.ParseFloat(w[1], 64)
						case "norun":
							k.norun = true
						case "budget":
							n, _ := strconv.Atoi(w[1])
							k.budget = time.Duration(n) * time.Second
						}
					}
				}
				if k.For == "" {
					k.For = fd.Name.Name
					k.lemma = true
				}
				v.contracts = append(v.contracts, k)
			}
		}
	})
	sort.Slice(v.contracts, func(i, j int) bool { return v.contracts[i].Name < v.contracts[j].Name })
	for _, k := range v.contracts {
		if k.summary {
			t := v.findFn(k)
			if t == nil {
				k.summary = false // nothing to summarise
				continue
			}
			k.target = t
			v.byTarget[t] = k
		}
	}
	return v, nil
}

// findFn resolves the function named in a contract: "Name" or "(*T).Name" in the contract's own package.
func (v *Verifier) findFn(k *Contract) *ssa.Function {
	n := k.For
	if !strings.HasPrefix(n, "(") {
		return k.Pkg.Func(n)
	}
	i := strings.Index(n, ").")
	tn, m := strings.TrimPrefix(n[1:i], "*"), n[i+2:]
	t := k.Pkg.Type(tn)
	if t == nil {
		return nil
	}
	ty := types.Type(t.Type())
	if n[1] == '*' {
		ty = types.NewPointer(ty)
	}
	return v.prog.LookupMethod(ty, k.Pkg.Pkg, m)
}

// Result of verifying one contract.
type Result struct {
	K         *Contract
	Obls      []*Obligation
	Bounds    []string
	Trusted   []string
	Inlined   []string
	Used      []string
	Paths     int
	Ended     int
	Seconds   float64
	Err       string
	UnReached []string
}

func (r *Result) ok() bool {
	if r.Err != "" {
		return false
	}
	for _, o := range r.Obls {
		if o.Status != "proved" {
			return false
		}
	}
	return true
}

func keysOf(m map[string]bool) []string {
	var o []string
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}

func (v *Verifier) newExec(k *Contract) *Exec {
	x := &Exec{c: NewCtx(), vf: v, contract: k,
		e:    &Eng{prog: v.prog, compCache: map[types.Type][]comp{}, structKeys: map[*types.Struct]string{}, oneofs: map[*types.Named][]int64{}, fp: k.fp},
		iptr: map[int]Ptr{}, grown: map[int]growth{}, boxes: map[int][]*Term{}, obls: map[string]*Obligation{}, maxSteps: 50000000,
		deadline: time.Now().Add(k.budget), unroll: k.unroll, feasMemo: map[string]SatRes{},
		globals: map[*ssa.Global]Ptr{}, gInit: map[*ssa.Package]bool{}, trusted: map[string]bool{}, inlined: map[string]bool{}, used: map[string]bool{},
		h0: map[string]*Term{}, timeOf: map[[2]int]*Term{}, durOf: map[[2]int]*Term{}, reached: map[string]bool{}, mustReach: map[string]bool{}, loops: map[*ssa.Function]*loopInfo{}}
	return x
}

func (v *Verifier) verify(k *Contract) (res *Result) {
	t0 := time.Now()
	res = &Result{K: k}
	if k.runOnly != "" {
		return res
	}
	x := v.newExec(k)
	defer func() {
		if r := recover(); r != nil {
			if os.Getenv("GV_PANIC") != "" {
				panic(r)
			}
			res.Err = fmt.Sprint(r)
			if _, ok := r.(unsupportedErr); !ok {
				res.Err += "\n" + string(debug.Stack())
			}
		}
		for _, n := range x.order {
			res.Obls = append(res.Obls, x.obls[n])
		}
		res.Bounds, res.Trusted, res.Inlined, res.Used = x.bounded, keysOf(x.trusted), keysOf(x.inlined), keysOf(x.used)
		res.Paths, res.Ended = x.paths, x.ended
		if x.partial {
			res.Bounds = append(res.Bounds, "exploration stopped at the time budget")
		}
		res.Seconds = time.Since(t0).Seconds()
		if x.inc != nil {
			x.inc.close()
		}
	}()
	st := newState()
	x.initAll(st, k.Pkg)
	st.dead = false
	x.entryHeap = cpHeap(st.heap)
	if k.hb {
		st.hb = newHB()
	}
	var args []Val
	for _, p := range k.Fn.Params {
		a := x.symVal(p.Name(), p.Type())
		args = append(args, a)
		x.inputs = append(x.inputs, inputVar{p.Name(), p.Type(), a})
		for _, f := range x.valFacts(a, p.Type()) {
			x.assume(st, f)
		}
	}
	x.pushFrame(st, nil, FuncV{Fn: k.Fn}, args)
	x.runAll(st, 0, func(s *State) {
		x.ended++
		if x.ended == 1 && x.feasible(s) == Unsat {
			x.ended = 0
		}
	})
	post := 0
	for _, o := range x.obls {
		if o.Kind == "post" || o.Kind == "safety" || o.Kind == "pre" {
			post++
		}
	}
	if x.ended == 0 {
		res.Err = "vacuous: no path satisfies the precondition and reaches the end of the contract"
	} else if post == 0 {
		res.Err = "vacuous: no obligation generated"
	}
	for r := range x.mustReach {
		if !x.reached[r] {
			res.UnReached = append(res.UnReached, r)
		}
	}
	if len(res.UnReached) > 0 && res.Err == "" {
		res.Err = "vacuous: never reached: " + strings.Join(res.UnReached, ", ")
	}
	return res
}

// initAll runs the initialisers of the repository packages a contract can reach.
func (x *Exec) initAll(st *State, pkg *ssa.Package) {
	var order []*ssa.Package
	seen := map[*types.Package]bool{}
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		if !strings.HasPrefix(p.Path(), repoMod) {
			if sp := x.e.prog.Package(p); sp != nil && (p.Path() == "io" || p.Path() == "context") { // its errors are distinct
				order = append(order, sp)
			}
			return
		}
		for _, i := range p.Imports() {
			visit(i)
		}
		if sp := x.e.prog.Package(p); sp != nil {
			order = append(order, sp)
		}
	}
	visit(pkg.Pkg)
	for p, globals := range x.vf.descs(pkg) {
		x.initGlobals(st, p, initSlice(p, globals))
	}
	for _, p := range order {
		x.initGlobals(st, p, nil)
	}
}

func (v *Verifier) runContracts(ks []*Contract, workers int) []*Result {
	out := make([]*Result, len(ks))
	var wg sync.WaitGroup
	sem := make(chan struct{}, workers)
	for i, k := range ks {
		wg.Add(1)
		sem <- struct{}{}
		go func(i int, k *Contract) {
			defer wg.Done()
			defer func() { <-sem }()
			out[i] = v.verify(k)
		}(i, k)
	}
	wg.Wait()
	return out
}
