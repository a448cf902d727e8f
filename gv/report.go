package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

type violation struct {
	contract   string
	obligation string
	text       string
	concrete   bool
}

func seed() int64 {
	n, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return n
}

// knownFindings reads "KNOWN-FINDING property=C18 contract=<name> obligation=<text>" lines.
func knownFindings(prop string) map[string]string {
	out := map[string]string{}
	b, _ := os.ReadFile(filepath.Join(verifDir, "KNOWN-FINDINGS"))
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "KNOWN-FINDING: property="+prop+" ") {
			continue
		}
		if i := strings.Index(l, "key=\""); i >= 0 {
			j := strings.Index(l[i+5:], "\"")
			out[l[i+5:i+5+j]] = l
		}
	}
	return out
}

func report(v *Verifier, prop, tier string, rs []*Result, verbose, noreplay bool, t0 time.Time) int {
	var jobs []execJob
	type ref struct {
		r *Result
		o *Obligation
	}
	replays := map[string]ref{}
	searches := map[string]*Result{}
	for i, r := range rs {
		for j, o := range r.Obls {
			if o.Status == "proved" {
				continue
			}
			if ri, ok := o.Inputs.(*ReplayInput); ok && ri != nil && !r.K.norun {
				id := fmt.Sprintf("r%d_%d", i, j)
				replays[id] = ref{r, o}
				jobs = append(jobs, execJob{id: id, dir: r.K.Dir, pkg: r.K.Pkg.Pkg.Name(), code: replayCode(id, r.K, ri), imports: ri.Imports})
			}
		}
		if !r.K.norun {
			id := fmt.Sprintf("s%d", i)
			b, max := 1500*time.Millisecond, 3000
			if !r.ok() {
				b, max = 12*time.Second, 400000
			} else if tier == "thorough" {
				b, max = 15*time.Second, 400000
			}
			if r.K.runOnly != "" && tier != "thorough" {
				b, max = 6*time.Second, 400000
			}
			if r.K.runSecs > 0 && r.ok() && tier != "thorough" {
				b, max = time.Duration(r.K.runSecs*float64(time.Second)), 400000
			}
			if r.K.runOnly != "" && tier == "thorough" {
				b = 60 * time.Second
			}
			if r.K.once {
				max = 1
			}
			searches[id] = r
			jobs = append(jobs, execJob{par: r.K.par, race: r.K.race, regen: r.K.regen, sched: r.K.sched, id: id, dir: r.K.Dir, pkg: r.K.Pkg.Pkg.Name(), code: searchCode(id, r.K, seed()*1000003, b, max)})
		}
	}
	var ex map[string]execResult
	var log string
	if !noreplay && len(jobs) > 0 {
		ex, log = runExec(jobs, v.skipped, 240*time.Second)
	}
	if log != "" {
		fmt.Print(log)
	}
	var viols []violation
	var absent []string
	ran, execd := 0, 0
	var samples []string
	sres := map[*Result]execResult{}
	for id, r := range searches {
		if e, ok := ex[id]; ok {
			sres[r] = e
			ran += e.Ran
			if e.Ran > 0 {
				execd++
			}
		}
	}
	for f := range v.skipped {
		if has(fileProps(f), prop) {
			rel, _ := filepath.Rel(verifDir, f)
			if optionalFile(f) {
				fmt.Printf("note: the contracts in %s are about internal functions that no longer exist as such: not checked\n", rel)
				absent = append(absent, rel+": the internal functions these contracts are about no longer exist as such; not checked on this tree")
				continue
			}
			viols = append(viols, violation{rel, "the contracts apply to the code", "the contracts in " + rel + " no longer type-check against /repo, so their obligations cannot be generated:\n" + skipErr[f] + "\n", false})
		}
	}
	for i, r := range rs {
		se := sres[r]
		if r.K.runOnly != "" && !noreplay && se.Ran == 0 && se.Kind != "fail" && se.Kind != "panic" {
			viols = append(viols, violation{r.K.Name, "bounded check ran", "contract " + r.K.Name + " could not be executed\n" + log, false})
		}
		concreteDone := false
		if se.Kind == "fail" || se.Kind == "panic" {
			viols = append(viols, violation{r.K.Name, clauseName(se), fmt.Sprintf("contract %s (%s) run on the compiled code\nclause: %s\ninput: %s(%s)\noutcome: %s\n", r.K.Name, r.K.For, se.Detail, r.K.Fn.Name(), se.Input, se.Kind), true})
			concreteDone = true
		}
		if r.Err != "" {
			if !concreteDone {
				viols = append(viols, violation{r.K.Name, "contract verified", "contract " + r.K.Name + ": " + r.Err + "\n", false})
			}
		}
		for j, o := range r.Obls {
			if o.Status == "proved" {
				continue
			}
			id := fmt.Sprintf("r%d_%d", i, j)
			txt := fmt.Sprintf("contract %s for %s\nobligation (%s): %s\nverifier: %s\n%s\n", r.K.Name, r.K.For, o.Kind, o.Name, o.Status, o.Detail)
			if len(o.Model) > 0 {
				txt += "counterexample:\n    " + strings.Join(o.Model, "\n    ") + "\n"
			}
			con := false
			if e, ok := ex[id]; ok {
				txt += fmt.Sprintf("replayed on the compiled code: %s %s\n", e.Kind, e.Detail)
				con = e.Kind == "fail" || e.Kind == "panic"
			}
			if !con && concreteDone {
				txt += "a failing input for this contract was found by search: " + se.Input + " -> " + se.Detail + "\n"
				con = true
			}
			viols = append(viols, violation{r.K.Name, o.Name, txt, con})
		}
	}
	// ---- print
	obls, disch, bobls, bdisch := 0, 0, 0, 0
	backends := map[string]int{}
	trusted := map[string]bool{}
	inlined := map[string]bool{}
	var bounds, names, runOnly []string
	fns := map[string]bool{}
	secs := 0.0
	queries := 0
	for _, r := range rs {
		nq, np := 0, 0
		for _, o := range r.Obls {
			nq++
			queries += o.Queries
			secs += o.Seconds
			if o.Status == "proved" {
				np++
			}
			for _, b := range o.Backend {
				backends[b]++
			}
		}
		if r.K.runOnly != "" {
			runOnly = append(runOnly, fmt.Sprintf("%s [%s]: %d executions; bound: %s", r.K.Name, r.K.For, sres[r].Ran, r.K.runOnly))
		}
		if len(r.Bounds) > 0 {
			bobls += nq
			bdisch += np
			bounds = append(bounds, r.K.Name+": "+strings.Join(r.Bounds, ", "))
		} else {
			obls += nq
			disch += np
		}
		for _, t := range r.Trusted {
			trusted[t] = true
		}
		for _, t := range r.Inlined {
			inlined[t] = true
		}
		fns[strings.TrimPrefix(r.K.Dir+"."+r.K.For, "./")] = true
		names = append(names, fmt.Sprintf("%s [%s] %d/%d", r.K.Name, r.K.For, np, nq))
		s := "ok"
		if !r.ok() {
			s = "FAIL"
		}
		fmt.Printf("%-4s %-50s %3d/%3d obligations, %5d paths (%d ends), %.1fs %v run=%d/%s skipped=%d\n", s, r.K.Name, np, nq, r.Paths, r.Ended, r.Seconds, r.Bounds, sres[r].Ran, sres[r].Kind, sres[r].Skipped)
		if r.Err != "" {
			fmt.Printf("     error: %s\n", r.Err)
		}
		for _, o := range r.Obls {
			if verbose || o.Status != "proved" {
				fmt.Printf("     %-9s %-9s %s (%d queries, %v, %.1fs)\n", o.Status, o.Kind, o.Name, o.Queries, o.Backend, o.Seconds)
				if o.Status != "proved" && verbose {
					fmt.Println("        ", o.Detail)
				}
				if o.Status != "proved" {
					for _, m := range o.Model {
						fmt.Println("          ", m)
					}
				}
			}
		}
	}
	code := 0
	known := knownFindings(prop)
	dir := filepath.Join(verifDir, "replay", prop)
	os.RemoveAll(dir)
	sort.SliceStable(viols, func(i, j int) bool { return viols[i].concrete && !viols[j].concrete })
	nv := 0
	printed := map[string]bool{}
	for _, d := range v.driverViols {
		viols = append([]violation{d}, viols...)
	}
	for _, w := range viols {
		key := w.contract + " / " + w.obligation
		if l, ok := known[key]; ok {
			if !printed[l] {
				fmt.Println(l)
				printed[l] = true
			}
			continue
		}
		nv++
		if nv > 12 {
			continue
		}
		os.MkdirAll(dir, 0o755)
		p := filepath.Join(dir, fmt.Sprintf("%02d.txt", nv))
		os.WriteFile(p, []byte("property "+prop+"\n"+w.text), 0o644)
		sfx := ""
		if !w.concrete {
			sfx = " no-failing-input-found"
		}
		fmt.Printf("%s: %s\n", prop, key)
		if nv == 1 {
			fmt.Println("    " + strings.ReplaceAll(trunc(w.text, 5000), "\n", "\n    "))
		}
		fmt.Printf("VIOLATION property=%s replay=%s%s\n", prop, p, sfx)
		code = 1
	}
	for _, r := range rs {
		for _, o := range r.Obls {
			if len(samples) < 8 && o.Kind == "post" {
				samples = append(samples, fmt.Sprintf("%s: %s -> %s (%d paths, %v)", r.K.Name, o.Name, o.Status, o.Queries, o.Backend))
			}
		}
	}
	tb := []string{"gv verification-condition generator (/verif/gv) and golang.org/x/tools/go/ssa", "z3 5.x, z3 4.8, cvc5 1.1"}
	tb = append(tb, "models of: "+strings.Join(keysOf(trusted), ", "))
	level := "proof"
	if obls == 0 || bobls > 0 || len(runOnly) > 0 {
		level = "other"
	}
	cov := map[string]any{
		"obligations": obls, "discharged": disch,
		"bounded_obligations": bobls, "bounded_discharged": bdisch, "bounded_contracts": bounds,
		"checker_cmd":  "gv -property " + prop,
		"trusted_base": tb, "contracts": names, "functions_under_contract": keysOf(fns),
		"functions_executed_inline": keysOf(inlined), "backends": backends, "solver_seconds": round2(secs), "solver_queries": queryCount, "obligation_instances": queries,
		"evaluations": ran + v.driverRuns, "contracts_run_concretely": execd, "samples": samples,
		"explanation": "obligations: named clauses of contracts, each proved on every path for all inputs; bounded_obligations: the same with list lengths bounded as stated (never counted as proved); evaluations: contract instances additionally executed on generated inputs against the compiled code (a cross-check of the generator, and the replay search)",
	}
	if len(runOnly) > 0 {
		cov["bounded_executed_contracts"] = runOnly
	}
	if len(absent) > 0 {
		cov["contracts_not_applicable_to_this_tree"] = absent
	}
	assume := []string{
		"aliasing: distinct Go struct types do not overlap in memory (no unsafe); goroutine interleavings only where a contract models them",
		"time.Time is an integer instant (nanoseconds, no monotonic clock or location)", "strings are ordered by an order-preserving embedding into the rationals in [0,1)",
		"floats are IEEE bit-vectors in contracts marked gv:fp, exact reals otherwise",
		"loops are unrolled to closure under the stated bounds, or cut by checked invariants",
		"termination is not proved",
	}
	ev := map[string]any{"property": prop, "tier": tier, "seed": seed(), "level": level, "coverage": cov, "assumptions": assume, "wall_s": round2(time.Since(t0).Seconds()), "violations": nv}
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verifDir, "evidence", prop+".json"), b, 0o644)
	fmt.Printf("%s: %d/%d obligations discharged, %d/%d bounded, %d contract runs, %d violations, %.1fs\n", prop, disch, obls, bdisch, bobls, ran, nv, time.Since(t0).Seconds())
	return code
}

func clauseName(e execResult) string {
	if e.Kind == "panic" && !strings.HasPrefix(e.Detail, "no data race") {
		return "no panic"
	}
	d, _, _ := strings.Cut(e.Detail, "\n")
	return d
}

func round2(f float64) float64 { return float64(int(f*100)) / 100 }
