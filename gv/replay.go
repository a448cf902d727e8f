package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type execResult struct {
	Kind    string // ok, fail, panic, skip, cannot-generate, none
	Detail  string
	Input   string
	Ran     int
	Skipped int
}

type execJob struct {
	id      string
	dir     string
	pkg     string
	code    string // statement(s)
	imports map[string]string
	race    bool
	sched   bool
	regen   bool
	par     int // processes
}

// runExec compiles contract instances against the real package (build overlay) and runs them.
func runExec(jobs []execJob, skipFiles map[string]bool, timeout time.Duration) (map[string]execResult, string) {
	res := map[string]execResult{}
	var log bytes.Buffer
	byDir := map[string][]execJob{}
	for _, j := range jobs {
		d := j.dir
		if j.sched {
			d += "#sched"
		}
		if j.regen {
			d += "#regen"
		}
		if j.race {
			d += "#race"
		}
		if j.par > 1 {
			d += fmt.Sprintf("#par%d", j.par)
		}
		byDir[d] = append(byDir[d], j)
	}
	tmp, err := os.MkdirTemp("", "gvreplay")
	if err != nil {
		return res, err.Error()
	}
	defer os.RemoveAll(tmp)
	ov, _ := overlay()
	for k, f := range ov {
		if skipFiles[f] {
			delete(ov, k)
		}
	}
	instr := map[string]string{}
	for _, j := range jobs {
		if j.sched {
			if instr, err = instrument(tmp); err != nil {
				return res, err.Error()
			}
			break
		}
	}
	gen := map[string]string{}
	var genErr error
	for _, j := range jobs {
		if j.regen {
			gen, genErr = regenerate(tmp, ov)
			break
		}
	}
	var dirs []string
	for d := range byDir {
		dirs = append(dirs, d)
	}
	sort.Strings(dirs)
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan struct{}, 4)
	for n, d := range dirs {
		wg.Add(1)
		sem <- struct{}{}
		go func(n int, d string) {
			defer wg.Done()
			defer func() { <-sem }()
			js := byDir[d]
			d, parS, _ := strings.Cut(d, "#par")
			par, _ := strconv.Atoi(parS)
			d, race := strings.CutSuffix(d, "#race")
			d, regen := strings.CutSuffix(d, "#regen")
			if regen && genErr != nil {
				mu.Lock()
				defer mu.Unlock()
				fmt.Fprintf(&log, "regenerating the generated code: %v\n", genErr)
				return
			}
			d, sched := strings.CutSuffix(d, "#sched")
			imps := map[string]string{}
			var body strings.Builder
			for i, j := range js {
				fmt.Fprintf(&body, "\tt.Run(\"job%d\", func(t *testing.T) {\n", i)
				body.WriteString(renameImports(j, imps))
				body.WriteString("\n\t})\n")
			}
			var src strings.Builder
			fmt.Fprintf(&src, "package %s\n\nimport (\n\t\"testing\"\n\tgvtime \"time\"\n\tgv \"%s/internal/gv\"\n", js[0].pkg, repoMod)
			var ps []string
			for p := range imps {
				ps = append(ps, p)
			}
			sort.Strings(ps)
			for _, p := range ps {
				fmt.Fprintf(&src, "\t%s %q\n", imps[p], p)
			}
			src.WriteString(")\n\nvar _ = gv.Run\nvar _ gvtime.Duration\n\nfunc TestGVReplay(t *testing.T) {\n")
			src.WriteString(body.String())
			src.WriteString("}\n")
			f := filepath.Join(tmp, fmt.Sprintf("t%d_test.go", n))
			os.WriteFile(f, []byte(src.String()), 0o644)
			o := map[string]string{}
			for k, v := range ov {
				o[k] = v
			}
			if sched {
				for k, v := range instr {
					o[k] = v
				}
			}
			if regen {
				for k, v := range gen {
					o[k] = v
				}
			}
			o[filepath.Join(repoDir, d, "zz_gv_replay_test.go")] = f
			// the package's own tests are not needed (and may not compile on a changed tree)
			ents, _ := os.ReadDir(filepath.Join(repoDir, d))
			for _, e := range ents {
				if strings.HasSuffix(e.Name(), "_test.go") {
					o[filepath.Join(repoDir, d, e.Name())] = ""
				}
			}
			oj, _ := json.Marshal(map[string]any{"Replace": o})
			oj2 := filepath.Join(tmp, fmt.Sprintf("o%d.json", n))
			os.WriteFile(oj2, oj, 0o644)
			bin := filepath.Join(tmp, fmt.Sprintf("b%d", n))
			args := []string{"test", "-c", "-o", bin, "-overlay", oj2, "-vet=off"}
			if race {
				args = append(args, "-race")
			}
			cmd := exec.Command("go", append(args, "./"+d)...)
			cmd.Dir = repoDir
			cmd.Env = os.Environ()
			if race {
				cmd.Env = append(cmd.Env, "CGO_ENABLED=1")
			}
			out, err := cmd.CombinedOutput()
			type ended struct {
				out []byte
				err error
			}
			all := []ended{{out, err}}
			if err == nil {
				all = make([]ended, max(par, 1))
				var wg sync.WaitGroup
				for i := range all {
					wg.Add(1)
					go func() {
						defer wg.Done()
						cmd := exec.Command(bin, "-test.v", "-test.count=1", fmt.Sprintf("-test.timeout=%ds", int(timeout.Seconds())), "-test.run=^TestGVReplay$")
						cmd.Dir = filepath.Join(repoDir, d)
						if _, e := os.Stat(cmd.Dir); e != nil { // a package of contracts only
							cmd.Dir = repoDir
						}
						cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1", fmt.Sprintf("GV_SHARD=%d", i))
						all[i].out, all[i].err = cmd.CombinedOutput()
					}()
				}
				wg.Wait()
			}
			mu.Lock()
			defer mu.Unlock()
			for _, e := range all {
				out, err := e.out, e.err
				if err != nil {
					fmt.Fprintf(&log, "go test ./%s: %v\n", d, err)
					if regen {
						log.WriteString("with the generated code replaced by what the generators produce\n")
					}
					if !strings.Contains(string(out), "GVREPLAY") && !strings.Contains(string(out), "GVSEARCH") && !strings.Contains(string(out), "GVRUN") {
						log.WriteString(trunc(string(out), 4000))
					}
				}
				seen := map[string]bool{}
				for _, l := range strings.Split(string(out), "\n") {
					switch {
					case strings.HasPrefix(l, "GVREPLAY "):
						w := strings.SplitN(l, " ", 4)
						r := execResult{Kind: w[2]}
						if len(w) > 3 {
							r.Detail, _ = strconv.Unquote(w[3])
						}
						res[w[1]] = r
						seen[w[1]] = true
					case strings.HasPrefix(l, "GVSEARCH "):
						w := strings.SplitN(l, " ", 6)
						r := execResult{Kind: w[2]}
						r.Ran, _ = strconv.Atoi(w[3])
						r.Skipped, _ = strconv.Atoi(w[4])
						if len(w) > 5 {
							q, err := strconv.QuotedPrefix(w[5])
							if err == nil {
								r.Detail, _ = strconv.Unquote(q)
								r.Input, _ = strconv.Unquote(strings.TrimSpace(w[5][len(q):]))
							}
						}
						if x, ok := res[w[1]]; ok {
							r.Ran += x.Ran
							r.Skipped += x.Skipped
							if r.Kind == "ok" {
								r.Kind, r.Detail, r.Input = x.Kind, x.Detail, x.Input
							}
						}
						res[w[1]] = r
						seen[w[1]] = true
					}
				}
				// the process died inside a job: the first job without an answer (fatal error, deadlock, timeout)
				if err != nil && len(seen) > 0 && len(seen) < len(js) || (err != nil && len(seen) == 0 && (strings.Contains(string(out), "fatal error:") || strings.Contains(string(out), "WARNING: DATA RACE") || strings.Contains(string(out), "panic: "))) {
					for _, j := range js {
						if !seen[j.id] {
							d, in := "process ended", ""
							for _, l := range strings.Split(string(out), "\n") {
								if w := strings.SplitN(l, " ", 3); len(w) == 3 && w[0] == "GVRUN" && w[1] == j.id {
									in, _ = strconv.Unquote(w[2])
								}
							}
							for _, l := range strings.Split(string(out), "\n") {
								if strings.HasPrefix(l, "WARNING: DATA RACE") {
									d = "no data race\n" + trunc(string(out)[strings.Index(string(out), l):], 6000)
									break
								}
								if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "panic: ") {
									d = trunc(string(out)[strings.Index(string(out), l):], 4000)
									break
								}
							}
							res[j.id] = execResult{Kind: "panic", Detail: d, Input: in}
							break
						}
					}
				}
			}
		}(n, d)
	}
	wg.Wait()
	return res, log.String()
}

// renameImports gives the job's import aliases file-unique names.
func renameImports(j execJob, imps map[string]string) string {
	code := j.code
	for p, a := range j.imports {
		n, ok := imps[p]
		if !ok {
			n = fmt.Sprintf("gvi%d", len(imps))
			imps[p] = n
		}
		code = replaceIdent(code, a+".", n+".")
	}
	return code
}

func replaceIdent(s, a, b string) string {
	var sb strings.Builder
	for {
		i := strings.Index(s, a)
		if i < 0 {
			sb.WriteString(s)
			return sb.String()
		}
		if i > 0 && (isIdent(s[i-1]) || s[i-1] == '.') {
			sb.WriteString(s[:i+len(a)])
			s = s[i+len(a):]
			continue
		}
		sb.WriteString(s[:i])
		sb.WriteString(b)
		s = s[i+len(a):]
	}
}

func isIdent(c byte) bool {
	return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

func replayCode(id string, k *Contract, ri *ReplayInput) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "\t\tgv.Replay(%q, func() {\n", id)
	for _, d := range ri.Decls {
		sb.WriteString("\t\t\t" + d + "\n")
		if i := strings.Index(d, " := "); i > 0 {
			sb.WriteString("\t\t\t_ = " + d[:i] + "\n")
		}
	}
	sb.WriteString("\t\t\t" + k.Fn.Name() + "(" + strings.Join(ri.Args, ", ") + ")\n\t\t})")
	return sb.String()
}

func searchCode(id string, k *Contract, seed int64, budget time.Duration, max int) string {
	gen := "nil"
	g := "gvg_" + strings.TrimPrefix(k.Fn.Name(), "gvc_")
	if k.Pkg.Func(g) != nil {
		gen = g
	}
	if k.race {
		return fmt.Sprintf("\t\tgv.Announced = true\n\t\tdefer func() { gv.Announced = false }()\n\t\tgv.Scheduled = %v\n\t\tgv.Search(%q, %s, %s, %d, %d, %d)", k.sched, id, k.Fn.Name(), gen, seed, int64(budget), max)
	}
	if k.sched {
		return fmt.Sprintf("\t\tgv.Scheduled = true\n\t\tdefer func() { gv.Scheduled = false }()\n\t\tgv.Search(%q, %s, %s, %d, %d, %d)", id, k.Fn.Name(), gen, seed, int64(budget), max)
	}
	return fmt.Sprintf("\t\tgv.Search(%q, %s, %s, %d, %d, %d)", id, k.Fn.Name(), gen, seed, int64(budget), max)
}
