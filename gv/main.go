package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/pprof"
	"strings"
	"time"
)

var (
	verifDir = "/verif"
	repoDir  = "/repo"
)

func main() {
	prop := flag.String("property", "", "property id")
	only := flag.String("contract", "", "only contracts whose name contains this")
	verbose := flag.Bool("v", false, "print every obligation")
	noreplay := flag.Bool("noreplay", false, "no replay")
	prof := flag.String("prof", "", "cpu profile")
	flag.StringVar(&repoDir, "repo", "/repo", "repository")
	flag.StringVar(&verifDir, "verif", "/verif", "verification directory")
	flag.Parse()
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	code := check(*prop, tier, *only, *verbose, *noreplay)
	closePool()
	if *prof != "" {
		pprof.StopCPUProfile()
	}
	os.Exit(code)
}

func check(prop, tier, only string, verbose, noreplay bool) int {
	t0 := time.Now()
	v, err := load(prop, nil)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	v.tier = tier
	if tier == "thorough" {
		v.timeout = 120 * time.Second
	}
	var ks []*Contract
	for _, k := range v.contracts {
		if !has(k.Props, prop) && prop != "all" {
			continue
		}
		if only != "" && !strings.Contains(k.Name, only) {
			continue
		}
		ks = append(ks, k)
	}
	fmt.Printf("%s: %d contracts loaded in %.1fs\n", prop, len(ks), time.Since(t0).Seconds())
	rs := v.runContracts(ks, 8)
	return report(v, prop, tier, rs, verbose, noreplay, t0)
}
