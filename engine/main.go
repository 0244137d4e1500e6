// Command gosym decides the properties of /verif/properties.jsonl by symbolic
// execution of the decoder's SSA form with an SMT solver behind it.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// PropConf is an entry of checks.json.
type PropConf struct {
	Harness     []string `json:"harness"`
	Quick       int      `json:"quick_s"`
	Thorough    int      `json:"thorough_s"`
	Bounds      []string `json:"bounds"`
	Outside     []string `json:"outside"`
	Assumptions []string `json:"assumptions"`
	MaxPrefix   int      `json:"max_prefix"`
	MaxSteps    int      `json:"max_steps"`
	Reach       []string `json:"reach"`
}

// Finding is an entry of known_findings.json.
type Finding struct {
	Property string     `json:"property"`
	Status   string     `json:"status"` // "known" or "fixed"
	Commit   string     `json:"commit,omitempty"`
	What     string     `json:"what"`
	Harness  string     `json:"harness,omitempty"`
	Inputs   []InputRec `json:"inputs,omitempty"`
	Line     string     `json:"line,omitempty"`
}

func main() {
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(12 << 30)
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gosym check|replay ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(cmdCheck(os.Args[2:]))
	case "replay":
		os.Exit(cmdReplay(os.Args[2:]))
	}
	fmt.Fprintln(os.Stderr, "unknown command")
	os.Exit(2)
}

func readJSON(path string, v any) error {
	b, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	return json.Unmarshal(b, v)
}

func fatal(f string, a ...any) int {
	fmt.Fprintf(os.Stderr, "gosym: "+f+"\n", a...)
	return 2
}

func cmdCheck(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	root := fs.String("root", "/verif", "")
	repo := fs.String("repo", "/repo", "")
	prop := fs.String("prop", "", "property id")
	tierS := fs.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	only := fs.String("only", "", "only harnesses containing this")
	pkgs := fs.String("pkgs", "", "harness packages instead of the property's")
	verbose := fs.Bool("v", false, "")
	workers := fs.Int("j", runtime.NumCPU(), "")
	limit := fs.Int("limit", 0, "seconds of exploration")
	keep := fs.Bool("all", false, "do not stop at the first violation")
	prof := fs.String("cpuprofile", "", "")
	fs.Parse(args)
	start := time.Now()
	if *tierS == "" {
		*tierS = "quick"
	}
	tier := 0
	if *tierS == "thorough" {
		tier = 1
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	var confs map[string]PropConf
	if err := readJSON(filepath.Join(*root, "checks.json"), &confs); err != nil {
		return fatal("%v", err)
	}
	pc, ok := confs[*prop]
	if *pkgs != "" {
		pc.Harness = strings.Split(*pkgs, ",")
		ok = true
	}
	if !ok {
		return fatal("unknown property %q", *prop)
	}
	secs := pc.Quick
	if secs == 0 {
		secs = 120
	}
	if tier == 1 {
		secs = pc.Thorough
		if secs == 0 {
			secs = 780
		}
	}
	if *limit > 0 {
		secs = *limit
	}
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	scratch, err := os.MkdirTemp("", "gosym")
	if err != nil {
		return fatal("%v", err)
	}
	defer os.RemoveAll(scratch)

	nat := &Native{root: *root, repo: *repo, scratch: scratch, tier: tier}
	cfg := &Config{maxSteps: 40_000_000, maxPrefix: 4, workers: *workers, seed: seed,
		solver: []string{"/usr/bin/z3", "-in", "-smt2"}, witEvery: 7, verbose: *verbose, tier: tier, split: os.Getenv("GOSYM_NOSPLIT") == ""}
	if pc.MaxPrefix > 0 {
		cfg.maxPrefix = pc.MaxPrefix
	}
	if pc.MaxSteps > 0 {
		cfg.maxSteps = pc.MaxSteps
	}
	l, err := load(*root, *repo, pc.Harness, tier)
	if err != nil {
		return fatal("load: %v", err)
	}
	if len(l.harness) == 0 {
		return fatal("no harness package of %s compiles against the tree", *prop)
	}
	tLoad := time.Since(start)
	fns := l.fns
	if *only != "" {
		var sel []*ssa.Function
		for _, f := range fns {
			if strings.Contains(f.Pkg.Pkg.Name()+"."+f.Name(), *only) {
				sel = append(sel, f)
			}
		}
		fns = sel
	}
	nat.files, nat.hpkgs, nat.fns = l.files, l.hpkgs, l.allHarness()
	nat.start()

	res := &Results{perH: map[string]*HStat{}, unsup: map[string]int{}, funcs: map[string]int64{}, natives: map[string]int64{},
		reach: map[string]int{}, witN: map[string]int{}, dumpN: map[string]int{}, partN: map[string]int{}, candN: map[string]int{}, cands: make(chan Candidate, 1<<18)}
	ws := make([]*Worker, cfg.workers)
	errs := make([]error, cfg.workers)
	var wg sync.WaitGroup
	for i := range ws {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			ws[i], errs[i] = newWorker(l, cfg, res)
		}()
	}
	wg.Wait()
	for _, e := range errs {
		if e != nil {
			return fatal("%v", e)
		}
	}
	tInit := time.Since(start)
	if *verbose {
		fmt.Fprintf(os.Stderr, "load %v, init %v\n", tLoad, tInit)
	}
	deadline := time.Now().Add(time.Duration(secs) * time.Second)

	cr := &candRun{nat: nat, res: res, prop: *prop, root: *root, all: *keep}
	done := make(chan struct{})
	go func() { cr.loop(); close(done) }()
	// findings that are recorded, not repaired
	var finds []Finding
	if err := readJSON(filepath.Join(*root, "known_findings.json"), &finds); err != nil {
		finds = nil
	}
	explore(ws, fns, res, deadline)
	explored := time.Since(start)
	close(res.cands)
	<-done
	var known []string
	if cr.violations == 0 || *keep {
		cr.witnesses()
		if cr.violations == 0 || *keep {
			cr.partials()
		}
		for _, f := range finds {
			if f.Property != *prop || f.Status != "known" {
				continue
			}
			r := nat.run(Candidate{Harness: f.Harness, Inputs: f.Inputs}, false)
			if r.failed() {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", f.Property, f.What)
				known = append(known, f.What)
			} else {
				fmt.Printf("note: the known finding %q does not reproduce (%s)\n", f.What, r.Status)
			}
		}
	}
	if nat.err != nil {
		fmt.Fprintf(os.Stderr, "gosym: native build: %v\n", nat.err)
		return 2
	}
	writeEvidence(*root, *prop, *tierS, seed, pc, cfg, l, res, cr, known, start, explored, secs)
	for _, w := range ws {
		w.solver.Close()
	}
	if *verbose {
		for _, k := range sortedKeys(res.perH) {
			fmt.Fprintf(os.Stderr, "  %-40s %+v\n", k, *res.perH[k])
		}
		for _, k := range sortedKeys(res.unsup) {
			fmt.Fprintf(os.Stderr, "  unsupported %d: %s\n", res.unsup[k], k)
		}
		for _, k := range sortedKeys(res.reach) {
			fmt.Fprintf(os.Stderr, "  reach %-30s %d\n", k, res.reach[k])
		}
		fmt.Fprintf(os.Stderr, "  stats %+v\n  queries %d sat %d unsat %d unknown %d solver %v\n", res.stats, res.queries, res.sat, res.unsat, res.unknown, res.solverTime)
		fmt.Fprintf(os.Stderr, "  witnesses %d validated %d mismatch %d; candidates %d unreproduced %d; partial %d\n", len(res.witnesses), cr.validated, cr.mismatch, cr.total, cr.unrepro, cr.partial)
	}
	if len(res.perH) == 0 {
		return fatal("nothing explored")
	}
	if cr.violations > 0 {
		return 1
	}
	tot := 0
	for _, h := range res.perH {
		tot += h.Paths
	}
	if tot == 0 {
		return fatal("no path was completed")
	}
	fmt.Printf("property %s held on everything explored (%d paths, %d solver queries, %.0fs)\n", *prop, tot, res.queries, time.Since(start).Seconds())
	return 0
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
