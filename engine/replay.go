package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// allHarness lists every entry point (H, T and K functions).
func (l *Loaded) allHarness() []string {
	var r []string
	for _, sp := range l.harness {
		for n, m := range sp.Members {
			f, ok := m.(*ssa.Function)
			if !ok || f.Signature.Params().Len() != 0 || f.Signature.Results().Len() != 0 || f.Signature.Recv() != nil {
				continue
			}
			if strings.ContainsAny(n[:1], "HTK") {
				r = append(r, sp.Pkg.Name()+"."+n)
			}
		}
	}
	sort.Strings(r)
	return r
}

// Native builds and runs the harnesses against the real code.
type Native struct {
	root, repo, scratch string
	tier                int
	files               map[string]string
	hpkgs, fns          []string
	ready               chan struct{}
	err                 error
	bin, binPtr         string
	ptrOnce, raceOnce   sync.Once
	ptrErr, raceErr     error
	binRace             string
}

func (n *Native) start() {
	n.ready = make(chan struct{})
	go func() {
		n.bin, n.err = n.build("replay")
		close(n.ready)
	}()
}

func (n *Native) build(name string, flags ...string) (string, error) {
	main := filepath.Join(n.scratch, name+"_main.go")
	var b strings.Builder
	b.WriteString("package main\n\nimport (\n\t\"" + vsymPath + "\"\n")
	for _, p := range n.hpkgs {
		b.WriteString("\t\"" + modPath + "/internal/vh/" + p + "\"\n")
	}
	b.WriteString(")\n\nfunc main() {\n")
	for _, f := range n.fns {
		fmt.Fprintf(&b, "\tvsym.Register(%q, %s)\n", f, f)
	}
	b.WriteString("\tvsym.Main()\n}\n")
	if err := os.WriteFile(main, []byte(b.String()), 0o644); err != nil {
		return "", err
	}
	repl := map[string]string{filepath.Join(n.repo, "internal/vh/cmd/main.go"): main}
	for k, v := range n.files {
		repl[k] = v
	}
	ov := filepath.Join(n.scratch, name+"_overlay.json")
	j, _ := json.Marshal(map[string]any{"Replace": repl})
	if err := os.WriteFile(ov, j, 0o644); err != nil {
		return "", err
	}
	out := filepath.Join(n.scratch, name)
	args := append([]string{"build", "-overlay", ov, "-o", out}, flags...)
	args = append(args, modPath+"/internal/vh/cmd")
	c := exec.Command(filepath.Join(goBinDir(), "go"), args...)
	c.Dir = n.repo
	c.Env = goEnv()
	if name == "replay_race" {
		c.Env = append(c.Env, "CGO_ENABLED=1")
	}
	if o, err := c.CombinedOutput(); err != nil {
		return "", fmt.Errorf("%v: %s", err, o)
	}
	return out, nil
}

type natResult struct {
	Status string   `json:"status"`
	Msg    string   `json:"msg"`
	Obs    []int64  `json:"obs"`
	Reach  []string `json:"reach"`

	In []InputRec `json:"in"` // what was used
}

func (r natResult) failed() bool {
	return r.Status == "assert" || r.Status == "panic" || r.Status == "crash" || r.Status == "hang"
}

type vector struct {
	H    string     `json:"harness"`
	In   []InputRec `json:"inputs"`
	Tier int        `json:"tier"`
	Fill bool       `json:"fill,omitempty"`
}

// batch runs vectors in one process and returns what it printed.
func (n *Native) batch(bin string, vs []vector, env []string, timeout time.Duration) []natResult {
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	c := exec.CommandContext(ctx, bin)
	var in bytes.Buffer
	for _, v := range vs {
		j, _ := json.Marshal(v)
		in.Write(j)
		in.WriteByte('\n')
	}
	c.Stdin = &in
	c.Env = append(os.Environ(), "GOMAXPROCS=2", "GOMEMLIMIT=2GiB")
	c.Env = append(c.Env, env...)
	c.Dir = n.scratch
	var errb bytes.Buffer
	c.Stderr = &errb
	out, err := c.StdoutPipe()
	if err != nil {
		return nil
	}
	if err := c.Start(); err != nil {
		return nil
	}
	var rs []natResult
	rd := bufio.NewReader(out)
	for {
		line, err := rd.ReadBytes('\n')
		if len(line) > 1 {
			var r natResult
			if json.Unmarshal(line, &r) == nil {
				rs = append(rs, r)
			}
		}
		if err != nil {
			break
		}
	}
	io.Copy(io.Discard, out)
	werr := c.Wait()
	if werr != nil && len(rs) < len(vs) {
		st := "crash"
		if ctx.Err() != nil {
			st = "hang"
		}
		msg := strings.TrimLeft(errb.String(), "=\n")
		if i := strings.Index(msg, "\n"); i > 0 {
			msg = msg[:i]
		}
		rs = append(rs, natResult{Status: st, Msg: msg})
	}
	return rs
}

// run replays one candidate; memory also tries harder to make damage visible.
func (n *Native) run(c Candidate, memory bool) natResult {
	<-n.ready
	if n.err != nil {
		return natResult{Status: "mismatch", Msg: n.err.Error()}
	}
	vs := []vector{{c.Harness, c.Inputs, n.tier, false}}
	r := n.batch(n.bin, vs, nil, 20*time.Second)
	if len(r) > 0 && (r[0].failed() || !memory) {
		return r[0]
	}
	if !memory {
		return natResult{Status: "mismatch"}
	}
	if c.Kind == "shared" {
		n.raceOnce.Do(func() { n.binRace, n.raceErr = n.build("replay_race", "-race") })
		if n.raceErr != nil {
			return natResult{Status: "mismatch", Msg: n.raceErr.Error()}
		}
		for i := 0; i < 3; i++ {
			r = n.batch(n.binRace, vs, []string{"VSYM_RACE=1", "VSYM_NODIRTY=1", "GORACE=halt_on_error=1 exitcode=66", "GOMAXPROCS=4"}, 60*time.Second)
			if len(r) > 0 && r[0].failed() {
				r[0].Msg = "(race detector) " + r[0].Msg
				return r[0]
			}
		}
		return natResult{Status: "ok"}
	}
	r = n.batch(n.bin, vs, []string{"GODEBUG=clobberfree=1", "GOGC=1"}, 30*time.Second)
	if len(r) > 0 && r[0].failed() {
		return r[0]
	}
	// the garbage collector runs all the time
	var many []vector
	for i := 0; i < 20000; i++ {
		many = append(many, vs[0])
	}
	for _, x := range n.batch(n.bin, many, []string{"VSYM_GC=1", "VSYM_NODIRTY=1"}, 20*time.Second) {
		if x.failed() && x.Status != "hang" {
			x.Msg = "(during garbage collection) " + x.Msg
			return x
		}
	}
	n.ptrOnce.Do(func() {
		n.binPtr, n.ptrErr = n.build("replay_checkptr", "-gcflags="+modPath+"/...=-d=checkptr")
	})
	if n.ptrErr == nil {
		r = n.batch(n.binPtr, vs, []string{"GODEBUG=clobberfree=1"}, 30*time.Second)
		if len(r) > 0 && r[0].failed() {
			r[0].Msg = "(checkptr) " + r[0].Msg
			return r[0]
		}
	}
	return natResult{Status: "ok"}
}

type candRun struct {
	nat        *Native
	res        *Results
	prop, root string
	all        bool
	total      int
	unrepro    int
	violations int
	validated  int
	partial    int // beginnings of paths that were replayed
	mismatch   int
	mismatches []string
	seen       map[string]int
	unreproS   []Candidate
	seenWhat   map[string]bool
}

func (c *candRun) loop() {
	c.seen = map[string]int{}
	c.seenWhat = map[string]bool{}
	for cand := range c.res.cands {
		if c.violations > 0 && !c.all {
			continue
		}
		c.total++
		key := cand.Harness + cand.Kind + cand.Msg
		if c.seen[key] > 60 {
			continue
		}
		c.seen[key]++
		c.try(cand)
	}
}

func (c *candRun) try(cand Candidate) {
	mem := cand.Kind != "assert"
	r := c.nat.run(cand, mem && c.seen[cand.Harness+cand.Kind+cand.Msg] < 8)
	if r.failed() {
		c.report(cand, r)
		return
	}
	if len(cand.Alts) > 0 {
		var vs []vector
		for _, a := range cand.Alts {
			vs = append(vs, vector{cand.Harness, a, c.nat.tier, false})
		}
		for i, r := range c.nat.batch(c.nat.bin, vs, nil, 30*time.Second) {
			if r.failed() {
				if i < len(cand.Alts) {
					cand.Inputs = cand.Alts[i]
				}
				c.report(cand, r)
				return
			}
		}
	}
	c.unrepro++
	if len(c.unreproS) < 20 {
		cand.Alts = nil
		cand.Msg += " [native: " + r.Status + "]"
		c.unreproS = append(c.unreproS, cand)
	}
}

func (c *candRun) report(cand Candidate, r natResult) {
	k := cand.Harness + r.Status + r.Msg
	if c.all {
		if c.seenWhat[k] && c.violations > 200 {
			return
		}
	}
	c.seenWhat[k] = true
	c.violations++
	dir := filepath.Join(c.root, "evidence", "replays")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", c.prop, c.violations))
	j, _ := json.MarshalIndent(map[string]any{"property": c.prop, "harness": cand.Harness, "inputs": cand.Inputs, "tier": c.nat.tier,
		"solver": cand.Kind + ": " + cand.Msg, "where": cand.Where, "native": r.Status + ": " + r.Msg,
		"rerun": "bin/gosym replay " + path}, "", " ")
	os.WriteFile(path, j, 0o644)
	if c.violations == 1 || c.all {
		fmt.Printf("counterexample: harness %s, symbolic %s: %s; native %s: %s\n", cand.Harness, cand.Kind, cand.Msg, r.Status, r.Msg)
		fmt.Printf("  inputs %s\n", showInputs(cand.Inputs))
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, path)
	}
	if !c.all {
		c.res.mu.Lock()
		c.res.stopped = true
		c.res.mu.Unlock()
	}
}

func showInputs(in []InputRec) string {
	var b strings.Builder
	var run []byte
	flush := func() {
		if len(run) > 0 {
			fmt.Fprintf(&b, "%q ", run)
			run = nil
		}
	}
	for _, i := range in {
		if i.Kind == "byte" {
			run = append(run, byte(i.V))
		} else {
			flush()
			fmt.Fprintf(&b, "#%d/%d ", i.V, i.N)
		}
	}
	flush()
	return strings.TrimSpace(b.String())
}

// witnesses replays models of finished paths: the encoding must agree with
// the real code on every observed value.
func (c *candRun) witnesses() {
	<-c.nat.ready
	if c.nat.err != nil {
		return
	}
	ws := c.res.witnesses
	const chunk = 400
	type part struct{ from, to int }
	var parts []part
	for i := 0; i < len(ws); i += chunk {
		e := i + chunk
		if e > len(ws) {
			e = len(ws)
		}
		parts = append(parts, part{i, e})
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan bool, 6)
	for _, p := range parts {
		p := p
		wg.Add(1)
		sem <- true
		go func() {
			defer func() { <-sem; wg.Done() }()
			for i := p.from; i < p.to; {
				var vs []vector
				for _, w := range ws[i:p.to] {
					vs = append(vs, vector{w.Harness, w.Inputs, c.nat.tier, false})
				}
				rs := c.nat.batch(c.nat.bin, vs, nil, 60*time.Second)
				mu.Lock()
				for k, r := range rs {
					if i+k >= p.to {
						break
					}
					c.compare(ws[i+k], r)
				}
				mu.Unlock()
				if len(rs) == 0 {
					return
				}
				i += len(rs)
			}
		}()
	}
	wg.Wait()
}

// partials replays the beginnings of paths which were not executed to their
// end, with default values for what comes later. They say nothing about a
// property that holds, but one that fails has failed.
func (c *candRun) partials() {
	<-c.nat.ready
	if c.nat.err != nil {
		return
	}
	ps := c.res.partials
	end := time.Now().Add(120 * time.Second)
	for i := 0; i < len(ps) && time.Now().Before(end); {
		e := min(i+100, len(ps))
		var vs []vector
		for _, w := range ps[i:e] {
			vs = append(vs, vector{w.Harness, w.Inputs, c.nat.tier, true})
		}
		rs := c.nat.batch(c.nat.bin, vs, nil, 30*time.Second)
		for k, r := range rs {
			if i+k >= e {
				break
			}
			w := ps[i+k]
			if r.Status == "crash" || r.Status == "hang" {
				// the inputs that were made up are not known
				v := vs[k]
				v.Fill = false
				r = natResult{}
				if one := c.nat.batch(c.nat.bin, []vector{v}, nil, 30*time.Second); len(one) == 1 {
					r = one[0]
					r.In = w.Inputs
				}
			}
			c.partial++
			if r.failed() {
				c.report(Candidate{Harness: w.Harness, Kind: "partial", Msg: "a model of the beginning of a path fails natively", Inputs: r.In}, r)
				if !c.all {
					return
				}
			}
		}
		if len(rs) == 0 {
			return
		}
		i += len(rs)
	}
}

func (c *candRun) compare(w Witness, r natResult) {
	if r.failed() {
		c.mismatches = append(c.mismatches, "native run fails: "+w.Harness+" "+showInputs(w.Inputs)+" "+r.Status+" "+r.Msg)
		c.mismatch++
		// a concrete failing execution of the real code
		c.report(Candidate{Harness: w.Harness, Kind: "witness", Msg: "a path model the encoding accepts fails natively", Inputs: w.Inputs}, r)
		return
	}
	ok := r.Status == "ok" && len(r.Obs) == len(w.Obs)
	if ok {
		for i := range r.Obs {
			if w.ObsOK[i] && r.Obs[i] != w.Obs[i] {
				ok = false
			}
		}
	}
	if !ok {
		c.mismatch++
		if len(c.mismatches) < 20 {
			c.mismatches = append(c.mismatches, fmt.Sprintf("%s %s: native %s %v, encoding %v", w.Harness, showInputs(w.Inputs), r.Status+r.Msg, r.Obs, w.Obs))
		}
		return
	}
	c.validated++
}

func cmdReplay(args []string) int {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	root := fs.String("root", "/verif", "")
	repo := fs.String("repo", "/repo", "")
	fs.Parse(args)
	if fs.NArg() != 1 {
		return fatal("usage: gosym replay FILE")
	}
	var v struct {
		Property string     `json:"property"`
		Harness  string     `json:"harness"`
		Inputs   []InputRec `json:"inputs"`
		Tier     int        `json:"tier"`
		Solver   string     `json:"solver"`
	}
	if err := readJSON(fs.Arg(0), &v); err != nil {
		return fatal("%v", err)
	}
	scratch, err := os.MkdirTemp("", "gosym")
	if err != nil {
		return fatal("%v", err)
	}
	defer os.RemoveAll(scratch)
	pkg := strings.Split(v.Harness, ".")[0]
	files, err := overlayFiles(*root, *repo, []string{pkg})
	if err != nil {
		return fatal("%v", err)
	}
	n := &Native{root: *root, repo: *repo, scratch: scratch, tier: v.Tier, files: files, hpkgs: []string{pkg}, fns: []string{v.Harness}}
	n.start()
	r := n.run(Candidate{Harness: v.Harness, Inputs: v.Inputs, Kind: strings.SplitN(v.Solver, ":", 2)[0]}, true)
	fmt.Printf("%s %s\n%s: %s\n", v.Harness, showInputs(v.Inputs), r.Status, r.Msg)
	if r.failed() {
		return 1
	}
	return 0
}
