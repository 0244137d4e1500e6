package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"math/rand"
	"os"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Config struct {
	maxSteps  int
	maxPrefix int
	workers   int
	seed      int64
	solver    []string
	witEvery  int
	verbose   bool
	tier      int
	split     bool
}

type Job struct {
	H      *ssa.Function
	Prefix []int
}

// Candidate is a counterexample found by the solver, before replay.
type Candidate struct {
	Harness string       `json:"harness"`
	Kind    string       `json:"kind"`
	Msg     string       `json:"msg"`
	Inputs  []InputRec   `json:"inputs"`
	Alts    [][]InputRec `json:"-"`
	Opaque  bool         `json:"opaque,omitempty"`
	Where   string       `json:"where,omitempty"`
	Solver  bool         `json:"solver_model"`
}

type Witness struct {
	Harness string     `json:"harness"`
	Inputs  []InputRec `json:"inputs"`
	Obs     []int64    `json:"obs"`
	ObsOK   []bool     `json:"obs_ok"`
}

type Results struct {
	mu                           sync.Mutex
	stats                        Stats
	perH                         map[string]*HStat
	unsup                        map[string]int
	funcs                        map[string]int64
	natives                      map[string]int64
	reach                        map[string]int
	witnesses                    []Witness
	partials                     []Witness
	witN, dumpN, partN           map[string]int
	cands                        chan Candidate
	candN                        map[string]int
	queries, sat, unsat, unknown int
	solverTime                   time.Duration
	jobsTotal, jobsDone          int
	stopped                      bool
}

type HStat struct {
	Jobs, Paths, Unfinished, Unsupported, Violations int
	Asserts                                          int
	Steps                                            int64
}

func newWorker(l *Loaded, cfg *Config, res *Results) (*Worker, error) {
	w := &Worker{
		prog: l.prog, L: l, cfg: cfg, results: res,
		bank: newBank(), sizes: types.SizesFor("gc", "amd64"),
		tis: map[types.Type]*TI{}, ptrmaps: map[types.Type]map[int64]bool{}, strs: map[string]int32{},
		globals: map[*ssa.Global]int32{}, fns: map[*ssa.Function]*FnInfo{}, qcache: map[string]qres{},
		funcs: map[string]int64{}, unsup: map[string]int{}, natives: map[string]int64{}, reach: map[string]int{},
		implCache: map[[2]int32]bool{}, methCache: map[methKey]*ssa.Function{}, gcCheck: true,
		rng: rand.New(rand.NewSource(cfg.seed)),
	}
	var err error
	w.solver, err = newSolver(w.bank, cfg.solver)
	if err != nil {
		return nil, err
	}
	es := l.lookupType("errors", "errorString")
	if es == nil {
		return nil, fmt.Errorf("errors.errorString not found")
	}
	w.errStrT = types.NewPointer(es)
	rt := l.lookupType("reflect", "rtype")
	w.rtypeID = w.typeID(types.NewPointer(rt))
	w.valueTI = w.ti(l.lookupType("reflect", "Value"))
	if t := l.lookupType("strconv", "NumError"); t != nil {
		w.numErrT = types.NewPointer(t)
	}
	w.zeroObj = int32(staticBase + len(w.static))
	w.static = append(w.static, &Object{id: w.zeroObj, note: "zero-size object"})
	// base state: globals and initialisers
	s := &State{w: w, multi: map[int]bool{}, modelOK: true}
	w.nextState++
	s.id = w.nextState
	for path, p := range l.pkgs {
		if !l.encoded(path) {
			continue
		}
		for _, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok {
				t := g.Type().Underlying().(*types.Pointer).Elem()
				o := s.alloc(w.ti(t).size, t, "global "+g.String())
				w.globals[g] = o.id
			}
		}
	}
	w.job = &Job{}
	w.emitJob = func(*Job) {}
	cfgSteps := cfg.maxSteps
	w.cfg = &Config{maxSteps: 1 << 40, maxPrefix: 0, workers: cfg.workers}
	for _, p := range l.harness {
		in := p.Func("init")
		s.pushFrame(in, nil, nil, -1)
		if a := s.run(); a.kind != abPathEnd {
			return nil, fmt.Errorf("package initialisers: %s (%s)", a.msg, s.where())
		}
	}
	if len(w.work) > 0 {
		return nil, fmt.Errorf("initialisers fork")
	}
	_ = cfgSteps
	w.cfg = cfg
	if g, ok := l.pkgs[vsymPath].Members["tier"].(*ssa.Global); ok {
		o := s.wobj(w.globals[g])
		s.writeCell(o, 0, 8, cint(int64(cfg.tier)))
	}
	w.funcs = map[string]int64{}
	w.natives = map[string]int64{}
	s.steps = 0
	w.base = s
	return w, nil
}

func (s *State) where() string {
	r := ""
	for i := len(s.frames) - 1; i >= 0 && i >= len(s.frames)-4; i-- {
		f := s.frames[i]
		pos := ""
		if f.blk < len(f.fn.blocks) && f.pc < len(f.fn.blocks[f.blk]) {
			p := s.w.L.fset.Position(f.fn.blocks[f.blk][f.pc].in.Pos())
			if p.IsValid() {
				pos = fmt.Sprintf(" %s:%d", p.Filename, p.Line)
			}
		}
		r += fmt.Sprintf("[%s%s] ", f.fn.name, pos)
	}
	return r
}

// jobRun is a job that was started. Jobs that take long make way for others
// and are resumed by the same worker later.
type jobRun struct {
	job         *Job
	work        []*State
	hs          *HStat
	cands       map[string]int
	stats       Stats
	unsup, rchd map[string]int
}

func (w *Worker) start(j *Job) *jobRun {
	jr := &jobRun{job: j, hs: &HStat{Jobs: 1}, cands: map[string]int{}, unsup: map[string]int{}, rchd: map[string]int{}}
	if w.bank != nil && len(w.bank.all) > 3_000_000 && len(w.parked) == 0 {
		w.resetCaches()
	}
	w.enter(jr)
	st := w.base.clone()
	w.base.forked, st.forked = false, false
	jr.work = []*State{st}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if os.Getenv("GOSYM_DEBUG") != "" {
					panic(r)
				}
				w.unsup[fmt.Sprintf("engine: %v", r)]++
			}
		}()
		st.pushFrame(j.H, nil, nil, -1)
	}()
	return jr
}

func (w *Worker) enter(jr *jobRun) {
	w.job = jr.job
	w.curHarness = jr.job.H.Pkg.Pkg.Name() + "." + jr.job.H.Name()
	w.stats, w.unsup, w.reach = jr.stats, jr.unsup, jr.rchd
}

// runJob goes on with a job until it is done or its time slice is over; it
// tells whether the job is done.
func (w *Worker) runJob(jr *jobRun, emit func(*Job), slice time.Duration) bool {
	w.emitJob = emit
	w.enter(jr)
	hs, cands := jr.hs, jr.cands
	w.work = append(w.work[:0], jr.work...)
	jr.work = jr.work[:0]
	w.sliceEnd = time.Now().Add(slice)
	if w.sliceEnd.After(w.deadline) {
		w.sliceEnd = w.deadline
	}
	defer func() { w.sliceEnd = time.Time{} }()
	for len(w.work) > 0 {
		now := time.Now()
		if now.After(w.deadline) || w.results.isStopped() {
			hs.Unfinished += len(w.work)
			for _, s := range w.work {
				w.partial(s)
			}
			w.work = w.work[:0]
			break
		}
		if now.After(w.sliceEnd) {
			jr.work = append(jr.work, w.work...)
			w.work = w.work[:0]
			jr.stats = w.stats
			return false
		}
		s := w.work[len(w.work)-1]
		w.work = w.work[:len(w.work)-1]
		st0 := s.steps
		a := s.run()
		w.stats.Steps += int64(s.steps - st0)
		if a.kind == abPaused {
			w.work = append(w.work, s)
			continue
		}
		hs.Asserts += s.asserts
		switch a.kind {
		case abPathEnd:
			w.stats.Paths++
			hs.Paths++
			w.witness(s, hs.Paths)
		case abInfeasible:
			w.stats.Infeasible++
		case abUnsupported:
			hs.Unsupported++
			w.stats.Unsupported++
			w.unsup[a.msg]++
			w.partial(s)
			if w.cfg.verbose && w.unsup[a.msg] < 3 {
				fmt.Fprintf(os.Stderr, "unsupported: %s %s: %s %s\n", w.curHarness, fmtInputs(s.inputs), a.msg, s.where())
			}
		case abBudget:
			w.stats.Budget++
			hs.Unfinished++
			w.unsup[a.msg]++
			w.partial(s)
		case abViolation:
			w.stats.Paths++
			hs.Paths++
			k := a.sub + a.msg
			if cands[k] < 6 {
				if c, ok := w.candidate(s, a); ok {
					cands[k]++
					hs.Violations++
					w.results.cands <- c
				}
			} else {
				hs.Violations++
			}
		}
	}
	w.results.add(w, hs)
	return true
}

// partial records a model of the beginning of a path that was not executed to
// its end; the end is only seen natively.
func (w *Worker) partial(s *State) {
	w.results.mu.Lock()
	k := w.results.partN[w.curHarness]
	w.results.partN[w.curHarness]++
	w.results.mu.Unlock()
	if k >= 300 {
		return
	}
	m, ok := w.fullModel(s)
	if !ok {
		return
	}
	w.results.mu.Lock()
	w.results.partials = append(w.results.partials, Witness{Harness: w.curHarness, Inputs: withModel(s.inputs, m)})
	w.results.mu.Unlock()
}

func (r *Results) isStopped() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.stopped
}

// resetCaches starts with a fresh term bank and solver.
func (w *Worker) resetCaches() {
	// terms live in FnInfo constants only as Vals of kind KConst, so a new bank is safe
	old := w.solver
	w.bank = newBank()
	w.qcache = map[string]qres{}
	s, err := newSolver(w.bank, w.cfg.solver)
	if err != nil {
		return
	}
	w.results.addSolver(old)
	old.Close()
	w.solver = s
}

func (r *Results) addSolver(s *Solver) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.queries += s.Queries
	r.sat += s.Sat
	r.unsat += s.Unsat
	r.unknown += s.Unknown
	r.solverTime += s.Time
	s.Queries, s.Sat, s.Unsat, s.Unknown, s.Time = 0, 0, 0, 0, 0
}

// fullModel decides the whole path condition and returns values for all inputs.
func (w *Worker) fullModel(s *State) ([]byte, bool) {
	n := s.nvars()
	var conds []*Term
	vs := make([]int, n)
	for v := 0; v < n; v++ {
		vs[v] = v
		if d := s.dom(v); *d != fullSet {
			conds = append(conds, w.bank.in(v, d))
		}
	}
	conds = append(conds, s.pc...)
	r, m := w.check(conds, vs)
	if r != RSat {
		if os.Getenv("GOSYM_DEBUG") != "" {
			fmt.Fprintf(os.Stderr, "full model: %v %s\n", r, s.where())
			for _, c := range conds {
				fmt.Fprintf(os.Stderr, "   %v\n", c)
			}
		}
		return nil, false
	}
	out := make([]byte, n)
	for v := range out {
		if s.multi[v] {
			out[v] = m[v]
		} else {
			out[v] = pick(s.dom(v))
		}
	}
	if w.violates(conds, out) {
		// a model that does not satisfy its own conditions: ask the solver itself
		w.stats.ModelWrong++
		r, m := w.solver.Check(conds, vs)
		if r != RSat {
			return nil, false
		}
		for v := range out {
			out[v] = m[v]
		}
		if w.violates(conds, out) {
			return nil, false
		}
	}
	return out, true
}

// violates tells whether the values falsify a condition that does not depend on
// an uninterpreted function.
func (w *Worker) violates(conds []*Term, m []byte) bool {
	memo := map[*Term]uint64{}
	for _, c := range conds {
		if c.opaque {
			continue
		}
		if r, ok := w.bank.Eval(c, m, memo); ok && r == 0 {
			return true
		}
	}
	return false
}

func withModel(in []InputRec, m []byte) []InputRec {
	out := append([]InputRec(nil), in...)
	k := 0
	for i := range out {
		if out[i].Kind == "byte" {
			out[i].V = int(m[k])
			k++
		}
	}
	return out
}

func (w *Worker) candidate(s *State, a abort) (Candidate, bool) {
	m, ok := w.fullModel(s)
	if !ok {
		w.unsup["path of a candidate violation not decided"]++
		return Candidate{}, false
	}
	c := Candidate{Harness: w.curHarness, Kind: a.sub, Msg: a.msg, Inputs: withModel(s.inputs, m), Solver: true, Where: s.where()}
	opq := s.opaque
	for _, p := range s.pc {
		if p.opaque {
			opq = true
		}
	}
	c.Opaque = opq
	// more concretisations of the same path, for facts the encoding leaves
	// uninterpreted and for memory errors that need luck to be visible
	if opq || a.sub != "assert" {
		for try := 0; try < 400 && len(c.Alts) < 60; try++ {
			x := append([]byte(nil), m...)
			for v := range x {
				if w.rng.Intn(3) > 0 {
					x[v] = w.randIn(s.dom(v))
				}
			}
			good := true
			for _, p := range s.pc {
				if p.opaque {
					continue
				}
				if r, ok := w.bank.Eval(p, x, map[*Term]uint64{}); ok && r == 0 {
					good = false
					break
				}
			}
			if good {
				c.Alts = append(c.Alts, withModel(s.inputs, x))
			}
		}
	}
	return c, true
}

func (w *Worker) randIn(d *[4]uint64) byte {
	var xs []byte
	for i := 0; i < 256; i++ {
		if d[i>>6]>>(i&63)&1 == 1 {
			xs = append(xs, byte(i))
		}
	}
	if len(xs) == 0 {
		return 0
	}
	return xs[w.rng.Intn(len(xs))]
}

// dump writes a model of the path to the file GOSYM_DUMP names (for mutation
// testing of the harnesses, see tools/).
func (w *Worker) dump(s *State) {
	if dumpTo == nil {
		return
	}
	w.results.mu.Lock()
	k := w.results.dumpN[w.curHarness]
	w.results.dumpN[w.curHarness]++
	w.results.mu.Unlock()
	if k > 3000 && k%64 != 0 {
		return
	}
	m, ok := w.fullModel(s)
	if !ok {
		return
	}
	b, _ := json.Marshal(vector{H: w.curHarness, In: withModel(s.inputs, m), Tier: w.cfg.tier})
	w.results.mu.Lock()
	dumpTo.Write(append(b, '\n'))
	w.results.mu.Unlock()
}

var dumpTo = func() *os.File {
	if n := os.Getenv("GOSYM_DUMP"); n != "" {
		f, _ := os.Create(n)
		return f
	}
	return nil
}()

// witness samples finished paths for native replay.
func (w *Worker) witness(s *State, n int) {
	w.dump(s)
	if n > 2 && n%w.cfg.witEvery != 0 {
		return
	}
	w.results.mu.Lock()
	k := w.results.witN[w.curHarness]
	w.results.witN[w.curHarness]++
	w.results.mu.Unlock()
	if k > 400 {
		return
	}
	m, ok := w.fullModel(s)
	if !ok {
		return
	}
	wi := Witness{Harness: w.curHarness, Inputs: withModel(s.inputs, m)}
	for _, t := range s.obs {
		v, ok := w.bank.Eval(t, m, map[*Term]uint64{})
		wi.Obs = append(wi.Obs, sx(v, t.w))
		wi.ObsOK = append(wi.ObsOK, ok)
	}
	w.results.mu.Lock()
	w.results.witnesses = append(w.results.witnesses, wi)
	w.results.mu.Unlock()
}

func fmtInputs(in []InputRec) string {
	r := ""
	for _, i := range in {
		if i.Kind == "choose" {
			r += fmt.Sprintf("#%d ", i.V)
		}
	}
	return r
}

func (r *Results) add(w *Worker, hs *HStat) {
	r.mu.Lock()
	defer r.mu.Unlock()
	t := r.perH[w.curHarness]
	if t == nil {
		t = &HStat{}
		r.perH[w.curHarness] = t
	}
	t.Jobs += hs.Jobs
	t.Paths += hs.Paths
	t.Unfinished += hs.Unfinished
	t.Unsupported += hs.Unsupported
	t.Violations += hs.Violations
	t.Asserts += hs.Asserts
	t.Steps += w.stats.Steps
	a, b := &r.stats, &w.stats
	a.Paths += b.Paths
	a.Infeasible += b.Infeasible
	a.Unsupported += b.Unsupported
	a.Budget += b.Budget
	a.Forks += b.Forks
	a.Merges += b.Merges
	a.Steps += b.Steps
	a.Interval += b.Interval
	a.Domain += b.Domain
	a.UnknownBranch += b.UnknownBranch
	a.AssertsFolded += b.AssertsFolded
	a.AssertsInterval += b.AssertsInterval
	a.AssertsSolver += b.AssertsSolver
	a.AssertsUnknown += b.AssertsUnknown
	a.Cached += b.Cached
	a.Split += b.Split
	a.Audited += b.Audited
	a.AuditWrong += b.AuditWrong
	a.ModelWrong += b.ModelWrong
	for k, v := range w.unsup {
		r.unsup[k] += v
	}
	for k, v := range w.reach {
		r.reach[k] += v
	}
	r.jobsDone++
}

// explore runs all jobs to completion or until the deadline.
func explore(ws []*Worker, fns []*ssa.Function, res *Results, deadline time.Time) {
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	var queue []*Job
	active := 0
	for _, f := range fns {
		queue = append(queue, &Job{H: f})
	}
	res.jobsTotal = len(queue)
	var wg sync.WaitGroup
	for _, w := range ws {
		w := w
		w.deadline = deadline
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				for len(queue) == 0 && active > 0 && len(w.parked) == 0 {
					cond.Wait()
				}
				if len(queue) == 0 && len(w.parked) == 0 {
					mu.Unlock()
					cond.Broadcast()
					return
				}
				var jr *jobRun
				slice := 4 * time.Second
				if len(queue) > 0 && (len(w.parked) == 0 || len(w.bank.all) < 3_000_000) {
					j := queue[0]
					queue = queue[1:]
					if time.Now().After(deadline) || res.isStopped() {
						mu.Unlock()
						res.skip(j)
						continue
					}
					active++
					mu.Unlock()
					jr = w.start(j)
				} else {
					jr = w.parked[0]
					w.parked = w.parked[1:]
					slice = 10 * time.Second
					mu.Unlock()
				}
				// a job that is parked stays active, since it may emit others
				done := w.runJob(jr, func(n *Job) {
					mu.Lock()
					queue = append(queue, n)
					res.jobsTotal++
					mu.Unlock()
					cond.Broadcast()
				}, slice)
				if !done {
					w.parked = append(w.parked, jr)
					continue
				}
				mu.Lock()
				active--
				mu.Unlock()
				cond.Broadcast()
			}
		}()
	}
	wg.Wait()
	for _, w := range ws {
		res.addSolver(w.solver)
		for k, v := range w.funcs {
			res.funcs[k] += v
		}
		for k, v := range w.natives {
			res.natives[k] += v
		}
	}
}

// skip counts a job that was not started.
func (r *Results) skip(j *Job) {
	r.mu.Lock()
	defer r.mu.Unlock()
	hn := j.H.Pkg.Pkg.Name() + "." + j.H.Name()
	if r.perH[hn] == nil {
		r.perH[hn] = &HStat{}
	}
	r.perH[hn].Unfinished++
	r.partN[hn]++
	if r.partN[hn] <= 300 {
		wi := Witness{Harness: hn}
		for _, v := range j.Prefix {
			wi.Inputs = append(wi.Inputs, InputRec{Kind: "choose", V: v})
		}
		r.partials = append(r.partials, wi)
	}
}
