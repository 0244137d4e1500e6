package main

import (
	"os"

	"fmt"
	"go/types"
	"math/rand"
	"sort"
	"time"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

type InputRec struct {
	Kind string `json:"k"` // "choose" or "byte"
	V    int    `json:"v"`
	va   int    // byte variable
	N    int    `json:"n,omitempty"`
}

type deferred struct {
	fn   Val
	args []Val
	call *ssa.CallCommon
}

type Frame struct {
	owner     int
	fn        *FnInfo
	regs      []Val
	blk, prev int
	pc        int
	defers    []deferred
	dst       int // register of the caller; -1 none; -2 do not advance caller pc
	panicking bool
	panicVal  Val
	panicMsg  string
	recovered bool
}

type State struct {
	id         int
	w          *Worker
	heap       Heap
	frames     []*Frame
	doms       []*[4]uint64
	pc         []*Term
	multi      map[int]bool
	multiOwned bool
	inputs     []InputRec
	model      []byte
	modelOK    bool
	forked     bool
	noFork     bool
	steps      int
	nchoose    int
	depth      int
	asserts    int
	notes      []string
	obs        []*Term
	preset     int
	opaque     bool
	frozen     int32 // memory up to this object is shared with other goroutines (0: there are none)
	shallow    int   // how many frames there can be (0: any number)
	locks      int
	pools      map[int32][]Val
	done       bool
}

type abortKind int

const (
	abInfeasible abortKind = iota
	abUnsupported
	abViolation
	abPathEnd
	abGoPanic
	abBudget
	abPaused
)

type abort struct {
	kind abortKind
	sub  string
	msg  string
	val  Val
}

func (s *State) unsupported(f string, a ...any) {
	panic(abort{kind: abUnsupported, msg: fmt.Sprintf(f, a...)})
}

func (s *State) violation(kind, msg string) {
	panic(abort{kind: abViolation, sub: kind, msg: msg})
}

func (s *State) gopanic(msg string) {
	panic(abort{kind: abGoPanic, msg: msg, val: s.w.errorVal(s, "runtime error: "+msg)})
}

var fullSet = [4]uint64{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}

func (s *State) dom(v int) *[4]uint64 {
	if v < len(s.doms) && s.doms[v] != nil {
		return s.doms[v]
	}
	return &fullSet
}

func (s *State) clone() *State {
	w := s.w
	w.nextState++
	c := *s
	c.id = w.nextState
	c.heap.chunks = append([]*chunk(nil), s.heap.chunks...)
	c.frames = append([]*Frame(nil), s.frames...)
	c.doms = append([]*[4]uint64(nil), s.doms...)
	c.pc = append([]*Term(nil), s.pc...)
	c.inputs = append([]InputRec(nil), s.inputs...)
	c.model = append([]byte(nil), s.model...)
	c.notes = append([]string(nil), s.notes...)
	c.obs = append([]*Term(nil), s.obs...)
	if len(s.pools) > 0 {
		c.pools = map[int32][]Val{}
		for k, v := range s.pools {
			c.pools[k] = append([]Val(nil), v...)
		}
	}
	c.multi = map[int]bool{}
	for k := range s.multi {
		c.multi[k] = true
	}
	// the current state must not share ownership with the clone, except for
	// its top frame, which running instructions may already hold
	old := s.id
	w.nextState++
	s.id = w.nextState
	if n := len(s.frames); n > 0 && s.frames[n-1].owner == old {
		f := s.frames[n-1]
		k := *f
		k.owner = c.id
		k.regs = append([]Val(nil), f.regs...)
		k.defers = append([]deferred(nil), f.defers...)
		c.frames[n-1] = &k
		f.owner = s.id
	}
	c.forked, s.forked = true, true
	w.stats.Forks++
	return &c
}

func (s *State) top() *Frame {
	i := len(s.frames) - 1
	f := s.frames[i]
	if f.owner != s.id {
		n := *f
		n.owner = s.id
		n.regs = append([]Val(nil), f.regs...)
		n.defers = append([]deferred(nil), f.defers...)
		f = &n
		s.frames[i] = f
	}
	return f
}

func (s *State) term(v Val) *Term {
	switch v.k {
	case KTerm:
		return v.x.(*Term)
	case KConst:
		return s.w.bank.Const(v.w, v.c)
	case KPtr:
		if v.id == 0 {
			return s.w.bank.Const(64, v.c)
		}
	}
	s.unsupported("value %v used as a number", v)
	return nil
}

func (w *Worker) tv(t *Term) Val {
	if t.op == OConst {
		return Val{k: KConst, w: t.w, c: t.val}
	}
	return Val{k: KTerm, w: t.w, x: t}
}

// ---- constraints -----------------------------------------------------------

func (s *State) assume(t *Term) {
	switch t.op {
	case OConst:
		if t.val == 0 {
			panic(abort{kind: abInfeasible})
		}
		return
	case OBand:
		for _, a := range t.args {
			s.assume(a)
		}
		return
	case OIn:
		d := *s.dom(t.v)
		var any uint64
		for i := range d {
			d[i] &= t.set[i]
			any |= d[i]
		}
		if any == 0 {
			panic(abort{kind: abInfeasible})
		}
		for len(s.doms) <= t.v {
			s.doms = append(s.doms, nil)
		}
		s.doms[t.v] = &d
		if s.modelOK && t.v < len(s.model) && t.at(int(s.model[t.v])) == 0 {
			if s.multi[t.v] {
				s.modelOK = false
			} else {
				s.model[t.v] = pick(&d)
			}
		}
		return
	}
	for _, p := range s.pc {
		if p == t {
			return
		}
	}
	s.pc = append(s.pc, t)
	for _, v := range t.vars {
		s.multi[v] = true
	}
	if s.modelOK {
		if r, ok := s.w.bank.Eval(t, s.padModel(), map[*Term]uint64{}); !ok || r == 0 {
			s.modelOK = false
		}
	}
}

func pick(d *[4]uint64) byte {
	// prefer printable characters
	for _, c := range []byte("a0") {
		if d[c>>6]>>(c&63)&1 == 1 {
			return c
		}
	}
	for i := 33; i < 127; i++ {
		if d[i>>6]>>(i&63)&1 == 1 {
			return byte(i)
		}
	}
	for i := 0; i < 256; i++ {
		if d[i>>6]>>(i&63)&1 == 1 {
			return byte(i)
		}
	}
	return 0
}

// slice gathers the constraints connected to the variables of t.
func (s *State) slice(t *Term) ([]*Term, []int) {
	vars := map[int]bool{}
	for _, v := range t.vars {
		vars[v] = true
	}
	used := make([]bool, len(s.pc))
	var out []*Term
	for ch := true; ch; {
		ch = false
		for i, p := range s.pc {
			if used[i] {
				continue
			}
			for _, v := range p.vars {
				if vars[v] {
					used[i] = true
					out = append(out, p)
					for _, q := range p.vars {
						vars[q] = true
					}
					ch = true
					break
				}
			}
		}
	}
	var vs []int
	for v := range vars {
		vs = append(vs, v)
	}
	sort.Ints(vs)
	for _, v := range vs {
		if d := s.dom(v); *d != fullSet {
			out = append(out, s.w.bank.in(v, d))
		}
	}
	return out, vs
}

// sat checks path ∧ t.
func (s *State) sat(t *Term) (Result, map[int]byte) {
	conds, vs := s.slice(t)
	conds = append(conds, t)
	return s.w.check(conds, vs)
}

func (s *State) applyModel(m map[int]byte) {
	for v, x := range m {
		for len(s.model) <= v {
			s.model = append(s.model, pick(s.dom(len(s.model))))
		}
		s.model[v] = x
	}
}

// decide returns the truth of t on this path, forking when both are possible.
func (s *State) decide(t *Term) bool {
	if t.op == OConst {
		return t.val != 0
	}
	b := s.w.bank
	if q := b.quick(t, s.dom); q >= 0 {
		s.w.stats.Interval++
		s.audit(t, q)
		return q == 1
	}
	if s.noFork {
		panic(abort{kind: abUnsupported, msg: "fork in a lookahead"})
	}
	nt := b.Not(t)
	for _, p := range s.pc {
		if p == t {
			return true
		}
		if p == nt {
			return false
		}
	}
	canT, canF := -1, -1 // unknown
	var mT, mF map[int]byte
	if t.op == OIn && !s.multi[t.v] {
		canT, canF = 1, 1
		s.w.stats.Domain++
	} else {
		if s.modelOK {
			if r, ok := b.Eval(t, s.padModel(), map[*Term]uint64{}); ok {
				if r != 0 {
					canT = 1
				} else {
					canF = 1
				}
			}
		}
		if canT < 0 {
			var r Result
			r, mT = s.sat(t)
			canT = int(b2u(r != RUnsat))
			if r == RUnknown {
				s.w.stats.UnknownBranch++
				if debugSat {
					fmt.Fprintf(os.Stderr, "UNKNOWN %v pc %v\n", t, s.pc)
				}
			}
		}
		if canF < 0 {
			var r Result
			r, mF = s.sat(nt)
			canF = int(b2u(r != RUnsat))
			if r == RUnknown {
				s.w.stats.UnknownBranch++
			}
		}
	}
	if canT == 0 && canF == 0 {
		panic(abort{kind: abInfeasible})
	}
	if canF == 0 {
		return true
	}
	if canT == 0 {
		return false
	}
	if debugSat {
		fmt.Fprintf(os.Stderr, "FORK %v mT %v mF %v modelOK %v model %v pc %v\n", t, mT, mF, s.modelOK, s.model, s.pc)
	}
	c := s.clone()
	s.w.push(c, nt, mF)
	s.take(t, mT)
	return true
}

// take assumes t, using m as a witness if the current model does not fit.
func (s *State) take(t *Term, m map[int]byte) {
	if m != nil {
		s.applyModel(m)
		was := s.modelOK
		s.assume(t)
		if was {
			// the rest of the old model stays valid: m covers whole components
			s.modelOK = true
		}
		return
	}
	s.assume(t)
}

func (w *Worker) push(c *State, t *Term, m map[int]byte) {
	defer func() {
		if r := recover(); r != nil {
			if a, ok := r.(abort); ok && a.kind == abInfeasible {
				return
			}
			panic(r)
		}
	}()
	c.take(t, m)
	w.work = append(w.work, c)
}

// concretize forks until t has one value on this path.
func (s *State) concretize(v Val) uint64 {
	if v.k == KConst {
		return v.c
	}
	if v.k == KPtr && v.id == 0 {
		return v.c
	}
	t := s.term(v)
	for n := 0; n < 300; n++ {
		var x uint64
		if t.op == OTab {
			d := s.dom(t.v)
			found := false
			for i := 0; i < 256; i++ {
				if d[i>>6]>>(i&63)&1 == 1 {
					x, found = t.vec[i], true
					break
				}
			}
			if !found {
				panic(abort{kind: abInfeasible})
			}
		} else {
			ok := false
			if s.modelOK {
				x, ok = s.w.bank.Eval(t, s.padModel(), map[*Term]uint64{})
			}
			if !ok {
				r, m := s.sat(s.w.bank.tru2(t))
				if r != RSat {
					s.unsupported("cannot concretize")
				}
				s.applyModel(m)
				x, ok = s.w.bank.Eval(t, s.padModel(), map[*Term]uint64{})
				if !ok {
					s.unsupported("cannot concretize an uninterpreted value")
				}
			}
		}
		if s.decide(s.w.bank.Eq(t, s.w.bank.Const(t.w, x))) {
			return x
		}
	}
	s.unsupported("too many values to concretize")
	return 0
}

func (s *State) padModel() []byte {
	for len(s.model) < s.nvars() {
		s.model = append(s.model, pick(s.dom(len(s.model))))
	}
	return s.model
}

func (s *State) nvars() int {
	n := 0
	for _, r := range s.inputs {
		if r.Kind == "byte" {
			n++
		}
	}
	return n
}

// tru2 is a tautology mentioning t's variables (to slice on them).
func (b *Bank) tru2(t *Term) *Term {
	return b.intern(&Term{op: OEq, w: 0, val: uint64(t.w), args: []*Term{t, t}})
}

// ---- worker ----------------------------------------------------------------

type Stats struct {
	Paths, Infeasible, Unsupported, Budget int
	Forks, Merges                          int
	Steps                                  int64
	Interval, Domain, UnknownBranch        int
	AssertsFolded, AssertsSolver           int
	AssertsInterval, AssertsUnknown        int
	Witnesses                              int
	Cached                                 int
	Split                                  int
	Audited, AuditWrong, ModelWrong        int
	Reached                                map[string]int
}

type Worker struct {
	prog       *ssa.Program
	L          *Loaded
	bank       *Bank
	solver     *Solver
	sizes      types.Sizes
	tis        map[types.Type]*TI
	ptrmaps    map[types.Type]map[int64]bool
	typeIDs    typeutil.Map
	typesByI   []types.Type
	static     []*Object
	strs       map[string]int32
	globals    map[*ssa.Global]int32
	fns        map[*ssa.Function]*FnInfo
	nextState  int
	base       *State
	work       []*State
	stats      Stats
	gcCheck    bool
	rtypeID    int32
	qcache     map[string]qres
	funcs      map[string]int64
	unsup      map[string]int
	natives    map[string]int64
	reach      map[string]int
	valueTI    *TI
	numErrT    types.Type
	errStrT    types.Type
	cfg        *Config
	job        *Job
	emitJob    func(*Job)
	deadline   time.Time
	sliceEnd   time.Time // when the current job makes way for others
	parked     []*jobRun
	zeroObj    int32
	results    *Results
	implCache  map[[2]int32]bool
	methCache  map[methKey]*ssa.Function
	curHarness string
	rng        *rand.Rand
	auditIn    int // verdicts until the next audit
	auditGap   int
}

type methKey struct {
	t    int32
	name string
}

type qres struct {
	r Result
	m map[int]byte
}

func (w *Worker) check(conds []*Term, vs []int) (Result, map[int]byte) {
	ids := make([]int, len(conds))
	for i, c := range conds {
		ids[i] = c.id
	}
	sort.Ints(ids)
	key := fmt.Sprint(ids)
	if r, ok := w.qcache[key]; ok {
		w.stats.Cached++
		return r.r, r.m
	}
	if w.cfg.split && len(vs) > 6 {
		if r, m := w.bank.split(conds, vs); r != RUnknown {
			w.stats.Split++
			w.qcache[key] = qres{r, m}
			if r == RUnsat && w.auditDue() {
				w.auditQuery(conds, vs, "interval splitting")
			}
			return r, m
		}
	}
	r, m := w.solver.Check(conds, vs)
	w.qcache[key] = qres{r, m}
	return r, m
}

func (w *Worker) typeID(t types.Type) int32 {
	if v := w.typeIDs.At(t); v != nil {
		return v.(int32)
	}
	w.typesByI = append(w.typesByI, t)
	id := -int32(len(w.typesByI))
	w.typeIDs.Set(t, id)
	return id
}

func (w *Worker) typeOf(id int32) types.Type { return w.typesByI[-id-1] }
func (w *Worker) typePtr(t types.Type) Val   { return ptr(w.typeID(t), 0) }

func (w *Worker) errorVal(s *State, msg string) Val {
	// *errors.errorString
	pt := w.errStrT
	o := s.alloc(16, pt.(*types.Pointer).Elem(), "error")
	s.storeAt(o, 0, w.ti(types.Typ[types.String]), w.strVal(msg))
	return agg(w.typePtr(pt), ptr(o.id, 0))
}

func isPtrShaped(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return true
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	}
	return false
}

func (s *State) mkIface(t types.Type, v Val) Val {
	if types.IsInterface(t) {
		return v
	}
	ti := s.w.ti(t)
	if isPtrShaped(t) {
		return agg(s.w.typePtr(t), v)
	}
	if ti.size == 0 {
		return agg(s.w.typePtr(t), ptr(s.w.zeroObj, 0))
	}
	o := s.alloc(ti.size, t, "boxed "+t.String())
	s.storeAt(o, 0, ti, v)
	return agg(s.w.typePtr(t), ptr(o.id, 0))
}

func (s *State) unIface(iface Val, t types.Type) Val {
	e := iface.elems()
	if isPtrShaped(t) {
		return e[1]
	}
	return s.load(e[1], s.w.ti(t))
}

func (w *Worker) implements(t types.Type, i *types.Interface, it types.Type) bool {
	k := [2]int32{w.typeID(t), w.typeID(it)}
	if r, ok := w.implCache[k]; ok {
		return r
	}
	r := types.Implements(t, i)
	w.implCache[k] = r
	return r
}

func (w *Worker) method(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{w.typeID(t), m.Id()}
	if f, ok := w.methCache[k]; ok {
		return f
	}
	f := w.prog.LookupMethod(t, m.Pkg(), m.Name())
	w.methCache[k] = f
	return f
}

// A sample of the verdicts reached without z3 is put to z3 as well: the gap between two
// audits grows, so that every job has some and long ones do not pay for many.
func (w *Worker) auditDue() bool {
	if w.auditGap == 0 {
		w.auditGap = 40 + w.rng.Intn(40)
		w.auditIn = w.auditGap
	}
	w.auditIn--
	if w.auditIn > 0 {
		return false
	}
	w.auditGap += w.auditGap / 2
	w.auditIn = w.auditGap
	return true
}

func (w *Worker) auditQuery(conds []*Term, vs []int, what string) {
	r, _ := w.solver.Check(conds, vs)
	if r == RUnknown {
		return
	}
	w.stats.Audited++
	if r == RSat {
		w.stats.AuditWrong++
		fmt.Fprintf(os.Stderr, "AUDIT: %s disagrees with the solver: %v\n", what, conds)
	}
}

// audit checks the verdict q that the byte domains alone gave for t.
func (s *State) audit(t *Term, q int) {
	w := s.w
	if len(t.vars) == 0 || !w.auditDue() {
		return
	}
	var conds []*Term
	for _, v := range t.vars {
		if d := s.dom(v); *d != fullSet {
			conds = append(conds, w.bank.in(v, d))
		}
	}
	if q == 1 {
		t = w.bank.Not(t)
	}
	w.auditQuery(append(conds, t), t.vars, "interval reasoning")
}
