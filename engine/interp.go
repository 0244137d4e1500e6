package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type opKind uint8

const (
	okReg opKind = iota
	okVal
	okGlobal
)

type operand struct {
	k   opKind
	reg int
	v   Val
	g   *ssa.Global
}

type cinstr struct {
	in  ssa.Instruction
	ops []operand
	dst int
	// cached type infos
	t1, t2 *TI
	pure   bool
}

type FnInfo struct {
	fn     *ssa.Function
	name   string
	nregs  int
	blocks [][]cinstr
	regOf  map[ssa.Value]int
	preds  []map[int]int // block -> pred block index -> edge number
	live   [][]uint64

	resolved bool
	skip     bool
	origin   string
	native   nativeFn
	model    *ssa.Function
}

func (w *Worker) info(fn *ssa.Function) *FnInfo {
	if f, ok := w.fns[fn]; ok {
		return f
	}
	f := &FnInfo{fn: fn, name: fn.String(), regOf: map[ssa.Value]int{}}
	w.fns[fn] = f
	add := func(v ssa.Value) { f.regOf[v] = f.nregs; f.nregs++ }
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	f.blocks = make([][]cinstr, len(fn.Blocks))
	f.preds = make([]map[int]int, len(fn.Blocks))
	for i, b := range fn.Blocks {
		f.preds[i] = map[int]int{}
		for j, p := range b.Preds {
			f.preds[i][p.Index] = j
		}
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			ci := cinstr{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				ci.dst = f.regOf[v]
			}
			var rands []*ssa.Value
			for _, o := range in.Operands(rands) {
				if *o == nil {
					ci.ops = append(ci.ops, operand{k: okVal})
					continue
				}
				ci.ops = append(ci.ops, w.operand(f, *o))
			}
			w.precompute(&ci)
			f.blocks[i] = append(f.blocks[i], ci)
		}
	}
	return f
}

func (w *Worker) precompute(ci *cinstr) {
	switch in := ci.in.(type) {
	case *ssa.UnOp:
		ci.t1 = w.ti(in.X.Type())
		ci.t2 = w.ti(in.Type())
		ci.pure = in.Op != token.ARROW
	case *ssa.BinOp:
		ci.t1 = w.ti(in.X.Type())
		ci.t2 = w.ti(in.Y.Type())
		ci.pure = in.Op != token.QUO && in.Op != token.REM
	case *ssa.Store:
		ci.t1 = w.ti(in.Val.Type())
	case *ssa.Convert:
		ci.t1 = w.ti(in.X.Type())
		ci.t2 = w.ti(in.Type())
		ci.pure = ci.t1.kind == TScalar && ci.t2.kind == TScalar
	case *ssa.ChangeType, *ssa.FieldAddr, *ssa.Field, *ssa.IndexAddr, *ssa.Index, *ssa.Phi, *ssa.Extract:
		ci.pure = true
		if x, ok := in.(*ssa.IndexAddr); ok {
			t := x.X.Type().Underlying()
			if p, ok := t.(*types.Pointer); ok {
				t = p.Elem().Underlying()
			}
			switch u := t.(type) {
			case *types.Slice:
				ci.t1 = w.ti(u.Elem())
			case *types.Array:
				ci.t1 = w.ti(u.Elem())
			}
		}
		if x, ok := in.(*ssa.FieldAddr); ok {
			ci.t1 = w.ti(x.X.Type().Underlying().(*types.Pointer).Elem())
		}
		if x, ok := in.(*ssa.Index); ok {
			ci.t1 = w.ti(x.X.Type())
		}
	}
}

func (w *Worker) operand(f *FnInfo, v ssa.Value) operand {
	switch x := v.(type) {
	case *ssa.Const:
		return operand{k: okVal, v: w.constVal(x)}
	case *ssa.Global:
		return operand{k: okGlobal, g: x}
	case *ssa.Function:
		return operand{k: okVal, v: Val{k: KFunc, w: 64, x: &Closure{fn: x}}}
	case *ssa.Builtin:
		return operand{k: okVal}
	}
	r, ok := f.regOf[v]
	if !ok {
		panic(fmt.Sprintf("operand %v of %v", v, f.name))
	}
	return operand{k: okReg, reg: r}
}

func (w *Worker) constVal(c *ssa.Const) Val {
	ti := w.ti(c.Type())
	if c.Value == nil {
		return w.zero(ti)
	}
	switch ti.kind {
	case TScalar:
		if ti.float {
			f, _ := constant.Float64Val(constant.ToFloat(c.Value))
			if ti.size == 4 {
				return cv(32, uint64(math.Float32bits(float32(f))))
			}
			return cv(64, math.Float64bits(f))
		}
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return cv(uint8(8*ti.size), uint64(i))
		}
		u, _ := constant.Uint64Val(v)
		return cv(uint8(8*ti.size), u)
	case TBool:
		return cbool(constant.BoolVal(c.Value))
	case TString:
		return w.strVal(constant.StringVal(c.Value))
	case TPtr:
		u, _ := constant.Uint64Val(constant.ToInt(c.Value))
		return ptr(0, int64(u))
	}
	return Val{}
}

func (s *State) get(f *Frame, o *operand) Val {
	switch o.k {
	case okReg:
		return f.regs[o.reg]
	case okVal:
		return o.v
	}
	return ptr(s.w.global(s, o.g), 0)
}

func (w *Worker) global(s *State, g *ssa.Global) int32 {
	if id, ok := w.globals[g]; ok {
		return id
	}
	s.unsupported("global %v of a package that is not encoded", g)
	return 0
}

// maxDepth is how deep the calls of vsym.Shallow's function can be.
const maxDepth = 60

func (s *State) pushFrame(fn *ssa.Function, args []Val, binds []Val, dst int) {
	if len(fn.Blocks) == 0 {
		s.unsupported("function without body: %s", fn)
	}
	if s.shallow > 0 && len(s.frames) > s.shallow {
		s.violation("assert", "the call depth grows with the nesting of the input")
	}
	if len(s.frames) > 3000 {
		s.unsupported("call depth")
	}
	fi := s.w.info(fn)
	s.w.funcs[fi.name]++
	fr := &Frame{owner: s.id, fn: fi, regs: make([]Val, fi.nregs), dst: dst, prev: -1}
	copy(fr.regs, args)
	copy(fr.regs[len(fn.Params):], binds)
	s.frames = append(s.frames, fr)
}

// run executes the state until its path ends.
func (s *State) run() (end abort) {
	for {
		a, again := s.runSome()
		if again {
			continue
		}
		return a
	}
}

func (s *State) runSome() (end abort, again bool) {
	defer func() {
		if r := recover(); r != nil {
			a, ok := r.(abort)
			if !ok {
				if os.Getenv("GOSYM_DEBUG") != "" {
					panic(r)
				}
				a = abort{kind: abUnsupported, msg: fmt.Sprintf("engine: %v", r)}
			}
			if a.kind == abGoPanic {
				end, again = s.unwind(a)
				return
			}
			end = a
		}
	}()
	for len(s.frames) > 0 {
		f := s.top()
		ci := &f.fn.blocks[f.blk][f.pc]
		s.steps++
		if s.steps&1023 == 0 && s.steps > s.w.cfg.maxSteps {
			panic(abort{kind: abBudget, msg: "step bound"})
		}
		if s.steps&4095 == 0 && !s.w.sliceEnd.IsZero() && time.Now().After(s.w.sliceEnd) {
			panic(abort{kind: abPaused})
		}
		s.exec(f, ci)
	}
	return abort{kind: abPathEnd}, false
}

// unwind propagates a Go panic through the frames.
func (s *State) unwind(a abort) (end abort, again bool) {
	for len(s.frames) > 0 {
		f := s.top()
		if len(f.defers) > 0 {
			d := f.defers[len(f.defers)-1]
			f.defers = f.defers[:len(f.defers)-1]
			f.panicking, f.panicVal, f.panicMsg = true, a.val, a.msg
			func() {
				defer func() {
					if r := recover(); r != nil {
						x, ok := r.(abort)
						if !ok {
							panic(r)
						}
						end = x
						again = false
					}
				}()
				again = true
				s.callVal(d.fn, d.args, d.call, -3)
			}()
			return end, again
		}
		s.frames = s.frames[:len(s.frames)-1]
	}
	return abort{kind: abViolation, sub: "panic", msg: a.msg}, false
}

func (s *State) ret(v Val) {
	f := s.frames[len(s.frames)-1]
	dst := f.dst
	s.frames = s.frames[:len(s.frames)-1]
	if len(s.frames) == 0 {
		return
	}
	c := s.top()
	switch {
	case dst == -2:
	case dst == -3: // deferred call while panicking
		if c.recovered {
			c.panicking, c.recovered = false, false
			// run remaining defers, then return through the recover block
			if c.fn.fn.Recover != nil {
				c.prev, c.blk, c.pc = c.blk, c.fn.fn.Recover.Index, 0
			} else {
				for len(c.defers) > 0 {
					s.unsupported("defers after recover without recover block")
				}
				s.ret(s.w.zero(s.w.ti(c.fn.fn.Signature.Results())))
			}
			return
		}
		panic(abort{kind: abGoPanic, msg: c.panicMsg, val: c.panicVal})
	case dst == -1:
		c.pc++
	default:
		c.regs[dst] = v
		c.pc++
	}
}

func (s *State) jump(f *Frame, to int) {
	f.prev = f.blk
	f.blk = to
	f.pc = 0
	s.phis(f)
}

// phis evaluates the leading phis of the current block simultaneously.
func (s *State) phis(f *Frame) {
	ins := f.fn.blocks[f.blk]
	if len(ins) == 0 {
		return
	}
	if _, ok := ins[0].in.(*ssa.Phi); !ok {
		return
	}
	e := f.fn.preds[f.blk][f.prev]
	var tmp [16]Val
	vals := tmp[:0]
	n := 0
	for n < len(ins) {
		if _, ok := ins[n].in.(*ssa.Phi); !ok {
			break
		}
		vals = append(vals, s.get(f, &ins[n].ops[e]))
		n++
	}
	for i := 0; i < n; i++ {
		f.regs[ins[i].dst] = vals[i]
	}
	f.pc = n
}

func (s *State) exec(f *Frame, ci *cinstr) {
	switch in := ci.in.(type) {
	case *ssa.If:
		s.execIf(f, ci, in)
	case *ssa.Jump:
		s.jump(f, in.Block().Succs[0].Index)
	case *ssa.Return:
		var v Val
		switch len(ci.ops) {
		case 0:
		case 1:
			v = s.get(f, &ci.ops[0])
		default:
			r := make([]Val, len(ci.ops))
			for i := range r {
				r[i] = s.get(f, &ci.ops[i])
			}
			v = agg(r...)
		}
		s.ret(v)
	case *ssa.Call:
		s.execCall(f, ci, &in.Call)
	case *ssa.Store:
		s.store(s.get(f, &ci.ops[0]), ci.t1, s.get(f, &ci.ops[1]))
		f.pc++
	case *ssa.Defer:
		fnv, args := s.callee(f, ci, &in.Call)
		f.defers = append(f.defers, deferred{fnv, args, &in.Call})
		f.pc++
	case *ssa.RunDefers:
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			s.callVal(d.fn, d.args, d.call, -2)
			return
		}
		f.pc++
	case *ssa.Panic:
		v := s.get(f, &ci.ops[0])
		panic(abort{kind: abGoPanic, msg: s.panicText(v), val: v})
	case *ssa.MapUpdate:
		m := s.get(f, &ci.ops[0])
		mt := in.Map.Type().Underlying().(*types.Map)
		slot := s.mapAssign(m, mt, s.get(f, &ci.ops[1]))
		s.store(slot, s.w.ti(mt.Elem()), s.get(f, &ci.ops[2]))
		f.pc++
	case *ssa.Phi:
		panic("stray phi in " + f.fn.name)
	case *ssa.Go, *ssa.Send, *ssa.Select:
		s.unsupported("concurrency instruction")
	default:
		v := s.evalInstr(f, ci)
		if ci.dst >= 0 {
			f.regs[ci.dst] = v
		}
		f.pc++
	}
}

func (s *State) panicText(v Val) string {
	if v.k == KAgg && len(v.elems()) == 2 && !v.elems()[0].isNil() {
		t := s.w.typeOf(v.elems()[0].id)
		if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.String {
			if str, ok := s.concreteString(s.load(v.elems()[1], s.w.ti(t))); ok {
				return str
			}
		}
		return "value of type " + t.String()
	}
	return "panic"
}

func (s *State) concreteString(v Val) (string, bool) {
	e := v.elems()
	if e[1].k != KConst {
		return "", false
	}
	n := int64(e[1].c)
	if n == 0 {
		return "", true
	}
	o, off := s.access(e[0], n, false)
	for i := int64(0); i < n; i++ {
		if t := s.byteAt(o, off+i); t.op != OConst {
			return "", false
		}
	}
	return string(o.data[off : off+n]), true
}

// evalInstr evaluates value-producing, non-call instructions.
func (s *State) evalInstr(f *Frame, ci *cinstr) Val {
	w := s.w
	switch in := ci.in.(type) {
	case *ssa.BinOp:
		return s.binop(in.Op, s.get(f, &ci.ops[0]), s.get(f, &ci.ops[1]), ci.t1, ci.t2, in.X.Type())
	case *ssa.UnOp:
		x := s.get(f, &ci.ops[0])
		switch in.Op {
		case token.MUL:
			return s.load(x, ci.t2)
		case token.NOT:
			if x.k == KConst {
				return cbool(x.c == 0)
			}
			return w.tv(w.bank.Not(s.term(x)))
		case token.SUB:
			if ci.t1.float {
				if x.k == KConst {
					if x.w == 32 {
						return cv(32, x.c^(1<<31))
					}
					return cv(64, x.c^(1<<63))
				}
				return w.tv(w.bank.Bin(OXor, s.term(x), w.bank.Const(x.w, 1<<(x.w-1))))
			}
			if x.k == KConst {
				return cv(x.w, -x.c)
			}
			return w.tv(w.bank.Neg(s.term(x)))
		case token.XOR:
			if x.k == KConst {
				return cv(x.w, ^x.c)
			}
			return w.tv(w.bank.Bin(OXor, s.term(x), w.bank.Const(x.w, ^uint64(0))))
		}
	case *ssa.Convert:
		return s.convert(s.get(f, &ci.ops[0]), ci.t1, ci.t2)
	case *ssa.ChangeType, *ssa.ChangeInterface:
		return s.get(f, &ci.ops[0])
	case *ssa.MultiConvert:
		return s.convert(s.get(f, &ci.ops[0]), w.ti(in.X.Type()), w.ti(in.Type()))
	case *ssa.Alloc:
		t := in.Type().Underlying().(*types.Pointer).Elem()
		ti := w.ti(t)
		return ptr(s.alloc(ti.size, t, "variable "+in.Comment).id, 0)
	case *ssa.FieldAddr:
		x := s.get(f, &ci.ops[0])
		if x.isNil() {
			s.gopanic("invalid memory address or nil pointer dereference")
		}
		if x.k == KSym {
			sp := *x.x.(*symPtr)
			sp.off += ci.t1.fields[in.Field].off
			return Val{k: KSym, x: &sp}
		}
		if x.k != KPtr {
			s.unsupported("field of %v", x)
		}
		x.c += uint64(ci.t1.fields[in.Field].off)
		return x
	case *ssa.Field:
		return s.get(f, &ci.ops[0]).elems()[in.Field]
	case *ssa.Extract:
		return s.get(f, &ci.ops[0]).elems()[in.Index]
	case *ssa.IndexAddr:
		return s.indexAddr(in, ci, s.get(f, &ci.ops[0]), s.get(f, &ci.ops[1]))
	case *ssa.Index:
		x, i := s.get(f, &ci.ops[0]), s.idx64(s.get(f, &ci.ops[1]), in.Index.Type())
		if ci.t1.kind == TString {
			e := x.elems()
			s.bounds(i, e[1])
			if i.k == KConst {
				return s.load(s.padd(e[0], int64(i.c)), w.ti(types.Typ[types.Uint8]))
			}
			return s.load(Val{k: KSym, x: &symPtr{e[0].id, int64(e[0].c), s.term(i), 1, int64(e[1].c)}}, w.ti(types.Typ[types.Uint8]))
		}
		a := x.elems()
		s.bounds(i, cint(int64(len(a))))
		if i.k == KConst {
			return a[i.c]
		}
		r := s.term(a[len(a)-1])
		for j := len(a) - 2; j >= 0; j-- {
			r = w.bank.Ite(w.bank.Eq(s.term(i), w.bank.Const(64, uint64(j))), s.term(a[j]), r)
		}
		return w.tv(r)
	case *ssa.Slice:
		return s.slice_(f, ci, in)
	case *ssa.MakeInterface:
		return s.mkIface(in.X.Type(), s.get(f, &ci.ops[0]))
	case *ssa.MakeClosure:
		b := make([]Val, len(ci.ops)-1)
		for i := range b {
			b[i] = s.get(f, &ci.ops[i+1])
		}
		return Val{k: KFunc, w: 64, x: &Closure{fn: in.Fn.(*ssa.Function), binds: b}}
	case *ssa.MakeSlice:
		et := in.Type().Underlying().(*types.Slice).Elem()
		n, c := s.concretize(s.get(f, &ci.ops[0])), s.concretize(s.get(f, &ci.ops[1]))
		if int64(n) < 0 {
			s.gopanic("makeslice: len out of range")
		}
		if c < n {
			s.gopanic("makeslice: cap out of range")
		}
		o := s.alloc(int64(c)*w.ti(et).size, et, "make([]"+et.String()+")")
		return agg(ptr(o.id, 0), cint(int64(n)), cint(int64(c)))
	case *ssa.MakeMap:
		return s.newMap(in.Type().Underlying().(*types.Map))
	case *ssa.MakeChan:
		return ptr(s.alloc(0, nil, "chan").id, 0)
	case *ssa.Lookup:
		x := s.get(f, &ci.ops[0])
		if mt, ok := in.X.Type().Underlying().(*types.Map); ok {
			v, found := s.mapLookup(x, mt, s.get(f, &ci.ops[1]))
			if in.CommaOk {
				return agg(v, cbool(found))
			}
			return v
		}
		// string index
		i := s.idx64(s.get(f, &ci.ops[1]), in.Index.Type())
		e := x.elems()
		s.bounds(i, e[1])
		if i.k == KConst {
			return s.load(s.padd(e[0], int64(i.c)), w.ti(types.Typ[types.Uint8]))
		}
		return s.load(Val{k: KSym, x: &symPtr{e[0].id, int64(e[0].c), s.term(i), 1, int64(e[1].c)}}, w.ti(types.Typ[types.Uint8]))
	case *ssa.TypeAssert:
		return s.typeAssert(in, s.get(f, &ci.ops[0]))
	case *ssa.Range:
		x := s.get(f, &ci.ops[0])
		o := s.alloc(0, nil, "range")
		if _, ok := in.X.Type().Underlying().(*types.Map); ok {
			it := &iterState{}
			if !x.isNil() {
				it.mapID = x.id
				for _, e := range s.obj(x.id).entries {
					if !e.dead {
						it.keys = append(it.keys, e.key)
					}
				}
			}
			o.iter = it
		} else {
			o.iter = &iterState{isStr: true, str: x}
		}
		return ptr(o.id, 0)
	case *ssa.Next:
		return s.next(in, s.get(f, &ci.ops[0]))
	case *ssa.SliceToArrayPointer:
		x := s.get(f, &ci.ops[0]).elems()
		n := in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if int64(x[1].c) < n {
			s.gopanic("cannot convert slice to array pointer: length too short")
		}
		return x[0]
	}
	s.unsupported("instruction %T in %s", ci.in, f.fn.name)
	return Val{}
}

func (s *State) padd(p Val, n int64) Val {
	switch p.k {
	case KPtr:
		p.c += uint64(n)
		return p
	case KConst:
		return cv(64, p.c+uint64(n))
	}
	s.unsupported("pointer arithmetic on %v", p)
	return p
}

func (s *State) idx64(i Val, t types.Type) Val {
	ti := s.w.ti(t)
	if i.w == 64 {
		return i
	}
	if i.k == KConst {
		if ti.signed {
			return cint(sx(i.c, i.w))
		}
		return cint(int64(i.c))
	}
	if ti.signed {
		return s.w.tv(s.w.bank.Sext(s.term(i), 64))
	}
	return s.w.tv(s.w.bank.Zext(s.term(i), 64))
}

func (s *State) bounds(i, n Val) {
	if i.k == KConst && n.k == KConst {
		if i.c >= n.c {
			s.gopanic(fmt.Sprintf("index out of range [%d] with length %d", int64(i.c), int64(n.c)))
		}
		return
	}
	b := s.w.bank
	if !s.decide(b.Bin(OUlt, s.term(i), s.term(n))) {
		s.gopanic(fmt.Sprintf("index out of range with length %v", n))
	}
}

func (s *State) indexAddr(in *ssa.IndexAddr, ci *cinstr, x, i Val) Val {
	i = s.idx64(i, in.Index.Type())
	es := ci.t1.size
	var base Val
	var n Val
	if pt, ok := in.X.Type().Underlying().(*types.Pointer); ok {
		base = x
		n = cint(pt.Elem().Underlying().(*types.Array).Len())
		if base.isNil() {
			s.gopanic("invalid memory address or nil pointer dereference")
		}
	} else {
		e := x.elems()
		base, n = e[0], e[1]
	}
	if n.k != KConst {
		n = cint(int64(s.concretize(n)))
	}
	s.bounds(i, n)
	if i.k == KConst {
		return s.padd(base, int64(i.c)*es)
	}
	if base.k != KPtr {
		s.unsupported("symbolic index into %v", base)
	}
	return Val{k: KSym, x: &symPtr{base.id, int64(base.c), s.term(i), es, int64(n.c)}}
}

func (s *State) slice_(f *Frame, ci *cinstr, in *ssa.Slice) Val {
	x := s.get(f, &ci.ops[0])
	opt := func(k int, v ssa.Value) (int64, bool) {
		if v == nil {
			return 0, false
		}
		return int64(s.concretize(s.idx64(s.get(f, &ci.ops[k]), v.Type()))), true
	}
	lo, _ := opt(1, in.Low)
	hi, hasHi := opt(2, in.High)
	mx, hasMax := opt(3, in.Max)
	switch u := in.X.Type().Underlying().(type) {
	case *types.Basic: // string
		e := x.elems()
		n := int64(s.concretize(e[1]))
		if !hasHi {
			hi = n
		}
		if lo < 0 || hi < lo || hi > n {
			s.gopanic(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", lo, hi, n))
		}
		if hi == lo {
			if n == 0 {
				return x
			}
			if lo == n { // gc avoids a past-the-end pointer
				return agg(e[0], cint(0))
			}
		}
		return agg(s.padd(e[0], lo), cint(hi-lo))
	case *types.Slice:
		es := s.w.ti(u.Elem()).size
		e := x.elems()
		n, c := int64(s.concretize(e[1])), int64(s.concretize(e[2]))
		if !hasHi {
			hi = n
		}
		if !hasMax {
			mx = c
		}
		if lo < 0 || hi < lo || hi > mx || mx > c {
			s.gopanic(fmt.Sprintf("slice bounds out of range [%d:%d] with capacity %d", lo, hi, c))
		}
		if mx-lo == 0 {
			return agg(e[0], cint(0), cint(0))
		}
		return agg(s.padd(e[0], lo*es), cint(hi-lo), cint(mx-lo))
	case *types.Pointer:
		a := u.Elem().Underlying().(*types.Array)
		es := s.w.ti(a.Elem()).size
		n := a.Len()
		if x.isNil() {
			s.gopanic("invalid memory address or nil pointer dereference")
		}
		if !hasHi {
			hi = n
		}
		if !hasMax {
			mx = n
		}
		if lo < 0 || hi < lo || hi > mx || mx > n {
			s.gopanic("slice bounds out of range")
		}
		return agg(s.padd(x, lo*es), cint(hi-lo), cint(mx-lo))
	}
	s.unsupported("slice of %v", in.X.Type())
	return Val{}
}

func (s *State) typeAssert(in *ssa.TypeAssert, x Val) Val {
	w := s.w
	e := x.elems()
	ok := false
	var r Val
	if !e[0].isNil() {
		dyn := w.typeOf(e[0].id)
		if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
			ok = w.implements(dyn, it, in.AssertedType)
			r = x
		} else {
			ok = w.typeID(in.AssertedType) == e[0].id
			if ok {
				r = s.unIface(x, dyn)
			}
		}
	}
	if in.CommaOk {
		if !ok {
			r = w.zero(w.ti(in.AssertedType))
		}
		return agg(r, cbool(ok))
	}
	if !ok {
		s.gopanic("interface conversion: unexpected dynamic type, want " + in.AssertedType.String())
	}
	return r
}

func (s *State) next(in *ssa.Next, it Val) Val {
	o := s.wobj(it.id)
	i := o.iter
	tup := in.Type().(*types.Tuple)
	w := s.w
	zeroOf := func(k int) Val {
		t := tup.At(k).Type()
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
			return Val{k: KConst, w: 64}
		}
		return w.zero(w.ti(t))
	}
	if !i.isStr {
		for i.pos < len(i.keys) {
			k := i.keys[i.pos]
			m := s.obj(i.mapID)
			for _, e := range m.entries {
				if e.key == k && !e.dead {
					i.pos++
					mt := m.mapT
					kv := s.load(ptr(e.key, 0), w.ti(mt.Key()))
					vv := s.load(ptr(e.val, 0), w.ti(mt.Elem()))
					return agg(cbool(true), kv, vv)
				}
			}
			i.pos++
		}
		return agg(cbool(false), zeroOf(1), zeroOf(2))
	}
	e := i.str.elems()
	n := int(s.concretize(e[1]))
	if i.pos >= n {
		return agg(cbool(false), cint(0), cv(32, 0))
	}
	pos := i.pos
	r, sz := s.decodeRune(e[0], pos, n)
	o = s.wobj(it.id)
	o.iter.pos = pos + sz
	return agg(cbool(true), cint(int64(pos)), r)
}

// decodeRune decodes one UTF-8 sequence of a (possibly symbolic) string.
func (s *State) decodeRune(p Val, pos, n int) (Val, int) {
	b := s.w.bank
	o, off := s.access(s.padd(p, int64(pos)), int64(n-pos), false)
	at := func(k int) *Term { return s.byteAt(o, off+int64(k)) }
	rng := func(t *Term, lo, hi uint64) *Term {
		return b.And(b.Not(b.Bin(OUlt, t, b.Const(8, lo))), b.Not(b.Bin(OUlt, b.Const(8, hi), t)))
	}
	bad := cv(32, 0xFFFD)
	b0 := at(0)
	if s.decide(b.Bin(OUlt, b0, b.Const(8, 0x80))) {
		return s.w.tv(b.Zext(b0, 32)), 1
	}
	left := n - pos
	z := func(t *Term, m uint64, sh uint64) *Term {
		return b.Bin(OShl, b.Zext(b.Bin(OAnd, t, b.Const(8, m)), 32), b.Const(32, sh))
	}
	if s.decide(rng(b0, 0xC2, 0xDF)) {
		if left < 2 || !s.decide(rng(at(1), 0x80, 0xBF)) {
			return bad, 1
		}
		return s.w.tv(b.Add(z(b0, 0x1f, 6), z(at(1), 0x3f, 0))), 2
	}
	if s.decide(rng(b0, 0xE0, 0xEF)) {
		if left < 2 {
			return bad, 1
		}
		lo, hi := uint64(0x80), uint64(0xBF)
		if s.decide(b.Eq(b0, b.Const(8, 0xE0))) {
			lo = 0xA0
		} else if s.decide(b.Eq(b0, b.Const(8, 0xED))) {
			hi = 0x9F
		}
		if !s.decide(rng(at(1), lo, hi)) || left < 3 || !s.decide(rng(at(2), 0x80, 0xBF)) {
			return bad, 1
		}
		return s.w.tv(b.Add(b.Add(z(b0, 0x0f, 12), z(at(1), 0x3f, 6)), z(at(2), 0x3f, 0))), 3
	}
	if s.decide(rng(b0, 0xF0, 0xF4)) {
		if left < 2 {
			return bad, 1
		}
		lo, hi := uint64(0x80), uint64(0xBF)
		if s.decide(b.Eq(b0, b.Const(8, 0xF0))) {
			lo = 0x90
		} else if s.decide(b.Eq(b0, b.Const(8, 0xF4))) {
			hi = 0x8F
		}
		if !s.decide(rng(at(1), lo, hi)) || left < 4 || !s.decide(rng(at(2), 0x80, 0xBF)) || !s.decide(rng(at(3), 0x80, 0xBF)) {
			return bad, 1
		}
		return s.w.tv(b.Add(b.Add(z(b0, 0x07, 18), z(at(1), 0x3f, 12)), b.Add(z(at(2), 0x3f, 6), z(at(3), 0x3f, 0)))), 4
	}
	return bad, 1
}

// ---- operators ---------------------------------------------------------------

func (s *State) binop(op token.Token, x, y Val, tx, ty *TI, t types.Type) Val {
	w := s.w
	switch op {
	case token.EQL, token.NEQ:
		r := s.equal(x, y, tx)
		if op == token.NEQ {
			r = w.bank.Not(r)
		}
		return w.tv(r)
	}
	if tx.kind == TString {
		switch op {
		case token.ADD:
			return s.concat(x, y)
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return s.strCmp(op, x, y)
		}
	}
	if x.k == KPtr && x.id != 0 || y.k == KPtr && y.id != 0 {
		return s.ptrArith(op, x, y)
	}
	if x.k == KPtr {
		x = cv(64, x.c)
	}
	if y.k == KPtr {
		y = cv(64, y.c)
	}
	if tx.float {
		return s.floatOp(op, x, y)
	}
	shift := op == token.SHL || op == token.SHR
	if x.k == KConst && y.k == KConst {
		return s.constOp(op, x, y, tx, ty)
	}
	b := w.bank
	a, c := s.term(x), s.term(y)
	if shift {
		if ty.signed {
			if s.decide(b.Bin(OSlt, c, b.Const(c.w, 0))) {
				s.gopanic("negative shift amount")
			}
		}
		// adapt the count to the width of x
		if c.w > a.w {
			if c.op == OConst {
				if c.val >= uint64(a.w) {
					c = b.Const(a.w, uint64(a.w))
				} else {
					c = b.Const(a.w, c.val)
				}
			} else {
				big := b.Not(b.Bin(OUlt, c, b.Const(c.w, uint64(a.w))))
				c = b.Ite(big, b.Const(a.w, uint64(a.w)), b.Extract(c, 0, a.w))
			}
		} else if c.w < a.w {
			c = b.Zext(c, a.w)
		}
	}
	sg := tx.signed
	switch op {
	case token.ADD:
		return w.tv(b.Add(a, c))
	case token.SUB:
		return w.tv(b.Sub(a, c))
	case token.MUL:
		return w.tv(b.Bin(OMul, a, c))
	case token.QUO, token.REM:
		if s.decide(b.Eq(c, b.Const(c.w, 0))) {
			s.gopanic("integer divide by zero")
		}
		o := OUDiv
		switch {
		case op == token.QUO && sg:
			o = OSDiv
		case op == token.REM && sg:
			o = OSRem
		case op == token.REM:
			o = OURem
		}
		return w.tv(b.Bin(o, a, c))
	case token.AND:
		if a.w == 0 {
			return w.tv(b.And(a, c))
		}
		return w.tv(b.Bin(OAnd, a, c))
	case token.OR:
		if a.w == 0 {
			return w.tv(b.Or(a, c))
		}
		return w.tv(b.Bin(OOr, a, c))
	case token.XOR:
		return w.tv(b.Bin(OXor, a, c))
	case token.AND_NOT:
		return w.tv(b.Bin(OAnd, a, b.Bin(OXor, c, b.Const(c.w, ^uint64(0)))))
	case token.SHL:
		return w.tv(b.Bin(OShl, a, c))
	case token.SHR:
		if sg {
			return w.tv(b.Bin(OAshr, a, c))
		}
		return w.tv(b.Bin(OLshr, a, c))
	}
	lt := OUlt
	if sg {
		lt = OSlt
	}
	switch op {
	case token.LSS:
		return w.tv(b.Bin(lt, a, c))
	case token.GTR:
		return w.tv(b.Bin(lt, c, a))
	case token.LEQ:
		return w.tv(b.Not(b.Bin(lt, c, a)))
	case token.GEQ:
		return w.tv(b.Not(b.Bin(lt, a, c)))
	}
	s.unsupported("operator %v", op)
	return Val{}
}

func (s *State) constOp(op token.Token, x, y Val, tx, ty *TI) Val {
	a, c := x.c, y.c
	wd := x.w
	sg := tx.signed
	switch op {
	case token.ADD:
		return cv(wd, a+c)
	case token.SUB:
		return cv(wd, a-c)
	case token.MUL:
		return cv(wd, a*c)
	case token.QUO:
		if c == 0 {
			s.gopanic("integer divide by zero")
		}
		if sg {
			return cv(wd, foldBin(OSDiv, wd, a, c))
		}
		return cv(wd, a/c)
	case token.REM:
		if c == 0 {
			s.gopanic("integer divide by zero")
		}
		if sg {
			return cv(wd, foldBin(OSRem, wd, a, c))
		}
		return cv(wd, a%c)
	case token.AND:
		return cv(wd, a&c)
	case token.OR:
		return cv(wd, a|c)
	case token.XOR:
		return cv(wd, a^c)
	case token.AND_NOT:
		return cv(wd, a&^c)
	case token.SHL, token.SHR:
		if ty.signed && sx(c, y.w) < 0 {
			s.gopanic("negative shift amount")
		}
		if op == token.SHL {
			return cv(wd, foldBin(OShl, wd, a, c))
		}
		if sg {
			return cv(wd, foldBin(OAshr, wd, a, c))
		}
		return cv(wd, foldBin(OLshr, wd, a, c))
	}
	var lt, eq bool
	eq = a == c
	if sg {
		lt = sx(a, wd) < sx(c, wd)
	} else {
		lt = a < c
	}
	switch op {
	case token.LSS:
		return cbool(lt)
	case token.LEQ:
		return cbool(lt || eq)
	case token.GTR:
		return cbool(!lt && !eq)
	case token.GEQ:
		return cbool(!lt)
	}
	s.unsupported("const operator %v", op)
	return Val{}
}

func (s *State) ptrArith(op token.Token, x, y Val) Val {
	num := func(v Val) (int64, bool) {
		if v.k == KConst {
			return int64(v.c), true
		}
		if v.k == KPtr && v.id == 0 {
			return int64(v.c), true
		}
		return 0, false
	}
	switch op {
	case token.ADD:
		if n, ok := num(y); ok {
			return s.padd(x, n)
		}
		if n, ok := num(x); ok {
			return s.padd(y, n)
		}
		if x.k == KPtr && y.k == KTerm {
			return s.padd(x, int64(s.concretize(y)))
		}
	case token.SUB:
		if n, ok := num(y); ok {
			return s.padd(x, -n)
		}
		if x.k == KPtr && y.k == KPtr && x.id == y.id {
			return cint(int64(x.c) - int64(y.c))
		}
	case token.XOR, token.OR:
		if n, ok := num(y); ok && n == 0 {
			return x
		}
		if n, ok := num(x); ok && n == 0 {
			return y
		}
	case token.AND:
		if n, ok := num(y); ok && n == -1 {
			return x
		}
		// alignment tests: objects are at least 16-byte aligned
		if n, ok := num(y); ok && n >= 0 && n < 16 {
			return cint(int64(x.c) & n)
		}
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if x.k == KPtr && y.k == KPtr && x.id == y.id {
			return s.constOp(op, cint(int64(x.c)), cint(int64(y.c)), &TI{signed: true}, &TI{})
		}
	}
	s.unsupported("pointer arithmetic %v", op)
	return Val{}
}

func (s *State) floatOp(op token.Token, x, y Val) Val {
	if x.k == KConst && y.k == KConst {
		if x.w == 64 {
			a, c := math.Float64frombits(x.c), math.Float64frombits(y.c)
			switch op {
			case token.ADD:
				return cv(64, math.Float64bits(a+c))
			case token.SUB:
				return cv(64, math.Float64bits(a-c))
			case token.MUL:
				return cv(64, math.Float64bits(a*c))
			case token.QUO:
				return cv(64, math.Float64bits(a/c))
			case token.LSS:
				return cbool(a < c)
			case token.LEQ:
				return cbool(a <= c)
			case token.GTR:
				return cbool(a > c)
			case token.GEQ:
				return cbool(a >= c)
			}
		} else {
			a, c := math.Float32frombits(uint32(x.c)), math.Float32frombits(uint32(y.c))
			switch op {
			case token.ADD:
				return cv(32, uint64(math.Float32bits(a+c)))
			case token.SUB:
				return cv(32, uint64(math.Float32bits(a-c)))
			case token.MUL:
				return cv(32, uint64(math.Float32bits(a*c)))
			case token.QUO:
				return cv(32, uint64(math.Float32bits(a/c)))
			case token.LSS:
				return cbool(a < c)
			case token.LEQ:
				return cbool(a <= c)
			case token.GTR:
				return cbool(a > c)
			case token.GEQ:
				return cbool(a >= c)
			}
		}
	}
	b := s.w.bank
	names := map[token.Token]string{token.ADD: "fadd", token.SUB: "fsub", token.MUL: "fmul", token.QUO: "fdiv",
		token.LSS: "flt", token.LEQ: "fle", token.GTR: "flt", token.GEQ: "fle"}
	n, ok := names[op]
	if !ok {
		s.unsupported("float operator %v", op)
	}
	a, c := s.term(x), s.term(y)
	if op == token.GTR || op == token.GEQ {
		a, c = c, a
	}
	rw := x.w
	if strings.HasPrefix(n, "fl") {
		rw = 0
	}
	return s.w.tv(b.UF(n, rw, a, c))
}

// equal builds the boolean term x == y.
func (s *State) equal(x, y Val, ti *TI) *Term {
	b := s.w.bank
	switch ti.kind {
	case TScalar, TBool:
		if ti.float {
			if x.k == KConst && y.k == KConst {
				if x.w == 64 {
					return b.Bool(math.Float64frombits(x.c) == math.Float64frombits(y.c))
				}
				return b.Bool(math.Float32frombits(uint32(x.c)) == math.Float32frombits(uint32(y.c)))
			}
			return b.UF("feq", 0, s.term(x), s.term(y))
		}
		if x.k == KConst && y.k == KConst {
			return b.Bool(x.c == y.c)
		}
		if x.k == KPtr || y.k == KPtr {
			return b.Bool(s.ptrEq(x, y))
		}
		return b.Eq(s.term(x), s.term(y))
	case TPtr:
		return b.Bool(s.ptrEq(x, y))
	case TFunc:
		if x.isNil() || y.isNil() {
			return b.Bool(x.isNil() && y.isNil())
		}
		s.unsupported("func comparison")
	case TSlice:
		xn, yn := x.k != KAgg || x.elems()[0].isNil(), y.k != KAgg || y.elems()[0].isNil()
		return b.Bool(xn == yn) // only comparison with nil is legal
	case TString:
		return s.strEq(x, y)
	case TIface:
		xe, ye := x.elems(), y.elems()
		xn, yn := xe[0].isNil(), ye[0].isNil()
		if xn || yn {
			return b.Bool(xn && yn)
		}
		if xe[0].id != ye[0].id {
			return b.fls
		}
		t := s.w.typeOf(xe[0].id)
		if isPtrShaped(t) {
			return b.Bool(s.ptrEq(xe[1], ye[1]))
		}
		if !types.Comparable(t) {
			s.gopanic("comparing uncomparable type " + t.String())
		}
		eti := s.w.ti(t)
		return s.equal(s.load(xe[1], eti), s.load(ye[1], eti), eti)
	case TStruct:
		xe, ye := x.elems(), y.elems()
		r := b.tru
		for i, f := range ti.fields {
			r = b.And(r, s.equal(xe[i], ye[i], f.ti))
		}
		return r
	case TArray:
		xe, ye := x.elems(), y.elems()
		r := b.tru
		for i := range xe {
			r = b.And(r, s.equal(xe[i], ye[i], ti.elem))
		}
		return r
	}
	s.unsupported("comparison of %v", ti.t)
	return nil
}

func (s *State) ptrEq(x, y Val) bool {
	if x.isNil() || y.isNil() {
		return x.isNil() && y.isNil()
	}
	if x.k == KPtr && y.k == KPtr {
		return x.id == y.id && x.c == y.c
	}
	if x.k == KFunc || y.k == KFunc {
		s.unsupported("func pointer comparison")
	}
	return false
}

func (s *State) strEq(x, y Val) *Term {
	b := s.w.bank
	xe, ye := x.elems(), y.elems()
	if xe[1].k != KConst || ye[1].k != KConst {
		s.unsupported("symbolic string length")
	}
	n := int64(xe[1].c)
	if ye[1].c != uint64(n) {
		return b.fls
	}
	return s.memEq(xe[0], ye[0], n)
}

func (s *State) memEq(p, q Val, n int64) *Term {
	b := s.w.bank
	if n == 0 || p.k == KPtr && q.k == KPtr && p.id == q.id && p.c == q.c {
		return b.tru
	}
	xo, xoff := s.access(p, n, false)
	yo, yoff := s.access(q, n, false)
	if len(xo.sp) == 0 && len(yo.sp) == 0 {
		return b.Bool(string(xo.data[xoff:xoff+n]) == string(yo.data[yoff:yoff+n]))
	}
	var cs []*Term
	for i := int64(0); i < n; i++ {
		c := b.Eq(s.byteAt(xo, xoff+i), s.byteAt(yo, yoff+i))
		if c == b.fls {
			return c
		}
		cs = append(cs, c)
	}
	return b.And(cs...)
}

func (s *State) strCmp(op token.Token, x, y Val) Val {
	xe, ye := x.elems(), y.elems()
	n, m := int64(s.concretize(xe[1])), int64(s.concretize(ye[1]))
	b := s.w.bank
	c := 0
	for i := int64(0); i < n && i < m && c == 0; i++ {
		xo, xoff := s.access(xe[0], n, false)
		yo, yoff := s.access(ye[0], m, false)
		p, q := s.byteAt(xo, xoff+i), s.byteAt(yo, yoff+i)
		if !s.decide(b.Eq(p, q)) {
			if s.decide(b.Bin(OUlt, p, q)) {
				c = -1
			} else {
				c = 1
			}
		}
	}
	if c == 0 {
		switch {
		case n < m:
			c = -1
		case n > m:
			c = 1
		}
	}
	switch op {
	case token.LSS:
		return cbool(c < 0)
	case token.LEQ:
		return cbool(c <= 0)
	case token.GTR:
		return cbool(c > 0)
	}
	return cbool(c >= 0)
}

func (s *State) concat(x, y Val) Val {
	xe, ye := x.elems(), y.elems()
	n, m := int64(s.concretize(xe[1])), int64(s.concretize(ye[1]))
	if n == 0 {
		return y
	}
	if m == 0 {
		return x
	}
	o := s.alloc(n+m, nil, "string")
	s.move(ptr(o.id, 0), xe[0], n)
	s.move(ptr(o.id, n), ye[0], m)
	return agg(ptr(o.id, 0), cint(n+m))
}

func (s *State) convert(x Val, from, to *TI) Val {
	w := s.w
	b := w.bank
	switch {
	case to.kind == TScalar && from.kind == TScalar:
		switch {
		case from.float && to.float:
			if from.size == to.size {
				return x
			}
			if x.k == KConst {
				if to.size == 4 {
					return cv(32, uint64(math.Float32bits(float32(math.Float64frombits(x.c)))))
				}
				return cv(64, math.Float64bits(float64(math.Float32frombits(uint32(x.c)))))
			}
			if to.size == 4 {
				return w.tv(b.UF("f64to32", 32, s.term(x)))
			}
			return w.tv(b.UF("f32to64", 64, s.term(x)))
		case from.float: // float -> int
			if x.k == KConst {
				f := math.Float64frombits(x.c)
				if from.size == 4 {
					f = float64(math.Float32frombits(uint32(x.c)))
				}
				if to.signed {
					return cv(to.w, uint64(int64(f)))
				}
				return cv(to.w, uint64(f))
			}
			return w.tv(b.UF(fmt.Sprintf("ftoi_%v", to.signed), to.w, s.term(x)))
		case to.float:
			return s.intToFloat(x, from, to)
		}
		if x.k == KPtr {
			if x.id == 0 {
				x = cv(64, x.c)
			} else if to.size == 8 {
				return x
			} else {
				s.unsupported("pointer truncated")
			}
		}
		if x.k == KConst {
			if from.signed {
				return cv(to.w, uint64(sx(x.c, x.w)))
			}
			return cv(to.w, x.c)
		}
		t := s.term(x)
		switch {
		case to.w == t.w:
			return x
		case to.w < t.w:
			return w.tv(b.Extract(t, 0, to.w))
		case from.signed:
			return w.tv(b.Sext(t, to.w))
		default:
			return w.tv(b.Zext(t, to.w))
		}
	case to.kind == TPtr && (from.kind == TPtr || from.kind == TScalar):
		if x.k == KConst && x.c == 0 {
			return nilPtr
		}
		return x
	case to.kind == TScalar && from.kind == TPtr:
		if x.isNil() {
			return cv(64, 0)
		}
		return x
	case to.kind == TString && from.kind == TString:
		return x
	case to.kind == TSlice && from.kind == TSlice:
		return x
	case to.kind == TString && from.kind == TSlice:
		et := from.t.Underlying().(*types.Slice).Elem()
		e := x.elems()
		n := int64(s.concretize(e[1]))
		if n == 0 {
			return agg(nilPtr, cint(0))
		}
		if w.ti(et).size == 1 {
			o := s.alloc(n, nil, "string")
			s.move(ptr(o.id, 0), e[0], n)
			return agg(ptr(o.id, 0), cint(n))
		}
		// []rune
		var buf []Val
		for i := int64(0); i < n; i++ {
			buf = append(buf, s.encodeRune(s.load(s.padd(e[0], 4*i), w.ti(types.Typ[types.Int32])))...)
		}
		return s.bytesToString(buf)
	case to.kind == TSlice && from.kind == TString:
		et := to.t.Underlying().(*types.Slice).Elem()
		e := x.elems()
		n := int64(s.concretize(e[1]))
		if w.ti(et).size == 1 {
			if n == 0 {
				return agg(ptr(w.zeroObj, 0), cint(0), cint(0))
			}
			o := s.alloc(n, et, "[]byte(string)")
			s.move(ptr(o.id, 0), e[0], n)
			return agg(ptr(o.id, 0), cint(n), cint(n))
		}
		var rs []Val
		for p := 0; p < int(n); {
			r, sz := s.decodeRune(e[0], p, int(n))
			rs = append(rs, r)
			p += sz
		}
		o := s.alloc(int64(len(rs))*4, et, "[]rune")
		for i, r := range rs {
			s.writeCell(o, int64(i)*4, 4, r)
		}
		return agg(ptr(o.id, 0), cint(int64(len(rs))), cint(int64(len(rs))))
	case to.kind == TString && from.kind == TScalar:
		return s.bytesToString(s.encodeRune(s.convert(x, from, w.ti(types.Typ[types.Int32]))))
	case to.kind == from.kind:
		return x
	}
	s.unsupported("conversion %v -> %v", from.t, to.t)
	return Val{}
}

func (s *State) bytesToString(buf []Val) Val {
	if len(buf) == 0 {
		return agg(nilPtr, cint(0))
	}
	o := s.alloc(int64(len(buf)), nil, "string")
	for i, v := range buf {
		s.writeCell(o, int64(i), 1, v)
	}
	return agg(ptr(o.id, 0), cint(int64(len(buf))))
}

func (s *State) encodeRune(r Val) []Val {
	b := s.w.bank
	t := s.term(r)
	c := func(v uint64) *Term { return b.Const(32, v) }
	by := func(or uint64, sh uint64, m uint64) Val {
		return s.w.tv(b.Bin(OOr, b.Const(8, or), b.Extract(b.Bin(OAnd, b.Bin(OLshr, t, c(sh)), c(m)), 0, 8)))
	}
	if s.decide(b.Bin(OUlt, t, c(0x80))) {
		return []Val{s.w.tv(b.Extract(t, 0, 8))}
	}
	if s.decide(b.Bin(OUlt, t, c(0x800))) {
		return []Val{by(0xC0, 6, 0x1f), by(0x80, 0, 0x3f)}
	}
	if s.decide(b.Or(b.Bin(OUlt, c(0x10ffff), t), b.And(b.Not(b.Bin(OUlt, t, c(0xd800))), b.Bin(OUlt, t, c(0xe000))))) {
		return []Val{cv(8, 0xef), cv(8, 0xbf), cv(8, 0xbd)}
	}
	if s.decide(b.Bin(OUlt, t, c(0x10000))) {
		return []Val{by(0xE0, 12, 0x0f), by(0x80, 6, 0x3f), by(0x80, 0, 0x3f)}
	}
	return []Val{by(0xF0, 18, 7), by(0x80, 12, 0x3f), by(0x80, 6, 0x3f), by(0x80, 0, 0x3f)}
}

// intToFloat converts an integer; symbolic conversions are uninterpreted
// functions of the 64-bit value.
func (s *State) intToFloat(x Val, from, to *TI) Val {
	if x.k == KConst {
		var f float64
		var g float32
		if from.signed {
			f, g = float64(sx(x.c, x.w)), float32(sx(x.c, x.w))
		} else {
			f, g = float64(x.c), float32(x.c)
		}
		if to.size == 4 {
			return cv(32, uint64(math.Float32bits(g)))
		}
		return cv(64, math.Float64bits(f))
	}
	b := s.w.bank
	t := s.term(x)
	if from.signed {
		t = s.ext(t, true)
	} else {
		t = s.ext(t, false)
	}
	n := "itof64"
	if to.size == 4 {
		n = "itof32"
	}
	if !from.signed && from.size == 8 {
		if lo, _, ok := b.rng(t, s.dom); !ok || lo < 0 {
			n = "u" + n
		}
	}
	return s.w.tv(b.UF(n, to.w, t))
}

// ext widens a sum to 64 bits; when the interval analysis proves the narrow sum
// does not wrap the sum is distributed, so that equal values get equal terms.
func (s *State) ext(t *Term, signed bool) *Term {
	b := s.w.bank
	if t.w == 64 {
		return t
	}
	if t.op == OAdd {
		if lo, _, ok := b.rng(t, s.dom); ok && (signed || lo >= 0) {
			r := b.Const(64, uint64(sx(t.val, t.w)))
			good := true
			for i, a := range t.args {
				if a.op != OTab {
					good = false
					break
				}
				r = b.Add(r, b.MulC(b.Sext(a, 64), uint64(sx(t.coefs[i], t.w))))
			}
			if good {
				return r
			}
		}
	}
	if signed {
		return b.Sext(t, 64)
	}
	return b.Zext(t, 64)
}

func floatBits(f float64) uint64 { return math.Float64bits(f) }
