package main

import (
	"fmt"
	"os"

	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- calls -------------------------------------------------------------------

var debugSat = os.Getenv("GOSYM_SAT") != ""

func biFunc(name string) Val { return Val{k: KFunc, w: 64, x: &Closure{bi: name}} }

// callee evaluates the function value and the arguments of a call.
func (s *State) callee(f *Frame, ci *cinstr, call *ssa.CallCommon) (Val, []Val) {
	args := make([]Val, 0, len(call.Args)+1)
	if call.IsInvoke() {
		x := s.get(f, &ci.ops[0])
		e := x.elems()
		if e[0].isNil() {
			s.gopanic("invalid memory address or nil pointer dereference")
		}
		if e[0].k != KPtr || e[0].id >= 0 {
			s.violation("memory", "method call through a corrupt interface value")
		}
		if e[0].id == s.w.rtypeID {
			args = append(args, e[1])
			for i := range call.Args {
				args = append(args, s.get(f, &ci.ops[i+1]))
			}
			return biFunc("rtype." + call.Method.Name()), args
		}
		t := s.w.typeOf(e[0].id)
		fn := s.w.method(t, call.Method)
		if fn == nil {
			s.unsupported("no method %s on %s", call.Method.Name(), t)
		}
		args = append(args, s.unIface(x, t))
		for i := range call.Args {
			args = append(args, s.get(f, &ci.ops[i+1]))
		}
		return Val{k: KFunc, w: 64, x: &Closure{fn: fn}}, args
	}
	for i := range call.Args {
		args = append(args, s.get(f, &ci.ops[i+1]))
	}
	if b, ok := call.Value.(*ssa.Builtin); ok {
		return biFunc("builtin." + b.Name()), args
	}
	return s.get(f, &ci.ops[0]), args
}

func (s *State) execCall(f *Frame, ci *cinstr, call *ssa.CallCommon) {
	fn, args := s.callee(f, ci, call)
	s.callVal(fn, args, call, ci.dst)
}

// callVal calls fn; see Frame.dst for the meaning of dst.
func (s *State) callVal(fv Val, args []Val, call *ssa.CallCommon, dst int) {
	if fv.k != KFunc {
		if fv.isNil() {
			s.gopanic("invalid memory address or nil pointer dereference")
		}
		s.violation("memory", "call through a corrupt function value")
	}
	c := fv.x.(*Closure)
	if c.fn == nil {
		var v Val
		if strings.HasPrefix(c.bi, "builtin.") {
			v = s.builtin(c.bi[8:], args, call)
		} else {
			h, ok := rtypeMethods[c.bi[6:]]
			if !ok {
				s.unsupported("reflect.Type method %s", c.bi[6:])
			}
			s.w.natives[c.bi]++
			v = h(s, args)
		}
		s.finish(dst, v)
		return
	}
	fi := s.w.info(c.fn)
	if !fi.resolved {
		s.w.resolve(fi)
	}
	if fi.native != nil {
		s.w.natives[fi.origin]++
		if fi.origin == "(*sync.Pool).Get" {
			// what was put last; for an empty pool call New
			if p := s.pools[args[0].id]; len(p) > 0 {
				v := p[len(p)-1]
				s.pools[args[0].id] = p[:len(p)-1]
				s.finish(dst, v)
				return
			}
			ti := s.w.ti(c.fn.Signature.Recv().Type().Underlying().(*types.Pointer).Elem())
			v := s.load(args[0], ti).elems()
			nw := v[len(v)-1]
			if nw.isNil() {
				s.finish(dst, agg(nilPtr, nilPtr))
				return
			}
			s.callVal(nw, nil, call, dst)
			return
		}
		v := fi.native(s, args, c.fn)
		s.finish(dst, v)
		return
	}
	if fi.skip {
		s.finish(dst, Val{})
		return
	}
	if fi.model != nil {
		s.pushFrame(fi.model, args, nil, dst)
		return
	}
	s.pushFrame(c.fn, args, c.binds, dst)
}

// finish delivers the result of a native call.
func (s *State) finish(dst int, v Val) {
	f := s.top()
	switch dst {
	case -2:
	case -3:
		panic(abort{kind: abGoPanic, msg: f.panicMsg, val: f.panicVal})
	case -1:
		f.pc++
	default:
		f.regs[dst] = v
		f.pc++
	}
}

// resolve decides how a function is executed: a native model, a Go model or its
// own body.
func (w *Worker) resolve(fi *FnInfo) {
	fi.resolved = true
	fn := fi.fn
	o := fn
	if fn.Origin() != nil {
		o = fn.Origin()
	}
	fi.origin = o.String()
	if h, ok := natives[fi.origin]; ok {
		fi.native = h
		return
	}
	if o.Name() == "init" && o.Synthetic == "package initializer" {
		if o.Pkg == nil || !w.L.encoded(o.Pkg.Pkg.Path()) || w.L.noInit(o.Pkg.Pkg.Path()) {
			fi.skip = true
		}
		return
	}
	if strings.HasPrefix(o.Name(), "init#") && w.L.noInit(o.Pkg.Pkg.Path()) {
		fi.skip = true
		return
	}
	if len(fn.Blocks) == 0 {
		// link-named functions
		if o.Pkg != nil {
			if h, ok := linknames[w.L.links[o.Pkg.Pkg.Path()+"."+o.Name()]]; ok {
				fi.native = h
				return
			}
		}
	}
}

func (s *State) lenOf(v Val, t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic, *types.Slice:
		return v.elems()[1]
	case *types.Map:
		if v.isNil() {
			return cint(0)
		}
		return cint(int64(s.mapLen(v)))
	case *types.Array:
		return cint(u.Len())
	case *types.Pointer:
		return cint(u.Elem().Underlying().(*types.Array).Len())
	}
	s.unsupported("len of %v", t)
	return Val{}
}

func (s *State) mapLen(m Val) int {
	n := 0
	for _, e := range s.mapObj(m).entries {
		if !e.dead {
			n++
		}
	}
	return n
}

func (s *State) mapObj(m Val) *Object {
	if m.k != KPtr || m.id <= 0 {
		s.violation("memory", "map operation through a corrupt map pointer")
	}
	o := s.obj(m.id)
	if o == nil || !o.isMap || m.c != 0 {
		s.violation("memory", "map operation on memory that is not a map")
	}
	return o
}

func (s *State) builtin(name string, args []Val, call *ssa.CallCommon) Val {
	w := s.w
	at := func(i int) types.Type { return call.Args[i].Type() }
	switch name {
	case "len":
		return s.lenOf(args[0], at(0))
	case "cap":
		switch u := at(0).Underlying().(type) {
		case *types.Slice:
			return args[0].elems()[2]
		case *types.Array:
			return cint(u.Len())
		case *types.Pointer:
			return cint(u.Elem().Underlying().(*types.Array).Len())
		}
	case "append":
		et := at(0).Underlying().(*types.Slice).Elem()
		es := w.ti(et).size
		a, b := args[0].elems(), args[1].elems()
		n, c, m := int64(s.concretize(a[1])), int64(s.concretize(a[2])), int64(s.concretize(b[1]))
		if m == 0 {
			return args[0]
		}
		return s.appendRaw(a[0], n, c, b[0], m, es, et)
	case "copy":
		et := at(0).Underlying().(*types.Slice).Elem()
		es := w.ti(et).size
		a, b := args[0].elems(), args[1].elems()
		n, m := int64(s.concretize(a[1])), int64(s.concretize(b[1]))
		if m < n {
			n = m
		}
		s.move(a[0], b[0], n*es)
		return cint(n)
	case "delete":
		if args[0].isNil() {
			return Val{}
		}
		mt := at(0).Underlying().(*types.Map)
		if i := s.mapFind(args[0], mt, args[1]); i >= 0 {
			s.wobj(args[0].id).entries[i].dead = true
		}
		return Val{}
	case "clear":
		switch u := at(0).Underlying().(type) {
		case *types.Map:
			if !args[0].isNil() {
				s.mapObj(args[0])
				s.wobj(args[0].id).entries = nil
			}
		case *types.Slice:
			e := args[0].elems()
			s.zeroMem(e[0], int64(s.concretize(e[1]))*w.ti(u.Elem()).size)
		}
		return Val{}
	case "print", "println":
		return Val{}
	case "recover":
		n := len(s.frames)
		if n >= 2 && s.frames[n-1].dst == -3 && s.frames[n-2].panicking && !s.frames[n-2].recovered {
			// own the caller frame
			c := s.frames[n-2]
			if c.owner != s.id {
				k := *c
				k.owner = s.id
				k.regs = append([]Val(nil), c.regs...)
				k.defers = append([]deferred(nil), c.defers...)
				c = &k
				s.frames[n-2] = c
			}
			c.recovered = true
			if c.panicVal.k == KAgg {
				return c.panicVal
			}
			return w.errorVal(s, c.panicMsg)
		}
		return agg(nilPtr, nilPtr)
	case "min", "max":
		r := args[0]
		ti := w.ti(at(0))
		if ti.kind != TScalar || ti.float {
			s.unsupported("min/max of %v", ti.t)
		}
		op := OUlt
		if ti.signed {
			op = OSlt
		}
		for _, a := range args[1:] {
			lt := w.bank.Bin(op, s.term(a), s.term(r))
			if name == "max" {
				lt = w.bank.Bin(op, s.term(r), s.term(a))
			}
			r = w.tv(w.bank.Ite(lt, s.term(a), s.term(r)))
		}
		return r
	case "ssa:wrapnilchk":
		if args[0].isNil() {
			s.gopanic("value method called using nil pointer")
		}
		return args[0]
	case "Add":
		return s.ptrArith2(args[0], args[1])
	case "SliceData":
		return args[0].elems()[0]
	case "StringData":
		return args[0].elems()[0]
	case "String":
		n := int64(s.concretize(s.idx64(args[1], at(1))))
		if n < 0 {
			s.gopanic("unsafe.String: len out of range")
		}
		if n > 0 {
			s.access(args[0], n, false)
		}
		return agg(args[0], cint(n))
	case "Slice":
		n := int64(s.concretize(s.idx64(args[1], at(1))))
		es := w.ti(at(0).Underlying().(*types.Pointer).Elem()).size
		if n < 0 {
			s.gopanic("unsafe.Slice: len out of range")
		}
		if n > 0 {
			s.access(args[0], n*es, false)
		}
		return agg(args[0], cint(n), cint(n))
	}
	s.unsupported("builtin %s", name)
	return Val{}
}

func (s *State) ptrArith2(p, n Val) Val {
	if n.k == KPtr && n.id == 0 {
		n = cint(int64(n.c))
	}
	return s.padd(p, int64(s.concretize(n)))
}

// appendRaw appends m elements at src to the slice (p, n, c).
func (s *State) appendRaw(p Val, n, c int64, src Val, m, es int64, et types.Type) Val {
	if n+m <= c {
		s.move(s.padd(p, n*es), src, m*es)
		return agg(p, cint(n+m), cint(c))
	}
	nc := c
	if n+m > 2*c {
		nc = n + m
	} else if c < 256 {
		nc = 2 * c
	} else {
		for nc < n+m {
			nc += (nc + 3*256) / 4
		}
	}
	if es > 0 && nc*es < 8 {
		nc = 8 / es // smallest size class
	}
	var np Val
	if es == 0 {
		np = ptr(s.w.zeroObj, 0)
	} else {
		o := s.alloc(nc*es, et, "append []"+et.String())
		np = ptr(o.id, 0)
		s.move(np, p, n*es)
		s.move(s.padd(np, n*es), src, m*es)
	}
	return agg(np, cint(n+m), cint(nc))
}

// ---- maps ----------------------------------------------------------------------

func (s *State) newMap(mt *types.Map) Val {
	o := s.alloc(0, nil, "map")
	o.isMap = true
	o.mapT = mt
	return ptr(o.id, 0)
}

// sameLayout tells whether values of the two types are represented alike.
func sameLayout(a, b types.Type, d int) bool {
	a, b = a.Underlying(), b.Underlying()
	if types.Identical(a, b) || d > 8 {
		return true
	}
	switch x := a.(type) {
	case *types.Basic:
		y, ok := b.(*types.Basic)
		return ok && x.Kind() == y.Kind()
	case *types.Pointer:
		y, ok := b.(*types.Pointer)
		return ok && sameLayout(x.Elem(), y.Elem(), d+1)
	case *types.Slice:
		y, ok := b.(*types.Slice)
		return ok && sameLayout(x.Elem(), y.Elem(), d+1)
	case *types.Array:
		y, ok := b.(*types.Array)
		return ok && x.Len() == y.Len() && sameLayout(x.Elem(), y.Elem(), d+1)
	case *types.Map:
		y, ok := b.(*types.Map)
		return ok && sameLayout(x.Key(), y.Key(), d+1) && sameLayout(x.Elem(), y.Elem(), d+1)
	case *types.Struct:
		y, ok := b.(*types.Struct)
		if !ok || x.NumFields() != y.NumFields() {
			return false
		}
		for i := 0; i < x.NumFields(); i++ {
			if !sameLayout(x.Field(i).Type(), y.Field(i).Type(), d+1) {
				return false
			}
		}
		return true
	}
	return false
}

// mapFind returns the entry index of key or -1.
func (s *State) mapFind(m Val, mt *types.Map, key Val) int {
	o := s.mapObj(m)
	if o.mapT != mt && !sameLayout(o.mapT, mt, 0) {
		s.violation("memory", "map of type "+o.mapT.String()+" used as "+mt.String())
	}
	kti := s.w.ti(mt.Key())
	s.hashable(key, kti)
	for i, e := range o.entries {
		if e.dead {
			continue
		}
		k := s.load(ptr(e.key, 0), kti)
		if s.decide(s.equal(k, key, kti)) {
			return i
		}
	}
	return -1
}

func (s *State) hashable(v Val, ti *TI) {
	if ti.kind == TIface {
		e := v.elems()
		if !e[0].isNil() && !types.Comparable(s.w.typeOf(e[0].id)) {
			s.gopanic("hash of unhashable type " + s.w.typeOf(e[0].id).String())
		}
	}
}

func (s *State) mapLookup(m Val, mt *types.Map, key Val) (Val, bool) {
	vti := s.w.ti(mt.Elem())
	if m.isNil() {
		s.hashable(key, s.w.ti(mt.Key()))
		return s.w.zero(vti), false
	}
	i := s.mapFind(m, mt, key)
	if i < 0 {
		return s.w.zero(vti), false
	}
	return s.load(ptr(s.obj(m.id).entries[i].val, 0), vti), true
}

// mapAssign returns the slot for key, inserting it if needed.
func (s *State) mapAssign(m Val, mt *types.Map, key Val) Val {
	if m.isNil() {
		s.gopanic("assignment to entry in nil map")
	}
	i := s.mapFind(m, mt, key)
	kti, vti := s.w.ti(mt.Key()), s.w.ti(mt.Elem())
	if i >= 0 {
		e := s.obj(m.id).entries[i]
		if kti.kind == TString || kti.float || kti.kind == TIface {
			s.store(ptr(e.key, 0), kti, key)
		}
		return ptr(e.val, 0)
	}
	ko := s.alloc(kti.size, mt.Key(), "map key")
	s.store(ptr(ko.id, 0), kti, key)
	vo := s.alloc(vti.size, mt.Elem(), "map value "+mt.Elem().String())
	o := s.wobj(m.id)
	o.entries = append(o.entries, mapEntry{key: ko.id, val: vo.id})
	return ptr(vo.id, 0)
}

// ---- branches ------------------------------------------------------------------

type leaf struct {
	cond *Term
	blk  int
	pc   int
	prev int
	regs map[int]Val
}

const maxLeaves = 48

func (s *State) execIf(f *Frame, ci *cinstr, in *ssa.If) {
	c := s.get(f, &ci.ops[0])
	succ := in.Block().Succs
	if c.k == KConst {
		if c.c != 0 {
			s.jump(f, succ[0].Index)
		} else {
			s.jump(f, succ[1].Index)
		}
		return
	}
	t := s.term(c)
	if q := s.w.bank.quick(t, s.dom); q >= 0 {
		s.w.stats.Interval++
		s.audit(t, q)
		if q == 1 {
			s.jump(f, succ[0].Index)
		} else {
			s.jump(f, succ[1].Index)
		}
		return
	}
	leaves := s.lookahead(f, t, in)
	if leaves == nil {
		if s.decide(t) {
			s.jump(s.top(), succ[0].Index)
		} else {
			s.jump(s.top(), succ[1].Index)
		}
		return
	}
	for i, l := range leaves {
		if i == len(leaves)-1 || s.decide(l.cond) {
			if i == len(leaves)-1 {
				s.assume(l.cond)
			}
			if debugSat {
				if _, ok := s.w.fullModel(s); !ok {
					fmt.Fprintf(os.Stderr, "INFEASIBLE leaf %d/%d %v modelOK %v\n", i, len(leaves), l.cond, s.modelOK)
					for _, l := range leaves {
						fmt.Fprintf(os.Stderr, "   leaf %v\n", l.cond)
					}
				}
			}
			f = s.top()
			for r, v := range l.regs {
				f.regs[r] = v
			}
			f.prev, f.blk, f.pc = l.prev, l.blk, l.pc
			return
		}
	}
}

// lookahead expands side-effect free blocks after a symbolic branch and merges
// the routes that meet in the same block.
func (s *State) lookahead(f *Frame, t *Term, in *ssa.If) []leaf {
	w := s.w
	b := w.bank
	var out []leaf
	over := false
	type undo struct {
		r   int
		old Val
	}
	var log []undo
	set := func(r int, v Val) {
		log = append(log, undo{r, f.regs[r]})
		f.regs[r] = v
	}
	var expand func(blk, prev int, cond *Term, route []int)
	expand = func(blk, prev int, cond *Term, route []int) {
		if over || cond == b.fls {
			return
		}
		if len(out) >= maxLeaves {
			over = true
			return
		}
		mark := len(log)
		defer func() {
			for len(log) > mark {
				u := log[len(log)-1]
				log = log[:len(log)-1]
				f.regs[u.r] = u.old
			}
		}()
		ins := f.fn.blocks[blk]
		// phis
		n := 0
		if len(ins) > 0 {
			e := f.fn.preds[blk][prev]
			var vals []Val
			for n < len(ins) {
				if _, ok := ins[n].in.(*ssa.Phi); !ok {
					break
				}
				vals = append(vals, s.get(f, &ins[n].ops[e]))
				n++
			}
			for i, v := range vals {
				set(ins[i].dst, v)
			}
		}
		stop := func(upto int) {
			regs := make(map[int]Val, upto)
			for _, u := range log[:upto] {
				regs[u.r] = f.regs[u.r]
			}
			out = append(out, leaf{cond: cond, blk: blk, pc: n, prev: prev, regs: regs})
		}
		for _, r := range route {
			if r == blk {
				stop(len(log))
				return
			}
		}
		last := &ins[len(ins)-1]
		switch last.in.(type) {
		case *ssa.If, *ssa.Jump:
		default:
			stop(len(log))
			return
		}
		for i := n; i < len(ins)-1; i++ {
			if !ins[i].pure {
				stop(len(log))
				return
			}
		}
		if len(ins)-1-n > 24 {
			stop(len(log))
			return
		}
		m2 := len(log)
		if !s.pureBlock(f, ins[n:len(ins)-1], set) {
			for len(log) > m2 {
				u := log[len(log)-1]
				log = log[:len(log)-1]
				f.regs[u.r] = u.old
			}
			stop(m2)
			return
		}
		rt := append(append([]int(nil), route...), blk)
		switch x := last.in.(type) {
		case *ssa.Jump:
			expand(x.Block().Succs[0].Index, blk, cond, rt)
		case *ssa.If:
			cvv := s.get(f, &last.ops[0])
			if cvv.k == KConst {
				k := 0
				if cvv.c == 0 {
					k = 1
				}
				expand(x.Block().Succs[k].Index, blk, cond, rt)
				return
			}
			ct := s.term(cvv)
			if q := b.quick(ct, s.dom); q >= 0 {
				expand(x.Block().Succs[1-q].Index, blk, cond, rt)
				return
			}
			expand(x.Block().Succs[0].Index, blk, b.And(cond, ct), rt)
			expand(x.Block().Succs[1].Index, blk, b.And(cond, b.Not(ct)), rt)
		}
	}
	cur := in.Block().Index
	expand(in.Block().Succs[0].Index, cur, t, []int{cur})
	expand(in.Block().Succs[1].Index, cur, b.Not(t), []int{cur})
	if over || len(out) < 2 {
		return nil
	}
	// drop leaves excluded by the intervals
	k := out[:0]
	for _, l := range out {
		if b.quick(l.cond, s.dom) != 0 {
			k = append(k, l)
		}
	}
	out = k
	// merge
	var res []leaf
	for _, l := range out {
		done := false
		for i := range res {
			r := &res[i]
			if r.blk != l.blk || r.pc != l.pc {
				continue
			}
			m, ok := s.mergeRegs(f, l, *r)
			if !ok {
				continue
			}
			r.regs = m
			r.cond = b.Or(r.cond, l.cond)
			s.w.stats.Merges++
			done = true
			break
		}
		if !done {
			res = append(res, l)
		}
	}
	// a cheap exclusive condition first
	return res
}

func (s *State) mergeRegs(f *Frame, l, r leaf) (map[int]Val, bool) {
	b := s.w.bank
	m := map[int]Val{}
	one := func(k int, x, v Val) bool { // x from l, v from r
		if sameVal(x, v) {
			m[k] = v
			return true
		}
		if !s.liveAt(f, k, l.blk, l.pc) {
			return true
		}
		if (x.k == KConst || x.k == KTerm) && (v.k == KConst || v.k == KTerm) && x.w == v.w && x.w <= 32 {
			m[k] = s.w.tv(b.Ite(l.cond, s.term(x), s.term(v)))
			return true
		}
		return false
	}
	for k, v := range r.regs {
		x, ok := l.regs[k]
		if !ok {
			x = f.regs[k]
		}
		if !one(k, x, v) {
			return nil, false
		}
	}
	for k, x := range l.regs {
		if _, ok := r.regs[k]; !ok {
			if !one(k, x, f.regs[k]) {
				return nil, false
			}
		}
	}
	return m, true
}

// liveAt is a conservative liveness test: is register k used in a block
// reachable from blk (phis of blk excluded, as they are evaluated).
func (s *State) liveAt(f *Frame, k, blk, pc int) bool {
	fi := f.fn
	if fi.live == nil {
		fi.live = s.w.liveness(fi)
	}
	// a phi of the join block itself is live if used later
	return fi.live[blk][k>>6]>>(k&63)&1 == 1
}

// liveness computes registers live after the phis of each block.
func (w *Worker) liveness(fi *FnInfo) [][]uint64 {
	nw := (fi.nregs + 63) / 64
	nb := len(fi.blocks)
	live := make([][]uint64, nb)
	in := make([][]uint64, nb) // live before the phis, per block (without phi uses)
	for i := range live {
		live[i] = make([]uint64, nw)
		in[i] = make([]uint64, nw)
	}
	for ch := true; ch; {
		ch = false
		for bi := nb - 1; bi >= 0; bi-- {
			cur := make([]uint64, nw)
			for _, su := range fi.fn.Blocks[bi].Succs {
				for i, x := range in[su.Index] {
					cur[i] |= x
				}
				e := fi.preds[su.Index][bi]
				for _, ci := range fi.blocks[su.Index] {
					if _, ok := ci.in.(*ssa.Phi); !ok {
						break
					}
					if o := ci.ops[e]; o.k == okReg {
						cur[o.reg>>6] |= 1 << (o.reg & 63)
					}
				}
			}
			ins := fi.blocks[bi]
			k := len(ins) - 1
			for ; k >= 0; k-- {
				ci := &ins[k]
				if _, ok := ci.in.(*ssa.Phi); ok {
					break
				}
				if ci.dst >= 0 {
					cur[ci.dst>>6] &^= 1 << (ci.dst & 63)
				}
				for _, o := range ci.ops {
					if o.k == okReg {
						cur[o.reg>>6] |= 1 << (o.reg & 63)
					}
				}
			}
			for i := range cur {
				if live[bi][i] != cur[i] {
					live[bi][i] = cur[i]
					ch = true
				}
			}
			bf := append([]uint64(nil), cur...)
			for ; k >= 0; k-- {
				d := ins[k].dst
				bf[d>>6] &^= 1 << (d & 63)
			}
			for i := range bf {
				if in[bi][i] != bf[i] {
					in[bi][i] = bf[i]
					ch = true
				}
			}
		}
	}
	return live
}

func sameVal(a, b Val) bool {
	if a.k != b.k || a.w != b.w || a.id != b.id || a.c != b.c {
		return false
	}
	switch a.k {
	case KTerm:
		return a.x.(*Term) == b.x.(*Term)
	case KAgg:
		x, y := a.elems(), b.elems()
		if len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameVal(x[i], y[i]) {
				return false
			}
		}
		return true
	case KFunc, KSym:
		return a.x == b.x
	}
	return true
}

// pureBlock evaluates pure instructions without forking; false if one of them
// would fork or fail.
func (s *State) pureBlock(f *Frame, ins []cinstr, set func(int, Val)) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(abort); !is {
				panic(r)
			}
			ok = false
		}
	}()
	s.noFork = true
	defer func() { s.noFork = false }()
	for i := range ins {
		v := s.evalInstr(f, &ins[i])
		if d := ins[i].dst; d >= 0 {
			set(d, v)
		}
	}
	return true
}
