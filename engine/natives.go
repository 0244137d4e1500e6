package main

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"os"
	"reflect"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type nativeFn func(s *State, args []Val, fn *ssa.Function) Val

const vsymPath = "github.com/romshark/jscan-experimental-decoder/internal/vsym"

var natives map[string]nativeFn
var linknames map[string]nativeFn
var rtypeMethods map[string]func(s *State, args []Val) Val

func (s *State) boolTerm(v Val) *Term { return s.term(v) }

// typeArg decodes a pointer to type data.
func (s *State) typeArg(v Val) types.Type {
	if v.k != KPtr || v.id >= 0 || v.c != 0 {
		if v.isNil() {
			s.gopanic("invalid memory address or nil pointer dereference")
		}
		s.violation("memory", "runtime call with a corrupt type descriptor")
	}
	return s.w.typeOf(v.id)
}

func (s *State) rtypeIface(t types.Type) Val {
	return agg(ptr(s.w.rtypeID, 0), s.w.typePtr(t))
}

// ifaceType decodes a reflect.Type interface value.
func (s *State) ifaceType(v Val) types.Type {
	e := v.elems()
	if e[0].isNil() {
		s.gopanic("invalid memory address or nil pointer dereference")
	}
	return s.typeArg(e[1])
}

func kindOf(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Array:
		return reflect.Array
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	case *types.Map:
		return reflect.Map
	case *types.Pointer:
		return reflect.Pointer
	case *types.Slice:
		return reflect.Slice
	case *types.Struct:
		return reflect.Struct
	}
	return reflect.Invalid
}

func elemOf(s *State, t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Array:
		return u.Elem()
	case *types.Chan:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	case *types.Pointer:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	}
	s.gopanic("reflect: Elem of invalid type " + t.String())
	return nil
}

func typeString(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (s *State) structField(t types.Type, i int) Val {
	st := t.Underlying().(*types.Struct)
	if i < 0 || i >= st.NumFields() {
		s.gopanic("reflect: Field index out of bounds")
	}
	f := st.Field(i)
	pkg := ""
	if !f.Exported() {
		pkg = f.Pkg().Path()
	}
	ti := s.w.ti(t)
	idx := s.alloc(8, types.Typ[types.Int], "StructField.Index")
	s.writeCell(idx, 0, 8, cint(int64(i)))
	return agg(s.w.strVal(f.Name()), s.w.strVal(pkg), s.rtypeIface(f.Type()), s.w.strVal(st.Tag(i)),
		cint(ti.fields[i].off), agg(ptr(idx.id, 0), cint(1), cint(1)), cbool(f.Anonymous()))
}

func (s *State) strArg(v Val) string {
	str, ok := s.concreteString(v)
	if !ok {
		s.unsupported("symbolic string argument")
	}
	return str
}

func numMethods(t types.Type) int {
	ms := types.NewMethodSet(t)
	n := 0
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Exported() {
			n++
		}
	}
	if it, ok := t.Underlying().(*types.Interface); ok {
		return it.NumMethods()
	}
	return n
}

func init() {
	rtypeMethods = map[string]func(s *State, a []Val) Val{
		"Kind":  func(s *State, a []Val) Val { return cint(int64(kindOf(s.typeArg(a[0])))) },
		"Elem":  func(s *State, a []Val) Val { return s.rtypeIface(elemOf(s, s.typeArg(a[0]))) },
		"Size":  func(s *State, a []Val) Val { return cint(s.w.ti(s.typeArg(a[0])).size) },
		"Align": func(s *State, a []Val) Val { return cint(s.w.sizes.Alignof(s.typeArg(a[0]))) },
		"NumField": func(s *State, a []Val) Val {
			return cint(int64(s.typeArg(a[0]).Underlying().(*types.Struct).NumFields()))
		},
		"Field": func(s *State, a []Val) Val { return s.structField(s.typeArg(a[0]), int(s.concretize(a[1]))) },
		"Key": func(s *State, a []Val) Val {
			m, ok := s.typeArg(a[0]).Underlying().(*types.Map)
			if !ok {
				s.gopanic("reflect: Key of non-map type")
			}
			return s.rtypeIface(m.Key())
		},
		"Len": func(s *State, a []Val) Val {
			m, ok := s.typeArg(a[0]).Underlying().(*types.Array)
			if !ok {
				s.gopanic("reflect: Len of non-array type")
			}
			return cint(m.Len())
		},
		"NumMethod": func(s *State, a []Val) Val { return cint(int64(numMethods(s.typeArg(a[0])))) },
		"Name": func(s *State, a []Val) Val {
			switch t := s.typeArg(a[0]).(type) {
			case *types.Named:
				return s.w.strVal(t.Obj().Name())
			case *types.Basic:
				return s.w.strVal(t.Name())
			}
			return s.w.strVal("")
		},
		"String": func(s *State, a []Val) Val { return s.w.strVal(typeString(s.typeArg(a[0]))) },
		"PkgPath": func(s *State, a []Val) Val {
			if t, ok := s.typeArg(a[0]).(*types.Named); ok && t.Obj().Pkg() != nil {
				return s.w.strVal(t.Obj().Pkg().Path())
			}
			return s.w.strVal("")
		},
		"AssignableTo": func(s *State, a []Val) Val {
			return cbool(types.AssignableTo(s.typeArg(a[0]), s.ifaceType(a[1])))
		},
		"ConvertibleTo": func(s *State, a []Val) Val {
			return cbool(types.ConvertibleTo(s.typeArg(a[0]), s.ifaceType(a[1])))
		},
		"Implements": func(s *State, a []Val) Val {
			it, ok := s.ifaceType(a[1]).Underlying().(*types.Interface)
			if !ok {
				s.gopanic("reflect: non-interface type passed to Type.Implements")
			}
			return cbool(types.Implements(s.typeArg(a[0]), it))
		},
		"Comparable": func(s *State, a []Val) Val { return cbool(types.Comparable(s.typeArg(a[0]))) },
		"Bits":       func(s *State, a []Val) Val { return cint(8 * s.w.ti(s.typeArg(a[0])).size) },
		"NumIn":      func(s *State, a []Val) Val { return cint(int64(s.signature(a[0]).Params().Len())) },
		"NumOut":     func(s *State, a []Val) Val { return cint(int64(s.signature(a[0]).Results().Len())) },
		"IsVariadic": func(s *State, a []Val) Val { return cbool(s.signature(a[0]).Variadic()) },
		"In": func(s *State, a []Val) Val {
			return s.rtypeIface(s.signature(a[0]).Params().At(int(s.concretize(a[1]))).Type())
		},
		"Out": func(s *State, a []Val) Val {
			return s.rtypeIface(s.signature(a[0]).Results().At(int(s.concretize(a[1]))).Type())
		},
		"ChanDir": func(s *State, a []Val) Val {
			c, ok := s.typeArg(a[0]).Underlying().(*types.Chan)
			if !ok {
				s.gopanic("reflect: ChanDir of non-chan type")
			}
			return cint(int64([]int{types.SendRecv: 3, types.SendOnly: 2, types.RecvOnly: 1}[c.Dir()]))
		},
		"FieldAlign": func(s *State, a []Val) Val { return cint(s.w.sizes.Alignof(s.typeArg(a[0]))) },
		"common":     func(s *State, a []Val) Val { return a[0] },
	}

	registerLinks()
	natives = map[string]nativeFn{}
	registerVsym()
	registerReflect()
	registerMisc()
}

func (s *State) signature(v Val) *types.Signature {
	t, ok := s.typeArg(v).Underlying().(*types.Signature)
	if !ok {
		s.gopanic("reflect: not a function type")
	}
	return t
}

var noPtrs types.Type = types.Typ[types.Uint8]

func (s *State) allocT(t types.Type, n int64) Val {
	sz := s.w.ti(t).size * n
	if sz == 0 {
		return ptr(s.w.zeroObj, 0)
	}
	return ptr(s.alloc(sz, t, "new "+t.String()).id, 0)
}

// registerLinks models the functions of the runtime that are reached by
// linkname, under their contracts.
func registerLinks() {
	cp := func(s *State, t types.Type, dst, n, src, m Val) Val {
		k, l := int64(s.concretize(n)), int64(s.concretize(m))
		if l < k {
			k = l
		}
		if k > 0 {
			s.move(dst, src, k*s.w.ti(t).size)
		}
		return cint(k)
	}
	clr := func(s *State, a []Val, _ *ssa.Function) Val {
		s.zeroMem(a[1], s.w.ti(s.typeArg(a[0])).size)
		return Val{}
	}
	mov := func(s *State, a []Val, _ *ssa.Function) Val {
		s.move(a[1], a[2], s.w.ti(s.typeArg(a[0])).size)
		return Val{}
	}
	newArray := func(s *State, a []Val, _ *ssa.Function) Val {
		t := s.typeArg(a[0])
		n := int64(s.concretize(a[1]))
		if n < 0 || n > 1<<20 {
			s.gopanic("runtime: allocation size out of range")
		}
		return s.allocT(t, n)
	}
	newObject := func(s *State, a []Val, _ *ssa.Function) Val { return s.allocT(s.typeArg(a[0]), 1) }
	mapType := func(s *State, v Val, what string) *types.Map {
		mt, ok := s.typeArg(v).Underlying().(*types.Map)
		if !ok {
			s.violation("memory", what+" with a type that is not a map")
		}
		return mt
	}
	makeMap := func(s *State, a []Val, _ *ssa.Function) Val { return s.newMap(mapType(s, a[0], "makemap")) }
	// fast is a map function for keys of certain kinds, passed by value.
	fast := func(what string, ok func(*State, types.Type) bool) nativeFn {
		return func(s *State, a []Val, _ *ssa.Function) Val {
			mt := mapType(s, a[0], what)
			if !ok(s, mt.Key()) || s.w.ti(mt.Elem()).size > 128 {
				s.violation("memory", what+" with an unsuitable map type")
			}
			return s.mapAssign(a[1], mt, a[2])
		}
	}
	intKey := func(size int64) func(*State, types.Type) bool {
		return func(s *State, t types.Type) bool {
			b, ok := t.Underlying().(*types.Basic)
			return ok && b.Info()&types.IsInteger != 0 && s.w.ti(t).size == size
		}
	}
	access := func(two bool) nativeFn {
		return func(s *State, a []Val, _ *ssa.Function) Val {
			mt := mapType(s, a[0], "mapaccess")
			p, found := Val{}, false
			if !a[1].isNil() {
				if i := s.mapFind(a[1], mt, s.load(a[2], s.w.ti(mt.Key()))); i >= 0 {
					p, found = ptr(s.obj(a[1].id).entries[i].val, 0), true
				}
			}
			if !found {
				p = ptr(s.alloc(s.w.ti(mt.Elem()).size, mt.Elem(), "zero").id, 0)
			}
			if two {
				return agg(p, cbool(found))
			}
			return p
		}
	}
	linknames = map[string]nativeFn{
		"reflect.noescape":        func(s *State, a []Val, _ *ssa.Function) Val { return a[0] },
		"runtime.noescape":        func(s *State, a []Val, _ *ssa.Function) Val { return a[0] },
		"runtime.newarray":        newArray,
		"reflect.unsafe_NewArray": newArray,
		"runtime.newobject":       newObject,
		"reflect.unsafe_New":      newObject,
		"runtime.mallocgc": func(s *State, a []Val, _ *ssa.Function) Val {
			size := int64(s.concretize(a[0]))
			if size == 0 {
				return ptr(s.w.zeroObj, 0)
			}
			var t types.Type = noPtrs
			if !a[1].isNil() {
				t = s.typeArg(a[1])
			}
			o := s.alloc(size, t, "mallocgc "+t.String())
			if !s.decide(s.boolTerm(a[2])) {
				// The memory holds whatever was there before.
				if len(s.w.ptrmap(t)) > 0 {
					s.violation("memory", "an object with pointers is allocated without zeroing")
				}
				for i := range o.data {
					o.data[i] = 0xA5
				}
			}
			return ptr(o.id, 0)
		},
		"runtime.typedslicecopy": func(s *State, a []Val, _ *ssa.Function) Val {
			t := s.typeArg(a[0])
			if len(s.w.ptrmap(t)) == 0 {
				s.violation("memory", "runtime.typedslicecopy with a type without pointers")
			}
			return cp(s, t, a[1], a[2], a[3], a[4])
		},
		"reflect.typedslicecopy": func(s *State, a []Val, _ *ssa.Function) Val {
			d, r := a[1].elems(), a[2].elems()
			return cp(s, s.typeArg(a[0]), d[0], d[1], r[0], r[1])
		},
		"runtime.typedmemclr":  clr,
		"reflect.typedmemclr":  clr,
		"runtime.typedmemmove": mov,
		"reflect.typedmemmove": mov,
		"runtime.memmove": func(s *State, a []Val, _ *ssa.Function) Val {
			s.move(a[0], a[1], int64(s.concretize(a[2])))
			return Val{}
		},
		"runtime.memclrNoHeapPointers": func(s *State, a []Val, _ *ssa.Function) Val {
			s.zeroMem(a[0], int64(s.concretize(a[1])))
			return Val{}
		},
		"runtime.makemap":           makeMap,
		"reflect.makemap":           makeMap,
		"runtime.mapassign_faststr": fast("mapassign_faststr", func(s *State, t types.Type) bool { return kindOf(t) == reflect.String }),
		"runtime.mapassign_fast32":  fast("mapassign_fast32", intKey(4)),
		"runtime.mapassign_fast64":  fast("mapassign_fast64", intKey(8)),
		"runtime.mapassign": func(s *State, a []Val, _ *ssa.Function) Val {
			mt := mapType(s, a[0], "mapassign")
			return s.mapAssign(a[1], mt, s.load(a[2], s.w.ti(mt.Key())))
		},
		"runtime.mapaccess1": access(false),
		"runtime.mapaccess2": access(true),
		"reflect.maplen": func(s *State, a []Val, _ *ssa.Function) Val {
			if a[0].isNil() {
				return cint(0)
			}
			return cint(int64(s.mapLen(a[0])))
		},
	}
	linknames["reflect.memmove"] = linknames["runtime.memmove"]
	linknames["reflect.makemap"] = makeMap
}

// ---- vsym --------------------------------------------------------------------------

func registerVsym() {
	v := func(n string, f nativeFn) { natives[vsymPath+"."+n] = f }
	v("Byte", func(s *State, a []Val, _ *ssa.Function) Val {
		n := s.nvars()
		s.inputs = append(s.inputs, InputRec{Kind: "byte", va: n})
		return s.w.tv(s.w.bank.Var(n))
	})
	v("ByteIn", func(s *State, a []Val, _ *ssa.Function) Val {
		n := s.nvars()
		set := s.strArg(a[0])
		s.inputs = append(s.inputs, InputRec{Kind: "byte", va: n})
		var d [4]uint64
		for i := 0; i < len(set); i++ {
			d[set[i]>>6] |= 1 << (set[i] & 63)
		}
		t := s.w.bank.Var(n)
		s.assume(s.w.bank.in(n, &d))
		return s.w.tv(t)
	})
	v("Choose", func(s *State, a []Val, _ *ssa.Function) Val {
		n := int(s.concretize(a[0]))
		if n <= 0 {
			panic(abort{kind: abInfeasible})
		}
		pick := 0
		switch {
		case s.preset > 0:
			pick = s.preset - 1
			s.preset = 0
		case s.nchoose < len(s.w.job.Prefix):
			pick = s.w.job.Prefix[s.nchoose]
		case !s.forked && len(s.w.job.Prefix) < s.w.cfg.maxPrefix && s.steps < 50_000:
			base := s.choices()
			for i := n - 1; i >= 1; i-- {
				s.w.emitJob(&Job{H: s.w.job.H, Prefix: append(append([]int(nil), base...), i)})
			}
		default:
			for i := n - 1; i >= 1; i-- {
				c := s.clone()
				c.preset = i + 1
				s.w.work = append(s.w.work, c)
			}
		}
		s.nchoose++
		s.inputs = append(s.inputs, InputRec{Kind: "choose", V: pick, N: n})
		return cint(int64(pick))
	})
	v("Assume", func(s *State, a []Val, _ *ssa.Function) Val {
		t := s.term(a[0])
		switch s.w.bank.quick(t, s.dom) {
		case 1:
			return Val{}
		case 0:
			panic(abort{kind: abInfeasible})
		}
		s.assume(t)
		if t.op != OIn && !s.modelOK || t.op == OIn && s.multi[t.v] && !s.modelOK {
			r, m := s.sat(s.w.bank.tru2(t))
			if r == RUnsat {
				panic(abort{kind: abInfeasible})
			}
			if r == RSat {
				s.applyModel(m)
			}
		}
		return Val{}
	})
	v("Assert", func(s *State, a []Val, _ *ssa.Function) Val {
		s.assertTerm(s.term(a[0]), a[1])
		return Val{}
	})
	v("And", func(s *State, a []Val, _ *ssa.Function) Val {
		return s.w.tv(s.w.bank.And(s.term(a[0]), s.term(a[1])))
	})
	v("Or", func(s *State, a []Val, _ *ssa.Function) Val {
		return s.w.tv(s.w.bank.Or(s.term(a[0]), s.term(a[1])))
	})
	v("Not", func(s *State, a []Val, _ *ssa.Function) Val { return s.w.tv(s.w.bank.Not(s.term(a[0]))) })
	v("IteInt", func(s *State, a []Val, _ *ssa.Function) Val {
		return s.w.tv(s.w.bank.Ite(s.term(a[0]), s.term(a[1]), s.term(a[2])))
	})
	v("In", func(s *State, a []Val, _ *ssa.Function) Val {
		set := s.strArg(a[1])
		t := s.term(a[0])
		b := s.w.bank
		if t.simple() && t.op == OTab {
			var vec [256]uint64
			for i := range vec {
				if strings.IndexByte(set, byte(t.vec[i])) >= 0 {
					vec[i] = 1
				}
			}
			return s.w.tv(b.tab(t.v, 0, &vec))
		}
		r := b.fls
		for i := 0; i < len(set); i++ {
			r = b.Or(r, b.Eq(t, b.Const(8, uint64(set[i]))))
		}
		return s.w.tv(r)
	})
	v("DeepEq", func(s *State, a []Val, _ *ssa.Function) Val {
		t := s.deepEqIface(a[0], a[1], 0)
		return s.w.tv(t)
	})
	v("freeze", func(s *State, a []Val, _ *ssa.Function) Val {
		s.frozen, s.pools = s.heap.next, nil
		return Val{}
	})
	v("thaw", func(s *State, a []Val, _ *ssa.Function) Val {
		s.frozen, s.pools = 0, nil
		return Val{}
	})
	v("shallow", func(s *State, a []Val, _ *ssa.Function) Val {
		s.shallow = len(s.frames) + maxDepth
		return Val{}
	})
	v("normal", func(s *State, a []Val, _ *ssa.Function) Val {
		s.shallow = 0
		return Val{}
	})
	v("Levels", func(s *State, a []Val, _ *ssa.Function) Val { return a[0] })
	v("parallel", func(s *State, a []Val, _ *ssa.Function) Val { return cbool(false) })
	v("GC", func(s *State, a []Val, _ *ssa.Function) Val { return Val{} })
	v("Reach", func(s *State, a []Val, _ *ssa.Function) Val {
		n := s.strArg(a[0])
		s.w.reach[n]++
		return Val{}
	})
	v("Observe", func(s *State, a []Val, _ *ssa.Function) Val {
		s.obs = append(s.obs, s.term(a[0]))
		return Val{}
	})
	v("Symbolic", func(s *State, a []Val, _ *ssa.Function) Val { return cbool(true) })
}

func (s *State) choices() []int {
	var r []int
	for _, i := range s.inputs {
		if i.Kind == "choose" {
			r = append(r, i.V)
		}
	}
	return r
}

func (s *State) assertTerm(t *Term, msg Val) {
	w := s.w
	s.asserts++
	switch w.bank.quick(t, s.dom) {
	case 1:
		if t.op == OConst {
			w.stats.AssertsFolded++
		} else {
			w.stats.AssertsInterval++
			s.audit(t, 1)
		}
		return
	}
	m, ok := s.concreteString(msg)
	if !ok {
		m = "assertion"
	}
	nt := w.bank.Not(t)
	if t.op != OConst {
		r, mod := s.sat(nt)
		switch r {
		case RUnsat:
			w.stats.AssertsSolver++
			return
		case RUnknown:
			w.stats.AssertsUnknown++
			if os.Getenv("GOSYM_DEBUG") != "" {
				fmt.Fprintf(os.Stderr, "UNDECIDED %s\n  %v\n", m, t)
			}
			return
		}
		s.take(nt, mod)
		s.opaque = s.opaque || t.opaque
	}
	s.violation("assert", m)
}

// deepEqIface compares two interface values deeply.
func (s *State) deepEqIface(x, y Val, depth int) *Term {
	b := s.w.bank
	xe, ye := x.elems(), y.elems()
	if xe[0].isNil() || ye[0].isNil() {
		return b.Bool(xe[0].isNil() && ye[0].isNil())
	}
	for _, e := range []Val{xe[0], ye[0]} {
		if e.k != KPtr || e.id >= 0 {
			s.violation("memory", "corrupt interface value")
		}
	}
	if xe[0].id != ye[0].id {
		return b.fls
	}
	t := s.w.typeOf(xe[0].id)
	return s.deepEq(s.unIface(x, t), s.unIface(y, t), t, depth)
}

func (s *State) deepEq(x, y Val, t types.Type, depth int) *Term {
	if depth > 200 {
		s.unsupported("deep comparison too deep")
	}
	w := s.w
	b := w.bank
	ti := w.ti(t)
	switch ti.kind {
	case TScalar:
		if x.k == KConst && y.k == KConst {
			return b.Bool(x.c == y.c)
		}
		if x.k == KPtr || y.k == KPtr {
			return b.Bool(s.ptrEq(x, y))
		}
		return b.Eq(s.term(x), s.term(y)) // floats: bitwise
	case TBool:
		return b.Eq(s.term(x), s.term(y))
	case TString:
		xe, ye := x.elems(), y.elems()
		s.concretize(xe[1])
		s.concretize(ye[1])
		return s.strEq(x, y)
	case TFunc:
		return b.Bool(x.isNil() && y.isNil())
	case TIface:
		return s.deepEqIface(x, y, depth+1)
	case TStruct:
		st := t.Underlying().(*types.Struct)
		xe, ye := x.elems(), y.elems()
		r := b.tru
		for i := range xe {
			r = b.And(r, s.deepEq(xe[i], ye[i], st.Field(i).Type(), depth+1))
		}
		return r
	case TArray:
		et := t.Underlying().(*types.Array).Elem()
		xe, ye := x.elems(), y.elems()
		r := b.tru
		for i := range xe {
			r = b.And(r, s.deepEq(xe[i], ye[i], et, depth+1))
		}
		return r
	case TSlice:
		et := t.Underlying().(*types.Slice).Elem()
		eti := w.ti(et)
		xe, ye := x.elems(), y.elems()
		xn, yn := xe[0].isNil(), ye[0].isNil()
		if xn != yn {
			return b.fls
		}
		n, m := int64(s.concretize(xe[1])), int64(s.concretize(ye[1]))
		if n != m {
			return b.fls
		}
		if int64(s.concretize(xe[2])) < n || int64(s.concretize(ye[2])) < n {
			return b.fls // a slice longer than its capacity is none
		}
		r := b.tru
		for i := int64(0); i < n; i++ {
			if eti.size == 0 {
				break
			}
			r = b.And(r, s.deepEq(s.load(s.padd(xe[0], i*eti.size), eti), s.load(s.padd(ye[0], i*eti.size), eti), et, depth+1))
			if r == b.fls {
				return r
			}
		}
		return r
	case TPtr:
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			if x.isNil() || y.isNil() {
				return b.Bool(x.isNil() && y.isNil())
			}
			if s.ptrEq(x, y) {
				return b.tru
			}
			eti := w.ti(u.Elem())
			return s.deepEq(s.load(x, eti), s.load(y, eti), u.Elem(), depth+1)
		case *types.Map:
			if x.isNil() || y.isNil() {
				return b.Bool(x.isNil() && y.isNil())
			}
			if s.ptrEq(x, y) {
				return b.tru
			}
			xo, yo := s.mapObj(x), s.mapObj(y)
			if !sameLayout(xo.mapT, u, 0) || !sameLayout(yo.mapT, u, 0) {
				s.violation("memory", "map of the wrong type")
			}
			if s.mapLen(x) != s.mapLen(y) {
				return b.fls
			}
			kti, vti := w.ti(u.Key()), w.ti(u.Elem())
			r := b.tru
			for _, e := range xo.entries {
				if e.dead {
					continue
				}
				k := s.load(ptr(e.key, 0), kti)
				i := s.mapFind(y, u, k)
				if i < 0 {
					return b.fls
				}
				xv := s.load(ptr(e.val, 0), vti)
				yv := s.load(ptr(s.obj(y.id).entries[i].val, 0), vti)
				r = b.And(r, s.deepEq(xv, yv, u.Elem(), depth+1))
			}
			return r
		}
		return b.Bool(s.ptrEq(x, y))
	}
	s.unsupported("deep comparison of %v", t)
	return nil
}

// ---- reflect -----------------------------------------------------------------------

const (
	rvAddr = 1
	rvRO   = 2
)

type rval struct {
	t    types.Type
	p    Val
	flag uint64
}

func (s *State) rv(v Val) rval {
	e := v.elems()
	if e[0].isNil() {
		s.gopanic("reflect: call of method on zero Value")
	}
	return rval{s.typeArg(e[0]), e[1], e[2].c}
}

func (s *State) mkrv(t types.Type, p Val, flag uint64) Val {
	return agg(s.w.typePtr(t), p, cv(64, flag))
}

func (s *State) rvOf(iface Val) Val {
	e := iface.elems()
	if e[0].isNil() {
		return agg(nilPtr, nilPtr, cv(64, 0))
	}
	t := s.w.typeOf(e[0].id)
	if isPtrShaped(t) {
		o := s.alloc(8, t, "reflect.ValueOf")
		s.storeAt(o, 0, s.w.ti(t), e[1])
		return s.mkrv(t, ptr(o.id, 0), 0)
	}
	return s.mkrv(t, e[1], 0)
}

func (s *State) rvLoad(r rval) Val { return s.load(r.p, s.w.ti(r.t)) }

func (s *State) rvNew(t types.Type, v Val) Val {
	ti := s.w.ti(t)
	if ti.size == 0 {
		return s.mkrv(t, ptr(s.w.zeroObj, 0), 0)
	}
	o := s.alloc(ti.size, t, "reflect value "+t.String())
	s.storeAt(o, 0, ti, v)
	return s.mkrv(t, ptr(o.id, 0), 0)
}

func (s *State) rvIface(r rval) Val {
	v := s.rvLoad(r)
	if types.IsInterface(r.t) {
		return v
	}
	return s.mkIface(r.t, v)
}

// assignTo converts value r for storage in a location of type t.
func (s *State) assignTo(r rval, t types.Type) Val {
	if types.IsInterface(t) {
		return s.rvIface(r)
	}
	if !types.AssignableTo(r.t, t) {
		s.gopanic("reflect.Set: value of type " + r.t.String() + " is not assignable to type " + t.String())
	}
	return s.rvLoad(r)
}

func (s *State) canSet(r rval) {
	if r.flag&rvRO != 0 {
		s.gopanic("reflect: reflect.Value.Set using value obtained using unexported field")
	}
	if r.flag&rvAddr == 0 {
		s.gopanic("reflect: reflect.Value.Set using unaddressable value")
	}
}

func registerReflect() {
	r := func(n string, f nativeFn) { natives["reflect."+n] = f }
	m := func(n string, f func(s *State, r rval, a []Val) Val) {
		natives["(reflect.Value)."+n] = func(s *State, a []Val, _ *ssa.Function) Val {
			return f(s, s.rv(a[0]), a[1:])
		}
	}
	raw := func(n string, f nativeFn) { natives["(reflect.Value)."+n] = f }
	r("TypeOf", func(s *State, a []Val, _ *ssa.Function) Val {
		e := a[0].elems()
		if e[0].isNil() {
			return agg(nilPtr, nilPtr)
		}
		return agg(ptr(s.w.rtypeID, 0), e[0])
	})
	r("ValueOf", func(s *State, a []Val, _ *ssa.Function) Val { return s.rvOf(a[0]) })
	r("New", func(s *State, a []Val, _ *ssa.Function) Val {
		t := s.ifaceType(a[0])
		return s.rvNew(types.NewPointer(t), s.allocT(t, 1))
	})
	r("NewAt", func(s *State, a []Val, _ *ssa.Function) Val {
		return s.rvNew(types.NewPointer(s.ifaceType(a[0])), a[1])
	})
	r("Zero", func(s *State, a []Val, _ *ssa.Function) Val {
		t := s.ifaceType(a[0])
		return s.rvNew(t, s.w.zero(s.w.ti(t)))
	})
	r("Indirect", func(s *State, a []Val, _ *ssa.Function) Val {
		v := s.rv(a[0])
		if kindOf(v.t) != reflect.Pointer {
			return a[0]
		}
		return s.rvElem(v)
	})
	r("MakeSlice", func(s *State, a []Val, _ *ssa.Function) Val {
		t := s.ifaceType(a[0])
		n, c := int64(s.concretize(a[1])), int64(s.concretize(a[2]))
		p := s.allocT(elemOf(s, t), c)
		return s.rvNew(t, agg(p, cint(n), cint(c)))
	})
	mm := func(s *State, a []Val, _ *ssa.Function) Val {
		t := s.ifaceType(a[0])
		return s.rvNew(t, s.newMap(t.Underlying().(*types.Map)))
	}
	r("MakeMap", mm)
	r("MakeMapWithSize", mm)
	pt := func(s *State, a []Val, _ *ssa.Function) Val { return s.rtypeIface(types.NewPointer(s.ifaceType(a[0]))) }
	r("PointerTo", pt)
	r("PtrTo", pt)
	r("SliceOf", func(s *State, a []Val, _ *ssa.Function) Val {
		return s.rtypeIface(types.NewSlice(s.ifaceType(a[0])))
	})
	r("MapOf", func(s *State, a []Val, _ *ssa.Function) Val {
		return s.rtypeIface(types.NewMap(s.ifaceType(a[0]), s.ifaceType(a[1])))
	})
	r("Copy", func(s *State, a []Val, _ *ssa.Function) Val {
		x, y := s.rv(a[0]), s.rv(a[1])
		es := s.w.ti(elemOf(s, x.t)).size
		xe := s.rvSliceLike(x)
		ye := s.rvSliceLike(y)
		n := min(int64(s.concretize(xe[1])), int64(s.concretize(ye[1])))
		s.move(xe[0], ye[0], n*es)
		return cint(n)
	})
	r("Append", func(s *State, a []Val, _ *ssa.Function) Val {
		x := s.rv(a[0])
		et := elemOf(s, x.t)
		cur := s.rvLoad(x)
		rest := a[1].elems()
		n := int64(s.concretize(rest[1]))
		vti := s.w.valueTI
		for i := int64(0); i < n; i++ {
			v := s.load(s.padd(rest[0], i*24), vti)
			val := s.assignTo(s.rv(v), et)
			tmp := s.rvNew(et, val)
			e := cur.elems()
			cur = s.appendRaw(e[0], int64(s.concretize(e[1])), int64(s.concretize(e[2])), tmp.elems()[1], 1, s.w.ti(et).size, et)
		}
		return s.rvNew(x.t, cur)
	})
	raw("IsValid", func(s *State, a []Val, _ *ssa.Function) Val { return cbool(!a[0].elems()[0].isNil()) })
	raw("Kind", func(s *State, a []Val, _ *ssa.Function) Val {
		if a[0].elems()[0].isNil() {
			return cint(0)
		}
		return cint(int64(kindOf(s.rv(a[0]).t)))
	})
	m("Type", func(s *State, v rval, a []Val) Val { return s.rtypeIface(v.t) })
	m("Elem", func(s *State, v rval, a []Val) Val { return s.rvElem(v) })
	m("Interface", func(s *State, v rval, a []Val) Val { return s.rvIface(v) })
	m("CanInterface", func(s *State, v rval, a []Val) Val { return cbool(v.flag&rvRO == 0) })
	m("CanAddr", func(s *State, v rval, a []Val) Val { return cbool(v.flag&rvAddr != 0) })
	m("CanSet", func(s *State, v rval, a []Val) Val { return cbool(v.flag&(rvAddr|rvRO) == rvAddr) })
	m("Addr", func(s *State, v rval, a []Val) Val {
		if v.flag&rvAddr == 0 {
			s.gopanic("reflect.Value.Addr of unaddressable value")
		}
		return s.rvNew(types.NewPointer(v.t), v.p)
	})
	up := func(s *State, v rval, a []Val) Val {
		if kindOf(v.t) == reflect.Slice {
			return s.rvLoad(v).elems()[0]
		}
		return s.rvLoad(v)
	}
	m("UnsafePointer", up)
	m("Pointer", up)
	m("UnsafeAddr", func(s *State, v rval, a []Val) Val { return v.p })
	m("NumMethod", func(s *State, v rval, a []Val) Val { return cint(int64(numMethods(v.t))) })
	m("NumField", func(s *State, v rval, a []Val) Val {
		return cint(int64(v.t.Underlying().(*types.Struct).NumFields()))
	})
	m("Field", func(s *State, v rval, a []Val) Val {
		st := v.t.Underlying().(*types.Struct)
		i := int(s.concretize(a[0]))
		fl := v.flag
		if !st.Field(i).Exported() {
			fl |= rvRO
		}
		return s.mkrv(st.Field(i).Type(), s.padd(v.p, s.w.ti(v.t).fields[i].off), fl)
	})
	m("Len", func(s *State, v rval, a []Val) Val {
		return s.lenOf(s.rvLoad(v), v.t)
	})
	m("Cap", func(s *State, v rval, a []Val) Val {
		if u, ok := v.t.Underlying().(*types.Array); ok {
			return cint(u.Len())
		}
		return s.rvLoad(v).elems()[2]
	})
	m("Index", func(s *State, v rval, a []Val) Val {
		i := int64(s.concretize(a[0]))
		switch u := v.t.Underlying().(type) {
		case *types.Array:
			if i < 0 || i >= u.Len() {
				s.gopanic("reflect: array index out of range")
			}
			return s.mkrv(u.Elem(), s.padd(v.p, i*s.w.ti(u.Elem()).size), v.flag)
		case *types.Slice:
			e := s.rvLoad(v).elems()
			if i < 0 || i >= int64(s.concretize(e[1])) {
				s.gopanic("reflect: slice index out of range")
			}
			return s.mkrv(u.Elem(), s.padd(e[0], i*s.w.ti(u.Elem()).size), v.flag&rvRO|rvAddr)
		}
		s.unsupported("reflect Index of %v", v.t)
		return Val{}
	})
	m("IsNil", func(s *State, v rval, a []Val) Val {
		x := s.rvLoad(v)
		switch kindOf(v.t) {
		case reflect.Slice, reflect.Interface:
			return cbool(x.elems()[0].isNil())
		case reflect.Pointer, reflect.Map, reflect.Func, reflect.Chan, reflect.UnsafePointer:
			return cbool(x.isNil())
		}
		s.gopanic("reflect: call of reflect.Value.IsNil on " + kindOf(v.t).String() + " Value")
		return Val{}
	})
	m("IsZero", func(s *State, v rval, a []Val) Val {
		return s.w.tv(s.deepEq(s.rvLoad(v), s.w.zero(s.w.ti(v.t)), v.t, 0))
	})
	m("Set", func(s *State, v rval, a []Val) Val {
		s.canSet(v)
		s.store(v.p, s.w.ti(v.t), s.assignTo(s.rv(a[0]), v.t))
		return Val{}
	})
	m("SetZero", func(s *State, v rval, a []Val) Val {
		s.canSet(v)
		s.store(v.p, s.w.ti(v.t), s.w.zero(s.w.ti(v.t)))
		return Val{}
	})
	setNum := func(s *State, v rval, a []Val) Val {
		s.canSet(v)
		ti := s.w.ti(v.t)
		if ti.kind != TScalar {
			s.gopanic("reflect: Set of wrong kind")
		}
		x := a[0]
		if ti.float {
			x = s.convert(x, s.w.ti(types.Typ[types.Float64]), ti)
		} else if ti.size < 8 {
			x = s.convert(x, s.w.ti(types.Typ[types.Int64]), ti)
		}
		s.store(v.p, ti, x)
		return Val{}
	}
	m("SetInt", setNum)
	m("SetUint", setNum)
	m("SetFloat", setNum)
	setAs := func(s *State, v rval, a []Val) Val {
		s.canSet(v)
		s.store(v.p, s.w.ti(v.t), a[0])
		return Val{}
	}
	m("SetString", setAs)
	m("SetBool", setAs)
	m("SetBytes", setAs)
	m("SetPointer", setAs)
	m("SetLen", func(s *State, v rval, a []Val) Val {
		s.canSet(v)
		e := s.rvLoad(v).elems()
		n := int64(s.concretize(a[0]))
		if n < 0 || n > int64(e[2].c) {
			s.gopanic("reflect: slice length out of range in SetLen")
		}
		s.store(v.p, s.w.ti(v.t), agg(e[0], cint(n), e[2]))
		return Val{}
	})
	m("SetCap", func(s *State, v rval, a []Val) Val {
		e := s.rvLoad(v).elems()
		s.store(v.p, s.w.ti(v.t), agg(e[0], e[1], cint(int64(s.concretize(a[0])))))
		return Val{}
	})
	m("Grow", func(s *State, v rval, a []Val) Val {
		e := s.rvLoad(v).elems()
		n, c, k := int64(e[1].c), int64(e[2].c), int64(s.concretize(a[0]))
		if n+k > c {
			et := elemOf(s, v.t)
			np := s.allocT(et, n+k)
			s.move(np, e[0], n*s.w.ti(et).size)
			s.store(v.p, s.w.ti(v.t), agg(np, cint(n), cint(n+k)))
		}
		return Val{}
	})
	m("Slice", func(s *State, v rval, a []Val) Val {
		i, j := int64(s.concretize(a[0])), int64(s.concretize(a[1]))
		switch u := v.t.Underlying().(type) {
		case *types.Slice:
			e := s.rvLoad(v).elems()
			if i < 0 || j < i || j > int64(e[2].c) {
				s.gopanic("reflect.Value.Slice: slice index out of bounds")
			}
			p := e[0]
			if int64(e[2].c)-i > 0 {
				p = s.padd(e[0], i*s.w.ti(u.Elem()).size)
			}
			return s.rvNew(v.t, agg(p, cint(j-i), cint(int64(e[2].c)-i)))
		}
		s.unsupported("reflect Slice of %v", v.t)
		return Val{}
	})
	m("Int", func(s *State, v rval, a []Val) Val {
		return s.convert(s.rvLoad(v), s.w.ti(v.t), s.w.ti(types.Typ[types.Int64]))
	})
	m("Uint", func(s *State, v rval, a []Val) Val {
		return s.convert(s.rvLoad(v), s.w.ti(v.t), s.w.ti(types.Typ[types.Uint64]))
	})
	m("Float", func(s *State, v rval, a []Val) Val {
		return s.convert(s.rvLoad(v), s.w.ti(v.t), s.w.ti(types.Typ[types.Float64]))
	})
	m("Bool", func(s *State, v rval, a []Val) Val { return s.rvLoad(v) })
	m("Bytes", func(s *State, v rval, a []Val) Val { return s.rvLoad(v) })
	m("String", func(s *State, v rval, a []Val) Val {
		if kindOf(v.t) != reflect.String {
			return s.w.strVal("<" + v.t.String() + " Value>")
		}
		return s.rvLoad(v)
	})
	over := func(s *State, v rval, a []Val, sg bool) Val {
		ti := s.w.ti(v.t)
		if ti.size == 8 {
			return cbool(false)
		}
		b := s.w.bank
		x := s.term(a[0])
		n := b.Extract(x, 0, uint8(8*ti.size))
		if sg {
			n = b.Sext(n, 64)
		} else {
			n = b.Zext(n, 64)
		}
		return s.w.tv(b.Not(b.Eq(n, x)))
	}
	m("OverflowInt", func(s *State, v rval, a []Val) Val { return over(s, v, a, true) })
	m("OverflowUint", func(s *State, v rval, a []Val) Val { return over(s, v, a, false) })
	m("MapIndex", func(s *State, v rval, a []Val) Val {
		mt := v.t.Underlying().(*types.Map)
		k := s.assignTo(s.rv(a[0]), mt.Key())
		x, ok := s.mapLookup(s.rvLoad(v), mt, k)
		if !ok {
			return agg(nilPtr, nilPtr, cv(64, 0))
		}
		return s.rvNew(mt.Elem(), x)
	})
	m("SetMapIndex", func(s *State, v rval, a []Val) Val {
		mt := v.t.Underlying().(*types.Map)
		k := s.assignTo(s.rv(a[0]), mt.Key())
		mp := s.rvLoad(v)
		if a[1].elems()[0].isNil() {
			if !mp.isNil() {
				if i := s.mapFind(mp, mt, k); i >= 0 {
					s.wobj(mp.id).entries[i].dead = true
				}
			}
			return Val{}
		}
		x := s.assignTo(s.rv(a[1]), mt.Elem())
		slot := s.mapAssign(mp, mt, k)
		s.store(slot, s.w.ti(mt.Elem()), x)
		return Val{}
	})
	m("MapKeys", func(s *State, v rval, a []Val) Val {
		mt := v.t.Underlying().(*types.Map)
		mp := s.rvLoad(v)
		var ks []Val
		if !mp.isNil() {
			for _, e := range s.mapObj(mp).entries {
				if !e.dead {
					ks = append(ks, s.rvNew(mt.Key(), s.load(ptr(e.key, 0), s.w.ti(mt.Key()))))
				}
			}
		}
		o := s.alloc(int64(24*len(ks)), s.w.valueTI.t, "MapKeys")
		for i, k := range ks {
			s.storeAt(o, int64(24*i), s.w.valueTI, k)
		}
		return agg(ptr(o.id, 0), cint(int64(len(ks))), cint(int64(len(ks))))
	})
	m("Convert", func(s *State, v rval, a []Val) Val {
		t := s.ifaceType(a[0])
		if types.IsInterface(t) {
			return s.rvNew(t, s.rvIface(v))
		}
		return s.rvNew(t, s.convert(s.rvLoad(v), s.w.ti(v.t), s.w.ti(t)))
	})
	natives["(reflect.StructTag).Get"] = func(s *State, a []Val, _ *ssa.Function) Val {
		return s.w.strVal(reflect.StructTag(s.strArg(a[0])).Get(s.strArg(a[1])))
	}
	natives["(reflect.StructTag).Lookup"] = func(s *State, a []Val, _ *ssa.Function) Val {
		x, ok := reflect.StructTag(s.strArg(a[0])).Lookup(s.strArg(a[1]))
		return agg(s.w.strVal(x), cbool(ok))
	}
	natives["(reflect.StructField).IsExported"] = func(s *State, a []Val, _ *ssa.Function) Val {
		return cbool(s.strArg(a[0].elems()[1]) == "")
	}
	natives["(reflect.Kind).String"] = func(s *State, a []Val, _ *ssa.Function) Val {
		return s.w.strVal(reflect.Kind(s.concretize(a[0])).String())
	}
}

func (s *State) rvElem(v rval) Val {
	x := s.rvLoad(v)
	switch u := v.t.Underlying().(type) {
	case *types.Pointer:
		if x.isNil() {
			return agg(nilPtr, nilPtr, cv(64, 0))
		}
		return s.mkrv(u.Elem(), x, v.flag&rvRO|rvAddr)
	case *types.Interface:
		return s.rvOf(x)
	}
	s.gopanic("reflect: call of reflect.Value.Elem on " + v.t.String() + " Value")
	return Val{}
}

func (s *State) rvSliceLike(v rval) []Val {
	if u, ok := v.t.Underlying().(*types.Array); ok {
		return []Val{v.p, cint(u.Len())}
	}
	return s.rvLoad(v).elems()
}

// ---- miscellaneous library functions -------------------------------------------------

func (s *State) bytesOf(p Val, n int64) []*Term {
	if n == 0 {
		return nil
	}
	o, off := s.access(p, n, false)
	r := make([]*Term, n)
	for i := range r {
		r[i] = s.byteAt(o, off+int64(i))
	}
	return r
}

func registerMisc() {
	n := natives
	op := func(name string) nativeFn {
		return func(s *State, a []Val, _ *ssa.Function) Val { return s.w.errorVal(s, name) }
	}
	n["fmt.Errorf"] = op("fmt.Errorf")
	n["fmt.Sprintf"] = func(s *State, a []Val, _ *ssa.Function) Val { return s.w.strVal("<formatted>") }
	n["fmt.Sprint"] = n["fmt.Sprintf"]
	n["math.Float64bits"] = func(s *State, a []Val, _ *ssa.Function) Val { return a[0] }
	n["math.Float32bits"] = n["math.Float64bits"]
	n["math.Float64frombits"] = n["math.Float64bits"]
	n["math.Float32frombits"] = n["math.Float64bits"]
	n["errors.Is"] = func(s *State, a []Val, _ *ssa.Function) Val {
		eq := s.equal(a[0], a[1], s.w.ti(types.Universe.Lookup("error").Type()))
		return s.w.tv(eq)
	}
	n["runtime.KeepAlive"] = func(s *State, a []Val, _ *ssa.Function) Val { return Val{} }
	n["runtime.GC"] = n["runtime.KeepAlive"]
	idx := func(s *State, p, ln, c Val) Val {
		b := s.w.bank
		nn := int64(s.concretize(ln))
		ct := s.term(c)
		for i, t := range s.bytesOf(p, nn) {
			if s.decide(b.Eq(t, ct)) {
				return cint(int64(i))
			}
		}
		return cint(-1)
	}
	ib := func(s *State, a []Val, _ *ssa.Function) Val {
		e := a[0].elems()
		return idx(s, e[0], e[1], a[1])
	}
	n["internal/bytealg.IndexByte"] = ib
	n["internal/bytealg.IndexByteString"] = ib
	n["strings.IndexByte"] = ib
	n["bytes.IndexByte"] = ib
	lib := func(s *State, a []Val, _ *ssa.Function) Val {
		e := a[0].elems()
		ts := s.bytesOf(e[0], int64(s.concretize(e[1])))
		ct := s.term(a[1])
		for i := len(ts) - 1; i >= 0; i-- {
			if s.decide(s.w.bank.Eq(ts[i], ct)) {
				return cint(int64(i))
			}
		}
		return cint(-1)
	}
	n["strings.LastIndexByte"] = lib
	n["bytes.LastIndexByte"] = lib
	n["internal/bytealg.LastIndexByte"] = lib
	n["internal/bytealg.LastIndexByteString"] = lib
	eq := func(s *State, a []Val, _ *ssa.Function) Val {
		x, y := a[0].elems(), a[1].elems()
		k, l := int64(s.concretize(x[1])), int64(s.concretize(y[1]))
		if k != l {
			return cbool(false)
		}
		return s.w.tv(s.memEq(x[0], y[0], k))
	}
	n["internal/bytealg.Equal"] = eq
	n["bytes.Equal"] = eq
	cnt := func(s *State, a []Val, _ *ssa.Function) Val {
		e := a[0].elems()
		c := 0
		for _, t := range s.bytesOf(e[0], int64(s.concretize(e[1]))) {
			if s.decide(s.w.bank.Eq(t, s.term(a[1]))) {
				c++
			}
		}
		return cint(int64(c))
	}
	n["internal/bytealg.Count"] = cnt
	n["internal/bytealg.CountString"] = cnt
	index := func(s *State, a []Val, _ *ssa.Function) Val {
		x, y := a[0].elems(), a[1].elems()
		k, l := int64(s.concretize(x[1])), int64(s.concretize(y[1]))
		for i := int64(0); i+l <= k; i++ {
			if l == 0 || s.decide(s.memEq(s.padd(x[0], i), y[0], l)) {
				return cint(i)
			}
		}
		return cint(-1)
	}
	n["strings.Index"] = index
	n["bytes.Index"] = index
	cmp := func(s *State, a []Val, _ *ssa.Function) Val {
		x, y := a[0].elems(), a[1].elems()
		k, l := int64(s.concretize(x[1])), int64(s.concretize(y[1]))
		p, q := s.bytesOf(x[0], k), s.bytesOf(y[0], l)
		b := s.w.bank
		for i := 0; i < len(p) && i < len(q); i++ {
			if !s.decide(b.Eq(p[i], q[i])) {
				if s.decide(b.Bin(OUlt, p[i], q[i])) {
					return cint(-1)
				}
				return cint(1)
			}
		}
		switch {
		case k < l:
			return cint(-1)
		case k > l:
			return cint(1)
		}
		return cint(0)
	}
	n["internal/bytealg.Compare"] = cmp
	n["internal/bytealg.CompareString"] = cmp
	n["bytes.Compare"] = cmp
	n["strings.Compare"] = cmp
	n["internal/bytealg.MakeNoZero"] = func(s *State, a []Val, _ *ssa.Function) Val {
		k := int64(s.concretize(a[0]))
		o := s.alloc(k, noPtrs, "bytes")
		return agg(ptr(o.id, 0), cint(k), cint(k))
	}
	n["strconv.ParseFloat"] = func(s *State, a []Val, _ *ssa.Function) Val { return s.parseFloat(a[0], a[1]) }
	one := func(s *State, a []Val, _ *ssa.Function) Val { return Val{} }
	for _, f := range []string{"(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "(*strings.Builder).copyCheck",
		"(*sync.noCopy).Lock", "(*sync.noCopy).Unlock", "runtime.KeepAlive"} {
		n[f] = one
	}
	lock := func(d int) nativeFn {
		return func(s *State, a []Val, _ *ssa.Function) Val { s.locks += d; return Val{} }
	}
	n["(*sync.Mutex).Lock"], n["(*sync.Mutex).Unlock"] = lock(1), lock(-1)
	n["(*sync.RWMutex).Lock"], n["(*sync.RWMutex).Unlock"] = lock(1), lock(-1)
	n["(*sync.Pool).Put"] = func(s *State, a []Val, _ *ssa.Function) Val {
		if a[1].isNil() {
			return Val{}
		}
		if s.pools == nil {
			s.pools = map[int32][]Val{}
		}
		s.pools[a[0].id] = append(s.pools[a[0].id], a[1])
		return Val{}
	}
	// the atomics
	at := func(fn *ssa.Function, s *State) *TI {
		return s.w.ti(fn.Signature.Params().At(0).Type().Underlying().(*types.Pointer).Elem())
	}
	put := func(s *State, p Val, ti *TI, v Val) {
		s.locks++
		s.store(p, ti, v)
		s.locks--
	}
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		n["sync/atomic.Load"+t] = func(s *State, a []Val, f *ssa.Function) Val { return s.load(a[0], at(f, s)) }
		n["sync/atomic.Store"+t] = func(s *State, a []Val, f *ssa.Function) Val {
			put(s, a[0], at(f, s), a[1])
			return Val{}
		}
		n["sync/atomic.Swap"+t] = func(s *State, a []Val, f *ssa.Function) Val {
			o := s.load(a[0], at(f, s))
			put(s, a[0], at(f, s), a[1])
			return o
		}
		n["sync/atomic.CompareAndSwap"+t] = func(s *State, a []Val, f *ssa.Function) Val {
			switch s.w.bank.quick(s.equal(s.load(a[0], at(f, s)), a[1], at(f, s)), s.dom) {
			case 1:
				put(s, a[0], at(f, s), a[2])
				return cbool(true)
			case 0:
				return cbool(false)
			}
			s.unsupported("compare and swap of a symbolic value")
			return Val{}
		}
		if t == "Pointer" {
			continue
		}
		n["sync/atomic.Add"+t] = func(s *State, a []Val, f *ssa.Function) Val {
			ti := at(f, s)
			b := s.w.bank
			v := s.w.tv(b.Add(s.term(s.load(a[0], ti)), s.term(a[1])))
			put(s, a[0], ti, v)
			return v
		}
	}
	n["(*sync.Pool).Get"] = one // handled in callVal
}

// parseFloat models strconv.ParseFloat: decimal literals are uninterpreted
// functions of their text, integers of at most 15 (7) digits are conversions.
func (s *State) parseFloat(str, bits Val) Val {
	w := s.w
	b := w.bank
	bs := s.concretize(bits)
	e := str.elems()
	n := int64(s.concretize(e[1]))
	if txt, ok := s.concreteString(str); ok {
		f, err := strconv.ParseFloat(txt, int(bs))
		fv := cv(64, floatBits(f))
		if err != nil {
			return agg(fv, s.numError(txt, err.(*strconv.NumError).Err == strconv.ErrRange))
		}
		return agg(fv, agg(nilPtr, nilPtr))
	}
	t := s.bytesOf(e[0], n)
	is := func(i int, set string) bool {
		if i >= len(t) {
			return false
		}
		r := b.fls
		for k := 0; k < len(set); k++ {
			r = b.Or(r, b.Eq(t[i], b.Const(8, uint64(set[k]))))
		}
		return s.decide(r)
	}
	const digits = "0123456789"
	bad := func() Val { return agg(cv(64, 0), s.numError("", false)) }
	i := 0
	neg, sign := false, false
	if is(0, "+-") {
		sign = true
		neg = is(0, "-")
		i++
	}
	d0 := i
	for is(i, digits) {
		i++
	}
	nd := i - d0
	frac, nf := false, 0
	if is(i, ".") {
		frac = true
		i++
		f0 := i
		for is(i, digits) {
			i++
		}
		nf = i - f0
	}
	if nd+nf == 0 {
		if i < len(t) && !frac && is(i, "iInN") {
			s.unsupported("ParseFloat of a possible inf/nan text")
		}
		return bad()
	}
	if nd == 1 && !frac && is(i, "xX") && is(d0, "0") {
		s.unsupported("ParseFloat of a possible hexadecimal text")
	}
	exp, ne, eneg, x0 := false, 0, false, 0
	if is(i, "eE") {
		exp = true
		i++
		if is(i, "+-") {
			eneg = is(i, "-")
			i++
		}
		x0 = i
		for is(i, digits) {
			i++
		}
		ne = i - x0
		if ne == 0 {
			return bad()
		}
	}
	if i < len(t) {
		if is(i, "_") {
			return bad() // underscores are only legal after a base prefix
		}
		return bad()
	}
	lim := 15
	if bs == 32 {
		lim = 7
	}
	_ = sign
	if !frac && !exp && nd <= lim {
		sum := b.Const(64, 0)
		p := uint64(1)
		for k := d0 + nd - 1; k >= d0; k-- {
			var vec *Term
			vec = b.Sub(b.Zext(t[k], 64), b.Const(64, '0'))
			sum = b.Add(sum, b.MulC(vec, p))
			p *= 10
		}
		isZero := b.Eq(sum, b.Const(64, 0))
		name := "itof64"
		if neg {
			if s.decide(isZero) {
				return agg(cv(64, 1<<63), agg(nilPtr, nilPtr))
			}
			sum = b.Neg(sum)
		}
		if sum.op == OConst {
			return agg(cv(64, floatBits(float64(int64(sum.val)))), agg(nilPtr, nilPtr))
		}
		if bs == 32 {
			// exact in float32, widened
			return agg(w.tv(b.UF("f32to64", 64, b.UF("itof32", 32, sum))), agg(nilPtr, nilPtr))
		}
		return agg(w.tv(b.UF(name, 64, sum)), agg(nilPtr, nilPtr))
	}
	pre := "pf64"
	if bs == 32 {
		pre = "pf32"
	}
	name := fmt.Sprintf("%s_n%d", pre, len(t))
	maxExp := 300
	if bs == 32 {
		maxExp = 36
	}
	small := nd <= maxExp && !exp || exp && ne == 1 && nd+9 <= maxExp || exp && ne == 2 && nd+99 <= maxExp
	errV := agg(nilPtr, nilPtr)
	if !small && !eneg {
		if ne > 6 {
			s.unsupported("ParseFloat of a text with a very long exponent")
		}
		var m []*Term
		for k := 0; k < nd; k++ {
			m = append(m, t[d0+k])
		}
		for k := 0; k < nf; k++ {
			m = append(m, t[d0+nd+1+k])
		}
		if s.decide(b.floatRange(m, nd, t[x0:x0+ne], int(bs))) {
			inf := math.Inf(1)
			if neg {
				inf = math.Inf(-1)
			}
			return agg(cv(64, floatBits(inf)), s.numError("", true))
		}
	}
	if bs == 32 {
		return agg(w.tv(b.UF("f32to64", 64, b.UF(name, 32, t...))), errV)
	}
	return agg(w.tv(b.UF(name, 64, t...)), errV)
}

// floatRange says whether the decimal number with the digits m, the first nd
// of them in front of the point, times ten to the power of exp rounds to
// infinity.
func (b *Bank) floatRange(m []*Term, nd int, exp []*Term, bits int) *Term {
	lim := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 1024), new(big.Int).Lsh(big.NewInt(1), 970))
	if bits == 32 {
		lim = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 128), new(big.Int).Lsh(big.NewInt(1), 103))
	}
	th := lim.String()
	e := b.Const(32, 0)
	for _, x := range exp {
		e = b.Add(b.MulC(e, 10), b.Sub(b.Zext(x, 32), b.Const(32, '0')))
	}
	r := b.fls // no digit but zeros
	for p := len(m) - 1; p >= 0; p-- {
		// m[p] is the first digit other than 0, its weight is 10^(e+nd-1-p)
		need := int64(len(th)-1) - int64(nd-1-p) // e at which the lengths agree
		above, same := b.tru, b.fls              // the exponent is never negative
		if need >= 0 {
			above = b.Bin(OUlt, b.Const(32, uint64(need)), e)
			same = b.Eq(e, b.Const(32, uint64(need)))
		}
		// digits from p on, compared with the limit's
		ge := b.tru
		for k := len(th) - 1; k >= 0; k-- {
			c := b.Const(8, uint64(th[k]))
			var d *Term = b.Const(8, '0')
			if p+k < len(m) {
				d = m[p+k]
			}
			ge = b.Or(b.Bin(OUlt, c, d), b.And(b.Eq(c, d), ge))
		}
		r = b.Ite(b.Eq(m[p], b.Const(8, '0')), r, b.Or(above, b.And(same, ge)))
	}
	return r
}

// numError builds a *strconv.NumError.
func (s *State) numError(txt string, rng bool) Val {
	pt := s.w.numErrT
	if pt == nil {
		return s.w.errorVal(s, "strconv.ParseFloat: error")
	}
	el := pt.(*types.Pointer).Elem()
	o := s.alloc(s.w.ti(el).size, el, "NumError")
	g := "ErrSyntax"
	if rng {
		g = "ErrRange"
	}
	var ev Val = agg(nilPtr, nilPtr)
	if gl, ok := s.w.L.strconv.Members[g].(*ssa.Global); ok {
		ev = s.load(ptr(s.w.global(s, gl), 0), s.w.ti(gl.Type().Underlying().(*types.Pointer).Elem()))
	}
	s.storeAt(o, 0, s.w.ti(el), agg(s.w.strVal("ParseFloat"), s.w.strVal(txt), ev))
	return agg(s.w.typePtr(pt), ptr(o.id, 0))
}
