package main

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// ---- values -------------------------------------------------------------

const (
	KNone uint8 = iota
	KConst
	KTerm
	KPtr  // id/off ; id==0 && c==0: nil
	KAgg  // x = []Val
	KFunc // x = *Closure
	KSym  // x = *symPtr
)

type Val struct {
	k  uint8
	w  uint8
	id int32
	c  uint64
	x  any
}

type Closure struct {
	fn    *ssa.Function
	binds []Val
	bi    string // builtin name for deferred builtins
}

// symPtr is a pointer with a symbolic element index into one object.
type symPtr struct {
	id    int32
	off   int64
	idx   *Term // 64 bit
	scale int64
	n     int64
}

func cv(w uint8, v uint64) Val { return Val{k: KConst, w: w, c: v & mask(w)} }
func cbool(b bool) Val         { return Val{k: KConst, w: 0, c: b2u(b)} }
func cint(v int64) Val         { return Val{k: KConst, w: 64, c: uint64(v)} }
func ptr(id int32, off int64) Val {
	return Val{k: KPtr, w: 64, id: id, c: uint64(off)}
}
func agg(v ...Val) Val { return Val{k: KAgg, x: v} }

var nilPtr = Val{k: KPtr, w: 64}

func (v Val) elems() []Val { return v.x.([]Val) }
func (v Val) isNil() bool {
	switch v.k {
	case KPtr:
		return v.id == 0 && v.c == 0
	case KConst:
		return v.c == 0
	case KNone:
		return true
	}
	return false
}

func (v Val) String() string {
	switch v.k {
	case KConst:
		return fmt.Sprintf("%d:%d", sx(v.c, v.w), v.w)
	case KTerm:
		return v.x.(*Term).String()
	case KPtr:
		return fmt.Sprintf("&%d+%d", v.id, int64(v.c))
	case KAgg:
		return fmt.Sprint(v.elems())
	case KFunc:
		return "func " + v.x.(*Closure).fn.String()
	case KSym:
		return "symptr"
	}
	return "none"
}

// ---- memory objects ------------------------------------------------------

type special struct {
	off uint32
	n   uint8
	v   Val
}

type mapEntry struct {
	key, val int32 // object ids
	dead     bool
}

type Object struct {
	id    int32
	owner int
	size  int64
	data  []byte
	sp    []special
	ro    bool       // read-only memory (string literals)
	typ   types.Type // element type the memory was allocated with (nil: unknown)
	note  string
	// maps
	isMap   bool
	mapT    *types.Map
	entries []mapEntry
	// iterators
	iter *iterState
}

type iterState struct {
	pos     int
	mapID   int32
	str     Val // string ranges
	isStr   bool
	keys    []int32
	started bool
	cur     int
}

func (o *Object) clone(owner int) *Object {
	c := *o
	c.owner = owner
	c.data = append([]byte(nil), o.data...)
	c.sp = append([]special(nil), o.sp...)
	c.entries = append([]mapEntry(nil), o.entries...)
	if o.iter != nil {
		it := *o.iter
		c.iter = &it
	}
	return &c
}

const chunkBits = 5
const chunkSize = 1 << chunkBits

type chunk struct {
	owner int
	objs  [chunkSize]*Object
}

type Heap struct {
	chunks []*chunk
	next   int32
}

func (h *Heap) get(id int32) *Object {
	c := int(id >> chunkBits)
	if id <= 0 || c >= len(h.chunks) {
		return nil
	}
	return h.chunks[c].objs[id&(chunkSize-1)]
}

func (s *State) ownChunk(ci int) *chunk {
	c := s.heap.chunks[ci]
	if c.owner != s.id {
		n := *c
		n.owner = s.id
		c = &n
		s.heap.chunks[ci] = c
	}
	return c
}

const staticBase = 1 << 30

func (s *State) obj(id int32) *Object {
	if id >= staticBase {
		return s.w.static[id-staticBase]
	}
	return s.heap.get(id)
}

func (s *State) wobj(id int32) *Object {
	if id >= staticBase {
		return s.w.static[id-staticBase]
	}
	o := s.heap.get(id)
	if o == nil {
		return nil
	}
	if id <= s.frozen && s.locks == 0 {
		s.violation("shared", "unsynchronised write to memory shared with other goroutines ("+o.note+")")
	}
	if o.owner != s.id {
		c := s.ownChunk(int(id >> chunkBits))
		o = o.clone(s.id)
		c.objs[id&(chunkSize-1)] = o
	}
	return o
}

func (s *State) alloc(size int64, t types.Type, note string) *Object {
	if size > 1<<24 {
		s.unsupported("huge allocation %d", size)
	}
	s.heap.next++
	id := s.heap.next
	ci := int(id >> chunkBits)
	for ci >= len(s.heap.chunks) {
		s.heap.chunks = append(s.heap.chunks, &chunk{owner: s.id})
	}
	c := s.ownChunk(ci)
	o := &Object{id: id, owner: s.id, size: size, data: make([]byte, size), typ: t, note: note}
	c.objs[id&(chunkSize-1)] = o
	return o
}

func (w *Worker) staticBytes(b string) int32 {
	if id, ok := w.strs[b]; ok {
		return id
	}
	id := int32(staticBase + len(w.static))
	w.static = append(w.static, &Object{id: id, size: int64(len(b)), data: []byte(b), ro: true, note: "literal"})
	w.strs[b] = id
	return id
}

func (w *Worker) strVal(s string) Val {
	if s == "" {
		return agg(nilPtr, cint(0))
	}
	return agg(ptr(w.staticBytes(s), 0), cint(int64(len(s))))
}

// spFind returns index of first special whose end is > off.
func (o *Object) spFind(off uint32) int {
	return sort.Search(len(o.sp), func(i int) bool { return o.sp[i].off+uint32(o.sp[i].n) > off })
}

// readCell reads an n-byte scalar at off.
func (s *State) readCell(o *Object, off int64, n int) Val {
	w := uint8(n * 8)
	i := 0
	if len(o.sp) > 0 {
		i = o.spFind(uint32(off))
	}
	if i >= len(o.sp) || int64(o.sp[i].off) >= off+int64(n) {
		var v uint64
		for j := n - 1; j >= 0; j-- {
			v = v<<8 | uint64(o.data[off+int64(j)])
		}
		return Val{k: KConst, w: w, c: v}
	}
	c := &o.sp[i]
	if int64(c.off) == off && int(c.n) == n {
		return c.v
	}
	// Compose from bytes.
	b := s.w.bank
	r := b.Const(w, 0)
	for j := 0; j < n; j++ {
		t := s.byteAt(o, off+int64(j))
		r = b.Add(r, b.Bin(OShl, b.Zext(t, w), b.Const(w, uint64(8*j))))
	}
	return s.w.tv(r)
}

func (s *State) byteAt(o *Object, off int64) *Term {
	b := s.w.bank
	if len(o.sp) > 0 {
		i := o.spFind(uint32(off))
		if i < len(o.sp) && int64(o.sp[i].off) <= off {
			c := &o.sp[i]
			if c.v.k != KTerm {
				s.unsupported("partial access to a pointer cell in %s+%d", o.note, off)
			}
			t := c.v.x.(*Term)
			return b.Extract(t, uint8(8*(off-int64(c.off))), 8)
		}
	}
	return b.Const(8, uint64(o.data[off]))
}

// clearRange removes specials overlapping [off,off+n), splitting partial ones.
func (s *State) clearRange(o *Object, off, n int64) {
	if len(o.sp) == 0 {
		return
	}
	i := o.spFind(uint32(off))
	if i >= len(o.sp) || int64(o.sp[i].off) >= off+n {
		return
	}
	j := i
	var keep []special
	for j < len(o.sp) && int64(o.sp[j].off) < off+n {
		c := o.sp[j]
		cs, ce := int64(c.off), int64(c.off)+int64(c.n)
		if cs < off || ce > off+n {
			if c.v.k != KTerm {
				s.violation("memory", fmt.Sprintf("write overlaps part of a pointer in %s", o.note))
			}
			t := c.v.x.(*Term)
			for q := cs; q < ce; q++ {
				if q >= off && q < off+n {
					continue
				}
				bt := s.w.bank.Extract(t, uint8(8*(q-cs)), 8)
				if bt.op == OConst {
					o.data[q] = byte(bt.val)
				} else {
					keep = append(keep, special{uint32(q), 1, s.w.tv(bt)})
				}
			}
		}
		j++
	}
	tail := append([]special(nil), o.sp[j:]...)
	o.sp = append(append(o.sp[:i:i], keep...), tail...)
}

func (s *State) writeCell(o *Object, off int64, n int, v Val) {
	s.clearRange(o, off, int64(n))
	if v.k == KConst || v.isNil() {
		x := v.c
		for j := 0; j < n; j++ {
			o.data[off+int64(j)] = byte(x)
			x >>= 8
		}
		return
	}
	i := o.spFind(uint32(off))
	o.sp = append(o.sp, special{})
	copy(o.sp[i+1:], o.sp[i:])
	o.sp[i] = special{uint32(off), uint8(n), v}
	for j := 0; j < n; j++ {
		o.data[off+int64(j)] = 0
	}
}

// access validates [p, p+n) and returns the object.
func (s *State) access(p Val, n int64, write bool) (*Object, int64) {
	if p.k == KConst {
		if p.c < 4096 {
			s.gopanic("invalid memory address or nil pointer dereference")
		}
		s.violation("memory", "dereference of a non-pointer value")
	}
	if p.k != KPtr {
		if p.k == KTerm {
			s.violation("memory", "dereference of input-controlled integer")
		}
		s.unsupported("access through %v", p)
	}
	if p.id == 0 {
		if n == 0 && p.c == 0 {
			return nil, 0
		}
		if int64(p.c) >= 0 && int64(p.c) < 4096 {
			s.gopanic("invalid memory address or nil pointer dereference")
		}
		s.violation("memory", fmt.Sprintf("dereference of nil plus offset %d", int64(p.c)))
	}
	if p.id < 0 {
		s.unsupported("access to type data")
	}
	var o *Object
	if write {
		o = s.wobj(p.id)
	} else {
		o = s.obj(p.id)
	}
	off := int64(p.c)
	if o == nil {
		s.unsupported("dangling object %d", p.id)
	}
	if o.isMap || o.iter != nil {
		s.unsupported("raw access to map")
	}
	if off < 0 || off+n > o.size {
		s.violation("memory", fmt.Sprintf("access of %d bytes at offset %d outside of a %d byte object (%s)", n, off, o.size, o.note))
	}
	if write && o.ro {
		s.violation("memory", "write to read-only memory")
	}
	return o, off
}

func (s *State) load(p Val, ti *TI) Val {
	if p.k == KSym {
		return s.loadSym(p, ti)
	}
	if ti.size == 0 {
		if p.isNil() {
			s.gopanic("invalid memory address or nil pointer dereference")
		}
		return s.w.zero(ti)
	}
	o, off := s.access(p, ti.size, false)
	return s.loadAt(o, off, ti)
}

func (s *State) loadAt(o *Object, off int64, ti *TI) Val {
	switch ti.kind {
	case TScalar:
		v := s.readCell(o, off, int(ti.size))
		if v.k == KNone {
			panic("none")
		}
		return v
	case TBool:
		v := s.readCell(o, off, 1)
		if v.k == KConst {
			return cbool(v.c&0xff != 0)
		}
		b := s.w.bank
		t := v.x.(*Term)
		return s.w.tv(b.Not(b.Eq(t, b.Const(8, 0))))
	case TPtr:
		v := s.readCell(o, off, 8)
		if v.k == KConst && v.c == 0 {
			return nilPtr
		}
		return v
	case TFunc:
		return s.readCell(o, off, 8)
	case TString, TIface:
		a := s.readCell(o, off, 8)
		c := s.readCell(o, off+8, 8)
		if a.k == KConst && a.c == 0 {
			a = nilPtr
		}
		if ti.kind == TIface && c.k == KConst && c.c == 0 {
			c = nilPtr
		}
		return agg(a, c)
	case TSlice:
		a := s.readCell(o, off, 8)
		if a.k == KConst && a.c == 0 {
			a = nilPtr
		}
		return agg(a, s.readCell(o, off+8, 8), s.readCell(o, off+16, 8))
	case TStruct:
		r := make([]Val, len(ti.fields))
		for i, f := range ti.fields {
			r[i] = s.loadAt(o, off+f.off, f.ti)
		}
		return agg(r...)
	case TArray:
		r := make([]Val, ti.n)
		for i := range r {
			r[i] = s.loadAt(o, off+int64(i)*ti.elem.size, ti.elem)
		}
		return agg(r...)
	}
	s.unsupported("load of %v", ti.t)
	return Val{}
}

func (s *State) loadSym(p Val, ti *TI) Val {
	sp := p.x.(*symPtr)
	o := s.obj(sp.id)
	b := s.w.bank
	if ti.kind == TStruct {
		r := make([]Val, len(ti.fields))
		for i, f := range ti.fields {
			q := *sp
			q.off += f.off
			if f.ti.size == 0 {
				r[i] = s.w.zero(f.ti)
				continue
			}
			r[i] = s.loadSym(Val{k: KSym, x: &q}, f.ti)
		}
		return agg(r...)
	}
	if ti.kind != TScalar && ti.kind != TBool {
		return s.load(s.fixIndex(sp), ti)
	}
	n := int(ti.size)
	if sp.off < 0 || sp.off+sp.scale*(sp.n-1)+ti.size > o.size {
		s.unsupported("symbolic pointer range")
	}
	w := uint8(8 * n)
	val := func(i int64) *Term {
		v := s.readCell(o, sp.off+i*sp.scale, n)
		return s.term(v)
	}
	var t *Term
	if sp.idx.op == OTab {
		allc := true
		var vec [256]uint64
		for x := 0; x < 256; x++ {
			i := sp.idx.vec[x]
			if i >= uint64(sp.n) {
				continue
			}
			v := val(int64(i))
			if v.op != OConst {
				allc = false
				break
			}
			vec[x] = v.val
		}
		if allc {
			t = b.tab(sp.idx.v, w, &vec)
		}
	}
	if t == nil {
		t = val(sp.n - 1)
		for i := sp.n - 2; i >= 0; i-- {
			t = b.Ite(b.Eq(sp.idx, b.Const(64, uint64(i))), val(i), t)
		}
	}
	if ti.kind == TBool {
		return s.w.tv(b.Not(b.Eq(t, b.Const(8, 0))))
	}
	return s.w.tv(t)
}

// fixIndex forks on the value of a symbolic index.
func (s *State) fixIndex(sp *symPtr) Val {
	i := int64(s.concretize(s.w.tv(sp.idx)))
	return ptr(sp.id, sp.off+i*sp.scale)
}

func (s *State) store(p Val, ti *TI, v Val) {
	if p.k == KSym {
		p = s.fixIndex(p.x.(*symPtr))
	}
	if ti.size == 0 {
		if p.isNil() {
			s.gopanic("invalid memory address or nil pointer dereference")
		}
		return
	}
	o, off := s.access(p, ti.size, true)
	s.storeAt(o, off, ti, v)
}

func (s *State) ptrSlot(o *Object, off int64, v Val) {
	if v.isNil() || v.k == KConst || o.typ == nil || !s.w.gcCheck || v.k == KPtr && (v.id < 0 || v.id >= staticBase) {
		return
	}
	if v.k == KPtr {
		if t := s.obj(v.id); t != nil && t.size == 0 {
			return
		}
	}
	if !s.w.isPtrOffset(o.typ, o.size, off) {
		s.violation("gcunsafe", fmt.Sprintf("pointer stored at offset %d of memory allocated as %v, which the garbage collector does not scan there", off, o.typ))
	}
}

func (s *State) storeAt(o *Object, off int64, ti *TI, v Val) {
	switch ti.kind {
	case TScalar:
		if v.k == KNone || v.k == KAgg {
			s.unsupported("store of %v as %v", v, ti.t)
		}
		s.writeCell(o, off, int(ti.size), v)
		return
	case TBool:
		if v.k == KConst {
			s.writeCell(o, off, 1, v)
		} else {
			s.writeCell(o, off, 1, s.w.tv(s.w.bank.Zext(s.term(v), 8)))
		}
		return
	case TPtr, TFunc:
		s.ptrSlot(o, off, v)
		s.writeCell(o, off, 8, v)
		return
	case TString:
		e := v.elems()
		s.ptrSlot(o, off, e[0])
		s.writeCell(o, off, 8, e[0])
		s.writeCell(o, off+8, 8, e[1])
		return
	case TIface:
		e := v.elems()
		s.ptrSlot(o, off+8, e[1])
		s.writeCell(o, off, 8, e[0])
		s.writeCell(o, off+8, 8, e[1])
		return
	case TSlice:
		e := v.elems()
		s.ptrSlot(o, off, e[0])
		s.writeCell(o, off, 8, e[0])
		s.writeCell(o, off+8, 8, e[1])
		s.writeCell(o, off+16, 8, e[2])
		return
	case TStruct:
		e := v.elems()
		for i, f := range ti.fields {
			if f.ti.size > 0 {
				s.storeAt(o, off+f.off, f.ti, e[i])
			}
		}
		return
	case TArray:
		e := v.elems()
		for i := range e {
			if ti.elem.size > 0 {
				s.storeAt(o, off+int64(i)*ti.elem.size, ti.elem, e[i])
			}
		}
		return
	}
	s.unsupported("store of %v", ti.t)
}

// move copies n raw bytes (memmove semantics).
func (s *State) move(dst, src Val, n int64) {
	if n == 0 {
		return
	}
	so, soff := s.access(src, n, false)
	do, doff := s.access(dst, n, true)
	so = s.obj(so.id)
	data := append([]byte(nil), so.data[soff:soff+n]...)
	var sps []special
	if len(so.sp) > 0 {
		for i := so.spFind(uint32(soff)); i < len(so.sp) && int64(so.sp[i].off) < soff+n; i++ {
			c := so.sp[i]
			if int64(c.off) < soff || int64(c.off)+int64(c.n) > soff+n {
				if c.v.k != KTerm {
					s.unsupported("partial pointer copy")
				}
				t := c.v.x.(*Term)
				for q := int64(c.off); q < int64(c.off)+int64(c.n); q++ {
					if q >= soff && q < soff+n {
						sps = append(sps, special{uint32(q), 1, s.w.tv(s.w.bank.Extract(t, uint8(8*(q-int64(c.off))), 8))})
					}
				}
				continue
			}
			sps = append(sps, c)
		}
	}
	s.clearRange(do, doff, n)
	copy(do.data[doff:], data)
	for _, c := range sps {
		noff := int64(c.off) - soff + doff
		if c.n == 8 {
			if c.v.k == KPtr || c.v.k == KFunc {
				if !(c.v.k == KPtr && c.v.id < 0) {
					s.ptrSlot(do, noff, c.v)
				}
			}
		}
		s.writeCell(do, noff, int(c.n), c.v)
	}
}

func (s *State) zeroMem(dst Val, n int64) {
	if n == 0 {
		return
	}
	o, off := s.access(dst, n, true)
	s.clearRange(o, off, n)
	for i := int64(0); i < n; i++ {
		o.data[off+i] = 0
	}
}

// ---- type information ------------------------------------------------------

type TKind uint8

const (
	TScalar TKind = iota
	TBool
	TPtr
	TString
	TSlice
	TIface
	TStruct
	TArray
	TFunc
	TTuple
	TOther
)

type fieldTI struct {
	off int64
	ti  *TI
}

type TI struct {
	t      types.Type
	kind   TKind
	size   int64
	signed bool
	float  bool
	w      uint8
	fields []fieldTI
	elem   *TI
	n      int64
	zeroV  Val
	hasZ   bool
}

func (w *Worker) ti(t types.Type) *TI {
	if r, ok := w.tis[t]; ok {
		return r
	}
	r := &TI{t: t}
	w.tis[t] = r
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.UnsafePointer:
			r.kind, r.size = TPtr, 8
		case u.Kind() == types.UntypedNil:
			r.kind, r.size = TPtr, 8
		case u.Info()&types.IsString != 0:
			r.kind, r.size = TString, 16
		case u.Info()&types.IsBoolean != 0:
			r.kind, r.size = TBool, 1
		case u.Info()&types.IsComplex != 0:
			r.kind = TOther
			r.size = w.sizes.Sizeof(t)
		default:
			r.kind = TScalar
			if u.Info()&types.IsUntyped != 0 {
				r.size = 8
			} else {
				r.size = w.sizes.Sizeof(t)
			}
			r.signed = u.Info()&types.IsUnsigned == 0 && u.Info()&types.IsInteger != 0
			r.float = u.Info()&types.IsFloat != 0
			r.w = uint8(8 * r.size)
		}
	case *types.Pointer, *types.Map, *types.Chan:
		r.kind, r.size = TPtr, 8
	case *types.Signature:
		r.kind, r.size = TFunc, 8
	case *types.Slice:
		r.kind, r.size = TSlice, 24
		r.elem = nil
	case *types.Interface:
		r.kind, r.size = TIface, 16
	case *types.Struct:
		r.kind = TStruct
		var fs []*types.Var
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, u.Field(i))
		}
		offs := w.sizes.Offsetsof(fs)
		for i, f := range fs {
			r.fields = append(r.fields, fieldTI{offs[i], w.ti(f.Type())})
		}
		r.size = w.sizes.Sizeof(t)
	case *types.Array:
		r.kind = TArray
		r.elem = w.ti(u.Elem())
		r.n = u.Len()
		r.size = w.sizes.Sizeof(t)
	case *types.Tuple:
		r.kind = TTuple
		for i := 0; i < u.Len(); i++ {
			r.fields = append(r.fields, fieldTI{0, w.ti(u.At(i).Type())})
		}
	default:
		r.kind = TOther
	}
	return r
}

func (w *Worker) zero(ti *TI) Val {
	if ti.hasZ {
		return ti.zeroV
	}
	var v Val
	switch ti.kind {
	case TScalar:
		v = cv(uint8(8*ti.size), 0)
	case TBool:
		v = cbool(false)
	case TPtr, TFunc:
		v = nilPtr
	case TString:
		v = agg(nilPtr, cint(0))
	case TIface:
		v = agg(nilPtr, nilPtr)
	case TSlice:
		v = agg(nilPtr, cint(0), cint(0))
	case TStruct, TTuple:
		e := make([]Val, len(ti.fields))
		for i, f := range ti.fields {
			e[i] = w.zero(f.ti)
		}
		v = agg(e...)
	case TArray:
		e := make([]Val, ti.n)
		for i := range e {
			e[i] = w.zero(ti.elem)
		}
		v = agg(e...)
	default:
		v = Val{}
	}
	ti.zeroV, ti.hasZ = v, true
	return v
}

// isPtrOffset tells whether the collector treats offset off of memory
// allocated as (an array of) t as a pointer slot.
func (w *Worker) isPtrOffset(t types.Type, size, off int64) bool {
	ti := w.ti(t)
	if ti.size == 0 {
		return false
	}
	bm := w.ptrmap(t)
	return bm[off%ti.size]
}

func (w *Worker) ptrmap(t types.Type) map[int64]bool {
	if m, ok := w.ptrmaps[t]; ok {
		return m
	}
	m := map[int64]bool{}
	var walk func(ti *TI, off int64)
	walk = func(ti *TI, off int64) {
		switch ti.kind {
		case TPtr, TString, TSlice, TFunc:
			m[off] = true
		case TIface:
			m[off], m[off+8] = true, true
		case TStruct:
			for _, f := range ti.fields {
				walk(f.ti, off+f.off)
			}
		case TArray:
			for i := int64(0); i < ti.n; i++ {
				walk(ti.elem, off+i*ti.elem.size)
			}
		}
	}
	walk(w.ti(t), 0)
	w.ptrmaps[t] = m
	return m
}
