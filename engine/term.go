package main

// Hash-consed bit-vector terms over symbolic input bytes.
//
// Canonical forms: every non-opaque term over exactly one byte variable is a
// table (OTab, 256 entries) or a set (OIn); sums are kept linear. All remaining
// structure is emitted to the SMT solver as is.

import (
	"fmt"
	"sort"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OTab
	OIn
	OAdd
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OAnd
	OOr
	OXor
	OShl
	OLshr
	OAshr
	OZext
	OSext
	OExtract
	OIte
	OEq
	OUlt
	OSlt
	ONot
	OBand
	OBor
	OUF
)

type Term struct {
	op     Op
	w      uint8 // 0 = bool
	opaque bool
	id     int
	v      int
	val    uint64
	args   []*Term
	coefs  []uint64
	vec    *[256]uint64
	set    *[4]uint64
	name   string
	vars   []int
	emit   bool // emitted to the solver
	hash   uint64
}

type Bank struct {
	m    map[uint64][]*Term
	all  []*Term
	tru  *Term
	fls  *Term
	vars []*Term // identity table per byte variable
}

func newBank() *Bank {
	b := &Bank{m: map[uint64][]*Term{}}
	b.fls = b.Const(0, 0)
	b.tru = b.Const(0, 1)
	return b
}

func mask(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<w - 1
}

func sx(v uint64, w uint8) int64 {
	if w == 0 || w >= 64 {
		return int64(v)
	}
	s := 64 - w
	return int64(v<<s) >> s
}

func (b *Bank) intern(t *Term) *Term {
	h := uint64(14695981039346656037)
	mix := func(x uint64) { h = (h ^ x) * 1099511628211; h ^= h >> 29 }
	mix(uint64(t.op))
	mix(uint64(t.w))
	mix(uint64(t.v))
	mix(t.val)
	for _, a := range t.args {
		mix(uint64(a.id))
	}
	for _, c := range t.coefs {
		mix(c)
	}
	if t.vec != nil {
		for _, x := range t.vec {
			mix(x)
		}
	}
	if t.set != nil {
		for _, x := range t.set {
			mix(x)
		}
	}
	for i := 0; i < len(t.name); i++ {
		mix(uint64(t.name[i]))
	}
	t.hash = h
	for _, o := range b.m[h] {
		if b.same(o, t) {
			return o
		}
	}
	t.id = len(b.all)
	// variables
	switch t.op {
	case OConst:
	case OTab, OIn:
		t.vars = []int{t.v}
	default:
		t.vars = unionVars(t.args)
		for _, a := range t.args {
			if a.opaque {
				t.opaque = true
			}
		}
		if t.op == OUF {
			t.opaque = true
		}
	}
	b.all = append(b.all, t)
	b.m[h] = append(b.m[h], t)
	return t
}

func (b *Bank) same(o, t *Term) bool {
	if o.op != t.op || o.w != t.w || o.v != t.v || o.val != t.val || o.name != t.name ||
		len(o.args) != len(t.args) || len(o.coefs) != len(t.coefs) {
		return false
	}
	for i := range o.args {
		if o.args[i] != t.args[i] {
			return false
		}
	}
	for i := range o.coefs {
		if o.coefs[i] != t.coefs[i] {
			return false
		}
	}
	if (o.vec == nil) != (t.vec == nil) || (o.set == nil) != (t.set == nil) {
		return false
	}
	if o.vec != nil && *o.vec != *t.vec {
		return false
	}
	if o.set != nil && *o.set != *t.set {
		return false
	}
	return true
}

func unionVars(args []*Term) []int {
	if len(args) == 0 {
		return nil
	}
	r := args[0].vars
	for _, a := range args[1:] {
		r = mergeVars(r, a.vars)
	}
	return r
}

func mergeVars(a, b []int) []int {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	// subset fast path
	i, j := 0, 0
	var out []int
	for i < len(a) && j < len(b) {
		switch {
		case a[i] == b[j]:
			out = append(out, a[i])
			i++
			j++
		case a[i] < b[j]:
			out = append(out, a[i])
			i++
		default:
			out = append(out, b[j])
			j++
		}
	}
	out = append(out, a[i:]...)
	out = append(out, b[j:]...)
	return out
}

func (b *Bank) Const(w uint8, v uint64) *Term {
	return b.intern(&Term{op: OConst, w: w, val: v & mask(w)})
}

func (b *Bank) Bool(v bool) *Term {
	if v {
		return b.tru
	}
	return b.fls
}

func (b *Bank) NewVar() *Term {
	v := len(b.vars)
	return b.Var(v)
}

func (b *Bank) Var(v int) *Term {
	for len(b.vars) <= v {
		var vec [256]uint64
		for i := range vec {
			vec[i] = uint64(i)
		}
		b.vars = append(b.vars, b.intern(&Term{op: OTab, w: 8, v: len(b.vars), vec: &vec}))
	}
	return b.vars[v]
}

func (b *Bank) tab(v int, w uint8, vec *[256]uint64) *Term {
	if w == 0 {
		var set [4]uint64
		for i, x := range vec {
			if x&1 != 0 {
				set[i>>6] |= 1 << (i & 63)
			}
		}
		return b.in(v, &set)
	}
	m := mask(w)
	c := true
	for i := range vec {
		vec[i] &= m
		if vec[i] != vec[0] {
			c = false
		}
	}
	if c {
		return b.Const(w, vec[0])
	}
	return b.intern(&Term{op: OTab, w: w, v: v, vec: vec})
}

func (b *Bank) in(v int, set *[4]uint64) *Term {
	if set[0]|set[1]|set[2]|set[3] == 0 {
		return b.fls
	}
	if set[0]&set[1]&set[2]&set[3] == ^uint64(0) {
		return b.tru
	}
	return b.intern(&Term{op: OIn, w: 0, v: v, set: set})
}

// at evaluates a const/table/set term at byte value x.
func (t *Term) at(x int) uint64 {
	switch t.op {
	case OConst:
		return t.val
	case OTab:
		return t.vec[x]
	case OIn:
		return t.set[x>>6] >> (x & 63) & 1
	}
	panic("at: not tabulated")
}

func (t *Term) simple() bool { return t.op == OConst || t.op == OTab || t.op == OIn }

func foldBin(op Op, w uint8, x, y uint64) uint64 {
	m := mask(w)
	switch op {
	case OAdd:
		return (x + y) & m
	case OMul:
		return (x * y) & m
	case OUDiv:
		if y == 0 {
			return m
		}
		return x / y
	case OURem:
		if y == 0 {
			return x
		}
		return x % y
	case OSDiv:
		if y == 0 {
			return 0
		}
		a, c := sx(x, w), sx(y, w)
		if c == -1 {
			return uint64(-a) & m
		}
		return uint64(a/c) & m
	case OSRem:
		if y == 0 {
			return x
		}
		a, c := sx(x, w), sx(y, w)
		if c == -1 {
			return 0
		}
		return uint64(a%c) & m
	case OAnd:
		return x & y
	case OOr:
		return x | y
	case OXor:
		return x ^ y
	case OShl:
		if y >= uint64(w) {
			return 0
		}
		return x << y & m
	case OLshr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OAshr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sx(x, w)>>y) & m
	case OEq:
		return b2u(x == y)
	case OUlt:
		return b2u(x < y)
	case OSlt:
		return b2u(sx(x, w) < sx(y, w))
	}
	panic("foldBin")
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// lin is the linear view of a term.
type linTerm struct {
	c uint64
	t *Term
}
type lin struct {
	k    uint64
	tabs []*Term // one per var, sorted by var, vec[0] == 0
	ts   []linTerm
}

func (b *Bank) linOf(t *Term) lin {
	switch t.op {
	case OConst:
		return lin{k: t.val}
	case OTab:
		if t.vec[0] == 0 {
			return lin{tabs: []*Term{t}}
		}
		var vec [256]uint64
		for i := range vec {
			vec[i] = t.vec[i] - t.vec[0]
		}
		return lin{k: t.vec[0], tabs: []*Term{b.tab(t.v, t.w, &vec)}}
	case OAdd:
		l := lin{k: t.val}
		for i, a := range t.args {
			if a.op == OTab {
				l.tabs = append(l.tabs, a)
			} else {
				l.ts = append(l.ts, linTerm{t.coefs[i], a})
			}
		}
		return l
	}
	return lin{ts: []linTerm{{1, t}}}
}

func (b *Bank) linScale(l lin, c uint64, w uint8) lin {
	m := mask(w)
	c &= m
	if c == 0 {
		return lin{}
	}
	r := lin{k: l.k * c & m}
	for _, t := range l.tabs {
		var vec [256]uint64
		for i := range vec {
			vec[i] = t.vec[i] * c
		}
		n := b.tab(t.v, w, &vec)
		if n.op == OTab {
			r.tabs = append(r.tabs, n)
		}
	}
	for _, x := range l.ts {
		if cc := x.c * c & m; cc != 0 {
			r.ts = append(r.ts, linTerm{cc, x.t})
		}
	}
	return r
}

func (b *Bank) linAdd(x, y lin, w uint8) lin {
	m := mask(w)
	r := lin{k: (x.k + y.k) & m}
	i, j := 0, 0
	for i < len(x.tabs) || j < len(y.tabs) {
		switch {
		case j >= len(y.tabs) || i < len(x.tabs) && x.tabs[i].v < y.tabs[j].v:
			r.tabs = append(r.tabs, x.tabs[i])
			i++
		case i >= len(x.tabs) || y.tabs[j].v < x.tabs[i].v:
			r.tabs = append(r.tabs, y.tabs[j])
			j++
		default:
			var vec [256]uint64
			for q := range vec {
				vec[q] = x.tabs[i].vec[q] + y.tabs[j].vec[q]
			}
			n := b.tab(x.tabs[i].v, w, &vec)
			if n.op == OTab {
				r.tabs = append(r.tabs, n)
			}
			i++
			j++
		}
	}
	i, j = 0, 0
	for i < len(x.ts) || j < len(y.ts) {
		switch {
		case j >= len(y.ts) || i < len(x.ts) && x.ts[i].t.id < y.ts[j].t.id:
			r.ts = append(r.ts, x.ts[i])
			i++
		case i >= len(x.ts) || y.ts[j].t.id < x.ts[i].t.id:
			r.ts = append(r.ts, y.ts[j])
			j++
		default:
			if c := (x.ts[i].c + y.ts[j].c) & m; c != 0 {
				r.ts = append(r.ts, linTerm{c, x.ts[i].t})
			}
			i++
			j++
		}
	}
	return r
}

func (b *Bank) linTerm(l lin, w uint8) *Term {
	if len(l.ts) == 0 && len(l.tabs) == 0 {
		return b.Const(w, l.k)
	}
	if len(l.ts) == 0 && len(l.tabs) == 1 {
		if l.k == 0 {
			return l.tabs[0]
		}
		var vec [256]uint64
		for i := range vec {
			vec[i] = l.tabs[0].vec[i] + l.k
		}
		return b.tab(l.tabs[0].v, w, &vec)
	}
	if len(l.tabs) == 0 && len(l.ts) == 1 && l.k == 0 && l.ts[0].c == 1 {
		return l.ts[0].t
	}
	t := &Term{op: OAdd, w: w, val: l.k & mask(w)}
	for _, x := range l.tabs {
		t.args = append(t.args, x)
		t.coefs = append(t.coefs, 1)
	}
	for _, x := range l.ts {
		t.args = append(t.args, x.t)
		t.coefs = append(t.coefs, x.c)
	}
	return b.intern(t)
}

func oneVar(x, y *Term) (int, bool) {
	if x.opaque || y.opaque || !x.simple() || !y.simple() {
		return 0, false
	}
	switch {
	case len(x.vars) == 1 && len(y.vars) == 0:
		return x.vars[0], true
	case len(x.vars) == 0 && len(y.vars) == 1:
		return y.vars[0], true
	case len(x.vars) == 1 && len(y.vars) == 1 && x.vars[0] == y.vars[0]:
		return x.vars[0], true
	}
	return 0, false
}

func (b *Bank) Add(x, y *Term) *Term {
	return b.linTerm(b.linAdd(b.linOf(x), b.linOf(y), x.w), x.w)
}
func (b *Bank) Sub(x, y *Term) *Term {
	return b.linTerm(b.linAdd(b.linOf(x), b.linScale(b.linOf(y), ^uint64(0), x.w), x.w), x.w)
}
func (b *Bank) Neg(x *Term) *Term {
	return b.linTerm(b.linScale(b.linOf(x), ^uint64(0), x.w), x.w)
}
func (b *Bank) MulC(x *Term, c uint64) *Term {
	return b.linTerm(b.linScale(b.linOf(x), c, x.w), x.w)
}

// Bin builds op(x,y); result width is x.w, or bool for comparisons.
func (b *Bank) Bin(op Op, x, y *Term) *Term {
	rw := x.w
	if op == OEq || op == OUlt || op == OSlt {
		rw = 0
	}
	if x.op == OConst && y.op == OConst {
		return b.Const(rw, foldBin(op, x.w, x.val, y.val))
	}
	if v, ok := oneVar(x, y); ok && op != OAdd {
		var vec [256]uint64
		for i := range vec {
			vec[i] = foldBin(op, x.w, x.at(i), y.at(i))
		}
		return b.tab(v, rw, &vec)
	}
	m := mask(x.w)
	switch op {
	case OAdd:
		return b.Add(x, y)
	case OMul:
		if y.op == OConst {
			return b.MulC(x, y.val)
		}
		if x.op == OConst {
			return b.MulC(y, x.val)
		}
		if x.id > y.id {
			x, y = y, x
		}
	case OShl:
		if y.op == OConst {
			if y.val >= uint64(x.w) {
				return b.Const(x.w, 0)
			}
			return b.MulC(x, 1<<y.val)
		}
	case OLshr, OAshr:
		if y.op == OConst {
			if y.val == 0 {
				return x
			}
			if op == OLshr && y.val >= uint64(x.w) {
				return b.Const(x.w, 0)
			}
			if x.op == OZext && op == OLshr {
				in := x.args[0]
				if y.val >= uint64(in.w) {
					return b.Const(x.w, 0)
				}
				return b.Zext(b.Bin(OLshr, in, b.Const(in.w, y.val)), x.w)
			}
		}
	case OAnd:
		if x.op == OConst {
			x, y = y, x
		}
		if y.op == OConst {
			if y.val == 0 {
				return y
			}
			if y.val == m {
				return x
			}
			if x.op == OZext && y.val&mask(x.args[0].w) == mask(x.args[0].w) {
				return x
			}
		}
		if x == y {
			return x
		}
		if x.id > y.id {
			x, y = y, x
		}
	case OOr:
		if x.op == OConst {
			x, y = y, x
		}
		if y.op == OConst {
			if y.val == 0 {
				return x
			}
			if y.val == m {
				return y
			}
		}
		if x == y {
			return x
		}
		if x.id > y.id {
			x, y = y, x
		}
	case OXor:
		if x == y {
			return b.Const(x.w, 0)
		}
		if x.op == OConst && x.val == 0 {
			return y
		}
		if y.op == OConst && y.val == 0 {
			return x
		}
		if x.id > y.id {
			x, y = y, x
		}
	case OUDiv, OURem, OSDiv, OSRem:
		if y.op == OConst && y.val == 1 {
			if op == OUDiv || op == OSDiv {
				return x
			}
			return b.Const(x.w, 0)
		}
	case OEq:
		if x == y {
			return b.tru
		}
		if x.w == 0 { // iff
			return b.Or(b.And(x, y), b.And(b.Not(x), b.Not(y)))
		}
		if x.op == OConst {
			x, y = y, x
		}
		if x.op == OIte {
			if y.op == OConst && (x.args[1].op == OConst || x.args[2].op == OConst) {
				return b.Or(b.And(x.args[0], b.Bin(OEq, x.args[1], y)), b.And(b.Not(x.args[0]), b.Bin(OEq, x.args[2], y)))
			}
		}
		if x.op == OZext && y.op == OConst {
			in := x.args[0]
			if y.val&^mask(in.w) != 0 {
				return b.fls
			}
			return b.Bin(OEq, in, b.Const(in.w, y.val))
		}
		if x.op == OZext && y.op == OZext && x.args[0].w == y.args[0].w {
			return b.Bin(OEq, x.args[0], y.args[0])
		}
		d := b.Sub(x, y)
		if d.op == OConst {
			return b.Bool(d.val == 0)
		}
		if d.op == OTab {
			var set [4]uint64
			for i, q := range d.vec {
				if q == 0 {
					set[i>>6] |= 1 << (i & 63)
				}
			}
			return b.in(d.v, &set)
		}
		if x.id > y.id {
			x, y = y, x
		}
	case OUlt:
		if x == y {
			return b.fls
		}
		if y.op == OConst && y.val == 0 {
			return b.fls
		}
		if x.op == OConst && x.val == m {
			return b.fls
		}
		if x.op == OConst && x.val == 0 {
			return b.Not(b.Bin(OEq, y, x))
		}
		if y.op == OConst && y.val == 1 {
			return b.Bin(OEq, x, b.Const(x.w, 0))
		}
	case OSlt:
		if x == y {
			return b.fls
		}
		// comparisons with zero are unsigned ones
		if y.op == OConst && y.val == 0 {
			return b.Bin(OUlt, b.Const(x.w, m>>1), x)
		}
		if x.op == OConst && x.val == m {
			return b.Not(b.Bin(OUlt, b.Const(x.w, m>>1), y))
		}
	}
	// c < x is !(x < c+1)
	if op == OUlt && x.op == OConst {
		return b.Not(b.Bin(OUlt, y, b.Const(x.w, x.val+1)))
	}
	return b.intern(&Term{op: op, w: rw, val: uint64(x.w), args: []*Term{x, y}})
}

func (b *Bank) Eq(x, y *Term) *Term { return b.Bin(OEq, x, y) }

func (b *Bank) Not(x *Term) *Term {
	switch x.op {
	case OConst:
		return b.Bool(x.val == 0)
	case OIn:
		s := [4]uint64{^x.set[0], ^x.set[1], ^x.set[2], ^x.set[3]}
		return b.in(x.v, &s)
	case ONot:
		return x.args[0]
	case OBand:
		var a []*Term
		for _, q := range x.args {
			a = append(a, b.Not(q))
		}
		return b.nary(OBor, a)
	case OBor:
		var a []*Term
		for _, q := range x.args {
			a = append(a, b.Not(q))
		}
		return b.nary(OBand, a)
	}
	return b.intern(&Term{op: ONot, args: []*Term{x}})
}

func (b *Bank) And(xs ...*Term) *Term { return b.nary(OBand, xs) }
func (b *Bank) Or(xs ...*Term) *Term  { return b.nary(OBor, xs) }

func (b *Bank) nary(op Op, xs []*Term) *Term {
	unit, zero := b.tru, b.fls
	if op == OBor {
		unit, zero = b.fls, b.tru
	}
	var flat []*Term
	sets := map[int]*[4]uint64{}
	var order []int
	var walk func(x *Term) bool
	walk = func(x *Term) bool {
		switch {
		case x == unit:
		case x == zero:
			return false
		case x.op == op:
			for _, a := range x.args {
				if !walk(a) {
					return false
				}
			}
		case x.op == OIn:
			s := sets[x.v]
			if s == nil {
				c := *x.set
				sets[x.v] = &c
				order = append(order, x.v)
			} else {
				for i := range s {
					if op == OBand {
						s[i] &= x.set[i]
					} else {
						s[i] |= x.set[i]
					}
				}
			}
		default:
			flat = append(flat, x)
		}
		return true
	}
	for _, x := range xs {
		if !walk(x) {
			return zero
		}
	}
	sort.Ints(order)
	for _, v := range order {
		t := b.in(v, sets[v])
		if t == zero {
			return zero
		}
		if t != unit {
			flat = append(flat, t)
		}
	}
	sort.Slice(flat, func(i, j int) bool { return flat[i].id < flat[j].id })
	out := flat[:0]
	for i, t := range flat {
		if i > 0 && t == flat[i-1] {
			continue
		}
		out = append(out, t)
	}
	for _, t := range out {
		if t.op == ONot {
			for _, q := range out {
				if q == t.args[0] {
					return zero
				}
			}
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	return b.intern(&Term{op: op, args: append([]*Term(nil), out...)})
}

func (b *Bank) Ite(c, x, y *Term) *Term {
	if c.op == OConst {
		if c.val != 0 {
			return x
		}
		return y
	}
	if x == y {
		return x
	}
	if x.w == 0 {
		return b.Or(b.And(c, x), b.And(b.Not(c), y))
	}
	if c.op == OIn && x.simple() && y.simple() && (len(x.vars) == 0 || x.v == c.v) && (len(y.vars) == 0 || y.v == c.v) {
		var vec [256]uint64
		for i := range vec {
			if c.at(i) != 0 {
				vec[i] = x.at(i)
			} else {
				vec[i] = y.at(i)
			}
		}
		return b.tab(c.v, x.w, &vec)
	}
	return b.intern(&Term{op: OIte, w: x.w, args: []*Term{c, x, y}})
}

func (b *Bank) Zext(x *Term, w uint8) *Term {
	if x.w == w {
		return x
	}
	if x.w == 0 {
		return b.Ite(x, b.Const(w, 1), b.Const(w, 0))
	}
	switch x.op {
	case OConst:
		return b.Const(w, x.val)
	case OTab:
		vec := *x.vec
		return b.tab(x.v, w, &vec)
	case OZext:
		return b.Zext(x.args[0], w)
	case OIte:
		return b.Ite(x.args[0], b.Zext(x.args[1], w), b.Zext(x.args[2], w))
	}
	return b.intern(&Term{op: OZext, w: w, args: []*Term{x}})
}

func (b *Bank) Sext(x *Term, w uint8) *Term {
	if x.w == w {
		return x
	}
	switch x.op {
	case OConst:
		return b.Const(w, uint64(sx(x.val, x.w)))
	case OTab:
		var vec [256]uint64
		for i := range vec {
			vec[i] = uint64(sx(x.vec[i], x.w))
		}
		return b.tab(x.v, w, &vec)
	case OIte:
		return b.Ite(x.args[0], b.Sext(x.args[1], w), b.Sext(x.args[2], w))
	case OZext:
		return b.Zext(x.args[0], w)
	}
	return b.intern(&Term{op: OSext, w: w, args: []*Term{x}})
}

// Extract takes w bits starting at bit lo.
func (b *Bank) Extract(x *Term, lo, w uint8) *Term {
	if lo == 0 && x.w == w {
		return x
	}
	switch x.op {
	case OConst:
		return b.Const(w, x.val>>lo)
	case OTab:
		var vec [256]uint64
		for i := range vec {
			vec[i] = x.vec[i] >> lo
		}
		return b.tab(x.v, w, &vec)
	case OIte:
		return b.Ite(x.args[0], b.Extract(x.args[1], lo, w), b.Extract(x.args[2], lo, w))
	case OExtract:
		return b.Extract(x.args[0], lo+uint8(x.val), w)
	case OZext:
		in := x.args[0]
		if lo >= in.w {
			return b.Const(w, 0)
		}
		if lo+w <= in.w {
			return b.Extract(in, lo, w)
		}
		if lo == 0 {
			return b.Zext(in, w)
		}
	case OSext:
		in := x.args[0]
		if lo+w <= in.w {
			return b.Extract(in, lo, w)
		}
		if lo == 0 {
			return b.Sext(in, w)
		}
	case OAdd:
		if lo == 0 {
			r := lin{k: x.val & mask(w)}
			for i, a := range x.args {
				l := b.linScale(b.linOf(b.Extract(a, 0, w)), x.coefs[i], w)
				r = b.linAdd(r, l, w)
			}
			return b.linTerm(r, w)
		}
		// Byte-concatenation pattern: extracting byte lo/8 from a sum of
		// disjoint zero-extended bytes.
		if t := b.byteOfConcat(x, lo, w); t != nil {
			return t
		}
	case OAnd, OOr, OXor, OMul:
		if lo == 0 || x.op != OMul {
			return b.Bin(x.op, b.Extract(x.args[0], lo, w), b.Extract(x.args[1], lo, w))
		}
	}
	return b.intern(&Term{op: OExtract, w: w, val: uint64(lo), args: []*Term{x}})
}

// byteOfConcat recognises sums whose summands occupy disjoint byte lanes.
func (b *Bank) byteOfConcat(x *Term, lo, w uint8) *Term {
	if lo%8 != 0 || w%8 != 0 {
		return nil
	}
	var used uint64 = x.val
	lane := func(bitsOr uint64) uint64 {
		var m uint64
		for i := 0; i < 8; i++ {
			if bitsOr>>(8*i)&0xff != 0 {
				m |= 0xff << (8 * i)
			}
		}
		return m
	}
	used = lane(used)
	r := b.Const(w, x.val>>lo)
	for i, a := range x.args {
		if a.op != OTab || x.coefs[i] != 1 {
			return nil
		}
		var or uint64
		for _, v := range a.vec {
			or |= v
		}
		l := lane(or)
		if used&l != 0 {
			return nil
		}
		used |= l
		if part := b.Extract(a, lo, w); part.op != OConst || part.val != 0 {
			r = b.Bin(OAdd, r, part)
		}
	}
	return r
}

func (b *Bank) UF(name string, w uint8, args ...*Term) *Term {
	if name == "f64to32" && args[0].op == OUF && args[0].name == "f32to64" {
		return args[0].args[0]
	}
	return b.intern(&Term{op: OUF, w: w, name: name, args: append([]*Term(nil), args...)})
}

// Eval evaluates t under a byte assignment; ok=false if it contains a UF.
func (b *Bank) Eval(t *Term, m []byte, memo map[*Term]uint64) (uint64, bool) {
	switch t.op {
	case OConst:
		return t.val, true
	case OTab, OIn:
		x := 0
		if t.v < len(m) {
			x = int(m[t.v])
		}
		return t.at(x), true
	}
	if t.opaque {
		return 0, false
	}
	if v, ok := memo[t]; ok {
		return v, true
	}
	var r uint64
	ev := func(i int) uint64 { v, _ := b.Eval(t.args[i], m, memo); return v }
	switch t.op {
	case OAdd:
		r = t.val
		for i := range t.args {
			r += ev(i) * t.coefs[i]
		}
		r &= mask(t.w)
	case OZext:
		r = ev(0)
	case OSext:
		r = uint64(sx(ev(0), t.args[0].w)) & mask(t.w)
	case OExtract:
		r = ev(0) >> t.val & mask(t.w)
	case OIte:
		if ev(0) != 0 {
			r = ev(1)
		} else {
			r = ev(2)
		}
	case ONot:
		r = 1 - ev(0)
	case OBand:
		r = 1
		for i := range t.args {
			if ev(i) == 0 {
				r = 0
				break
			}
		}
	case OBor:
		for i := range t.args {
			if ev(i) != 0 {
				r = 1
				break
			}
		}
	default:
		r = foldBin(t.op, t.args[0].w, ev(0), ev(1))
	}
	memo[t] = r
	return r, true
}

func (t *Term) String() string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			return fmt.Sprint(t.val != 0)
		}
		return fmt.Sprintf("%d:%d", sx(t.val, t.w), t.w)
	case OTab:
		return fmt.Sprintf("tab%d(b%d)", t.id, t.v)
	case OIn:
		return fmt.Sprintf("b%d∈%s", t.v, setStr(t.set))
	}
	n := [...]string{"const", "tab", "in", "+", "*", "u/", "u%", "s/", "s%", "&", "|", "^", "<<", ">>u", ">>s", "zext", "sext", "extract", "ite", "=", "<u", "<s", "not", "and", "or", "uf"}[t.op]
	var a []string
	for _, x := range t.args {
		a = append(a, x.String())
	}
	return "(" + n + t.name + " " + strings.Join(a, " ") + ")"
}

func setStr(s *[4]uint64) string {
	var sb strings.Builder
	sb.WriteByte('{')
	for i := 0; i < 256; {
		if s[i>>6]>>(i&63)&1 == 0 {
			i++
			continue
		}
		j := i
		for j+1 < 256 && s[(j+1)>>6]>>((j+1)&63)&1 == 1 {
			j++
		}
		fmt.Fprintf(&sb, "%02x", i)
		if j > i {
			fmt.Fprintf(&sb, "-%02x", j)
		}
		sb.WriteByte(' ')
		i = j + 1
	}
	sb.WriteByte('}')
	return sb.String()
}
