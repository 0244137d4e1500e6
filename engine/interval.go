package main

import "math/bits"

// ival is the circular interval {lo, ..., lo+wid} modulo 2^w.
type ival struct {
	lo, wid uint64
	ok      bool
}

type domFn = func(v int) *[4]uint64

func tabIval(t *Term, d *[4]uint64) ival {
	m := mask(t.w)
	first := true
	var ul, uh uint64
	var sl, sh int64
	for q := 0; q < 4; q++ {
		for x := d[q]; x != 0; x &= x - 1 {
			u := t.vec[q<<6|bits.TrailingZeros64(x)]
			s := sx(u, t.w)
			if first {
				ul, uh, sl, sh, first = u, u, s, s, false
				continue
			}
			if u < ul {
				ul = u
			}
			if u > uh {
				uh = u
			}
			if s < sl {
				sl = s
			}
			if s > sh {
				sh = s
			}
		}
	}
	if first {
		return ival{}
	}
	if w := uint64(sh) - uint64(sl); w < uh-ul {
		return ival{uint64(sl) & m, w, true}
	}
	return ival{ul, uh - ul, true}
}

// circ bounds t by a circular interval.
func (b *Bank) circ(t *Term, dom domFn) ival {
	m := mask(t.w)
	switch t.op {
	case OConst:
		return ival{t.val, 0, true}
	case OTab:
		return tabIval(t, dom(t.v))
	case OAdd:
		r := ival{t.val, 0, true}
		for i, a := range t.args {
			x := b.circ(a, dom)
			if !x.ok {
				return x
			}
			c := t.coefs[i]
			if sc := sx(c, t.w); sc < 0 {
				x.lo = (x.lo + x.wid) * c
				c = uint64(-sc)
			} else {
				x.lo *= c
			}
			hi, wid := bits.Mul64(x.wid, c)
			if hi != 0 {
				return ival{}
			}
			var carry uint64
			r.lo += x.lo
			r.wid, carry = bits.Add64(r.wid, wid, 0)
			if carry != 0 || r.wid >= m {
				return ival{}
			}
		}
		r.lo &= m
		return r
	case OZext:
		in := t.args[0]
		if l, h, ok := b.urange(in, dom); ok {
			return ival{l, h - l, true}
		}
		return ival{0, mask(in.w), true}
	case OSext:
		in := t.args[0]
		if l, h, ok := b.srange(in, dom); ok {
			return ival{uint64(l) & m, uint64(h) - uint64(l), true}
		}
		return ival{-(uint64(1) << (in.w - 1)) & m, mask(in.w), true}
	case OIte:
		switch b.quick(t.args[0], dom) {
		case 1:
			return b.circ(t.args[1], dom)
		case 0:
			return b.circ(t.args[2], dom)
		}
		x, y := b.circ(t.args[1], dom), b.circ(t.args[2], dom)
		if !x.ok || !y.ok {
			return ival{}
		}
		// the shorter of the two hulls
		h := func(x, y ival) (ival, bool) {
			off := (y.lo - x.lo) & m
			w, c := bits.Add64(off, y.wid, 0)
			if c != 0 || w >= m {
				return ival{}, false
			}
			return ival{x.lo, max(x.wid, w), true}, true
		}
		p, o1 := h(x, y)
		q, o2 := h(y, x)
		if o1 && (!o2 || p.wid <= q.wid) {
			return p
		}
		if o2 {
			return q
		}
	case OLshr:
		if y := t.args[1]; y.op == OConst && y.val < 64 {
			if l, h, ok := b.urange(t.args[0], dom); ok {
				return ival{l >> y.val, h>>y.val - l>>y.val, true}
			}
			return ival{0, m >> y.val, true}
		}
	case OAnd:
		if y := t.args[0]; y.op == OConst {
			return ival{0, y.val, y.val != m}
		}
		if y := t.args[1]; y.op == OConst {
			return ival{0, y.val, y.val != m}
		}
	}
	return ival{}
}

func (b *Bank) urange(t *Term, dom domFn) (lo, hi uint64, ok bool) {
	x := b.circ(t, dom)
	if !x.ok {
		return 0, mask(t.w), false
	}
	if mask(t.w)-x.lo < x.wid {
		return 0, mask(t.w), false
	}
	return x.lo, x.lo + x.wid, true
}

func (b *Bank) srange(t *Term, dom domFn) (lo, hi int64, ok bool) {
	x := b.circ(t, dom)
	m := mask(t.w)
	if !x.ok {
		return 0, 0, false
	}
	sign := (m >> 1) + 1
	l := (x.lo + sign) & m // biased
	if m-l < x.wid {
		return 0, 0, false
	}
	return sx((l-sign)&m, t.w), sx((l+x.wid-sign)&m, t.w), true
}

// quick decides t from the domains of its variables: 1 true, 0 false, -1 unknown.
func (b *Bank) quick(t *Term, dom domFn) int {
	switch t.op {
	case OConst:
		return int(t.val)
	case ONot:
		if q := b.quick(t.args[0], dom); q >= 0 {
			return 1 - q
		}
	case OIn:
		d := dom(t.v)
		var in, out uint64
		for i := range d {
			in |= d[i] & t.set[i]
			out |= d[i] &^ t.set[i]
		}
		if out == 0 {
			return 1
		}
		if in == 0 {
			return 0
		}
	case OBand, OBor:
		z := 0
		if t.op == OBor {
			z = 1
		}
		all := true
		for _, a := range t.args {
			q := b.quick(a, dom)
			if q == z {
				return z
			}
			if q < 0 {
				all = false
			}
		}
		if all {
			return 1 - z
		}
	case OEq:
		if x, y := t.args[0], t.args[1]; x.op == OUF && y.op == OUF && x.name == y.name && len(x.args) == len(y.args) {
			same := true
			for i := range x.args {
				same = same && x.args[i].w == y.args[i].w && b.quick(b.Eq(x.args[i], y.args[i]), dom) == 1
			}
			if same {
				return 1
			}
		}
		if t.args[0].opaque || t.args[1].opaque {
			return -1
		}
		if t.args[0].w == 0 {
			return -1
		}
		d := t.args[0]
		if c := t.args[1]; c.op != OConst || c.val != 0 {
			d = b.Sub(d, c)
		}
		if x := b.circ(d, dom); x.ok {
			if x.lo == 0 && x.wid == 0 {
				return 1
			}
			if (-x.lo)&mask(d.w) > x.wid {
				return 0
			}
		}
	case OUlt:
		l1, h1, _ := b.urange(t.args[0], dom)
		l2, h2, _ := b.urange(t.args[1], dom)
		if h1 < l2 {
			return 1
		}
		if l1 >= h2 {
			return 0
		}
		x, y := t.args[0], t.args[1]
		if x.opaque || y.opaque || (x.op != OAdd && y.op != OAdd) {
			return -1
		}
		m := mask(t.args[0].w)
		// x = y+d without wrapping: x >= y
		if _, hd, ok := b.urange(b.Sub(x, y), dom); ok && h2 <= m-hd {
			return 0
		}
		// y = x+e without wrapping: x < y unless e = 0
		if le, he, ok := b.urange(b.Sub(y, x), dom); ok && le > 0 && h1 <= m-he {
			return 1
		}
	case OSlt:
		l1, h1, o1 := b.srange(t.args[0], dom)
		l2, h2, o2 := b.srange(t.args[1], dom)
		if o1 && o2 {
			if h1 < l2 {
				return 1
			}
			if l1 >= h2 {
				return 0
			}
			x, y := t.args[0], t.args[1]
			if x.opaque || y.opaque || (x.op != OAdd && y.op != OAdd) {
				return -1
			}
			half := int64(1) << 61
			if l1 > -half && h1 < half && l2 > -half && h2 < half && x.w == 64 {
				// the difference does not overflow
				if ld, hd, ok := b.srange(b.Sub(x, y), dom); ok {
					if hd < 0 {
						return 1
					}
					if ld >= 0 {
						return 0
					}
				}
			}
		}
	}
	return -1
}

// rng is the signed interval of t.
func (b *Bank) rng(t *Term, dom domFn) (lo, hi int64, ok bool) { return b.srange(t, dom) }

// ---- interval splitting ----------------------------------------------------

// linearOK tells whether interval splitting can decide t.
func linearOK(t *Term, depth int) bool {
	if t.opaque || depth > 40 {
		return false
	}
	switch t.op {
	case OConst, OTab, OIn:
		return true
	case ONot, OBand, OBor, OEq, OUlt, OSlt, OAdd, OZext, OSext, OIte:
		for _, a := range t.args {
			if !linearOK(a, depth+1) {
				return false
			}
		}
		return true
	}
	return false
}

type splitter struct {
	b     *Bank
	conds []*Term
	vs    []int
	dom   map[int]*[4]uint64
	nodes int
}

func (p *splitter) get(v int) *[4]uint64 {
	if d := p.dom[v]; d != nil {
		return d
	}
	return &fullSet
}

// weigh finds the variable whose uncertainty dominates t.
func (p *splitter) weigh(t *Term, scale uint64, best *int, bw *uint64) {
	switch t.op {
	case OTab:
		d := p.get(t.v)
		if bits.OnesCount64(d[0])+bits.OnesCount64(d[1])+bits.OnesCount64(d[2])+bits.OnesCount64(d[3]) < 2 {
			return
		}
		x := tabIval(t, d)
		hi, w := bits.Mul64(x.wid, scale)
		if hi != 0 {
			w = ^uint64(0)
		}
		if w > *bw || *best < 0 {
			*best, *bw = t.v, w
		}
	case OIn:
		d := p.get(t.v)
		if bits.OnesCount64(d[0])+bits.OnesCount64(d[1])+bits.OnesCount64(d[2])+bits.OnesCount64(d[3]) < 2 {
			return
		}
		if *best < 0 {
			*best, *bw = t.v, 0
		}
	case OAdd:
		for i, a := range t.args {
			c := t.coefs[i]
			if s := sx(c, t.w); s < 0 {
				c = uint64(-s)
			}
			p.weigh(a, c, best, bw)
		}
	default:
		for _, a := range t.args {
			p.weigh(a, 1, best, bw)
		}
	}
}

func (p *splitter) run(active []*Term) Result {
	p.nodes++
	if p.nodes > 6000 {
		return RUnknown
	}
	var open []*Term
	for _, c := range active {
		switch p.b.quick(c, p.get) {
		case 0:
			return RUnsat
		case -1:
			open = append(open, c)
		}
	}
	if len(open) == 0 {
		return RSat
	}
	best, bw := -1, uint64(0)
	for _, c := range open {
		p.weigh(c, 1, &best, &bw)
		if best >= 0 {
			break
		}
	}
	if best < 0 {
		return RUnknown
	}
	old := p.get(best)
	var vals []int
	for q := 0; q < 4; q++ {
		for x := old[q]; x != 0; x &= x - 1 {
			vals = append(vals, q<<6|bits.TrailingZeros64(x))
		}
	}
	parts := len(vals)
	if parts > 16 {
		parts = 8
	}
	unk := false
	for i := 0; i < parts; i++ {
		var d [4]uint64
		for _, v := range vals[i*len(vals)/parts : (i+1)*len(vals)/parts] {
			d[v>>6] |= 1 << (v & 63)
		}
		p.dom[best] = &d
		switch p.run(open) {
		case RSat: // p.dom keeps the domains that decided every condition
			return RSat
		case RUnknown:
			if p.nodes > 6000 {
				p.dom[best] = old
				return RUnknown
			}
			unk = true
		}
	}
	p.dom[best] = old
	if unk {
		return RUnknown
	}
	return RUnsat
}

// split decides a conjunction of comparisons of sums of byte functions.
func (b *Bank) split(conds []*Term, vs []int) (Result, map[int]byte) {
	for _, c := range conds {
		if !linearOK(c, 0) {
			return RUnknown, nil
		}
	}
	p := &splitter{b: b, vs: vs, dom: map[int]*[4]uint64{}}
	var rest []*Term
	for _, c := range conds {
		if c.op == OIn {
			d := *p.get(c.v)
			for i := range d {
				d[i] &= c.set[i]
			}
			if d == ([4]uint64{}) {
				return RUnsat, nil
			}
			p.dom[c.v] = &d
			continue
		}
		rest = append(rest, c)
	}
	r := p.run(rest)
	if r != RSat {
		return r, nil
	}
	m := map[int]byte{}
	for _, v := range vs {
		m[v] = pick(p.get(v))
	}
	return RSat, m
}
