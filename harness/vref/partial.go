package vref

import (
	"encoding/json"
	"reflect"

	jd "github.com/romshark/jscan-experimental-decoder"
	"github.com/romshark/jscan-experimental-decoder/internal/vsym"
)

var jsonUnm = reflect.TypeOf((*json.Unmarshaler)(nil)).Elem()

// kindOf is the kind of t, or Invalid if t has methods of its own to decode it.
func kindOf(t reflect.Type) reflect.Kind {
	if p := reflect.PointerTo(t); p.Implements(jsonUnm) || p.Implements(textUnm) {
		return reflect.Invalid
	}
	return t.Kind()
}

// same compares two values.
func same(a, b reflect.Value) bool { return vsym.DeepEq(a.Interface(), b.Interface()) }

func zero(v reflect.Value) bool { return same(v, reflect.Zero(v.Type())) }

// stopped tells whether g is what is left behind by a decoding of n into p that
// stopped at the offset idx, which is inside of n. p is modified.
func (f *filler) stopped(g, p reflect.Value, n *Node, idx int) bool {
	t := g.Type()
	if t.Kind() != reflect.Pointer && (reflect.PointerTo(t).Implements(jsonUnm) || reflect.PointerTo(t).Implements(textUnm)) {
		// what a failing method leaves behind is its own business
		return true
	}
	if t.Kind() == reflect.Pointer {
		if g.IsNil() {
			return p.IsNil()
		}
		if p.IsNil() {
			p = reflect.New(t.Elem())
		}
		return f.stopped(g.Elem(), p.Elem(), n, idx)
	}
	if t.Kind() == reflect.Interface {
		return true
	}
	if n.S == idx {
		return same(g, p)
	}
	// the child the error is in
	at := 0
	for at < len(n.Elems) && n.Elems[at].E <= idx {
		at++
	}
	key := false
	if n.K == Obj && n.Keys[at].S == idx {
		key = true
	}
	ok := true
	switch t.Kind() {
	case reflect.Struct:
		if !f.structure(p, &Node{K: Obj, S: n.S, E: n.E, Keys: n.Keys[:at], Elems: n.Elems[:at]}) {
			panic("vref: not the first error")
		}
		field := -1
		if !key {
			fs := fieldsOf(t)
			if j := f.field(fs, n.Keys[at]); j >= 0 {
				field = fs[j].idx
			}
		}
		for i := 0; i < t.NumField(); i++ {
			if i == field {
				ok = vsym.And(ok, f.stopped(g.Field(i), p.Field(i), n.Elems[at], idx))
			} else {
				ok = vsym.And(ok, same(g.Field(i), p.Field(i)))
			}
		}
	case reflect.Slice, reflect.Array:
		array := t.Kind() == reflect.Array
		for i := 0; i < g.Len(); i++ {
			old := reflect.New(t.Elem()).Elem()
			if i < p.Len() {
				old = p.Index(i)
			}
			switch {
			case i < at:
				// slices of some types are stored as a whole when they are complete
				keeps := !array && (same(g.Index(i), old) || zero(g.Index(i)))
				if keeps {
					break
				}
				if !f.val(old, n.Elems[i], false) {
					panic("vref: not the first error")
				}
				ok = vsym.And(ok, same(g.Index(i), old))
			case i == at:
				ok = vsym.And(ok, f.stopped(g.Index(i), old, n.Elems[i], idx))
			default:
				ok = vsym.And(ok, vsym.Or(same(g.Index(i), old), zero(g.Index(i))))
			}
		}
	case reflect.Map:
		if p.IsNil() && g.IsNil() {
			// a new map may be stored when it is complete
			return true
		}
		// entries of other maps are cleared before they are decoded
		strict := kindOf(t.Key()) == reflect.String && kindOf(t.Elem()) == reflect.String && t.Elem() != f.o.Number
		if !f.mapping(p, &Node{K: Obj, S: n.S, E: n.E, Keys: n.Keys[:at], Elems: n.Elems[:at]}) {
			panic("vref: not the first error")
		}
		if key {
			if p.Len() == 0 {
				return g.Len() == 0
			}
			return same(g, p)
		}
		kn := n.Keys[at]
		one := reflect.New(t).Elem()
		if !f.mapping(one, &Node{K: Obj, S: n.S, E: n.E, Keys: []*Node{kn}, Elems: []*Node{{K: Null, S: kn.S, E: kn.E}}}) {
			panic("vref: not the first error")
		}
		k := one.MapKeys()[0]
		extra := 1
		for _, o := range p.MapKeys() {
			if vsym.DeepEq(o.Interface(), k.Interface()) {
				extra = 0
				continue
			}
			x := g.MapIndex(o)
			if !x.IsValid() {
				return false
			}
			ok = vsym.And(ok, same(x, p.MapIndex(o)))
		}
		x := g.MapIndex(k)
		if !x.IsValid() {
			return vsym.And(ok, g.Len() == p.Len()-1+extra)
		}
		ok = vsym.And(ok, g.Len() == p.Len()+extra)
		if extra == 0 && strict {
			return vsym.And(ok, same(x, p.MapIndex(k)))
		}
		if extra == 0 && same(x, p.MapIndex(k)) {
			return ok
		}
		old := reflect.New(t.Elem()).Elem()
		ok = vsym.And(ok, f.stopped(x, old, n.Elems[at], idx))
	}
	return ok
}

// Stop decodes doc and looks at what a failure leaves behind.
func Stop[T any](doc []byte, o *jd.DecodeOptions, prior func(*T)) {
	var a, b T
	got, want, p := new(T), new(T), new(T)
	if prior != nil {
		prior(got)
		prior(want)
		prior(p)
		prior(&a)
		prior(&b)
	}
	n, e := Ref(doc, want, o)
	_, err := Dec[[]byte, T]().Decode(doc, got, o)
	errS := jd.Unmarshal(string(doc), &a)
	vsym.ObserveBool(err == nil)
	if n == nil {
		vsym.Reach("invalid")
		vsym.Assert(vsym.DeepEq(got, p), "an invalid document changed the destination")
		vsym.Assert(vsym.DeepEq(&a, p), "an invalid document changed the destination")
		return
	}
	if e == nil {
		vsym.Reach("decoded")
		return
	}
	vsym.Reach("stopped")
	f := &filler{b: doc, o: RefOpts(o)}
	vsym.Assert(err != nil, "a document that cannot be stored is accepted")
	vsym.Assert(f.stopped(reflect.ValueOf(got).Elem(), reflect.ValueOf(p).Elem(), n, e.Idx), "the destination of a failed decoding does not hold what precedes the error")
	if o == jd.DefaultOptions {
		vsym.Assert(errS != nil, "a document that cannot be stored is accepted")
		vsym.Assert(f.stopped(reflect.ValueOf(&a).Elem(), reflect.ValueOf(&b).Elem(), n, e.Idx), "the destination of a failed decoding does not hold what precedes the error")
	}
}
