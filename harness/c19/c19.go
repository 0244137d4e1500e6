// Package c19: decoding into a populated destination merges.
package c19

import (
	jd "github.com/romshark/jscan-experimental-decoder"
	"github.com/romshark/jscan-experimental-decoder/internal/vref"
	"github.com/romshark/jscan-experimental-decoder/internal/vsym"
)

type in struct {
	X int
	Y string
}

type all struct {
	I int
	U uint8
	F float64
	B bool
	S string
	N jd.Number
	L []int
	K []in
	A [2]int
	R [2]in
	M map[string]int
	O map[string]in
	Q map[string]*in
	P *in
	J *int
	V in
	E any
	Z []*in
	W *all
}

// mk makes a populated value; b are arbitrary.
func mk(b []byte) func(*all) {
	return func(v *all) {
		i := int(b[0])
		*v = all{
			I: int(b[0]), U: b[1], F: 2.5, B: b[1] > 100, S: "old", N: "77",
			L: []int{int(b[0]), int(b[1]), 3}, K: []in{{int(b[1]), "k0"}, {5, "k1"}}, A: [2]int{int(b[0]), 8}, R: [2]in{{1, "r0"}, {int(b[1]), "r1"}},
			M: map[string]int{"a": int(b[0]), "z": 9}, O: map[string]in{"a": {int(b[1]), "oa"}, "z": {4, "oz"}},
			Q: map[string]*in{"a": {int(b[0]), "qa"}, "z": nil},
			P: &in{int(b[1]), "p"}, J: &i, V: in{int(b[0]), "v"}, E: map[string]any{"old": 1.0},
			Z: []*in{{int(b[0]), "z0"}, nil}, W: &all{I: int(b[1]), S: "w", L: []int{1}},
		}
	}
}

// one member with any value
func member(v []byte) []byte {
	return vref.Cat(`"`, vsym.ByteIn("IUFBSNLKARMOQPJVEZWx"), `":`, v)
}

func HSmall() {
	vref.DocOpt[all](vref.Cat("{", member(vref.Small()), "}"), jd.DefaultOptions, mk(vsym.Bytes(2)))
}

func HTwo() {
	vref.DocOpt[all](vref.Cat("{", member([]byte("null")), ",", member([]byte("{}")), "}"), jd.DefaultOptions, mk(vsym.Bytes(2)))
}

func num() []byte { return []byte{vref.Pos()} }

func obj() []byte {
	switch vsym.Choose(4) {
	case 0:
		return []byte("{}")
	case 1:
		return vref.Cat(`{"X":`, num(), `}`)
	case 2:
		return []byte(`{"Y":"new"}`)
	}
	return vref.Cat(`{"Y":"new","X":`, num(), `}`)
}

func objs() []byte {
	switch vsym.Choose(4) {
	case 0:
		return []byte("[]")
	case 1:
		return vref.Cat("[", obj(), "]")
	case 2:
		return vref.Cat("[", obj(), ",", obj(), "]")
	}
	return vref.Cat("[", obj(), ",{},{},", obj(), "]")
}

func keyed(v func() []byte) []byte {
	switch vsym.Choose(3) {
	case 0:
		return vref.Cat(`{"`, vsym.ByteIn("abz"), `":`, v(), `}`)
	case 1:
		return vref.Cat(`{"`, vsym.ByteIn("az"), `":`, v(), `,"`, vsym.ByteIn("azn"), `":`, v(), `}`)
	}
	return []byte("{}")
}

// HDeep: members that are mentioned in part.
func HDeep() {
	var d []byte
	switch vsym.Choose(12) {
	case 0:
		d = vref.Cat(`{"K":`, objs(), `}`)
	case 1:
		d = vref.Cat(`{"R":`, objs(), `}`)
	case 2:
		d = vref.Cat(`{"M":`, keyed(num), `}`)
	case 3:
		d = vref.Cat(`{"O":`, keyed(obj), `}`)
	case 4:
		d = vref.Cat(`{"Q":`, keyed(obj), `}`)
	case 5:
		d = vref.Cat(`{"P":`, obj(), `,"J":`, num(), `}`)
	case 6:
		d = vref.Cat(`{"V":`, obj(), `,"I":`, num(), `}`)
	case 7:
		d = vref.Cat(`{"Z":`, objs(), `}`)
	case 8:
		d = vref.Cat(`{"W":{"W":{"K":`, objs(), `},"S":"x"}}`)
	case 9:
		d = vref.Cat(`{"L":[`, num(), `],"A":[`, num(), `]}`)
	case 10:
		d = vref.Cat(`{"L":[`, num(), `,1,2,3,`, num(), `],"A":[1,`, num(), `,3]}`)
	case 11:
		d = vref.Cat(`{"E":`, vref.Value(1), `,"W":{"E":2,"V":`, obj(), `}}`)
	}
	vref.DocOpt[all](d, jd.DefaultOptions, mk(vsym.Bytes(2)))
}

// HTwice: the second document goes into the result of the first.
func HTwice() {
	one := func() []byte {
		switch vsym.Choose(5) {
		case 0:
			return vref.Cat(`{"V":`, obj(), `,"L":[1,`, num(), `]}`)
		case 1:
			return vref.Cat(`{"K":`, objs(), `}`)
		case 2:
			return vref.Cat(`{"O":`, keyed(obj), `}`)
		case 3:
			return vref.Cat(`{"P":`, obj(), `,"Z":[`, obj(), `]}`)
		}
		return vref.Cat(`{"E":[1],"A":[`, num(), `],"W":{"P":`, obj(), `}}`)
	}
	d := vref.Dec[[]byte, all]()
	var got, want all
	a, b := one(), one()
	_, err := d.Decode(a, &got, jd.DefaultOptions)
	vsym.Assert(err == nil, "a valid document is rejected")
	vref.Ref(a, &want, jd.DefaultOptions)
	if len(got.K) > 0 && cap(got.K) != len(got.K) {
		// what is beyond the length is outside of the claim
		got.K = got.K[:len(got.K):len(got.K)]
	}
	idx, err := d.Decode(b, &got, jd.DefaultOptions)
	vref.Judge(b, idx, err, &got, &want, jd.DefaultOptions)
}

func popMap[T any](v func() []byte, old func() T) {
	vref.DocOpt[map[string]T](keyed(v), jd.DefaultOptions, func(m *map[string]T) { *m = map[string]T{"a": old(), "z": old()} })
}

// HMaps: entries that are replaced start fresh.
func HMaps() {
	switch vsym.Choose(8) {
	case 0:
		popMap(num, func() int8 { return 7 })
	case 1:
		popMap(obj, func() in { return in{7, "old"} })
	case 2:
		popMap(func() []byte { return vref.Cat("[", num(), "]") }, func() []int { return []int{7, 8, 9} })
	case 3:
		popMap(func() []byte { return vref.Cat("[", num(), "]") }, func() [3]int { return [3]int{7, 8, 9} })
	case 4:
		popMap(obj, func() *in { return &in{7, "old"} })
	case 5:
		popMap(func() []byte { return keyed(num) }, func() map[string]int { return map[string]int{"a": 7, "q": 8} })
	case 6:
		popMap(obj, func() any { return "old" })
	case 7:
		popMap(func() []byte { return []byte("null") }, func() *int { i := 7; return &i })
	}
}

// HPtrs: existing pointers are decoded into, whatever refers to them.
func HPtrs() {
	type s struct {
		P *in
		Q **in
		S []*in
		M *map[string]int
		L *[]in
	}
	x := &in{1, "x"}
	y := &in{2, "y"}
	m := map[string]int{"a": 1}
	l := []in{{3, "l"}}
	v := s{P: x, Q: &y, S: []*in{x}, M: &m, L: &l}
	o := obj()
	switch vsym.Choose(5) {
	case 0:
		_, err := vref.Dec[[]byte, s]().Decode(vref.Cat(`{"P":`, o, `}`), &v, jd.DefaultOptions)
		vsym.Assert(err == nil && v.P == x, "an existing pointer was replaced")
	case 1:
		_, err := vref.Dec[[]byte, s]().Decode(vref.Cat(`{"Q":`, o, `}`), &v, jd.DefaultOptions)
		vsym.Assert(err == nil && v.Q == &y && *v.Q == y, "an existing pointer was replaced")
	case 2:
		_, err := vref.Dec[[]byte, s]().Decode(vref.Cat(`{"S":[`, o, `]}`), &v, jd.DefaultOptions)
		vsym.Assert(err == nil && v.S[0] == x, "an existing pointer was replaced")
	case 3:
		_, err := vref.Dec[[]byte, s]().Decode(vref.Cat(`{"M":`, keyed(num), `}`), &v, jd.DefaultOptions)
		vsym.Assert(err == nil && v.M == &m && m["a"] != 0, "an existing pointer was replaced")
	case 4:
		_, err := vref.Dec[[]byte, s]().Decode(vref.Cat(`{"L":[`, o, `]}`), &v, jd.DefaultOptions)
		vsym.Assert(err == nil && v.L == &l && len(l) == 1, "an existing pointer was replaced")
	}
}

// same tells whether the maps hold the same ints.
func same(a, b map[string]int) bool {
	if len(a) != len(b) || (a == nil) != (b == nil) {
		return false
	}
	ok := true
	for k, x := range a {
		y, in := b[k]
		ok = vsym.And(ok, vsym.And(in, x == y))
	}
	return ok
}

// HAlias: the destination's maps and pointers are decoded into, so that whatever
// else refers to them sees the outcome.
func HAlias() {
	type dest struct {
		M  map[string]int
		S  map[string]string
		A  map[string]any
		O  map[string]in
		I  map[int]int
		P  *in
		L  []*in
		W  *all
		X  any
		PM *map[string]int
		MM map[string]map[string]int
	}
	b := vsym.Byte()
	full := vsym.Choose(2) == 1
	m, s, a, o, i := map[string]int{}, map[string]string{}, map[string]any{}, map[string]in{}, map[int]int{}
	n := map[string]int{}
	if full {
		m["a"], s["a"], a["a"], o["a"], i[1], n["z"] = int(b), "old", "old", in{int(b), "o"}, int(b), 9
	}
	p, q, w, pm := &in{int(b), "p"}, &in{int(b), "q"}, &all{I: int(b), M: m}, &n
	x := &in{int(b), "x"}
	v := dest{M: m, S: s, A: a, O: o, I: i, P: p, L: []*in{q, nil}, W: w, X: x, PM: pm, MM: map[string]map[string]int{"a": n}}
	var d []byte
	switch vsym.Choose(11) {
	case 0:
		d = vref.Cat(`{"M":`, keyed(num), `}`)
	case 1:
		d = vref.Cat(`{"S":{"`, vsym.ByteIn("ab"), `":"`, vref.Plain(), `"}}`)
	case 2:
		d = vref.Cat(`{"A":{"`, vsym.ByteIn("ab"), `":`, vref.Small(), `}}`)
	case 3:
		d = vref.Cat(`{"O":`, keyed(obj), `}`)
	case 4:
		d = vref.Cat(`{"I":{"`, vsym.ByteIn("123"), `":`, num(), `}}`)
	case 5:
		d = vref.Cat(`{"P":`, obj(), `}`)
	case 6:
		d = vref.Cat(`{"L":[`, obj(), `]}`)
	case 7:
		d = vref.Cat(`{"W":{"M":`, keyed(num), `,"I":`, num(), `}}`)
	case 8:
		d = vref.Cat(`{"PM":`, keyed(num), `}`)
	case 9:
		d = vref.Cat(`{"MM":{"a":`, keyed(num), `,"b":{"k":1}}}`)
	case 10:
		d = vref.Cat(`{"M":null,"P":null,"W":null,"PM":null,"S":null}`)
	}
	if _, err := vref.Dec[[]byte, dest]().Decode(d, &v, jd.DefaultOptions); err != nil {
		return
	}
	vsym.Reach("decoded with aliases")
	if v.M != nil {
		vsym.Assert(same(v.M, m), "another map was put into the destination")
	}
	if v.S != nil {
		vsym.Assert(vsym.And(len(v.S) == len(s), v.S["a"] == s["a"] && v.S["b"] == s["b"]), "another map of strings was put into the destination")
	}
	vsym.Assert(len(v.A) == len(a), "another map of any was put into the destination")
	vsym.Assert(len(v.O) == len(o), "another map of structs was put into the destination")
	ok := true
	for k, y := range v.O {
		ok = vsym.And(ok, y.X == o[k].X)
	}
	vsym.Assert(ok, "another map of structs was put into the destination")
	vsym.Assert(vsym.And(len(v.I) == len(i), vsym.And(v.I[1] == i[1], vsym.And(v.I[2] == i[2], v.I[3] == i[3]))), "another map of ints was put into the destination")
	vsym.Assert(v.P == nil || v.P == p, "another pointer was put into the destination")
	vsym.Assert(len(v.L) < 1 || v.L[0] == q, "another pointer was put into the slice")
	vsym.Assert(v.W == nil || v.W == w, "another pointer to a recursive type was put into the destination")
	if v.W != nil && v.W.M != nil {
		vsym.Assert(same(v.W.M, m), "another map was put into the pointed to struct")
	}
	vsym.Assert(v.PM == nil || v.PM == pm, "another pointer to a map was put into the destination")
	if v.PM != nil {
		vsym.Assert(same(*v.PM, n), "another map was put behind the pointer")
	}
	if y, in := v.MM["a"]; in {
		_ = y // encoding/json makes a new map for every value of a map
	}
}

// HZoo: partial values at every place of a populated type.
func HZoo() {
	i := vsym.Choose(vref.ZooPlaces)
	t := []byte{vref.Pos()}
	b := vsym.Byte()
	switch vsym.Choose(5) {
	case 0:
		vref.DocOpt(vref.ZooDoc(i, obj(), []byte(`{"X":1}`), t), jd.DefaultOptions, func(z *vref.Zoo[in]) { z.Fill(func() in { return in{int(b), "old"} }, true) })
	case 1:
		vref.DocStr(vref.ZooDoc(i, obj(), []byte(`{"Y":"w"}`), t), jd.DefaultOptions, func(z *vref.Zoo[*in]) { z.Fill(func() *in { return &in{int(b), "old"} }, true) })
	case 2:
		vref.DocOpt(vref.ZooDoc(i, keyed(num), []byte(`{"w":1}`), t), jd.DefaultOptions, func(z *vref.Zoo[map[string]int]) {
			z.Fill(func() map[string]int { return map[string]int{"a": int(b), "q": 8} }, true)
		})
	case 3:
		vref.DocStr(vref.ZooDoc(i, objs(), []byte(`[{"X":1}]`), t), jd.DefaultOptions, func(z *vref.Zoo[[]in]) { z.Fill(func() []in { return []in{{int(b), "old"}, {7, "o"}} }, true) })
	case 4:
		vref.DocOpt(vref.ZooDoc(i, vref.Cat("[", num(), "]"), []byte(`[1,2]`), t), jd.DefaultOptions, func(z *vref.Zoo[[2]int8]) { z.Fill(func() [2]int8 { return [2]int8{int8(b), 8} }, true) })
	}
}

// HAll: another value or null at every place of every kind of a populated type.
func HAll() {
	k := vsym.Choose(vref.AllKinds)
	vref.InAll(k, func(int) []byte {
		switch vsym.Choose(3) {
		case 0:
			return []byte("null")
		case 1:
			return vref.AllAlt(k)
		}
		return []byte(vref.AllFits(k))
	})
}
