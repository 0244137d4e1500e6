// Package c18: writes stay inside of the destination.
package c18

import (
	"strings"

	jd "github.com/romshark/jscan-experimental-decoder"
	"github.com/romshark/jscan-experimental-decoder/internal/vref"
	"github.com/romshark/jscan-experimental-decoder/internal/vsym"
	"github.com/romshark/jscan/v2"
)

const c1, c2 = 0x1122334455667788, 0x99aabbccddeeff00

// fence decodes doc into a T between canaries and between other Ts.
func fence[T any](doc []byte, other func() T) {
	var want, n1, n2 T
	want, n1, n2 = other(), other(), other()
	_, werr := vref.Ref(doc, &want, jd.DefaultOptions)
	parsed, ok := vref.Parse(doc)
	_ = parsed
	switch vsym.Choose(3) {
	case 0:
		g := new(struct {
			Pre  uint64
			V    T
			Post uint64
		})
		g.Pre, g.V, g.Post = c1, other(), c2
		_, err := vref.Dec[[]byte, T]().Decode(doc, &g.V, jd.DefaultOptions)
		vsym.Assert(vsym.And(g.Pre == c1, g.Post == c2), "memory next to the destination was written")
		check(&g.V, &want, err, ok && werr == nil)
	case 1:
		g := new([3]T)
		g[0], g[1], g[2] = other(), other(), other()
		_, err := vref.Dec[string, T]().Decode(string(doc), &g[1], jd.DefaultOptions)
		vsym.Assert(vsym.And(vsym.DeepEq(&g[0], &n1), vsym.DeepEq(&g[2], &n2)), "memory next to the destination was written")
		check(&g[1], &want, err, ok && werr == nil)
	case 2:
		g := new(struct {
			Pre  byte
			V    T
			Post byte
		})
		g.Pre, g.V, g.Post = 0xa5, other(), 0x5a
		_, err := vref.Dec[[]byte, T]().Decode(doc, &g.V, jd.DefaultOptions)
		vsym.Assert(vsym.And(g.Pre == 0xa5, g.Post == 0x5a), "memory next to the destination was written")
		check(&g.V, &want, err, ok && werr == nil)
	}
}

func check[T any](got, want *T, err error, good bool) {
	vsym.ObserveBool(err == nil)
	vsym.GC()
	if good && err == nil {
		vsym.Reach("decoded")
		vsym.Assert(vsym.DeepEq(got, want), "the value is wrong after a garbage collection")
	}
}

// hole is JSON with arbitrary bytes in it.
func hole(pre, post string) []byte {
	return vref.Cat(pre, vsym.BytesIn(2, "[]{}\",:0-ntf\\ "), post)
}

func zero[T any]() (z T) { return }

func HInt8()  { fence[int8](vref.Cat(vref.Int(4)), func() int8 { return 7 }) }
func HInt16() { fence[int16](vref.Int(3), func() int16 { return 7 }) }
func HBool()  { fence[bool](vref.Small(), func() bool { return true }) }
func HByteArr() {
	fence[[3]uint8](vref.Cat("[1,", vref.Value(1), ",", vref.Small(), ",4]"), func() [3]uint8 { return [3]uint8{7, 8, 9} })
}
func HArrOver() {
	d := vref.Value(1)
	switch vsym.Choose(6) {
	case 0:
		fence[[2]int16](vref.Cat("[1,2,", d, "]"), func() [2]int16 { return [2]int16{7, 8} })
	case 1:
		fence[[0]int](vref.Cat("[", d, "]"), zero[[0]int])
	case 2:
		fence[[2][2]int8](vref.Cat("[[1,2,", d, "],[3],", d, "]"), func() [2][2]int8 { return [2][2]int8{{7, 8}, {9, 10}} })
	case 3:
		fence[[1]string](vref.Cat(`["a",`, d, "]"), func() [1]string { return [1]string{"o"} })
	case 4:
		fence[[2]struct{}](vref.Cat("[{},{},", d, "]"), zero[[2]struct{}])
	case 5:
		fence[[1]*int](vref.Cat("[1,", d, "]"), zero[[1]*int])
	}
}

type odd struct {
	A int8
	B bool
	C int16
	D uint8
	E string
	F uint8
	G [3]bool
	H int32
	I uint8
}

func mkOdd() odd { return odd{1, true, 2, 3, "e", 4, [3]bool{true, false, true}, 5, 6} }

func HOdd() {
	v := vref.Small()
	fence[odd](vref.Cat(`{"`, vsym.ByteIn("ABCDEFGHI"), `":`, v, `,"`, vsym.ByteIn("ABCDEFGHI"), `":`, v, `}`), mkOdd)
}
func HOddArr() {
	fence[odd](vref.Cat(`{"G":[true,`, vref.Small(), `,false,`, vref.Small(), `],"D":`, vref.Pos(), `}`), mkOdd)
}

// HOddSlice: elements of unusual size; the slice grows.
func HOddSlice() {
	d := []byte("[")
	for i, n := 0, 1+vsym.Choose(vsym.Pick(6, 18)); i < n; i++ {
		if i > 0 {
			d = append(d, ',')
		}
		d = vref.Cat(d, `{"`, vsym.ByteIn("ADI"), `":`, vref.Pos(), `,"E":"s"}`)
	}
	d = append(d, ']')
	fence[[]odd](d, func() []odd { return make([]odd, 2) })
}

func elems[T any](el func() []byte, old T) {
	d := []byte("[")
	for i, n := 0, vsym.Choose(vsym.Pick(5, 8)); i < n; i++ {
		if i > 0 {
			d = append(d, ',')
		}
		d = append(d, el()...)
	}
	d = append(d, ']')
	c := vsym.Choose(3)
	// a slice that is a part of a larger array
	var back, keep [6]T
	for i := range back {
		back[i], keep[i] = old, old
	}
	s := back[1 : 1+c : 1+c]
	_, err := vref.Dec[[]byte, []T]().Decode(d, &s, jd.DefaultOptions)
	vsym.Assert(err == nil, "a valid document is rejected")
	vsym.Assert(vsym.DeepEq(&back[0], &keep[0]), "memory in front of the slice was written")
	for i := 1 + c; i < len(back); i++ {
		vsym.Assert(vsym.DeepEq(&back[i], &keep[i]), "memory behind the slice was written")
	}
	vsym.GC()
	want := make([]T, c)
	for i := range want {
		want[i] = old
	}
	vref.Ref(d, &want, jd.DefaultOptions)
	vsym.Assert(vsym.DeepEq(&s, &want), "the value is wrong after a garbage collection")
}

func num() []byte { return []byte{vref.Pos()} }
func HElems() {
	switch vsym.Choose(20) {
	case 17:
		elems[jd.Number](num, "77")
	case 18:
		elems[[]int8](func() []byte { return vref.Cat("[", num(), "]") }, nil)
	case 19:
		elems[map[string]string](func() []byte { return []byte(`{"a":"b"}`) }, nil)
	case 0:
		elems[int8](num, 77)
	case 1:
		elems[int16](num, 77)
	case 2:
		elems[int32](num, 77)
	case 3:
		elems[int64](num, 77)
	case 4:
		elems[uint8](num, 77)
	case 5:
		elems[uint16](num, 77)
	case 6:
		elems[uint32](num, 77)
	case 7:
		elems[uint](num, 77)
	case 8:
		elems[float32](num, 77)
	case 9:
		elems[float64](num, 77)
	case 10:
		elems[string](func() []byte { return vref.Cat(`"`, vref.Plain(), `"`) }, "old")
	case 11:
		elems[bool](func() []byte { return []byte("false") }, true)
	case 12:
		elems[[3]int8](func() []byte { return vref.Cat("[", num(), ",1,2,3]") }, [3]int8{7, 8, 9})
	case 13:
		elems[any](func() []byte { return vref.Cat("[", num(), "]") }, "old")
	case 14:
		elems[odd](func() []byte { return vref.Cat(`{"D":`, num(), `}`) }, mkOdd())
	case 15:
		elems[*string](func() []byte { return vref.Cat(`"`, vref.Plain(), `"`) }, nil)
	case 16:
		elems[map[string]int](func() []byte { return vref.Cat(`{"a":`, num(), `}`) }, nil)
	}
}

type all struct {
	P *all
	S []all
	M map[string]*all
	A any
	T []string
	N map[string]string
	I int8
	Q **string
	U map[int8][2]string
}

func HGraph() {
	v := vref.Value(1)
	switch vsym.Choose(7) {
	case 0:
		fence[all](vref.Cat(`{"P":{"S":[{"T":["a",`, v, `]}]},"I":1}`), zero[all])
	case 1:
		fence[all](vref.Cat(`{"M":{"a":{"N":{"k":"v"}},"b":`, v, `},"I":1}`), zero[all])
	case 2:
		fence[all](vref.Cat(`{"A":`, v, `,"Q":"q","I":2}`), zero[all])
	case 3:
		fence[all](vref.Cat(`{"S":[{"A":`, v, `},{"M":{}},{"P":null}],"I":2}`), zero[all])
	case 4:
		fence[all](vref.Cat(`{"U":{"1":["x","y"],"2":["z",`, v, `]},"I":2}`), zero[all])
	case 5:
		fence[all](vref.Cat(`{"N":{"a":"b","c":`, v, `},"I":3}`), zero[all])
	case 6:
		fence[all](vref.Cat(`{"T":`, v, `,"I":3}`), zero[all])
	}
}

// HHole: malformed and unusual documents for structured destinations.
func HHole() {
	switch vsym.Choose(10) {
	case 0:
		fence[all](hole(`{"P":`, `}`), zero[all])
	case 1:
		fence[all](hole(`{"S":[`, `]}`), zero[all])
	case 2:
		fence[all](hole(`{"M":{"k":`, `}}`), zero[all])
	case 3:
		fence[[]int](hole(`[1`, `2]`), zero[[]int])
	case 4:
		fence[[2]int8](hole(`[1,`, `,2]`), zero[[2]int8])
	case 5:
		fence[map[string]int](hole(`{"a"`, `1}`), zero[map[string]int])
	case 6:
		fence[all](hole(`{"T":["a"`, `]}`), zero[all])
	case 7:
		fence[all](hole(``, `"I":1}`), zero[all])
	case 8:
		fence[any](hole(`[{"a":[`, `}]`), zero[any])
	case 9:
		fence[map[int]map[string][]string](hole(`{"1":{"a":[`, `]}}`), zero[map[int]map[string][]string])
	}
}

// HCut: documents that end early.
func HCut() {
	d := []byte(`{"P":{"I":1,"S":[{},{"T":["a","b"]}]},"M":{"x":{"A":[1,{"k":null}]}},"N":{"a":"b"},"U":{"1":["x"]}}`)
	d = d[:vsym.Choose(len(d))]
	if vsym.Choose(2) == 1 {
		d = append(d, vsym.Byte())
	}
	fence[all](d, zero[all])
}

// HBytes: arbitrary bytes.
func HBytes() {
	d := vsym.Bytes(vsym.Choose(vsym.Pick(3, 5)))
	switch vsym.Choose(6) {
	case 0:
		fence[all](d, zero[all])
	case 1:
		fence[string](d, zero[string])
	case 2:
		fence[int8](d, zero[int8])
	case 3:
		fence[[]bool](d, zero[[]bool])
	case 4:
		fence[float32](d, zero[float32])
	case 5:
		fence[map[string]struct{ A bool }](d, zero[map[string]struct{ A bool }])
	}
}

// HStr: strings with escapes anywhere and of any length.
func HStr() {
	n := vsym.Choose(vsym.Pick(18, 40))
	at := vsym.Choose(n + 1)
	q := []byte{'"'}
	for i := 0; i < n; i++ {
		if i == at {
			q = append(q, '\\', vsym.ByteIn(`"\nu`))
		} else {
			q = append(q, vref.Ascii())
		}
	}
	fence[string](append(q, '"'), zero[string])
}

// HDeep: the nesting of the input is not the depth of the calls, which could
// end the process.
func HDeep() {
	n := vsym.Levels(100)
	x := vsym.Bytes(1)
	rep := func(open string, in []byte, end string) []byte {
		return vref.Cat(strings.Repeat(open, n), in, strings.Repeat(end, n))
	}
	switch vsym.Choose(6) {
	case 0:
		deep[any](rep("[", x, "]"))
	case 1:
		deep[any](rep(`{"a":[`, x, "]}"))
	case 2:
		deep[node](rep(`{"P":`, x, "}"))
	case 3:
		deep[node](rep(`{"C":[`, x, "]}"))
	case 4:
		deep[node](rep(`{"M":{"a":`, x, "}}"))
	case 5:
		deep[node](vref.Cat(`{"U":`, rep(`[{"a":`, x, "}]"), `}`))
	}
}

type node struct {
	V byte
	P *node
	C []node
	M map[string]node
}

func deep[T any](doc []byte) {
	vsym.Shallow(func() {
		d, err := jd.NewDecoder[[]byte, T](jscan.NewTokenizer[[]byte](8, 8), jd.DefaultInitOptions)
		vsym.Assert(err == nil, "NewDecoder failed")
		var v T
		_, err = d.Decode(doc, &v, jd.DefaultOptions)
		vsym.ObserveBool(err == nil)
	})
}

// HZoo: a value at every place of a type between canaries.
func HZoo() {
	i := vsym.Choose(vref.ZooPlaces)
	v := vref.Small()
	switch vsym.Choose(4) {
	case 0:
		fence(vref.ZooDoc(i, v, []byte("1"), []byte("2")), func() (z vref.Zoo[uint8]) { z.Fill(func() uint8 { return 0 }, false); return })
	case 1:
		fence(vref.ZooDoc(i, v, []byte(`"w"`), []byte("2")), zero[vref.Zoo[*string]])
	case 2:
		fence(vref.ZooDoc(i, v, []byte(`[1,2]`), []byte("2")), zero[vref.Zoo[[3]int8]])
	case 3:
		fence(vref.ZooDoc(i, v, []byte(`{}`), []byte("2")), zero[vref.Zoo[struct{}]])
	}
}

type tree struct {
	V uint16
	C []tree
	M map[string][]tree
}

// HTrees: slices of a recursive type that are a part of a larger array.
func HTrees() {
	n, c := 1+vsym.Choose(4), vsym.Choose(4)
	l := []byte("[")
	for i := 0; i < n; i++ {
		if i > 0 {
			l = append(l, ',')
		}
		l = vref.Cat(l, `{"V":`, num(), `}`)
	}
	l = append(l, ']')
	mk := func() (back [7]tree) {
		for i := range back {
			back[i].V = 77
		}
		return
	}
	back, keep := mk(), mk()
	s, w := back[1:1+c:1+c], make([]tree, c)
	for i := range w {
		w[i].V = 77
	}
	if vsym.Choose(2) == 1 {
		// spare capacity
		s = back[1 : 1+c : 2+c]
		c++
	}
	var got, want any
	switch vsym.Choose(4) {
	case 0:
		_, err := vref.Dec[[]byte, []tree]().Decode(l, &s, jd.DefaultOptions)
		vsym.Assert(err == nil, "a valid document is rejected")
		vref.Ref(l, &w, jd.DefaultOptions)
		got, want = &s, &w
	case 1:
		d := vref.Cat(`{"C":`, l, `,"V":1}`)
		g, h := &tree{C: s}, &tree{C: w}
		_, err := vref.Dec[[]byte, tree]().Decode(d, g, jd.DefaultOptions)
		vsym.Assert(err == nil, "a valid document is rejected")
		vref.Ref(d, h, jd.DefaultOptions)
		got, want = g, h
	case 2:
		d := vref.Cat(`[{"V":1},{"C":`, l, `}]`)
		g, h := &[]tree{{}, {C: s}}, &[]tree{{}, {C: w}}
		_, err := vref.Dec[string, []tree]().Decode(string(d), g, jd.DefaultOptions)
		vsym.Assert(err == nil, "a valid document is rejected")
		vref.Ref(d, h, jd.DefaultOptions)
		got, want = g, h
	case 3:
		d := vref.Cat(`{"C":[{"C":`, l, `}]}`)
		g, h := &tree{C: []tree{{C: s}}}, &tree{C: []tree{{C: w}}}
		_, err := vref.Dec[[]byte, tree]().Decode(d, g, jd.DefaultOptions)
		vsym.Assert(err == nil, "a valid document is rejected")
		vref.Ref(d, h, jd.DefaultOptions)
		got, want = g, h
	}
	vsym.Assert(vsym.DeepEq(&back[0], &keep[0]), "memory in front of the slice was written")
	for i := 1 + c; i < len(back); i++ {
		vsym.Assert(vsym.DeepEq(&back[i], &keep[i]), "memory behind the slice was written")
	}
	vsym.GC()
	vsym.Assert(vsym.DeepEq(got, want), "the value is wrong after a garbage collection")
}
