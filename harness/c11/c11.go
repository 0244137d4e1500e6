// Package c11: pointers are allocated for values, nulls act as in encoding/json.
package c11

import (
	jd "github.com/romshark/jscan-experimental-decoder"
	"github.com/romshark/jscan-experimental-decoder/internal/vref"
	"github.com/romshark/jscan-experimental-decoder/internal/vsym"
)

type val struct {
	A int
	B string
}

type rec struct {
	V int
	P *rec
	S []rec
	M map[string]rec
}

// orNull is v or null.
func orNull(v func() []byte) []byte {
	if vsym.Choose(2) == 1 {
		return []byte("null")
	}
	return v()
}

// ptrs puts pointers to T everywhere; what follows a pointer is decoded too.
func ptrs[T any](el func() []byte) {
	v := func() []byte { return orNull(el) }
	switch vsym.Choose(13) {
	case 0:
		vref.Doc[*T](v())
	case 1:
		vref.DocStr[**T](v(), jd.DefaultOptions, nil)
	case 2:
		vref.Doc[[]*T](vref.Cat("[", v(), ",", v(), ",", v(), "]"))
	case 3:
		vref.Doc[[2]*T](vref.Cat("[", v(), ",", v(), "]"))
	case 4:
		vref.Doc[map[string]*T](vref.Cat(`{"a":`, v(), `,"b":`, v(), `,"`, vsym.ByteIn("abc"), `":`, v(), "}"))
	case 5:
		vref.Doc[struct {
			A *T
			B int
			C **T
			D *string
		}](vref.Cat(`{"C":`, v(), `,"A":`, v(), `,"B":5,"D":"x"}`))
	case 6:
		vref.Doc[*[]*T](vref.Cat("[", v(), ",", v(), "]"))
	case 7:
		vref.Doc[*struct {
			P *struct{ Q *T }
			R *T
		}](vref.Cat(`{"P":{"Q":`, v(), `},"R":`, v(), `}`))
	case 8:
		vref.Doc[map[string][]*T](vref.Cat(`{"a":[`, v(), `,`, v(), `],"b":[]}`))
	case 9:
		vref.Doc[[]**T](vref.Cat("[", v(), ",", v(), "]"))
	case 10:
		vref.Doc[*map[string]*T](vref.Cat(`{"a":`, v(), `}`))
	case 11:
		vref.Doc[[]struct {
			A *T
			B *T
		}](vref.Cat(`[{"A":`, v(), `},{"B":`, v(), `,"A":`, v(), `}]`))
	case 12:
		vref.Doc[*[2]*[]T](vref.Cat("[[", v(), "],", orNull(func() []byte { return vref.Cat("[", v(), "]") }), "]"))
	}
}

func num() []byte { return []byte{vref.Pos()} }

func HInt()     { ptrs[int](num) }
func HInt8()    { ptrs[int8](num) }
func HUint64()  { ptrs[uint64](num) }
func HFloat()   { ptrs[float64](num) }
func HFloat32() { ptrs[float32](num) }
func HBool()    { ptrs[bool](func() []byte { return []byte("true") }) }
func HString()  { ptrs[string](func() []byte { return vref.Cat(`"`, vref.Plain(), `"`) }) }
func HNumber()  { ptrs[jd.Number](num) }
func HAny()     { ptrs[any](func() []byte { return []byte(`[1]`) }) }
func HStruct() {
	ptrs[val](func() []byte { return vref.Cat(`{"`, vsym.ByteIn("ABC"), `":null,"A":`, num(), `}`) })
}
func HEmpty() { ptrs[struct{}](func() []byte { return []byte("{}") }) }
func HSlice() { ptrs[[]int](func() []byte { return vref.Cat(`[`, num(), `]`) }) }
func HSlEmp() { ptrs[[]string](func() []byte { return []byte("[]") }) }
func HArray() { ptrs[[2]int16](func() []byte { return vref.Cat(`[`, num(), `]`) }) }
func HMap()   { ptrs[map[string]int](func() []byte { return vref.Cat(`{"k":`, num(), `}`) }) }
func HMapP()  { ptrs[map[string]string](func() []byte { return []byte(`{}`) }) }

// null decodes null over a populated T.
func null[T any](mk func() T) {
	switch vsym.Choose(6) {
	case 0:
		vref.DocOpt[T]([]byte("null"), jd.DefaultOptions, func(v *T) { *v = mk() })
	case 1:
		vref.DocOpt[struct {
			A int
			B T
			C int
		}]([]byte(`{"A":null,"B":null,"C":3}`), jd.DefaultOptions, func(v *struct {
			A int
			B T
			C int
		}) {
			v.A, v.B, v.C = 1, mk(), 2
		})
	case 2:
		vref.DocOpt[[2]T]([]byte(`[null,null]`), jd.DefaultOptions, func(v *[2]T) { v[0], v[1] = mk(), mk() })
	case 3:
		vref.DocOpt[map[string]T]([]byte(`{"a":null}`), jd.DefaultOptions, func(v *map[string]T) { *v = map[string]T{"a": mk(), "b": mk()} })
	case 4:
		vref.DocOpt[*T]([]byte(`null`), jd.DefaultOptions, func(v **T) { x := mk(); *v = &x })
	case 5:
		vref.DocStr[[]T]([]byte(`[null,null,null]`), jd.DefaultOptions, nil)
	}
}

func HNull() {
	switch vsym.Choose(15) {
	case 0:
		null(func() bool { return true })
	case 1:
		null(func() int { return 1 })
	case 2:
		null(func() uint8 { return 1 })
	case 3:
		null(func() float32 { return 1 })
	case 4:
		null(func() float64 { return 1 })
	case 5:
		null(func() string { return "x" })
	case 6:
		null(func() jd.Number { return "1" })
	case 7:
		null(func() val { return val{1, "b"} })
	case 8:
		null(func() [2]int { return [2]int{1, 2} })
	case 9:
		null(func() []int { return []int{1} })
	case 10:
		null(func() map[string]int { return map[string]int{"q": 1} })
	case 11:
		null(func() any { return "x" })
	case 12:
		null(func() *int { i := 1; return &i })
	case 13:
		null(func() [][]string { return [][]string{{"a"}} })
	case 14:
		null(func() []struct{} { return []struct{}{{}} })
	}
}

// every has a field of every type; all are populated.
type every struct {
	A0 bool
	A1 int
	A2 int8
	A3 int16
	A4 int32
	A5 int64
	A6 uint
	A7 uint8
	A8 uint16
	A9 uint32
	B0 uint64
	B1 float32
	B2 float64
	B3 string
	B4 jd.Number
	B5 any
	B6 val
	B7 struct{}
	B8 rec
	B9 *rec
	C0 []bool
	C1 []int
	C2 []int8
	C3 []int16
	C4 []int32
	C5 []int64
	C6 []uint
	C7 []uint8
	C8 []uint16
	C9 []uint32
	D0 []uint64
	D1 []float32
	D2 []float64
	D3 []string
	D4 []jd.Number
	D5 []any
	D6 []val
	D7 []struct{}
	D8 []rec
	D9 []*rec
	E0 map[string]string
	E1 map[int8][]int
	E2 map[string]rec
	E3 map[string]any
	E4 map[uint16]val
	E5 map[jd.Number]bool
	E6 [2]int
	E7 [1][]string
	E8 [0]int
	E9 [2]rec
	F0 *int
	F1 **string
	F2 *[]int
	F3 *map[string]int
	F4 *any
	F5 *val
	F6 *[2]bool
	F7 **rec
	F8 [][]int
	F9 [][][]string
}

func mkEvery() every {
	i, s, a := 3, "s", any("x")
	ps, pr := &s, &rec{V: 6}
	return every{
		true, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 1.5, 2.5, "s", "12", "any", val{1, "v"}, struct{}{}, rec{V: 3, S: []rec{{V: 4}}}, &rec{V: 5},
		[]bool{true}, []int{1}, []int8{1}, []int16{1}, []int32{1}, []int64{1}, []uint{1}, []uint8{1}, []uint16{1}, []uint32{1},
		[]uint64{1}, []float32{1}, []float64{1}, []string{"q"}, []jd.Number{"1"}, []any{1.0}, []val{{2, "w"}}, []struct{}{{}}, []rec{{V: 1}}, []*rec{{V: 1}},
		map[string]string{"a": "b"}, map[int8][]int{1: {2}}, map[string]rec{"a": {V: 2}}, map[string]any{"a": "b"}, map[uint16]val{3: {4, "x"}}, map[jd.Number]bool{"5": true},
		[2]int{1, 2}, [1][]string{{"r"}}, [0]int{}, [2]rec{{V: 1}, {V: 2}},
		&i, &ps, &[]int{1}, &map[string]int{"a": 1}, &a, &val{3, "y"}, &[2]bool{true, true}, &pr, [][]int{{1}}, [][][]string{{{"a"}}},
	}
}

// HNullEvery: null for a member of any type.
func HNullEvery() {
	k := vref.Cat(`"`, "ABCDEF"[vsym.Choose(6)], "0123456789"[vsym.Choose(10)], `":null`)
	switch vsym.Choose(4) {
	case 0:
		vref.DocOpt[every](vref.Cat("{", k, "}"), jd.DefaultOptions, func(v *every) { *v = mkEvery() })
	case 1:
		vref.DocOpt[[2]every](vref.Cat(`[{"A1":5},{"A2":4,`, k, `,"F9":[[[]]]}]`), jd.DefaultOptions, func(v *[2]every) { v[0], v[1] = mkEvery(), mkEvery() })
	case 2:
		vref.DocOpt[map[string]*every](vref.Cat(`{"a":{`, k, `,"A1":5},"b":{`, k, `}}`), jd.DefaultOptions, func(v *map[string]*every) { e := mkEvery(); *v = map[string]*every{"a": &e} })
	case 3:
		vref.DocStr[[]every](vref.Cat(`[{`, k, `},null,{"A1":5,`, k, `}]`), jd.DefaultOptions, func(v *[]every) { *v = []every{mkEvery(), mkEvery()}[:2:2] })
	}
}

// HNullRec: null for the recursive members of populated structs.
func HNullRec() {
	mk := func(v *rec) {
		*v = rec{1, &rec{V: 2, P: &rec{V: 5}}, []rec{{V: 3, S: []rec{{V: 6}}}}, map[string]rec{"a": {V: 4, M: map[string]rec{"b": {V: 7}}}}}
	}
	m := func() []byte { return vref.Cat(`"`, vsym.ByteIn("VPSM"), `":null`) }
	switch vsym.Choose(4) {
	case 0:
		vref.DocOpt[rec](vref.Cat("{", m(), ",", m(), "}"), jd.DefaultOptions, mk)
	case 1:
		vref.DocOpt[rec](vref.Cat(`{"P":{`, m(), `,`, m(), `},"V":9}`), jd.DefaultOptions, mk)
	case 2:
		vref.DocOpt[rec](vref.Cat(`{"S":[{`, m(), `,`, m(), `}],"V":9}`), jd.DefaultOptions, mk)
	case 3:
		vref.DocOpt[rec](vref.Cat(`{"M":{"a":{`, m(), `},"b":null,"c":{`, m(), `}},"V":9}`), jd.DefaultOptions, mk)
	}
}

// HSlNull: null elements of slices.
func HSlNull() {
	e := func(s string) []byte { return orNull(func() []byte { return []byte(s) }) }
	l := func(s string) []byte { return vref.Cat("[", e(s), ",", e(s), ",", e(s), "]") }
	switch vsym.Choose(17) {
	case 0:
		vref.Doc[[]bool](l("true"))
	case 1:
		vref.Doc[[]int](l("7"))
	case 2:
		vref.Doc[[]int8](l("7"))
	case 3:
		vref.Doc[[]int16](l("7"))
	case 4:
		vref.Doc[[]int32](l("7"))
	case 5:
		vref.Doc[[]int64](l("7"))
	case 6:
		vref.Doc[[]uint](l("7"))
	case 7:
		vref.Doc[[]uint8](l("7"))
	case 8:
		vref.Doc[[]uint16](l("7"))
	case 9:
		vref.Doc[[]uint32](l("7"))
	case 10:
		vref.Doc[[]uint64](l("7"))
	case 11:
		vref.Doc[[]float32](l("7"))
	case 12:
		vref.Doc[[]float64](l("7"))
	case 13:
		vref.Doc[[]string](l(`"s"`))
	case 14:
		vref.Doc[[]struct{}](l(`{}`))
	case 15:
		vref.Doc[[]val](l(`{"A":4}`))
	case 16:
		vref.Doc[map[string]string](vref.Cat(`{"a":`, e(`"x"`), `,"b":`, e(`"y"`), `}`))
	}
}

// HPrior: pointers that exist are decoded into.
func HPrior() {
	type s struct {
		P *val
		Q **int
		R int
	}
	vref.DocOpt[s](vref.Cat(`{"P":`, orNull(func() []byte { return vref.Cat(`{"`, vsym.ByteIn("AB"), `":null}`) }), `,"Q":`, orNull(num), `,"R":`, orNull(num), `}`),
		jd.DefaultOptions, func(v *s) {
			i := 5
			j := &i
			*v = s{&val{8, "old"}, &j, 4}
		})
}

// HAny2: any values at any depth of pointers.
func HAny2() {
	v := vref.Value(1)
	switch vsym.Choose(3) {
	case 0:
		vref.Doc[*struct {
			A *any
			B *int
		}](vref.Cat(`{"A":`, v, `,"B":2}`))
	case 1:
		vref.Doc[[]*any](vref.Cat(`[`, v, `,null,`, v, `]`))
	case 2:
		vref.Doc[map[string]*any](vref.Cat(`{"a":`, v, `,"b":1}`))
	}
}

// HZoo: nulls and pointers at every place of a type, which may be populated.
func HZoo() {
	null := []byte("null")
	switch vsym.Choose(9) {
	case 0:
		vref.InZoo(orNull(num), "1", func() *int { i := 7; return &i })
	case 1:
		vref.InZoo(orNull(num), "1", func() **string { s := "o"; p := &s; return &p })
	case 2:
		vref.InZoo(orNull(func() []byte { return vref.Cat(`{"A":`, num(), `}`) }), `{"B":"x"}`, func() *val { return &val{7, "o"} })
	case 3:
		vref.InZoo(null, `{"a":1}`, func() map[string]int { return map[string]int{"o": 1} })
	case 4:
		vref.InZoo(null, `[1]`, func() []int { return []int{7, 8} })
	case 5:
		vref.InZoo(null, `{"A":1}`, func() val { return val{7, "o"} })
	case 6:
		vref.InZoo(null, `1`, func() any { return "o" })
	case 7:
		vref.InZoo[int](null, `1`, nil)
	case 8:
		vref.InZoo[string](null, `"a"`, nil)
	}
}
