// Package c07: slices and arrays receive exactly the elements in order.
package c07

import (
	jd "github.com/romshark/jscan-experimental-decoder"
	"github.com/romshark/jscan-experimental-decoder/internal/vref"
	"github.com/romshark/jscan-experimental-decoder/internal/vsym"
)

// list is an array of n elements.
func list(n int, el func() []byte) []byte {
	b := []byte("[")
	for i := 0; i < n; i++ {
		if i > 0 {
			b = append(b, ',')
		}
		b = append(b, el()...)
	}
	return append(b, ']')
}

// seq decodes arrays of T into slices and arrays that were empty or populated.
func seq[T any](el func() []byte, mk func() T) {
	switch vsym.Choose(7) {
	case 0:
		vref.Doc[[]T](list(vsym.Choose(vsym.Pick(5, 7)), el))
	case 1:
		m := 1 + vsym.Choose(3)
		vref.DocOpt[[]T](list(vsym.Choose(vsym.Pick(4, 5)), el), jd.DefaultOptions, func(s *[]T) {
			*s = make([]T, m)
			for i := range *s {
				(*s)[i] = mk()
			}
		})
	case 2:
		c := vsym.Choose(4)
		vref.DocStr[[]T](list(vsym.Choose(4), el), jd.DefaultOptions, func(s *[]T) { *s = make([]T, 0, c) })
	case 3:
		vref.DocOpt[[3]T](list(vsym.Choose(vsym.Pick(5, 6)), el), jd.DefaultOptions, func(a *[3]T) { a[0], a[1], a[2] = mk(), mk(), mk() })
	case 4:
		vref.Doc[[][]T](vref.Cat("[", list(vsym.Choose(3), el), ",", list(vsym.Choose(3), el), ",[]]"))
	case 5:
		vref.DocOpt[[2][2]T](vref.Cat("[", list(vsym.Choose(4), el), ",", list(vsym.Choose(3), el), "]"), jd.DefaultOptions,
			func(a *[2][2]T) { a[0][1], a[1][1] = mk(), mk() })
	case 6:
		vref.Doc[struct {
			A []T
			B [1]T
			C int
		}](vref.Cat(`{"A":`, list(vsym.Choose(3), el), `,"B":`, list(vsym.Choose(3), el), `,"C":7}`))
	}
}

func num() []byte { return []byte{vref.Pos()} }
func str() []byte { return vref.Cat(`"`, vref.Plain(), `"`) }
func boolean() []byte {
	if vsym.Choose(2) == 1 {
		return []byte("true")
	}
	return []byte("false")
}

type point struct {
	X int
	Y string
}

func obj() []byte {
	switch vsym.Choose(3) {
	case 0:
		return []byte("{}")
	case 1:
		return vref.Cat(`{"Y":`, str(), `}`)
	}
	return vref.Cat(`{"X":`, num(), `}`)
}

func is[T any](v T) func() T { return func() T { return v } }

func ref() []byte {
	if vsym.Choose(2) == 1 {
		return []byte("null")
	}
	return num()
}

func HBool()    { seq[bool](boolean, is[bool](true)) }
func HInt()     { seq[int](num, is[int](77)) }
func HInt8()    { seq[int8](num, is[int8](77)) }
func HInt16()   { seq[int16](num, is[int16](77)) }
func HInt32()   { seq[int32](num, is[int32](77)) }
func HInt64()   { seq[int64](num, is[int64](77)) }
func HUint()    { seq[uint](num, is[uint](77)) }
func HUint8()   { seq[uint8](num, is[uint8](77)) }
func HUint16()  { seq[uint16](num, is[uint16](77)) }
func HUint32()  { seq[uint32](num, is[uint32](77)) }
func HUint64()  { seq[uint64](num, is[uint64](77)) }
func HFloat32() { seq[float32](num, is[float32](77)) }
func HFloat64() { seq[float64](num, is[float64](77)) }
func HString()  { seq[string](str, is[string]("old")) }
func HAny()     { seq[any](ref, is[any]("old")) }
func HStruct()  { seq[point](obj, is[point](point{77, "old"})) }
func HEmpty()   { seq[struct{}](func() []byte { return []byte("{}") }, is(struct{}{})) }
func HPtr()     { seq[*int](ref, func() *int { i := 77; return &i }) }
func HNumber()  { seq[jd.Number](num, is[jd.Number]("77")) }
func HArr()     { seq[[2]int8](func() []byte { return list(vsym.Choose(3), num) }, is([2]int8{7, 8})) }
func HSlice() {
	seq[[]int16](func() []byte { return list(vsym.Choose(3), num) }, func() []int16 { return []int16{7, 8} })
}
func HMap() {
	seq[map[string]int](func() []byte {
		if vsym.Choose(2) == 1 {
			return []byte("null")
		}
		return vref.Cat(`{`, vref.Key(), `:`, num(), `}`)
	}, func() map[string]int { return map[string]int{"z": 1} })
}

type b3 struct{ A, B, C bool }

func HB3() {
	seq[b3](func() []byte { return vref.Cat(`{"`, vsym.ByteIn("ABC"), `":true}`) }, is(b3{true, false, true}))
}

// HLong: many elements, so that the slice grows several times.
func HLong() {
	n := 4 + vsym.Choose(vsym.Pick(30, 70))
	switch vsym.Choose(6) {
	case 0:
		vref.Doc[[]int](list(n, num))
	case 1:
		vref.Doc[[]string](list(n, str))
	case 2:
		vref.Doc[[]point](list(n, func() []byte { return vref.Cat(`{"X":`, num(), `}`) }))
	case 3:
		vref.Doc[[][]uint8](list(n, func() []byte { return vref.Cat(`[`, num(), `,`, num(), `]`) }))
	case 4:
		vref.Doc[[]*int](list(n, num))
	case 5:
		vref.Doc[[20]int16](list(n, num))
	}
}

// HSurplus: what an array does not take may be anything.
func HSurplus() {
	v := vref.Value(vsym.Pick(1, 2))
	switch vsym.Choose(4) {
	case 0:
		vref.Doc[[1]int](vref.Cat("[", num(), ",", v, "]"))
	case 1:
		vref.Doc[struct {
			A [1]string
			B int
		}](vref.Cat(`{"A":[`, str(), `,`, v, `],"B":5}`))
	case 2:
		vref.Doc[[2][0]int](vref.Cat(`[[],[`, v, `],[1]]`))
	case 3:
		vref.Doc[[][1]*int](vref.Cat(`[[null,`, v, `],[1,`, v, `]]`))
	}
}

// HNull: null for slices and arrays at several places.
func HNull() {
	null := func(el func() []byte) []byte {
		if vsym.Choose(2) == 1 {
			return []byte("null")
		}
		return list(vsym.Choose(3), el)
	}
	switch vsym.Choose(4) {
	case 0:
		vref.DocOpt[[]int](null(num), jd.DefaultOptions, func(s *[]int) { *s = []int{4, 5} })
	case 1:
		vref.DocOpt[[2]string](null(str), jd.DefaultOptions, func(s *[2]string) { *s = [2]string{"x", "y"} })
	case 2:
		vref.DocOpt[[][]int](vref.Cat("[", null(num), ",", null(num), "]"), jd.DefaultOptions, func(s *[][]int) { *s = [][]int{{4, 5}, {6}} })
	case 3:
		vref.DocOpt[struct {
			A []string
			B []point
			C [2]int
		}](vref.Cat(`{"A":`, null(str), `,"B":`, null(obj), `,"C":`, null(num), `}`), jd.DefaultOptions, func(s *struct {
			A []string
			B []point
			C [2]int
		}) {
			s.A, s.B, s.C = []string{"o"}, []point{{1, "p"}}, [2]int{8, 9}
		})
	}
}

type unsized struct {
	E struct{}
	A [0]int
}

// HUnsized: elements without a size count too.
func HUnsized() {
	el := func() []byte {
		if vsym.Choose(2) == 1 {
			return []byte(`{"A":[1]}`)
		}
		return []byte("{}")
	}
	arr := func() []byte { return list(vsym.Choose(2), num) }
	n := vsym.Choose(4)
	switch vsym.Choose(6) {
	case 0:
		vref.Doc[[]unsized](list(n, el))
	case 1:
		vref.Doc[[][0]int](list(n, arr))
	case 2:
		vref.DocOpt[[]unsized](list(n, el), jd.DefaultOptions, func(s *[]unsized) { *s = make([]unsized, 2) })
	case 3:
		vref.DocOpt[[3][0]int](list(n, arr), jd.DefaultOptions, nil)
	case 4:
		vref.Doc[[]*unsized](list(n, el))
	case 5:
		vref.Doc[struct {
			A int
			B [][0]int
			C []unsized
			D int
		}](vref.Cat(`{"A":1,"B":`, list(n, arr), `,"C":`, list(n, el), `,"D":2}`))
	}
}

type tree struct {
	V uint16
	C []tree
}

type big struct {
	P [9000]int64
	V int
	S []int8
}

// HHuge: sizes beyond one and two bytes.
func HHuge() {
	x := func(n int, pre, post string) []byte {
		i := 0
		return list(n, func() []byte {
			i++
			if i == 1 || i == n {
				return vref.Cat(pre, num(), post)
			}
			return vref.Cat(pre, "5", post)
		})
	}
	n := []int{255, 256, 257, 300}[vsym.Choose(4)]
	switch vsym.Choose(15) {
	case 0:
		vref.Doc[[]tree](x(n, `{"V":`, `}`))
	case 1:
		vref.Doc[tree](vref.Cat(`{"C":`, x(n, `{"V":`, `}`), `,"V":3}`))
	case 2:
		vref.DocOpt[[]tree](x(n, `{"V":`, `}`), jd.DefaultOptions, func(s *[]tree) { *s = make([]tree, 200, 290) })
	case 3:
		vref.DocOpt[tree](vref.Cat(`{"C":`, x(n, `{"V":`, `}`), `,"V":3}`), jd.DefaultOptions, func(s *tree) { s.C = make([]tree, 40, 258) })
	case 4:
		vref.Doc[[]struct{}](list(n, func() []byte { return []byte("{}") }))
	case 5:
		vref.Doc[[][0]int](list(n, func() []byte { return []byte("[]") }))
	case 6:
		vref.DocOpt[[400]int16](x(n, "", ""), jd.DefaultOptions, func(s *[400]int16) {
			for i := range s {
				s[i] = 7
			}
		})
	case 7:
		vref.DocOpt[[256]point](x(n, `{"X":`, `}`), jd.DefaultOptions, nil)
	case 8:
		vref.Doc[[]uint8](x(n, "", ""))
	case 9:
		vref.Doc[[]string](x(n, `"`, `"`))
	case 10:
		vref.Doc[[]any](x(n, "", ""))
	case 11:
		vref.Doc[[][]int](x(n, "[", "]"))
	case 12:
		vref.Doc[[]*int](x(n, "", ""))
	case 13:
		vref.DocOpt[big](vref.Cat(`{"V":`, num(), `,"S":[1,`, num(), `]}`), jd.DefaultOptions, nil)
	case 14:
		vref.DocOpt[big](vref.Cat(`{"P":`, x(n, "", ""), `,"V":4}`), jd.DefaultOptions, nil)
	}
}

// HZoo: slices and arrays at every place of a type, which may be populated.
func HZoo() {
	n := vsym.Choose(4)
	switch vsym.Choose(4) {
	case 0:
		vref.InZoo(list(n, num), "[1,2]", func() []int16 { return []int16{77, 78} })
	case 1:
		vref.InZoo(list(n, str), `["a"]`, func() [2]string { return [2]string{"old", "o"} })
	case 2:
		vref.InZoo(list(n, obj), `[{"X":1},{"Y":"a"}]`, func() []point { return []point{{77, "old"}, {78, "o"}} })
	case 3:
		vref.InZoo(list(n, func() []byte { return vref.Cat(`{"V":`, num(), `}`) }), `[{"V":1},{"C":[{}]}]`, func() []tree {
			return []tree{{V: 77, C: []tree{{V: 1}, {V: 2}}}, {V: 78}}
		})
	}
}

// HTrees: populated slices of recursive types.
func HTrees() {
	mk := func(t *tree) {
		*t = tree{V: 77, C: []tree{{V: 1, C: []tree{{V: 4}, {V: 5}}}, {V: 2}, {V: 3}}[:3:3]}
	}
	t := func() []byte {
		switch vsym.Choose(3) {
		case 0:
			return vref.Cat(`{"V":`, num(), `}`)
		case 1:
			return []byte(`{"C":[]}`)
		}
		return vref.Cat(`{"C":[{"V":`, num(), `}]}`)
	}
	switch vsym.Choose(2) {
	case 0:
		vref.DocOpt[tree](vref.Cat(`{"C":`, list(vsym.Choose(vsym.Pick(5, 6)), t), `,"V":`, num(), `}`), jd.DefaultOptions, mk)
	case 1:
		vref.DocOpt[[]tree](list(vsym.Choose(vsym.Pick(4, 5)), t), jd.DefaultOptions, func(s *[]tree) {
			*s = make([]tree, 2)
			mk(&(*s)[0])
		})
	}
}

// HAll: an element that differs from the others, anywhere in a slice of any kind.
func HAll() {
	k := vsym.Choose(vref.AllKinds)
	if vsym.Choose(2) == 0 {
		vref.AllList(k, 20, []byte("null"))
	} else {
		vref.AllList(k, 20, vref.AllAlt(k))
	}
}
