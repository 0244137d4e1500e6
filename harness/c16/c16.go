// Package c16: all entry points and input kinds agree.
package c16

import (
	jd "github.com/romshark/jscan-experimental-decoder"
	"github.com/romshark/jscan-experimental-decoder/internal/vref"
	"github.com/romshark/jscan-experimental-decoder/internal/vsym"
)

// same decodes doc in every way and compares.
func same[T any](doc []byte, prior func(*T)) {
	var b, s, u, us T
	if prior != nil {
		prior(&b)
		prior(&s)
		prior(&u)
		prior(&us)
	}
	bi, be := vref.Dec[[]byte, T]().Decode(doc, &b, jd.DefaultOptions)
	si, se := vref.Dec[string, T]().Decode(string(doc), &s, jd.DefaultOptions)
	ue := jd.Unmarshal(doc, &u)
	use := jd.Unmarshal(string(doc), &us)
	vsym.ObserveBool(be == nil)
	vsym.Assert((be == nil) == (se == nil), "string and []byte input differ in whether there is an error")
	vsym.Assert((be == nil) == (ue == nil), "Unmarshal and Decode differ in whether there is an error")
	vsym.Assert((se == nil) == (use == nil), "Unmarshal and Decode differ in whether there is an error")
	vsym.Assert(bi == si, "string and []byte input differ in the error index")
	if be == nil {
		vsym.Reach("decoded")
	} else {
		vsym.Reach("rejected")
	}
	// what a failure leaves behind is the same as well
	vsym.Assert(vsym.DeepEq(&b, &s), "string and []byte input give different values")
	vsym.Assert(vsym.DeepEq(&b, &u), "Unmarshal and Decode give different values")
	vsym.Assert(vsym.DeepEq(&b, &us), "Unmarshal and Decode give different values")
}

type obj struct {
	A int
	B []string
	C map[string]any
	D *obj
	E any
	F []obj
}

func HAny()    { same[any](vref.Value(vsym.Pick(1, 2)), nil) }
func HObj()    { same[obj](vref.Value(1), nil) }
func HString() { same[string](vref.Cat(`"`, vsym.Bytes(3), `"`), nil) }
func HBytes()  { same[any](vsym.Bytes(vsym.Pick(3, 4)), nil) }

func HMember() {
	v := vref.Value(vsym.Pick(1, 2))
	same[obj](vref.Cat(`{"`, vsym.ByteIn("ABCDEFx"), `":`, v, `,"A":1}`), nil)
}

func HPrior() {
	v := vref.Value(1)
	same(vref.Cat(`{"`, vsym.ByteIn("ABCDEF"), `":`, v, `}`), func(o *obj) {
		*o = obj{1, []string{"b"}, map[string]any{"a": 1.0}, &obj{A: 2}, "e", []obj{{A: 3}}}
	})
}

func all[T any]() {
	v := vref.Value(1)
	switch vsym.Choose(3) {
	case 0:
		same[T](v, nil)
	case 1:
		same[[]T](vref.Cat("[", v, "]"), nil)
	case 2:
		same[map[string]T](vref.Cat(`{"k":`, v, "}"), nil)
	}
}

func HInt()     { all[int]() }
func HInt8()    { all[int8]() }
func HUint()    { all[uint]() }
func HUint16()  { all[uint16]() }
func HUint64()  { all[uint64]() }
func HFloat32() { all[float32]() }
func HFloat64() { all[float64]() }
func HBool()    { all[bool]() }
func HStr()     { all[string]() }
func HNumber()  { all[jd.Number]() }

func HInts() {
	n := vref.Int(vsym.Pick(5, 21))
	switch vsym.Choose(6) {
	case 0:
		same[int](n, nil)
	case 1:
		same[uint8](n, nil)
	case 2:
		same[map[int8]int16](vref.Cat(`{"`, n, `":`, n, `}`), nil)
	case 3:
		same[float32](n, nil)
	case 4:
		same[[]uint](vref.Cat("[", n, "]"), nil)
	case 5:
		same[struct {
			A int16 `json:",string"`
		}](vref.Cat(`{"A":"`, n, `"}`), nil)
	}
}

// spaced decodes the tokens with and without whitespace between them.
func spaced[T any](toks ...any) {
	var tight, loose []byte
	at := vsym.Choose(len(toks) + 1)
	ws := func() []byte { return vsym.BytesIn(1+vsym.Choose(vsym.Pick(2, 3)), " \t\r\n") }
	for i, t := range toks {
		tight = vref.Cat(tight, t)
		if i == at {
			loose = vref.Cat(loose, ws())
		} else {
			loose = vref.Cat(loose, " ")
		}
		loose = vref.Cat(loose, t)
	}
	loose = vref.Cat(loose, ws())
	var a, b T
	_, ea := vref.Dec[[]byte, T]().Decode(tight, &a, jd.DefaultOptions)
	_, eb := vref.Dec[[]byte, T]().Decode(loose, &b, jd.DefaultOptions)
	vsym.Assert((ea == nil) == (eb == nil), "whitespace decides whether there is an error")
	if ea == nil {
		vsym.Assert(vsym.DeepEq(&a, &b), "whitespace changes the value")
	}
}

func leaf() []byte { return vref.Small() }

func HSpace() {
	x := leaf()
	switch vsym.Choose(12) {
	case 0:
		spaced[any](x)
	case 1:
		spaced[any]("[", x, ",", "1", "]")
	case 2:
		spaced[any]("{", `"a"`, ":", x, ",", `"b"`, ":", "{", "}", "}")
	case 3:
		spaced[obj]("{", `"A"`, ":", "1", ",", `"u"`, ":", x, ",", `"B"`, ":", "[", `"s"`, "]", "}")
	case 4:
		spaced[obj]("{", `"D"`, ":", "{", `"A"`, ":", x, "}", ",", `"F"`, ":", "[", "{", "}", "]", "}")
	case 5:
		spaced[[]int]("[", "1", ",", x, "]")
	case 6:
		spaced[[]string]("[", `"a"`, ",", x, "]")
	case 7:
		spaced[map[string]string]("{", `"a"`, ":", x, ",", `"b"`, ":", `"c"`, "}")
	case 8:
		spaced[map[int]bool]("{", `"1"`, ":", x, "}")
	case 9:
		spaced[[2][]float64]("[", "[", "1.5", "]", ",", "[", x, "]", "]")
	case 10:
		spaced[[]struct{}]("[", "{", "}", ",", x, "]")
	case 11:
		spaced[*[]*int]("[", x, ",", "null", ",", "3", "]")
	}
}

// HSpaceAll: whitespace around and inside values of every type.
func HSpaceAll() {
	switch vsym.Choose(25) {
	case 0:
		spaceOf[int](vref.Int(2))
	case 1:
		spaceOf[int8](vref.Int(3))
	case 2:
		spaceOf[int16](vref.Int(2))
	case 3:
		spaceOf[int32](vref.Int(2))
	case 4:
		spaceOf[int64](vref.Int(2))
	case 5:
		spaceOf[uint](vref.Int(2))
	case 6:
		spaceOf[uint8](vref.Int(3))
	case 7:
		spaceOf[uint16](vref.Int(2))
	case 8:
		spaceOf[uint32](vref.Int(2))
	case 9:
		spaceOf[uint64](vref.Int(2))
	case 10:
		spaceOf[float32](floats())
	case 11:
		spaceOf[float64](floats())
	case 12:
		spaceOf[bool]([]byte("true"))
	case 13:
		spaceOf[string](vref.Cat(`"`, vref.Plain(), `\`, vsym.ByteIn("nt/"), `"`))
	case 14:
		spaceOf[string]([]byte(`""`))
	case 15:
		spaceOf[jd.Number](floats())
	case 16:
		spaceOf[jd.Number](vref.Cat(`"`, floats(), `"`))
	case 17:
		spaceOf[any](floats())
	case 18:
		spaceOf[any](vref.Cat(`"`, vref.Plain(), `"`))
	case 19:
		spaceOf[[]int]([]byte("[]"))
	case 20:
		spaceOf[map[string]int]([]byte("{}"))
	case 21:
		spaceOf[obj]([]byte("{}"))
	case 22:
		spaceOf[struct{}]([]byte(`{"a":1}`))
	case 23:
		spaceOf[[2]int]([]byte("[1,2,3]"))
	case 24:
		spaceOf[*int]([]byte("null"))
	}
}

// floats are the forms of number literals.
func floats() []byte {
	switch vsym.Choose(4) {
	case 0:
		return vref.Cat(vref.Pos(), ".", vref.Digit(), "5")
	case 1:
		return vref.Cat("-", vref.Pos(), "e", vref.Pos())
	case 2:
		return vref.Cat("-0.", vref.Digit(), vref.Digit(), "1")
	}
	return vref.Cat(vref.Pos(), vref.Digit(), vref.Digit(), vref.Digit(), vref.Digit())
}

func spaceOf[T any](x []byte) { spaced[T](x) }

// HSpaceEvery: the same in the middle of a document.
func HSpaceEvery() {
	i := vsym.Choose(26)
	var x []byte
	switch {
	case i < 10:
		x = vref.Int(2)
	case i < 13:
		x = floats()
	default:
		x = []byte([]string{`true`, `""`, `"\n"`, `"1.5"`, `1.5e2`, `null`, `"x"`, `[]`, `{}`, `{}`, `{"a":1}`, `[1,2,3]`, `null`}[i-13])
	}
	k := vref.Cat(`"`, "ABCDEFGHIJKLMNOPQRSTUVWXYZ"[i], `"`)
	switch vsym.Choose(3) {
	case 0:
		spaced[every]("{", k, ":", x, ",", k, ":", x, "}")
	case 1:
		spaced[every]("{", `"a1"`, ":", "{", k, ":", x, "}", "}")
	case 2:
		spaced[every]("{", `"a2"`, ":", "[", "{", k, ":", x, "}", ",", "{", "}", "]", ",", k, ":", x, "}")
	}
}

type every struct {
	A  int
	B  int8
	C  int16
	D  int32
	E  int64
	F  uint
	G  uint8
	H  uint16
	I  uint32
	J  uint64
	K  float32
	L  float64
	M  jd.Number
	N  bool
	O  string
	P  string
	Q  jd.Number
	R  float32
	S  any
	T  []byte
	U  []int
	V  map[string]int
	W  obj
	X  struct{}
	Y  [2]int
	Z  *int
	A1 *every
	A2 []every
}

// HNil: a nil destination.
func HNil() {
	doc := vref.Small()
	var i *int
	var o *obj
	var a *any
	_, e1 := vref.Dec[[]byte, int]().Decode(doc, i, jd.DefaultOptions)
	_, e2 := vref.Dec[string, obj]().Decode(string(doc), o, jd.DefaultOptions)
	_, e3 := vref.Dec[[]byte, any]().Decode(doc, a, jd.DefaultOptions)
	e4 := jd.Unmarshal(doc, i)
	e5 := jd.Unmarshal(string(doc), o)
	e6 := jd.Unmarshal(vsym.Bytes(2), a)
	for _, e := range []error{e1, e2, e3, e4, e5, e6} {
		vsym.Assert(e == jd.ErrNilDest, "no ErrNilDest for a nil destination")
	}
}

// HZoo: a value at every place of a type, which may be populated, with and without whitespace.
func HZoo() {
	i := vsym.Choose(vref.ZooPlaces)
	v := vref.Small()
	switch vsym.Choose(3) {
	case 0:
		same[vref.Zoo[int8]](vref.ZooDoc(i, v, []byte(" 1 "), []byte("2")), nil)
	case 1:
		same(vref.ZooDoc(i, v, []byte(`"w"`), []byte(" 2")), func(z *vref.Zoo[string]) { z.Fill(func() string { return "old" }, true) })
	case 2:
		same(vref.ZooDoc(i, v, []byte("\n{\t}"), []byte("2\r")), func(z *vref.Zoo[any]) { z.Fill(func() any { return "old" }, false) })
	}
}

// HRoots: a document for a populated destination of every kind.
func HRoots() {
	v := vref.Small()
	switch vsym.Choose(20) {
	case 0:
		same(v, func(x *int) { *x = 7 })
	case 1:
		same(v, func(x *string) { *x = "o" })
	case 2:
		same(v, func(x *bool) { *x = true })
	case 3:
		same(v, func(x *float64) { *x = 7 })
	case 4:
		same(v, func(x *uint8) { *x = 7 })
	case 5:
		same(v, func(x *jd.Number) { *x = "7" })
	case 6:
		same(v, func(x *any) { *x = "o" })
	case 7:
		same(v, func(x **int) { n := 7; *x = &n })
	case 8:
		same(v, func(x *[]string) { *x = []string{"o"} })
	case 9:
		same(v, func(x *[2]int) { *x = [2]int{7, 8} })
	case 10:
		same(v, func(x *map[string]string) { *x = map[string]string{"o": "p"} })
	case 11:
		same(v, func(x *map[int]bool) { *x = map[int]bool{7: true} })
	case 12:
		same(v, func(x *obj) { x.A, x.E = 7, "o" })
	case 13:
		same(v, func(x **obj) { *x = &obj{A: 7} })
	case 14:
		same(v, func(x *[]obj) { *x = []obj{{A: 7}} })
	case 15:
		same(v, func(x *[][]int8) { *x = [][]int8{{7}} })
	case 16:
		same(v, func(x *struct{}) {})
	case 17:
		same(v, func(x *float32) { *x = 7 })
	case 18:
		same(v, func(x *[]byte) { *x = []byte{7} })
	case 19:
		same(v, func(x *[0]int) {})
	}
}

// HAll: at every place of every kind of a type, which may be populated.
func HAll() {
	k := vsym.Choose(vref.AllKinds)
	switch k / 8 {
	case 0:
		inAll[vref.All0, *vref.All0](k)
	case 1:
		inAll[vref.All1, *vref.All1](k)
	case 2:
		inAll[vref.All2, *vref.All2](k)
	case 3:
		inAll[vref.All3, *vref.All3](k)
	}
}

func inAll[T any, P vref.AllOf[T]](k int) {
	p := vref.AllPlace(k)
	var v []byte
	if vsym.Pick(0, 1) == 0 {
		v = vref.Small()
	} else {
		v = vref.Odd()
	}
	d := vref.AllDoc(k, p, v)
	if (k+p+len(d))%2 == 0 {
		same[T](d, nil)
		return
	}
	same(d, func(x *T) { P(x).Fill(k, 0) })
}
