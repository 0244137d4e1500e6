// Package c24: a failed decoding stores what precedes the error and nothing else.
package c24

import (
	"errors"

	jd "github.com/romshark/jscan-experimental-decoder"
	"github.com/romshark/jscan-experimental-decoder/internal/vref"
	"github.com/romshark/jscan-experimental-decoder/internal/vsym"
)

var errUnm = errors.New("unm")

type unm struct{ S string }

func (u *unm) UnmarshalJSON(b []byte) error {
	if b[0] == '{' || b[0] == 't' {
		return errUnm
	}
	u.S = string(b)
	return nil
}

type point struct {
	X int
	Y string
}

func stop[E any](v []byte, w string, mk func() E) {
	i := vsym.Choose(vref.ZooPlaces)
	d := vref.ZooDoc(i, v, []byte(w), []byte{vref.Pos()})
	var prior func(*vref.Zoo[E])
	if mk != nil && vsym.Choose(2) == 1 {
		prior = func(z *vref.Zoo[E]) { z.Fill(mk, true) }
	}
	vref.Stop(d, jd.DefaultOptions, prior)
}

func HInt()    { stop(vref.Small(), "1", func() int { return 77 }) }
func HUint8()  { stop(vref.Int(3), "1", func() uint8 { return 77 }) }
func HFloat()  { stop(vref.Small(), "1", func() float32 { return 77 }) }
func HBool()   { stop(vref.Small(), "true", func() bool { return true }) }
func HString() { stop(vref.Small(), `"w"`, func() string { return "old" }) }
func HNumber() { stop(vref.Small(), `"1"`, func() jd.Number { return "77" }) }
func HStruct() {
	v := vref.Cat(`{"X":`, vref.Small(), `,"Y":"`, vref.Pos(), `"}`)
	if vsym.Choose(vsym.Pick(1, 2)) == 1 {
		v = vref.Cat(`{"X":`, vref.Pos(), `,"Y":`, vref.Small(), `}`)
	}
	stop(v, `{"X":1}`, func() point { return point{7, "o"} })
}
func HPtr() { stop(vref.Small(), `1`, func() *int8 { i := int8(7); return &i }) }
func HUnm() { stop(vref.Small(), `1`, func() unm { return unm{"o"} }) }

type slices struct {
	A []bool
	B []int
	C []int8
	D []int16
	E []int32
	F []int64
	G []uint
	H []uint8
	I []uint16
	J []uint32
	K []uint64
	L []float32
	M []float64
	N []string
	O []jd.Number
	P []any
	Q []point
	R []*point
	S [][]int8
	T [][2]string
	U []map[string]int
	V []struct{}
	W []slices
	X []unm
}

func el[T any](n int, v T) []T {
	s := make([]T, n, n+1)
	for i := range s {
		s[i] = v
	}
	return s
}

// HSlices: slices of every kind, with and without elements.
func HSlices() {
	v := vref.Small()
	m := vsym.ByteIn("ABCDEFGHIJKLMNOPQRSTUVWX")
	w := "1"
	switch m {
	case 'A':
		w = "true"
	case 'N':
		w = `"w"`
	case 'Q', 'R', 'V', 'W', 'U':
		w = "{}"
	case 'S', 'T':
		w = "[]"
	}
	var d []byte
	switch vsym.Choose(3) {
	case 0:
		d = vref.Cat(`{"`, m, `":[`, v, `,`, w, `],"B":[5]}`)
	case 1:
		d = vref.Cat(`{"`, m, `":[`, w, `,`, w, `,`, v, `,`, w, `],"B":[5]}`)
	case 2:
		d = vref.Cat(`{"B":[5,6],"`, m, `":[`, w, `,`, w, `,`, w, `,`, w, `,`, v, `]}`)
	}
	var prior func(*slices)
	if n := vsym.Choose(3); n > 0 {
		i := 7
		_ = i
		prior = func(s *slices) {
			*s = slices{el(n, true), el(n, 7), el(n, int8(7)), el(n, int16(7)), el(n, int32(7)), el(n, int64(7)), el(n, uint(7)), el(n, uint8(7)), el(n, uint16(7)),
				el(n, uint32(7)), el(n, uint64(7)), el(n, float32(7)), el(n, 7.0), el(n, "o"), el(n, jd.Number("7")), el(n, any("o")), el(n, point{7, "o"}),
				el(n, &point{7, "p"}), el(n, []int8{7}), el(n, [2]string{"o", "p"}), el(n, map[string]int{"o": 7}), el(n, struct{}{}), el(n, slices{B: []int{7}}), el(n, unm{"o"})}
		}
	}
	vref.Stop(d, jd.DefaultOptions, prior)
}

type maps struct {
	A map[string]int
	B map[string]string
	C map[int8]bool
	D map[string]point
	E map[string]*point
	F map[uint16][]int
	G map[string]map[string]string
	H map[string][2]int
	I map[string]unm
	J int
}

// HMaps: entries and keys that do not fit.
func HMaps() {
	m := vsym.ByteIn("ABCDEFGHI")
	w := "1"
	switch m {
	case 'B':
		w = `"w"`
	case 'C':
		w = "true"
	case 'D', 'E', 'G':
		w = "{}"
	case 'F', 'H':
		w = "[]"
	}
	var d []byte
	switch vsym.Choose(4) {
	case 0:
		d = vref.Cat(`{"`, m, `":{"`, vref.Pos(), `":`, vref.Small(), `},"J":5}`)
	case 1:
		d = vref.Cat(`{"J":5,"`, m, `":{"1":`, w, `,"`, vsym.ByteIn("12"), `":`, vref.Small(), `,"3":`, w, `}}`)
	case 2:
		d = vref.Cat(`{"J":5,"`, m, `":{"1":`, w, `,"`, vsym.Bytes(1), `":`, w, `}}`)
	case 3:
		d = vref.Cat(`{"D":{"1":{"X":3},"2":{"Y":"a","X":`, vref.Small(), `}},"J":3}`)
	}
	var prior func(*maps)
	if vsym.Choose(2) == 1 {
		prior = func(v *maps) {
			*v = maps{map[string]int{"2": 7, "z": 8}, map[string]string{"2": "o", "z": "z"}, map[int8]bool{2: true, 99: true}, map[string]point{"2": {7, "o"}, "z": {8, "z"}},
				map[string]*point{"2": {7, "o"}, "z": nil}, map[uint16][]int{2: {7}, 99: {8}}, map[string]map[string]string{"2": {"o": "o"}, "z": nil}, map[string][2]int{"2": {7, 8}, "z": {9}},
				map[string]unm{"2": {"o"}, "z": {"z"}}, 77}
		}
	}
	vref.Stop(d, jd.DefaultOptions, prior)
}

type tagged struct {
	A int     `json:",string"`
	B string  `json:",string"`
	C float64 `json:",string"`
	D bool    `json:",string"`
	E [3]int8
	F [2]point
	G struct {
		H point
		I *tagged
		J int
	}
	K any
}

// HStruct2: members with the option, arrays and nested structs.
func HStruct2() {
	v := vref.Small()
	if vsym.Choose(2) == 1 {
		v = vref.Cat(`"`, vref.Pos(), `"`)
	}
	var d []byte
	switch vsym.Choose(5) {
	case 0:
		d = vref.Cat(`{"A":"5","`, vsym.ByteIn("ABCDEFGKx"), `":`, v, `,"D":"true"}`)
	case 1:
		d = vref.Cat(`{"E":[1,`, v, `,3],"D":"true"}`)
	case 2:
		d = vref.Cat(`{"F":[{"X":1},{"Y":`, v, `}],"D":"true"}`)
	case 3:
		d = vref.Cat(`{"G":{"J":1,"H":{"X":`, v, `,"Y":"a"},"I":{"A":"1"}},"D":"true"}`)
	case 4:
		d = vref.Cat(`{"G":{"J":1,"I":{"A":`, v, `,"C":"1"},"H":{"X":1}},"D":"true"}`)
	}
	var prior func(*tagged)
	if vsym.Choose(2) == 1 {
		prior = func(t *tagged) {
			*t = tagged{A: 7, B: "o", C: 7.5, D: false, E: [3]int8{7, 8, 9}, F: [2]point{{7, "o"}, {8, "p"}}, K: "k"}
			t.G.H, t.G.I, t.G.J = point{9, "q"}, &tagged{A: 6, B: "i"}, 10
		}
	}
	vref.Stop(d, jd.DefaultOptions, prior)
}

// HUnknown: unknown members that are not allowed.
func HUnknown() {
	o := &jd.DecodeOptions{DisallowUnknownFields: true}
	i := vsym.Choose(vref.ZooPlaces)
	d := vref.ZooDoc(i, vref.Cat(`{"X":`, vref.Pos(), `,"`, vsym.ByteIn("yz"), `":"w","Y":"v"}`), []byte(`{"X":5}`), []byte{vref.Pos()})
	var prior func(*vref.Zoo[point])
	if vsym.Choose(2) == 1 {
		prior = func(z *vref.Zoo[point]) { z.Fill(func() point { return point{7, "o"} }, true) }
	}
	vref.Stop(d, o, prior)
}

// HRoot: other documents.
func HRoot() {
	v := vref.Small()
	switch vsym.Choose(9) {
	case 0:
		vref.Stop(v, jd.DefaultOptions, func(x *int) { *x = 7 })
	case 1:
		vref.Stop(vref.Cat(`["a",`, v, `]`), jd.DefaultOptions, func(x *[]string) { *x = []string{"x", "y", "z"} })
	case 2:
		vref.Stop(vref.Cat(`[{"a":"b"},{"a":"c","b":`, v, `}]`), jd.DefaultOptions, func(x *[2]map[string]string) { x[1] = map[string]string{"a": "o", "z": "z"} })
	case 3:
		vref.Stop(vref.Cat(`{"a":1,"b":`, v, `}`), jd.DefaultOptions, func(x *map[string]uint8) { *x = map[string]uint8{"b": 7, "z": 8} })
	case 4:
		vref.Stop[***int](v, jd.DefaultOptions, nil)
	case 5:
		vref.Stop(v, jd.DefaultOptions, func(x **point) { *x = &point{7, "o"} })
	case 6:
		vref.Stop(vref.Cat(`[[1],[2,`, v, `],[3]]`), jd.DefaultOptions, func(x *[][]int) { *x = [][]int{{7}, {8, 9}} })
	case 7:
		vref.Stop(vref.Cat(`{"X":1,"Y":"a"`, vsym.Bytes(1)), jd.DefaultOptions, func(x *point) { *x = point{7, "o"} })
	case 8:
		vref.Stop(vref.Cat(`[1,2`, vsym.Bytes(1), `3]`), jd.DefaultOptions, func(x *[]int) { *x = []int{7, 8, 9} })
	}
}

// text is a TextUnmarshaler that refuses some texts.
type text struct{ s string }

func (t *text) UnmarshalText(b []byte) error {
	if len(b) == 0 || b[0] >= '5' {
		t.s = "garbage"
		return errUnm
	}
	t.s = string(b)
	return nil
}

type nums struct {
	A int8
	B int16
	C int32
	D int64
	E int
	F uint8
	G uint16
	H uint32
	I uint64
	J uint
	K float32
	L float64
	M bool
	N string
	O jd.Number
	P text
}

type quoted struct {
	A int8    `json:",string"`
	B int16   `json:",string"`
	C int32   `json:",string"`
	D int64   `json:",string"`
	E int     `json:",string"`
	F uint8   `json:",string"`
	G uint16  `json:",string"`
	H uint32  `json:",string"`
	I uint64  `json:",string"`
	J uint    `json:",string"`
	K float32 `json:",string"`
	L float64 `json:",string"`
	M bool    `json:",string"`
	N string  `json:",string"`
}

// digits of the largest values of the integer types of nums, in the order of its fields.
var digits = [10]int{3, 5, 10, 19, 19, 3, 5, 10, 20, 20}

// lit is a literal for field i that may or may not fit.
func lit(i int) []byte {
	if i < 10 {
		return vref.IntN(digits[i]+vsym.Choose(2), i < 5 && vsym.Choose(2) == 1)
	}
	if vsym.Choose(2) == 1 {
		return vref.Cat(vsym.ByteIn("12"), "e", vsym.ByteIn("23"), vref.Pos(), vref.Pos())
	}
	return vref.Small()
}

const letters = "ABCDEFGHIJKLMNOP"

// HNums: literals of the length of the largest value for every type of number, in a field.
func HNums() {
	i := vsym.Choose(16)
	d := vref.Cat(`{"D":5,"`, letters[i], `":`, lit(i), `,"E":6}`)
	var prior func(*nums)
	if vsym.Choose(vsym.Pick(1, 2)) == 0 {
		prior = func(n *nums) {
			*n = nums{70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, true, "o", "82", text{"p"}}
		}
	}
	vref.Stop(d, jd.DefaultOptions, prior)
}

// HQuoted: the same with the option.
func HQuoted() {
	i := vsym.Choose(14)
	v := lit(i)
	if i == 13 {
		v = vref.Cat(`\"`, vsym.ByteIn(`a\`), `\`, vsym.ByteIn(`"n`))
	}
	d := vref.Cat(`{"D":"5","`, letters[i], `":"`, v, `","E":"6"}`)
	if i >= 10 && v[0] == '"' {
		d = vref.Cat(`{"D":"5","`, letters[i], `":`, v, `,"E":"6"}`)
	}
	vref.Stop(d, jd.DefaultOptions, func(n *quoted) {
		*n = quoted{70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, true, "o"}
	})
}

type keyed struct {
	A map[int8]int
	B map[int16]int
	C map[int32]int
	D map[int64]int
	E map[int]int
	F map[uint8]int
	G map[uint16]int
	H map[uint32]int
	I map[uint64]int
	J map[uint]int
	K map[text]int
	L map[string]text
	M map[text]keyed
	N map[text]string
	O map[string]string
}

// HKeys: keys that do not fit, for every type of keys.
func HKeys() {
	i := vsym.Choose(15)
	var k []byte
	switch {
	case i < 10:
		k = vref.IntN(digits[i]+vsym.Choose(2), i < 5 && vsym.Choose(2) == 1)
	default:
		k = vref.Cat(vref.Digit())
	}
	w, x := "1", vref.Cat(vref.Pos())
	switch letters[i] {
	case 'L', 'N':
		w, x = `"1"`, vref.Cat(`"`, vref.Pos(), `"`)
	case 'M':
		w, x = `{}`, vref.Cat(`{"A":{"2":`, vsym.ByteIn("5"), vref.Digit(), vref.Digit(), `}}`)
		if vsym.Choose(2) == 1 {
			x = vref.Cat(`{"K":{"`, vref.Pos(), `":4}}`)
		}
	case 'O':
		w, x = `"1"`, vref.Small()
	}
	d := vref.Cat(`{"`, letters[i], `":{"3":`, w, `,"`, k, `":`, x, `,"4":`, w, `},"E":{"7":6}}`)
	var prior func(*keyed)
	if vsym.Choose(vsym.Pick(1, 2)) == 0 {
		prior = func(n *keyed) {
			*n = keyed{A: map[int8]int{4: 77, 9: 78}, F: map[uint8]int{4: 77, 9: 78}, I: map[uint64]int{4: 77, 9: 78}, K: map[text]int{{"2"}: 7, {"9"}: 8}, L: map[string]text{"2": {"o"}},
				M: map[text]keyed{{"2"}: {A: map[int8]int{1: 1}}}, N: map[text]string{{"1"}: "o"}, O: map[string]string{"2": "o", "9": "p"}}
		}
	}
	vref.Stop(d, jd.DefaultOptions, prior)
}

// HAll: what does not fit at every place of every kind of a type, which may be
// populated.
func HAll() {
	k := vsym.Choose(vref.AllKinds)
	switch k / 8 {
	case 0:
		inAll[vref.All0, *vref.All0](k)
	case 1:
		inAll[vref.All1, *vref.All1](k)
	case 2:
		inAll[vref.All2, *vref.All2](k)
	case 3:
		inAll[vref.All3, *vref.All3](k)
	}
}

func inAll[T any, P vref.AllOf[T]](k int) {
	p := vref.AllPlace(k)
	v := vref.Odd()
	if (k+p+len(v))%2 == 0 && vsym.Pick(0, 1) == 0 {
		vref.Stop[T](vref.AllDoc(k, p, v), jd.DefaultOptions, nil)
		return
	}
	if v[0] == 'n' && (p == vref.PSlice || p == vref.PNested) && vref.Basic(k) {
		return
	}
	vref.Stop(vref.AllDoc(k, p, v), jd.DefaultOptions, func(x *T) { P(x).Fill(k, 0) })
}
