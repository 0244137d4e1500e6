// Package c10: maps get exactly the document's keys and values.
package c10

import (
	"errors"

	jd "github.com/romshark/jscan-experimental-decoder"
	"github.com/romshark/jscan-experimental-decoder/internal/vref"
	"github.com/romshark/jscan-experimental-decoder/internal/vsym"
)

type name string

// text is a key that is a TextUnmarshaler.
type text struct{ A, B byte }

var errText = errors.New("text")

func (t *text) UnmarshalText(b []byte) error {
	if len(b) != 2 {
		return errText
	}
	t.A, t.B = b[0], b[1]
	return nil
}

// strText is a string kind that is a TextUnmarshaler.
type strText string

func (t *strText) UnmarshalText(b []byte) error {
	*t = strText("<" + string(b) + ">")
	return nil
}

// skey is a string key.
func skey() []byte {
	switch vsym.Choose(4) {
	case 0:
		return vref.Cat(`"`, vsym.ByteIn("ab"), `"`)
	case 1:
		return vref.Cat(`"\u006`, vsym.ByteIn("1234"), `"`)
	case 2:
		return vref.Cat(`"`, vref.Plain(), `\`, vsym.ByteIn(`"\/bfnrt`), `"`)
	}
	return []byte(`""`)
}

func vals[K comparable](key func() []byte) {
	k1, k2 := key(), key()
	two := func(a, b []byte) []byte { return vref.Cat("{", k1, ":", a, ",", k2, ":", b, "}") }
	switch vsym.Choose(8) {
	case 0:
		vref.Doc[map[K]int](two(vref.IntN(1, false), vref.IntN(1, true)))
	case 1:
		vref.Doc[map[K]string](two(vref.Cat(`"`, vref.Plain(), `"`), []byte(`"x"`)))
	case 2:
		vref.DocStr[map[K]bool](two([]byte("true"), []byte("false")), jd.DefaultOptions, nil)
	case 3:
		vref.Doc[map[K]struct{ A, B int }](two([]byte(`{"A":1,"B":2}`), []byte(`{"B":3}`)))
	case 4:
		vref.Doc[map[K][]int](two([]byte(`[1,2,3]`), []byte(`[4]`)))
	case 5:
		vref.Doc[map[K]*int](two([]byte(`1`), []byte(`null`)))
	case 6:
		vref.Doc[map[K]map[string]int](two([]byte(`{"a":1,"b":2}`), []byte(`{"c":3}`)))
	case 7:
		vref.Doc[map[K][2]int8](two([]byte(`[1,2]`), []byte(`[3]`)))
	}
}

func HString() { vals[string](skey) }
func HNamed()  { vals[name](skey) }

func ikey(max int) func() []byte {
	return func() []byte { return vref.Cat(`"`, vref.IntN(1+vsym.Choose(max), vsym.Choose(2) == 1), `"`) }
}

func HInt8()   { vals[int8](ikey(3)) }
func HUint16() { vals[uint16](ikey(2)) }

func intKey[K comparable](max int) {
	k := vref.IntN(1+vsym.Choose(max), vsym.Choose(2) == 1)
	vref.Doc[map[K]int](vref.Cat(`{"1":5,"`, k, `":6}`))
}

func HIntKeys() {
	switch vsym.Choose(10) {
	case 0:
		intKey[int8](4)
	case 1:
		intKey[int16](6)
	case 2:
		intKey[int32](11)
	case 3:
		intKey[int64](20)
	case 4:
		intKey[int](20)
	case 5:
		intKey[uint8](4)
	case 6:
		intKey[uint16](6)
	case 7:
		intKey[uint32](11)
	case 8:
		intKey[uint64](21)
	case 9:
		intKey[uint](21)
	}
}

type myInt int16

// HIntText: arbitrary key texts for an integer key.
func HIntText() {
	k := vref.Cat(`"`, vsym.BytesIn(vsym.Choose(vsym.Pick(4, 5)), "-.e0159 xé"[:9]), `"`)
	if vsym.Choose(4) == 0 {
		k = vref.Cat(`"`, vsym.ByteIn("-12"), `\u003`, vsym.ByteIn("0123456789aAfF"), `"`)
	}
	switch vsym.Choose(3) {
	case 0:
		vref.Doc[map[int]int](vref.Cat(`{`, k, `:6}`))
	case 1:
		vref.Doc[map[uint8]string](vref.Cat(`{"3":"a",`, k, `:"b"}`))
	case 2:
		vref.Doc[map[myInt][]int](vref.Cat(`{`, k, `:[6],"5":[7]}`))
	}
}

// HText: keys that unmarshal themselves.
func HText() {
	k := []byte{'"'}
	for n := vsym.Choose(4); n > 0; n-- {
		k = append(k, vref.Plain())
	}
	k = append(k, '"')
	if vsym.Choose(3) == 0 {
		k = vref.Cat(`"\`, vsym.ByteIn("nt/"), vref.Plain(), `"`)
	}
	switch vsym.Choose(4) {
	case 0:
		vref.Doc[map[text]int](vref.Cat(`{"ab":1,`, k, `:2}`))
	case 1:
		vref.Doc[map[text]struct{ A int }](vref.Cat(`{`, k, `:{"A":2},"ab":{}}`))
	case 2:
		vref.Doc[map[strText]int](vref.Cat(`{"ab":1,`, k, `:2}`))
	case 3:
		vref.Doc[map[text]string](vref.Cat(`{`, k, `:"x"}`))
	}
}

// HPrior: other entries stay, equal keys are replaced.
func HPrior() {
	k1, k2 := skey(), skey()
	switch vsym.Choose(6) {
	case 0:
		vref.DocOpt[map[string]int](vref.Cat("{", k1, ":1,", k2, ":2}"), jd.DefaultOptions, func(m *map[string]int) {
			*m = map[string]int{"a": 100, "z": 101}
		})
	case 1:
		vref.DocOpt[map[string]string](vref.Cat("{", k1, `:"x",`, k2, `:"y"}`), jd.DefaultOptions, func(m *map[string]string) {
			*m = map[string]string{"a": "o", "z": "p"}
		})
	case 2:
		type st = struct{ A, B int }
		vref.DocOpt[map[string]st](vref.Cat("{", k1, `:{"A":1},`, k2, `:{"B":2}}`), jd.DefaultOptions, func(m *map[string]st) {
			*m = map[string]st{"a": {7, 8}, "z": {9, 10}}
		})
	case 3:
		vref.DocOpt[map[string]*int](vref.Cat("{", k1, `:1,`, k2, `:2}`), jd.DefaultOptions, func(m *map[string]*int) {
			i := 50
			*m = map[string]*int{"a": &i, "z": nil}
		})
	case 4:
		vref.DocOpt[map[string][]int](vref.Cat("{", k1, `:[1],`, k2, `:[]}`), jd.DefaultOptions, func(m *map[string][]int) {
			*m = map[string][]int{"a": {5, 6}, "z": {7}}
		})
	case 5:
		vref.DocOpt[map[string]any](vref.Cat("{", k1, `:{"x":1},`, k2, `:[]}`), jd.DefaultOptions, func(m *map[string]any) {
			*m = map[string]any{"a": map[string]any{"y": 1.0}, "z": 3.0}
		})
	}
}

// HNull: null, empty and nested.
func HNull() {
	v := vref.Value(1)
	switch vsym.Choose(6) {
	case 0:
		vref.DocOpt[map[string]int](v, jd.DefaultOptions, func(m *map[string]int) { *m = map[string]int{"a": 1} })
	case 1:
		vref.Doc[map[string]map[string]any](vref.Cat(`{"a":`, v, `,"b":{}}`))
	case 2:
		vref.DocOpt[struct {
			M map[string]string
			I int
		}](vref.Cat(`{"M":`, v, `,"I":5}`), jd.DefaultOptions, nil)
	case 3:
		vref.Doc[[]map[int]bool](vref.Cat(`[{"1":true},`, v, `,{}]`))
	case 4:
		vref.Doc[map[name]map[int8]string](vref.Cat(`{"a":{"5":"x"},"b":`, v, `}`))
	case 5:
		vref.DocOpt[map[string]string](v, jd.DefaultOptions, func(m *map[string]string) { *m = map[string]string{"a": "1"} })
	}
}

// HMany: enough entries for the map to grow.
func HMany() {
	n := 8 + vsym.Choose(vsym.Pick(6, 20))
	b := []byte("{")
	for i := 0; i < n; i++ {
		if i > 0 {
			b = append(b, ',')
		}
		b = vref.Cat(b, `"k`, byte('a'+i), `":`, vref.Pos())
	}
	b = append(b, '}')
	switch vsym.Choose(3) {
	case 0:
		vref.Doc[map[string]int](b)
	case 1:
		vref.Doc[map[string]any](b)
	case 2:
		vref.Doc[map[text]uint8](b)
	}
}

type big struct {
	A [20]int
	M map[string]big
	B int
}

// sizes has maps with elements of many sizes.
type sizes struct {
	A map[string]struct{}
	B map[string][0]int
	C map[string][15]int64
	D map[string][16]int64
	E map[string][129]uint8
	F map[string][17]int64
	G map[name][24]int64
	H map[string][32]int64
	I map[string][255]uint8
	J map[string][300]int8
	K map[string][9]string
	L []map[string][10]string
	M map[int8][40]int32
	N map[text][50]int32
	O map[strText][20]int64
	P big
	Q map[string]map[string][24]int64
	R map[string]struct {
		A, B, C string
		D       [20]int
	}
}

// HElem: element types of many sizes, since there are several kinds of maps.
func HElem() {
	doc := func(l string) []byte {
		return vref.Cat(`{"a":`, l, `,"`, vsym.ByteIn("abc"), `":`, l, `,"d":`, l, `}`)
	}
	l := string(vref.Cat("[", vref.Pos(), ",2]"))
	i := vsym.Choose(18)
	d := doc(l)
	switch i {
	case 0:
		d = doc("{}")
	case 10:
		d = doc(`["x","y"]`)
	case 11:
		d = vref.Cat("[", doc(`["x","y"]`), "]")
	case 12:
		d = vref.Cat(`{"`, vref.Pos(), `":`, l, `,"`, vref.Pos(), `":[5]}`)
	case 13, 14:
		d = vref.Cat(`{"ab":`, l, `,"a`, vref.Pos(), `":[5]}`)
	case 15:
		d = vref.Cat(`{"M":{"a":{"B":`, vref.Pos(), `,"A":[1]},"`, vsym.ByteIn("ab"), `":{"M":{"c":{"A":[7]}},"B":2}},"B":8}`)
	case 16:
		d = doc(string(doc(l)))
	case 17:
		d = doc(`{"C":"c","D":[1],"A":"a"}`)
	}
	vref.Doc[sizes](vref.Cat(`{"`, "ABCDEFGHIJKLMNOPQR"[i], `":`, d, `}`))
}

// HElemRoot: the same for the document itself.
func HElemRoot() {
	l := string(vref.Cat("[", vref.Pos(), ",2]"))
	d := vref.Cat(`{"a":`, l, `,"`, vsym.ByteIn("abc"), `":`, l, `}`)
	if vsym.Choose(2) == 0 {
		vref.Doc[map[string][16]int64](d)
	} else {
		vref.Doc[map[string][24]int64](d)
	}
}

// HZoo: maps at every place of a type, which may be populated.
func HZoo() {
	switch vsym.Choose(4) {
	case 0:
		vref.InZoo(vref.Cat(`{`, skey(), `:1,"a":2}`), `{"w":1}`, func() map[string]int { return map[string]int{"a": 7, "z": 8} })
	case 1:
		vref.InZoo(vref.Cat(`{"`, vref.Int(2), `":"x","1":"y"}`), `{"5":"w"}`, func() map[int8]string { return map[int8]string{1: "o", 3: "z"} })
	case 2:
		vref.InZoo(vref.Cat(`{"`, vref.Plain(), `a":[1],"ba":null,"ba":[]}`), `{"xy":[3]}`, func() map[text][]int { return map[text][]int{{'b', 'a'}: {7}, {'c', 'a'}: {8}} })
	case 3:
		vref.InZoo(vref.Cat(`{`, skey(), `:"x",`, skey(), `:"y"}`), `{"w":"w"}`, func() map[string]string { return map[string]string{"a": "o", "z": "z"} })
	}
}
