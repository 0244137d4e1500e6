// Package c13: the `string` tag option decodes quoted values exactly.
package c13

import (
	jd "github.com/romshark/jscan-experimental-decoder"
	"github.com/romshark/jscan-experimental-decoder/internal/vref"
	"github.com/romshark/jscan-experimental-decoder/internal/vsym"
)

type q[T any] struct {
	A int
	Q T `json:"q,string"`
	Z string
}

// in decodes the value v as the member q, with neighbours.
func in[T any](v []byte, old T) {
	switch vsym.Choose(5) {
	case 0:
		vref.Doc[q[T]](vref.Cat(`{"q":`, v, `}`))
	case 1:
		vref.Doc[q[T]](vref.Cat(`{"A":3,"q":`, v, `,"Z":"z"}`))
	case 2:
		vref.DocStr[q[T]](vref.Cat(`{"q":`, v, `,"A":4}`), jd.DefaultOptions, nil)
	case 3:
		vref.Doc[[]q[T]](vref.Cat(`[{"q":`, v, `},{"A":1}]`))
	case 4:
		vref.DocOpt[q[T]](vref.Cat(`{"Z":"y","q":`, v, `}`), jd.DefaultOptions, func(x *q[T]) { x.A, x.Q, x.Z = 8, old, "o" })
	}
}

func q1(b ...any) []byte { return vref.Cat(`"`, vref.Cat(b...), `"`) }

// content is any content of a string made of the characters at hand.
func content(max int, set string) []byte {
	return q1(vsym.BytesIn(vsym.Choose(max+1), set))
}

func ints[T any](digits int, old T) {
	switch vsym.Choose(6) {
	case 0:
		in[T](q1(vref.Int(digits)), old)
	case 1:
		in[T](content(vsym.Pick(3, 4), "-+0159.eE "), old)
	case 2:
		in[T](vref.Small(), old)
	case 3:
		in[T](q1(`\u003`, vsym.ByteIn("0159aA"), vsym.ByteIn("05x")), old)
	case 4:
		in[T](q1(vsym.ByteIn(" 1-"), "2", vref.Plain()), old)
	case 5:
		in[T]([]byte([]string{`"null"`, `"true"`, `"\"1\""`, `"01"`, `"1e2"`, `"1.0"`}[vsym.Choose(6)]), old)
	}
}

func HInt8()   { ints[int8](4, 77) }
func HInt16()  { ints[int16](6, 77) }
func HInt32()  { ints[int32](11, 77) }
func HInt64()  { ints[int64](20, 77) }
func HInt()    { ints[int](20, 77) }
func HUint8()  { ints[uint8](4, 77) }
func HUint16() { ints[uint16](6, 77) }
func HUint32() { ints[uint32](11, 77) }
func HUint64() { ints[uint64](21, 77) }
func HUint()   { ints[uint](21, 77) }

func floats[T any](old T) {
	switch vsym.Choose(5) {
	case 0:
		in[T](q1(vref.NumLit()), old)
	case 1:
		in[T](content(vsym.Pick(3, 4), "-+05.eE "), old)
	case 2:
		in[T](vref.Value(0), old)
	case 3:
		in[T](q1(vref.IntN(1, false), ".", vref.IntN(1, false), "e", vref.IntN(2, true)), old)
	case 4:
		in[T]([]byte([]string{`"null"`, `"NaN"`, `"Inf"`, `"0x1p1"`, `"1_0"`, `"1e"`, `"-"`, `"1e999"`, `"infinity"`}[vsym.Choose(9)]), old)
	}
}

func HFloat32() { floats[float32](77) }
func HFloat64() { floats[float64](77) }

func HBool() {
	switch vsym.Choose(4) {
	case 0:
		b := []byte([]string{"true", "false"}[vsym.Choose(2)])
		b[vsym.Choose(len(b))] = vref.Plain()
		in[bool](q1(b), true)
	case 1:
		in[bool](vref.Small(), true)
	case 2:
		b := []byte([]string{"true", "false", "null", ""}[vsym.Choose(4)])
		switch vsym.Choose(3) {
		case 1:
			b = vref.Cat(b, vref.Plain())
		case 2:
			b = vref.Cat(vref.Plain(), b)
		}
		in[bool](q1(b), false)
	case 3:
		in[bool](q1(`\u00`, vsym.ByteIn("67"), vsym.ByteIn("46"), `rue`), false)
	}
}

func HString() {
	switch vsym.Choose(7) {
	case 0:
		in[string](q1(`\"`, vref.Plain(), vref.Plain(), `\"`), "old")
	case 1:
		in[string](q1(`\"`, `\\`, vsym.ByteIn(`"nt\/bfr`), vref.Plain(), `\"`), "old")
	case 2:
		in[string](q1(`\"\\u00`, vsym.ByteIn("024"), vsym.ByteIn("0123456789abcdefABCDEF"), `\"`), "old")
	case 3:
		in[string](q1(vref.Plain(), `\"a\"`), "old")
	case 4:
		in[string](q1(`\"a`, vsym.ByteIn(`b\`), vsym.ByteIn(`"\n`), vsym.ByteIn(`" `)), "old")
	case 5:
		in[string](vref.Small(), "old")
	case 6:
		in[string]([]byte([]string{`"null"`, `""`, `"\""`, `"\"\""`, `"\"a"`, `"\"\\\""`, `"\u0022a\u0022"`, `"\"\\\\\""`, `"\"a\" "`, `"\"\u00e9\""`, `"\"\\ud83d\\ude00\""`}[vsym.Choose(11)]), "old")
	}
}

type n8 int8
type nb bool
type ns string
type nf float32

// HNamed: named types have the option as well.
func HNamed() {
	switch vsym.Choose(4) {
	case 0:
		in[n8](q1(vref.Int(4)), 7)
	case 1:
		in[nb]([]byte([]string{`"true"`, `"false"`, `true`, `"x"`, `null`}[vsym.Choose(5)]), true)
	case 2:
		in[ns](q1(`\"`, vref.Plain(), `\"`), "o")
	case 3:
		in[nf](q1(vref.NumLit()), 7)
	}
}

// HSeveral: several quoted fields next to each other.
func HSeveral() {
	type s struct {
		A int8    `json:",string"`
		B bool    `json:"b,omitempty,string"`
		C string  `json:"c,string"`
		D uint16  `json:"d,string"`
		E float64 `json:",string"`
		F int
	}
	a, b, c := q1(vref.Int(2)), q1("true"), q1(`\"`, vref.Plain(), `\"`)
	switch vsym.Choose(4) {
	case 0:
		vref.Doc[s](vref.Cat(`{"A":`, a, `,"b":`, b, `,"c":`, c, `,"d":"7","E":"1.5","F":5}`))
	case 1:
		vref.Doc[s](vref.Cat(`{"F":1,"c":`, c, `,"b":`, b, `,"A":`, a, `}`))
	case 2:
		vref.Doc[s](vref.Cat(`{"d":`, a, `,"E":`, a, `,"F":9}`))
	case 3:
		vref.Doc[s](vref.Cat(`{"A":`, a, `,"F":`, a, `}`))
	}
}

// HIgnored: the option has no effect on types it does not apply to.
func HIgnored() {
	type s struct {
		A []int          `json:"a,string"`
		B map[string]int `json:"b,string"`
		C *int           `json:"c,string"`
		D any            `json:"d,string"`
		E [1]int         `json:"e,string"`
	}
	v := vref.Value(1)
	vref.Doc[struct {
		D any `json:"d,string"`
		E int
	}](vref.Cat(`{"d":`, v, `,"E":5}`))
	vref.Doc[s](vref.Cat(`{"a":[1],"b":{"x":2},"e":[`, vref.Pos(), `]}`))
}

type three struct {
	A int     `json:",string"`
	B string  `json:"b,string"`
	C float32 `json:",omitempty,string"`
	D bool    `json:",string"`
	E string
}

// HZoo: fields with the option at every place of a type, which may be populated.
func HZoo() {
	var v []byte
	switch vsym.Choose(5) {
	case 0:
		v = vref.Cat(`{"A":`, q1(vsym.BytesIn(2, "-01. ")), `,"E":"e"}`)
	case 1:
		v = vref.Cat(`{"b":"`, vsym.ByteIn(`1\"`), `"a`, vref.Ascii(), `\"","D":"false"}`)
		if _, ok := vref.Parse(v); !ok {
			v = vref.Cat(`{"b":"\"a`, vref.Ascii(), `\"","D":"false"}`)
		}
	case 2:
		v = vref.Cat(`{"C":`, q1(vref.NumLit()), `,"A":"5"}`)
	case 3:
		v = vref.Cat(`{"D":`, q1("tru", vref.Plain()), `,"E":"e"}`)
	case 4:
		v = vref.Cat(`{"`, vsym.ByteIn("AbCDE"), `":`, vref.Small(), `,"A":"5"}`)
	}
	vref.InZoo(v, `{"A":"1","b":"\"w\""}`, func() three { return three{7, "o", 7.5, true, "oo"} })
}
