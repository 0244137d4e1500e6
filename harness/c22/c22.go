// Package c22: the error tells what is wrong.
package c22

import (
	"errors"

	jd "github.com/romshark/jscan-experimental-decoder"
	"github.com/romshark/jscan-experimental-decoder/internal/vref"
	"github.com/romshark/jscan-experimental-decoder/internal/vsym"
)

type num struct {
	A int
	B int8
	C int16
	D int32
	E int64
	F uint
	G uint8
	H uint16
	I uint32
	J uint64
	K float32
	L float64
}

type sl struct {
	A []int
	B []int8
	C []int16
	D []int32
	E []int64
	F []uint
	G []uint8
	H []uint16
	I []uint32
	J []uint64
	K []float32
	L []float64
}

type rec struct {
	S string
	P *rec
	Q []rec
	M map[string]rec
}

type other struct {
	A bool
	B string
	C []bool
	D []string
	E [2]int
	F [0]int
	G map[string]string
	H map[string]int
	I map[int]bool
	J struct{}
	K []struct{}
	L *int
	M **string
	N []*bool
	O rec
	P jd.Number
	Q [][]int
	R []num
	S []rec
	T map[string][]int
}

// number is a number literal, at times beyond every range.
func number() []byte {
	switch vsym.Choose(5) {
	case 0:
		return vref.Int(vsym.Pick(4, 6))
	case 1:
		return vref.Cat([]byte{vsym.ByteIn("12")}, "844674407370955161", vsym.BytesIn(1+vsym.Choose(2), "0123456789"))
	case 2:
		return vref.Cat("-9223372036854775", vsym.BytesIn(3+vsym.Choose(2), "0123456789"))
	case 3:
		return vref.Cat([]byte{vsym.ByteIn("123456789")}, "e", vsym.BytesIn(1+vsym.Choose(3), "0123456789"))
	}
	return vref.NumLit()
}

func value() []byte {
	if vsym.Choose(2) == 0 {
		return number()
	}
	return vref.Value(vsym.Pick(1, 2))
}

func roots[T any]() {
	vref.Identity = true
	v := value()
	switch vsym.Choose(2) {
	case 0:
		vref.Doc[T](v)
	case 1:
		vref.DocStr[T](v, jd.DefaultOptions, nil)
	}
}

func HInt()     { roots[int]() }
func HInt8()    { roots[int8]() }
func HInt16()   { roots[int16]() }
func HInt32()   { roots[int32]() }
func HInt64()   { roots[int64]() }
func HUint()    { roots[uint]() }
func HUint8()   { roots[uint8]() }
func HUint16()  { roots[uint16]() }
func HUint32()  { roots[uint32]() }
func HUint64()  { roots[uint64]() }
func HFloat32() { roots[float32]() }
func HFloat64() { roots[float64]() }
func HAny()     { roots[any]() }
func HStruct()  { roots[other]() }

func field(n string) []byte { return []byte{vsym.ByteIn(n)} }

func HFields() {
	vref.Identity = true
	vref.Doc[num](vref.Cat(`{"`, field("ABCDEFGHIJKL"), `":`, value(), `}`))
}

func HSlices() {
	vref.Identity = true
	switch vsym.Choose(2) {
	case 0:
		vref.Doc[sl](vref.Cat(`{"`, field("ABCDEFGHIJKL"), `":[0,`, value(), `]}`))
	case 1:
		vref.Doc[sl](vref.Cat(`{"`, field("ABCDEFGHIJKL"), `":`, vref.Value(1), `}`))
	}
}

func HOther() {
	vref.Identity = true
	v := value()
	f := field("ABCDEFGHIJKLMNOPQRST")
	switch vsym.Choose(4) {
	case 0:
		vref.Doc[other](vref.Cat(`{"`, f, `":`, v, `}`))
	case 1:
		vref.Doc[other](vref.Cat(`{"`, f, `":[`, v, `]}`))
	case 2:
		vref.Doc[other](vref.Cat(`{"`, f, `":{"S":`, v, `}}`))
	case 3:
		vref.Doc[other](vref.Cat(`{"`, f, `":{"1":`, v, `}}`))
	}
}

var errU = errors.New("u")

type unm struct{ S string }

func (u *unm) UnmarshalJSON(b []byte) error {
	u.S = string(b)
	if b[0] == '{' || b[0] == '5' {
		return errU
	}
	return nil
}

type txt struct{ S string }

func (u *txt) UnmarshalText(b []byte) error {
	u.S = string(b)
	if len(b) > 0 && b[0] == 'a' {
		return errU
	}
	return nil
}

type mix struct {
	A int8
	B unm
	C []txt
	D map[txt]*unm
	E *rec
	F any
}

// HFirst: the first of several errors counts.
func HFirst() {
	vref.Identity = true
	pair := func() []byte {
		switch vsym.Choose(6) {
		case 0:
			return vref.Cat(`"A":`, vref.Int(4))
		case 1:
			return vref.Cat(`"B":`, vref.Small())
		case 2:
			return vref.Cat(`"C":["`, vref.Plain(), `",`, vref.Small(), `]`)
		case 3:
			return vref.Cat(`"D":{"`, vref.Plain(), `":`, vref.Small(), `}`)
		case 4:
			return vref.Cat(`"E":{"Q":[{"`, vsym.ByteIn("SPQX"), `":`, vref.Small(), `}]}`)
		}
		return vref.Cat(`"`, vsym.ByteIn("FX"), `":1e`, vsym.BytesIn(3, "0123456789"))
	}
	o := *jd.DefaultOptions
	o.DisallowUnknownFields = vsym.Choose(2) == 1
	vref.DocOpt[mix](vref.Cat("{", pair(), ",", pair(), "}"), &o, nil)
}

// HInvalid: invalid documents are no unfitting values, whatever the values.
func HInvalid() {
	vref.Identity = true
	h := vsym.Bytes(1)
	switch vsym.Choose(6) {
	case 0:
		vref.Doc[int](vref.Cat("300", h))
	case 1:
		vref.Doc[int8](vref.Cat("300", h, "1"))
	case 2:
		vref.Doc[[]bool](vref.Cat("[true", h, "1]"))
	case 3:
		vref.Doc[other](vref.Cat(`{"A":1,"B":2`, h))
	case 4:
		vref.Doc[mix](vref.Cat(`{"A":300,"B"`, h, `2}`))
	case 5:
		vref.Doc[map[string]int](vref.Cat(`{"A":[`, h, `,"B":2}`))
	}
}

// HUnmarshal: Unmarshal tells the same.
func HUnmarshal() {
	switch vsym.Choose(6) {
	case 0:
		vref.DocErr[int8](value())
	case 1:
		vref.DocErr[[]uint16](vref.Cat("[", value(), "]"))
	case 2:
		vref.DocErr[mix](vref.Cat(`{"B":`, vref.Small(), `,"A":`, vref.Int(4), "}"))
	case 3:
		vref.DocErr[map[string]float32](vref.Cat(`{"B":`, number(), "}"))
	case 4:
		vref.DocErr[rec](vref.Cat(`{"Q":[{"P":`, value(), `}]}`))
	case 5:
		vref.DocErr[[]any](vref.Cat("[1", vsym.Bytes(2), "]"))
	}
}

// HZoo: at every place of a type, which may be populated.
func HZoo() {
	vref.Identity = true
	var v []byte
	switch vsym.Choose(3) {
	case 0:
		v = vref.Int(3)
	case 1:
		v = vref.NumLit()
	case 2:
		v = []byte([]string{"1e39", "-1e400", "[]", `{"a":null}`, `"1"`, "true"}[vsym.Choose(6)])
	}
	switch vsym.Choose(3) {
	case 0:
		vref.InZoo(v, "1", func() int8 { return 7 })
	case 1:
		vref.InZoo(v, "1", func() uint8 { return 7 })
	case 2:
		vref.InZoo(v, "1", func() float32 { return 7 })
	}
}

// HAll: at every place of every kind of type.
func HAll() {
	vref.Identity = true
	vref.InAll(vsym.Choose(vref.AllKinds), func(int) []byte { return vref.Odd() })
}
