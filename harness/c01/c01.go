// Package c01: integer literals decode exactly or fail.
package c01

import (
	jd "github.com/romshark/jscan-experimental-decoder"
	"github.com/romshark/jscan-experimental-decoder/internal/vref"
	"github.com/romshark/jscan-experimental-decoder/internal/vsym"
)

// lit is an integer literal of up to max digits, every digit symbolic.
func lit(max int) []byte { return vref.Int(max) }

// short is a literal that fits every type.
func short() []byte { return vref.IntN(1, false) }

func all[T any](max int) {
	switch vsym.Choose(9) {
	case 0:
		vref.Doc[T](lit(max))
	case 1:
		vref.DocStr[T](lit(max), jd.DefaultOptions, nil)
	case 2:
		vref.Doc[[]T](vref.Cat("[", lit(max), ",", short(), "]"))
	case 3:
		vref.Doc[[]T](vref.Cat("[", short(), ", ", lit(max), "]"))
	case 4:
		vref.Doc[[2]T](vref.Cat("[", short(), ",", lit(max), "]"))
	case 5:
		vref.Doc[struct{ A, B, C T }](vref.Cat(`{"B":`, lit(max), `,"C":`, short(), "}"))
	case 6:
		vref.Doc[map[string]T](vref.Cat(`{"k":`, lit(max), `,"l":`, short(), "}"))
	case 7:
		vref.Doc[[]*T](vref.Cat(`[`, lit(max), `,`, short(), "]"))
	case 8:
		vref.Doc[[][]T](vref.Cat(`[[`, short(), `],[`, lit(max), "]]"))
	}
}

// free is any short text made of the characters of numbers.
func free[T any]() {
	n := 1 + vsym.Choose(vsym.Pick(3, 5))
	vref.Doc[T](vsym.BytesIn(n, "-+.eE0123456789"))
}

func HInt8()   { all[int8](4) }
func HInt16()  { all[int16](6) }
func HInt32()  { all[int32](11) }
func HInt64()  { all[int64](20) }
func HInt()    { all[int](20) }
func HUint8()  { all[uint8](4) }
func HUint16() { all[uint16](6) }
func HUint32() { all[uint32](11) }
func HUint64() { all[uint64](21) }
func HUint()   { all[uint](21) }

type myInt16 int16
type myUint uint

func HNamed16()   { all[myInt16](6) }
func HNamedUint() { all[myUint](21) }

func HFree() {
	switch vsym.Choose(10) {
	case 0:
		free[int8]()
	case 1:
		free[int16]()
	case 2:
		free[int32]()
	case 3:
		free[int64]()
	case 4:
		free[int]()
	case 5:
		free[uint8]()
	case 6:
		free[uint16]()
	case 7:
		free[uint32]()
	case 8:
		free[uint64]()
	case 9:
		free[uint]()
	}
}

// HZoo: at every place of a type, which may be populated.
func HZoo() {
	switch vsym.Choose(4) {
	case 0:
		vref.InZoo(lit(4), "1", func() int8 { return 77 })
	case 1:
		vref.InZoo(lit(6), "1", func() uint16 { return 77 })
	case 2:
		vref.InZoo(lit(vsym.Pick(3, 11)), "1", func() int32 { return 77 })
	case 3:
		vref.InZoo(vref.Cat("1844674407370955161", vref.Digit()), "1", func() uint64 { return 77 })
	}
}

// HAll: literals around the limits at every place of every kind of integer.
func HAll() {
	k := vref.KInt + vsym.Choose(vref.KUint64-vref.KInt+1)
	vref.InAll(k, func(int) []byte { return vref.AllNum(k) })
}
