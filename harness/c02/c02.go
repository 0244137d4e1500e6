// Package c02: floats decode to the correctly rounded value of their text.
package c02

import (
	jd "github.com/romshark/jscan-experimental-decoder"
	"github.com/romshark/jscan-experimental-decoder/internal/vref"
	"github.com/romshark/jscan-experimental-decoder/internal/vsym"
)

func digits(n int) []byte { return vsym.BytesIn(n, "0123456789") }

// num is a number literal with symbolic digits.
func num() []byte {
	b := vref.IntN(1+vsym.Choose(vsym.Pick(3, 5)), vsym.Choose(2) == 1)
	if n := vsym.Choose(vsym.Pick(3, 5)); n > 0 {
		b = vref.Cat(b, ".", digits(n))
	}
	switch vsym.Choose(5) {
	case 1:
		b = vref.Cat(b, vsym.ByteIn("eE"), digits(1))
	case 2:
		b = vref.Cat(b, vsym.ByteIn("eE"), vsym.ByteIn("+-"), digits(1))
	case 3:
		b = vref.Cat(b, "e", digits(2))
	case 4:
		b = vref.Cat(b, "e-", digits(3))
	}
	return b
}

// long is a literal with many digits.
func long() []byte {
	b := vref.IntN(6+vsym.Choose(16), vsym.Choose(2) == 1)
	if vsym.Choose(2) == 1 {
		b = vref.Cat(b, ".", digits(1+vsym.Choose(2)*9))
	}
	return b
}

func all[T any](num func() []byte) {
	switch vsym.Choose(8) {
	case 0:
		vref.Doc[T](num())
	case 1:
		vref.DocStr[T](num(), jd.DefaultOptions, nil)
	case 2:
		vref.Doc[[]T](vref.Cat("[", num(), ",1]"))
	case 3:
		vref.Doc[[]T](vref.Cat("[2.5,", num(), "]"))
	case 4:
		vref.Doc[[2]T](vref.Cat("[1,", num(), "]"))
	case 5:
		vref.Doc[struct{ A, B, C T }](vref.Cat(`{"B":`, num(), `,"C":1}`))
	case 6:
		vref.Doc[map[string]T](vref.Cat(`{"k":`, num(), `,"l":1}`))
	case 7:
		vref.DocStr[[]T](vref.Cat(`[`, num(), `,0]`), jd.DefaultOptions, nil)
	}
}

type f32 float32
type f64 float64

func HFloat32() { all[float32](num) }
func HFloat64() { all[float64](num) }
func HAny()     { all[any](num) }
func HLong32()  { all[float32](long) }
func HLong64()  { all[float64](long) }
func HLongAny() { all[any](long) }
func TNamed32() { all[f32](num) }
func TNamed64() { all[f64](long) }
func HNamed64() { vref.Doc[[]f64](vref.Cat("[", num(), ",", num(), "]")) }
func HNamed32() { vref.Doc[[]f32](vref.Cat("[", num(), ",0]")) }

// HRange: exponents around the ends of the ranges.
func HRange() {
	b := vref.Cat(vref.IntN(1, vsym.Choose(2) == 1), []byte{'.'}, digits(1), "e", digits(2+vsym.Choose(2)))
	switch vsym.Choose(5) {
	case 0:
		vref.Doc[float32](b)
	case 1:
		vref.Doc[float64](b)
	case 2:
		vref.Doc[any](b)
	case 3:
		vref.Doc[[]float32](vref.Cat("[", b, "]"))
	case 4:
		vref.Doc[[]float64](vref.Cat("[0,", b, "]"))
	}
}

// HText: arbitrary text made of the characters of numbers.
func HText() {
	b := vsym.BytesIn(1+vsym.Choose(vsym.Pick(4, 5)), "-+.eE019")
	switch vsym.Choose(3) {
	case 0:
		vref.Doc[float32](b)
	case 1:
		vref.Doc[float64](b)
	case 2:
		vref.Doc[any](b)
	}
}

// hard are literals next to the points where rounding changes or ends.
func hard() []byte {
	d := vsym.BytesIn(1, "0123456789")
	switch vsym.Choose(vsym.Pick(14, 22)) {
	case 0: // the middle of two float32
		return vref.Cat("1.0000000596046447753906250000000000000", d)
	case 1:
		return vref.Cat("-16777217.00000000000000000000000", d)
	case 2: // the middle of two float64
		return vref.Cat("9007199254740993.0000000000000000000", d)
	case 3:
		return vref.Cat("1.00000000000000011102230246251565404236316680908203125", d)
	case 4: // half of the smallest float32
		return vref.Cat("7.00649232162408535461864791644958065640130970938257885878534141944895541342930300743319094181060791015625", d, "e-46")
	case 5: // the end of float32
		return vref.Cat("340282356779733661637539395458142568447.", d)
	case 6:
		return vref.Cat("34028235677973366163753939545814256844", d)
	case 7: // the end of float64
		return vref.Cat("1.7976931348623158", d, "e308")
	case 8: // denormal float64
		return vref.Cat("2.470328229206232", d, "e-324")
	case 9:
		return vref.Cat("-0", ".0", d, "e-400")
	case 10: // integers beyond the fast paths
		return vref.Cat("900719925474099", d)
	case 11:
		return vref.Cat("1677721", d)
	case 12: // an integer literal at the end of float64
		return vref.Cat("17976931348623158", d, zeros(291))
	case 13: // an integer literal at the end of float32
		return vref.Cat("3402823", d, zeros(31))
	case 20:
		return vref.Cat("2.225073858507201", d, "e-308")
	case 21:
		return vref.Cat("1.175494", d, "e-38")
	case 14:
		return vref.Cat("18446744073709551", d, d, d)
	case 15:
		return vref.Cat("9.5367431640625", d, "E-7")
	case 16:
		return vref.Cat(d, "e23")
	case 17:
		return vref.Cat("-922337203685477580", d)
	case 18:
		return vref.Cat("8589973504.0000000000000000000", d)
	}
	return vref.Cat("0.00000000000000000000000000000000000000000000000", d, "e47")
}

func zeros(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = '0'
	}
	return b
}

// HEnd: literals at the end of the range in every place a number may have.
func HEnd() {
	d := vsym.BytesIn(1, "0123456789")
	var n []byte
	switch vsym.Choose(3) {
	case 0:
		n = vref.Cat("17976931348623158", d, zeros(291))
	case 1:
		n = vref.Cat("-1.7976931348623158", d, "e308")
	case 2:
		n = vref.Cat("3.402823", d, "e38")
	}
	switch vsym.Choose(12) {
	case 0:
		vref.Doc[any](vref.Cat("[", n, "]"))
	case 1:
		vref.Doc[any](vref.Cat(`{"a":`, n, "}"))
	case 2:
		vref.Doc[any](vref.Cat(`{"a":[1,{"b":`, n, `}],"c":2}`))
	case 3:
		vref.Doc[[]any](vref.Cat("[1,[", n, "],2]"))
	case 4:
		vref.Doc[map[string]any](vref.Cat(`{"a":"x","b":`, n, "}"))
	case 5:
		vref.Doc[[]float64](vref.Cat("[", n, "]"))
	case 6:
		vref.Doc[[]float32](vref.Cat("[1,2,", n, "]"))
	case 7:
		vref.Doc[struct {
			A float32 `json:",string"`
			B float64 `json:",string"`
			C float32
			D float64
		}](vref.Cat(`{"`, vsym.ByteIn("AB"), `":"`, n, `","`, vsym.ByteIn("CD"), `":`, n, `}`))
	case 8:
		vref.Doc[*float64](n)
	case 9:
		vref.Doc[[][]float64](vref.Cat("[[0],[1,", n, "]]"))
	case 10:
		vref.Doc[map[string][]float32](vref.Cat(`{"a":[`, n, "]}"))
	case 11:
		vref.DocStr[any](vref.Cat("[[", n, "]]"), jd.DefaultOptions, nil)
	}
}

func HHard32()  { all[float32](hard) }
func HHard64()  { all[float64](hard) }
func HHardAny() { all[any](hard) }

// HZoo: at every place of a type, which may be populated.
func HZoo() {
	var v []byte
	switch vsym.Choose(3) {
	case 0:
		v = vref.NumLit()
	case 1:
		// between two float32s, rounds differently by way of float64
		v = vref.Cat("1.000000178813934326171875", vref.Digit())
	case 2:
		v = vref.Cat("1e3", vref.Digit(), vsym.ByteIn("089"))
	}
	switch vsym.Choose(3) {
	case 0:
		vref.InZoo(v, "1.5", func() float32 { return 7.5 })
	case 1:
		vref.InZoo(v, "1.5", func() float64 { return 7.5 })
	case 2:
		vref.InZoo(v, "1.5", func() any { return 7.5 })
	}
}

var known = []string{
	// integers around 1<<24, 1<<53, 1<<63, 1<<64
	"16777215", "16777217", "16777219", "16777221", "-16777219", "33554435", "9007199254740991", "9007199254740993", "9007199254740995", "-9007199254740995",
	"9007199254740997", "9007199254740999", "90071992547409931", "90071992547409925", "123456789012345678", "999999999999999999", "1000000000000000001",
	"4503599627370497", "36028797018963971", "9223372036854775807", "9223372036854775809", "-9223372036854775809", "18446744073709551615", "18446744073709551617", "100000000000000000000001",
	// fractions that round twice by way of float64 or of a shorter mantissa
	"1.00000017881393432617187499", "1.00000017881393432617187501", "0.1", "0.3", "2.675", "8.41", "1e23", "4.35", "0.000001", "123.456e-7",
	"9007199254740992.5", "9007199254740993.5", "4503599627370496.5", "4503599627370497.5", "5e-324", "2.4703282292062328e-324", "1.1754943508222875e-38",
	"7.038531e-26", "1.4e-45", "7.0064923216240854e-46", "3.4028235677973366e38", "1.7976931348623158e308", "-0", "-0.0", "0e999", "-1e-999",
}

// HKnown: literals whose value shows how they were rounded.
func HKnown() {
	n := func() []byte { return []byte(known[vsym.Choose(len(known))]) }
	switch vsym.Choose(3) {
	case 0:
		all[float32](n)
	case 1:
		all[float64](n)
	case 2:
		all[any](n)
	}
}

// HAll: at every place of every kind that takes fractions.
func HAll() {
	k := []int{vref.KFloat32, vref.KFloat64, vref.KNumber, vref.KAny}[vsym.Choose(4)]
	vref.InAll(k, func(int) []byte { return vref.AllNum(k) })
}
