// Package c20: Number holds exactly valid JSON number text.
package c20

import (
	"strconv"

	jd "github.com/romshark/jscan-experimental-decoder"
	"github.com/romshark/jscan-experimental-decoder/internal/vref"
	"github.com/romshark/jscan-experimental-decoder/internal/vsym"
)

type N = jd.Number

func in(v []byte) {
	switch vsym.Choose(9) {
	case 0:
		vref.Doc[N](v)
	case 1:
		vref.DocStr[N](v, jd.DefaultOptions, nil)
	case 2:
		vref.Doc[[]N](vref.Cat("[", v, ",1]"))
	case 3:
		vref.Doc[[]N](vref.Cat(`["2", `, v, "]"))
	case 4:
		vref.Doc[[2]N](vref.Cat("[1,", v, "]"))
	case 5:
		vref.Doc[struct {
			A N
			B int
		}](vref.Cat(`{"A":`, v, `,"B":5}`))
	case 6:
		vref.Doc[map[string]N](vref.Cat(`{"a":`, v, `,"b":3}`))
	case 7:
		vref.Doc[[]*N](vref.Cat(`[`, v, `,null]`))
	case 8:
		vref.DocOpt[N](v, jd.DefaultOptions, func(n *N) { *n = "77" })
	}
}

// lit is a number literal.
func lit() []byte {
	b := vref.IntN(1+vsym.Choose(vsym.Pick(3, 4)), vsym.Choose(2) == 1)
	if n := vsym.Choose(vsym.Pick(3, 4)); n > 0 {
		b = vref.Cat(b, ".", vsym.BytesIn(n, "0123456789"))
	}
	switch vsym.Choose(4) {
	case 1:
		b = vref.Cat(b, vsym.ByteIn("eE"), vsym.BytesIn(1, "0123456789"))
	case 2:
		b = vref.Cat(b, vsym.ByteIn("eE"), vsym.ByteIn("+-"), vsym.BytesIn(1+vsym.Choose(2), "0123456789"))
	}
	return b
}

func HLit() { in(lit()) }
func HQuoted() {
	in(vref.Cat(`"`, lit(), `"`))
}

// HText: any text made of the characters of numbers and some others.
func HText() {
	vref.Doc[N](vref.Cat(`"`, vsym.BytesIn(vsym.Choose(vsym.Pick(6, 7)), "-+.eE0159"), `"`))
}

// HBytes: arbitrary characters.
func HBytes() {
	n := vsym.Choose(vsym.Pick(4, 5))
	b := []byte{'"'}
	for i := 0; i < n; i++ {
		b = append(b, vref.Plain())
	}
	in(append(b, '"'))
}

// HLong: longer contents with one arbitrary character somewhere, since the
// scanner works on blocks of characters.
func HLong() {
	n := 2 + vsym.Choose(vsym.Pick(20, 36))
	at := vsym.Choose(n)
	b := []byte(`"`)
	if vsym.Choose(2) == 1 {
		b = append(b, '-')
	}
	for i := 0; i < n; i++ {
		if i == at {
			b = append(b, vref.Plain())
		} else {
			b = append(b, vsym.ByteIn("123456789"))
		}
	}
	vref.Doc[N](append(b, '"'))
}

// HLongFrac: the same behind the point and in the exponent.
func HLongFrac() {
	n := 1 + vsym.Choose(vsym.Pick(18, 36))
	at := vsym.Choose(n)
	b := []byte([]string{`"0.`, `"1e`, `"-2.5E-`, `"12.34`}[vsym.Choose(4)])
	for i := 0; i < n; i++ {
		if i == at {
			b = append(b, vref.Plain())
		} else {
			b = append(b, vsym.ByteIn("0123456789"))
		}
	}
	vref.Doc[N](append(b, '"'))
}

// HTail: digits, then arbitrary characters of numbers, since the scanner
// treats every offset in a block apart.
func HTail() {
	pre := vsym.Choose(vsym.Pick(19, 27))
	b := []byte(`"`)
	if vsym.Choose(2) == 1 {
		b = append(b, '-')
	}
	for i := 0; i < pre; i++ {
		b = append(b, "1234567890"[i%10])
	}
	tail(b)
}

func tail(b []byte) {
	// What follows decides whether the block loop gets to see the characters.
	pad := []string{"", "0123456"}[vsym.Choose(2)]
	for i, n := 0, 1+vsym.Choose(vsym.Pick(3, 5)); i < n; i++ {
		b = append(b, vsym.ByteIn(".eE+-07x"))
	}
	vref.Doc[N](vref.Cat(b, pad, `"`))
}

// HTailFrac: the same behind the point and in the exponent.
func HTailFrac() {
	pre := vsym.Choose(vsym.Pick(18, 27))
	b := []byte([]string{`"0.`, `"1e`, `"-2.5E-`, `"1E+`}[vsym.Choose(4)])
	for i := 0; i < pre; i++ {
		b = append(b, "1234567890"[i%10])
	}
	tail(b)
}

// HEscaped: escapes count as the characters they denote.
func HEscaped() {
	e := vref.Cat(`\u003`, vsym.ByteIn("0123456789aAfF"))
	switch vsym.Choose(5) {
	case 0:
		in(vref.Cat(`"`, e, `"`))
	case 1:
		in(vref.Cat(`"1`, e, `"`))
	case 2:
		in(vref.Cat(`"`, e, `.5"`))
	case 3:
		in(vref.Cat(`"1\u002`, vsym.ByteIn("0123456789abcdefABCDEF"), `5"`))
	case 4:
		in(vref.Cat(`"1\`, vsym.ByteIn(`"\/bfnrt`), `"`))
	}
}

// HOther: every other kind of value.
func HOther() { in(vref.Value(1)) }

// HNames: a type named differently is no Number.
type other string

func HOtherType() {
	v := vref.Small()
	vref.Doc[other](v)
	vref.Doc[struct {
		A other
		B N
	}](vref.Cat(`{"B":`, v, `,"A":"x"}`))
}

// HInt64: the methods agree with strconv.
func HInt64() {
	var n N
	var doc []byte
	switch vsym.Choose(4) {
	case 0:
		doc = lit()
	case 1:
		doc = vref.Int(vsym.Pick(20, 22))
	default: // around the limits of int64 (and uint64)
		lim := []string{"9223372036854775", "1844674407370955", "9999999999999999", "922337203685477580"}[vsym.Choose(4)]
		if vsym.Choose(2) == 1 {
			doc = []byte{'-'}
		}
		doc = append(doc, lim...)
		for i, n := 0, vsym.Choose(vsym.Pick(4, 6)); i < n; i++ {
			doc = append(doc, vsym.ByteIn("0123456789"))
		}
	}
	_, err := vref.Dec[[]byte, N]().Decode(doc, &n, jd.DefaultOptions)
	vsym.Assert(err == nil, "a number literal is rejected")
	i, e := n.Int64()
	wi, we := strconv.ParseInt(string(doc), 10, 64)
	vsym.Assert((e == nil) == (we == nil), "Int64 differs from strconv in whether there is an error")
	vsym.Assert(i == wi, "Int64 gives another value than strconv")
}

func HFloat64() {
	var n N
	doc := lit()
	_, err := vref.Dec[string, N]().Decode(string(doc), &n, jd.DefaultOptions)
	vsym.Assert(err == nil, "a number literal is rejected")
	f, e := n.Float64()
	wf, we := strconv.ParseFloat(string(doc), 64)
	vsym.Assert((e == nil) == (we == nil), "Float64 differs from strconv in whether there is an error")
	vsym.Assert(vsym.DeepEq(f, wf), "Float64 gives another value than strconv")
	vsym.Assert(vsym.DeepEq(n.String(), string(doc)), "String is not the source text")
}

// HZoo: at every place of a type, which may be populated.
func HZoo() {
	var v []byte
	switch vsym.Choose(3) {
	case 0:
		v = vref.NumLit()
	case 1:
		v = vref.Cat(`"`, vsym.BytesIn(vsym.Choose(4), "-+.eE05"), `"`)
	case 2:
		v = vref.Cat(`"\u003`, vsym.ByteIn("0159aA"), vref.Plain(), `"`)
	}
	vref.InZoo(v, `"1e5"`, func() N { return "77" })
}
