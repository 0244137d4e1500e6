// Package c03: strings are unescaped exactly as JSON defines.
package c03

import (
	jd "github.com/romshark/jscan-experimental-decoder"
	"github.com/romshark/jscan-experimental-decoder/internal/vref"
	"github.com/romshark/jscan-experimental-decoder/internal/vsym"
)

type text struct{ s string }

func (t *text) UnmarshalText(b []byte) error { t.s = string(b); return nil }

type myString string

// place decodes the string literal q in one of the places strings occur.
func place(q []byte) {
	switch vsym.Choose(10) {
	case 0:
		vref.Doc[string](q)
	case 1:
		vref.DocStr[string](q, jd.DefaultOptions, nil)
	case 2:
		vref.Doc[[]string](vref.Cat("[", q, `,"t"]`))
	case 3:
		vref.Doc[map[string]string](vref.Cat(`{"k":`, q, `}`))
	case 4:
		vref.Doc[map[string]int](vref.Cat(`{`, q, `:1}`))
	case 5:
		vref.Doc[any](q)
	case 6:
		vref.Doc[any](vref.Cat(`{`, q, `:1}`))
	case 7:
		vref.Doc[struct{ A, B myString }](vref.Cat(`{"A":`, q, `,"B":"z"}`))
	case 8:
		vref.Doc[text](q)
	case 9:
		vref.DocStr[[]string](vref.Cat(`["t",`, q, `]`), jd.DefaultOptions, nil)
	}
}

// placeFew is place for the more costly inputs.
func placeFew(q []byte) {
	switch vsym.Choose(3) {
	case 0:
		vref.Doc[string](q)
	case 1:
		vref.DocStr[any](q, jd.DefaultOptions, nil)
	case 2:
		vref.Doc[map[string]string](vref.Cat(`{`, q, `:`, `""`, `}`))
	}
}

// HAny: arbitrary bytes between the quotes.
func HAny() { place(vref.Cat(`"`, vsym.Bytes(vsym.Choose(vsym.Pick(3, 4))), `"`)) }

func hex4() []byte { return vsym.BytesIn(4, "0123456789abcdefABCDEF") }

// HUnicode: \uXXXX with every hex digit symbolic, between other text.
func HUnicode() { place(vref.Cat(`"`, `\u`, hex4(), vref.Plain(), `"`)) }

// HPair: two consecutive \uXXXX.
func HPair() { placeFew(vref.Cat(`"`, `\u`, hex4(), `\u`, hex4(), `"`)) }

// HBroken: a surrogate followed by something else.
func HBroken() {
	s := vref.Cat(`\u`, vsym.ByteIn("dD"), vsym.ByteIn("89abcdefABCDEF"), vsym.BytesIn(2, "0123456789abcdefABCDEF"))
	var t []byte
	switch vsym.Choose(8) {
	case 0:
		t = nil
	case 1:
		t = []byte{vref.Plain()}
	case 2:
		t = vref.Cat(`\`, vsym.ByteIn(`"\/bfnrt`))
	case 3:
		t = vref.Cat(`\u`, vsym.ByteIn("0123456789abcefABCEF"), hex4()[1:])
	case 4:
		t = vref.Cat(vref.Plain(), `\udc00`)
	case 5:
		t = vref.Cat(`\ud83d\ude`, vsym.BytesIn(2, "0123456789abcdefABCDEF"))
	case 6: // the digits of a low surrogate without its \u
		t = vref.Cat(`\`, vsym.ByteIn(`"\/bfnrt`), vsym.ByteIn("dD"), vsym.ByteIn("cdefCDEF"), "1", vsym.ByteIn("09aF"))
	case 7:
		t = vref.Cat(vsym.ByteIn("u0x/"), vsym.ByteIn("u0x/"), "D", vsym.ByteIn("cdefCDEF"), "1", vsym.ByteIn("09aF"))
	}
	placeFew(vref.Cat(`"`, s, t, `"`))
}

// HLong: one escape at every position of longer text.
func HLong() {
	n := vsym.Choose(vsym.Pick(36, 70))
	at := vsym.Choose(n + 1)
	q := []byte{'"'}
	for i := 0; i <= n; i++ {
		if i == at {
			switch vsym.Choose(3) {
			case 0:
				q = append(q, '\\', vsym.ByteIn(`"\/bfnrt`))
			case 1:
				q = append(q, `\u00`...)
				q = append(q, vsym.BytesIn(2, "0123456789abcdefABCDEF")...)
			}
		}
		if i < n {
			q = append(q, vref.Plain())
		}
	}
	q = append(q, '"')
	if n%2 == 0 {
		vref.Doc[string](q)
	} else {
		vref.Doc[any](vref.Cat("[", q, "]"))
	}
}

// HTwo: two escapes with text between them.
func HTwo() {
	esc := func() []byte { return vref.Cat(`\`, vsym.ByteIn(`"\/bfnrt`)) }
	q := vref.Cat(`"`, esc())
	for i := vsym.Choose(vsym.Pick(20, 36)); i > 0; i-- {
		q = append(q, vref.Plain())
	}
	q = vref.Cat(q, esc(), esc(), vref.Plain(), `"`)
	switch vsym.Choose(2) {
	case 0:
		vref.Doc[string](q)
	case 1:
		vref.Doc[map[string]any](vref.Cat(`{`, q, `:null}`))
	}
}

// HZoo: at every place of a type, which may be populated.
func HZoo() {
	var v []byte
	switch vsym.Choose(4) {
	case 0:
		v = vref.Cat(`"`, vref.Plain(), vref.Plain(), `"`)
	case 1:
		v = vref.Cat(`"a\`, vsym.ByteIn(`"\/bfnrt`), vref.Plain(), `"`)
	case 2:
		v = vref.Cat(`"\u`, vsym.BytesIn(2, "0123456789abcdefABCDEF"), `e9\u00`, vsym.BytesIn(2, "0123456789abcdefABCDEF"), `"`)
	case 3:
		v = vref.Cat(`"0123456789abcdef\ud83d\ude`, vsym.BytesIn(2, "0123456789abcdefABCDEF"), `"`)
	}
	switch vsym.Choose(3) {
	case 0:
		vref.InZoo(v, `"w"`, func() string { return "old" })
	case 1:
		vref.InZoo(v, `"w"`, func() any { return "old" })
	case 2:
		vref.InZoo(v, `"w"`, func() text { return text{"old"} })
	}
}
