// Package c15: decoded data never aliases the input buffer.
package c15

import (
	"encoding/json"

	jd "github.com/romshark/jscan-experimental-decoder"
	"github.com/romshark/jscan-experimental-decoder/internal/vref"
	"github.com/romshark/jscan-experimental-decoder/internal/vsym"
)

// txt unmarshals itself and copies.
type txt struct{ S string }

func (t *txt) UnmarshalText(b []byte) error { t.S = string(b); return nil }

type raw struct{ S string }

func (t *raw) UnmarshalJSON(b []byte) error { t.S = string(b); return nil }

// clobber decodes doc, overwrites the buffer and compares with a decoding of
// an intact copy.
func clobber[T any](doc []byte) {
	intact := append([]byte(nil), doc...)
	var got, want T
	_, err := vref.Dec[[]byte, T]().Decode(doc, &got, jd.DefaultOptions)
	vsym.Assert(vsym.DeepEq(doc, intact), "decoding modified its input")
	_, werr := vref.Dec[string, T]().Decode(string(intact), &want, jd.DefaultOptions)
	vsym.ObserveBool(err == nil)
	vsym.Assert((err == nil) == (werr == nil), "string and []byte input differ")
	if err != nil {
		return
	}
	vsym.Reach("decoded")
	for i := range doc {
		doc[i] = vsym.Byte()
	}
	vsym.Assert(vsym.DeepEq(&got, &want), "the decoded value changes with the input buffer")
}

// str is a string with or without escapes.
func str() []byte {
	switch vsym.Choose(5) {
	case 0:
		return vref.Cat(`"`, vref.Plain(), vref.Plain(), `"`)
	case 1:
		return vref.Cat(`"`, vref.Plain(), `\`, vsym.ByteIn(`"\/bfnrt`), `"`)
	case 2:
		return vref.Cat(`"\u00e`, vsym.ByteIn("19aA"), vref.Plain(), `"`)
	case 3:
		return vref.Cat(`"0123456789abcdef`, vref.Plain(), `"`)
	}
	return vref.Cat(`"0123456789abcdef`, vref.Plain(), `\n"`)
}

func HStrings() {
	switch vsym.Choose(16) {
	case 0:
		clobber[string](str())
	case 1:
		clobber[[]string](vref.Cat("[", str(), ",", str(), "]"))
	case 2:
		clobber[any](str())
	case 3:
		clobber[any](vref.Cat("[", str(), "]"))
	case 4:
		clobber[any](vref.Cat("{", str(), ":", str(), "}"))
	case 5:
		clobber[map[string]string](vref.Cat("{", str(), ":", str(), "}"))
	case 6:
		clobber[map[string]int](vref.Cat("{", str(), ":1,", str(), ":2}"))
	case 7:
		clobber[map[string]any](vref.Cat("{", str(), ":", str(), "}"))
	case 8:
		clobber[struct{ A, B string }](vref.Cat(`{"A":`, str(), `,"B":`, str(), `}`))
	case 9:
		clobber[*string](str())
	case 10:
		clobber[[]*string](vref.Cat("[", str(), "]"))
	case 11:
		clobber[[2]string](vref.Cat("[", str(), ",", str(), "]"))
	case 12:
		clobber[txt](str())
	case 13:
		clobber[raw](str())
	case 14:
		clobber[map[string][]string](vref.Cat("{", str(), ":[", str(), "]}"))
	case 15:
		clobber[map[string]struct{ A string }](vref.Cat("{", str(), `:{"A":`, str(), "}}"))
	}
}

type named string

func HMore() {
	n := vref.NumLit()
	switch vsym.Choose(13) {
	case 0:
		clobber[jd.Number](n)
	case 1:
		clobber[jd.Number](vref.Cat(`"`, n, `"`))
	case 2:
		clobber[[]jd.Number](vref.Cat(`[`, n, `,"`, n, `"]`))
	case 3:
		clobber[map[string]jd.Number](vref.Cat(`{`, str(), `:`, n, `}`))
	case 4:
		clobber[json.RawMessage](n)
	case 5:
		clobber[json.RawMessage](vref.Cat("[", str(), ",", n, "]"))
	case 6:
		clobber[[]json.RawMessage](vref.Cat("[", str(), ",", n, "]"))
	case 7:
		clobber[struct{ A json.RawMessage }](vref.Cat(`{"A":`, str(), "}"))
	case 8:
		clobber[named](str())
	case 9:
		clobber[map[named]named](vref.Cat("{", str(), ":", str(), "}"))
	case 10:
		clobber[struct {
			A string `json:"a,string"`
		}](vref.Cat(`{"a":"\"`, vref.Plain(), vref.Plain(), `\""}`))
	case 11:
		clobber[[]float64](vref.Cat("[", n, ",", n, "]"))
	case 12:
		clobber[struct{ A any }](vref.Cat(`{"A":[{`, str(), `:`, n, `}]}`))
	}
}

type rec struct {
	S string
	C []rec
	M map[string]rec
	P *rec
}

func HRec() {
	switch vsym.Choose(3) {
	case 0:
		clobber[rec](vref.Cat(`{"S":`, str(), `,"C":[{"S":`, str(), `}]}`))
	case 1:
		clobber[rec](vref.Cat(`{"M":{`, str(), `:{"S":`, str(), `}}}`))
	case 2:
		clobber[rec](vref.Cat(`{"P":{"S":`, str(), `,"P":{"S":"x"}}}`))
	}
}

// HText: text keys and custom unmarshalers.
func HText() {
	switch vsym.Choose(3) {
	case 0:
		clobber[map[txt]int](vref.Cat(`{`, str(), `:1}`))
	case 1:
		clobber[[]txt](vref.Cat(`[`, str(), `,`, str(), `]`))
	case 2:
		clobber[map[string]raw](vref.Cat(`{`, str(), `:[1,`, str(), `]}`))
	}
}

// HInput: failing documents don't modify the input either.
func HInput() {
	d := vref.Cat(`{"S":`, str(), `,"C":[`, vref.Small(), `,{"M":{"k":`, vref.Small(), `}}]`, vsym.ByteIn("},]x"))
	intact := append([]byte(nil), d...)
	var v rec
	vref.Dec[[]byte, rec]().Decode(d, &v, jd.DefaultOptions)
	vsym.Assert(vsym.DeepEq(d, intact), "decoding modified its input")
	var a any
	vref.Dec[[]byte, any]().Decode(d, &a, jd.DefaultOptions)
	vsym.Assert(vsym.DeepEq(d, intact), "decoding modified its input")
}

// HReused: the buffer is filled with the next document and decoded again.
func HReused() {
	buf := vref.Cat(`{"a":`, str(), `,"b":["x"]}`)
	n := len(buf)
	intact := append([]byte(nil), buf...)
	d := vref.Dec[[]byte, map[string]any]()
	var first, second, want map[string]any
	d.Decode(buf, &first, jd.DefaultOptions)
	for i := range buf {
		buf[i] = ' '
	}
	copy(buf, `{"a":"`)
	buf[6] = vref.Plain()
	buf[7] = '"'
	buf[n-1] = '}'
	d.Decode(buf, &second, jd.DefaultOptions)
	vref.Dec[string, map[string]any]().Decode(string(intact), &want, jd.DefaultOptions)
	vsym.Assert(vsym.DeepEq(&first, &want), "the decoded value changes with the input buffer")
}

// HLong: long texts, whose handling may differ from that of short ones.
func HLong() {
	n := []int{23, 33, 64, 65, 130, 260}[vsym.Choose(6)]
	text := make([]byte, n)
	for i := range text {
		text[i] = 'a' + byte(i%26)
	}
	text[vsym.Choose(2)*(n-1)] = vref.Plain()
	s := vref.Cat(`"`, text, `"`)
	switch vsym.Choose(3) {
	case 1:
		s = vref.Cat(`"\n`, text, `"`)
	case 2:
		s = vref.Cat(`"`, text, `\u00e9"`)
	}
	switch vsym.Choose(12) {
	case 0:
		clobber[string](s)
	case 1:
		clobber[any](s)
	case 2:
		clobber[any](vref.Cat("[", s, "]"))
	case 3:
		clobber[any](vref.Cat("{", s, ":1}"))
	case 4:
		clobber[[]string](vref.Cat("[", s, "]"))
	case 5:
		clobber[map[string]string](vref.Cat(`{"k":`, s, `}`))
	case 6:
		clobber[map[string]int](vref.Cat(`{`, s, `:1}`))
	case 7:
		clobber[struct{ A *string }](vref.Cat(`{"A":`, s, `}`))
	case 8:
		clobber[[]json.RawMessage](vref.Cat(`[`, s, `]`))
	case 9:
		clobber[txt](s)
	case 10:
		clobber[struct{ A jd.Number }](vref.Cat(`{"A":1.`, make0(n), vsym.ByteIn("0123456789"), `}`))
	case 11:
		clobber[jd.Number](vref.Cat(`"1`, make0(n), vsym.ByteIn("0123456789"), `"`))
	}
}

func make0(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = '0'
	}
	return b
}

// HZoo: at every place of a type.
func HZoo() {
	i := vsym.Choose(vref.ZooPlaces)
	s := str()
	switch vsym.Choose(4) {
	case 0:
		clobber[vref.Zoo[string]](vref.ZooDoc(i, s, []byte(`"w"`), []byte("1")))
	case 1:
		clobber[vref.Zoo[any]](vref.ZooDoc(i, vref.Cat(`{`, s, `:[`, s, `]}`), []byte(`"w"`), []byte("1")))
	case 2:
		clobber[vref.Zoo[map[string]string]](vref.ZooDoc(i, vref.Cat(`{`, s, `:`, s, `}`), []byte(`{"w":"w"}`), []byte("1")))
	case 3:
		clobber[vref.Zoo[jd.Number]](vref.ZooDoc(i, vref.NumLit(), []byte(`"12"`), []byte("1")))
	}
}

// HAll: at every place of every kind of type.
func HAll() {
	k := vsym.Choose(vref.AllKinds)
	switch k / 8 {
	case 0:
		inAll[vref.All0](k)
	case 1:
		inAll[vref.All1](k)
	case 2:
		inAll[vref.All2](k)
	case 3:
		inAll[vref.All3](k)
	}
}

func inAll[T any](k int) {
	p := vref.AllPlace(k)
	v := vref.AllAlt(k)
	if k == vref.KString && p != vref.PQuoted || k == vref.KText || k == vref.KPText || k == vref.KAny {
		v = str()
	}
	clobber[T](vref.AllDoc(k, p, v))
}
