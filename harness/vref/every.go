package vref

import (
	"errors"

	jd "github.com/romshark/jscan-experimental-decoder"
	"github.com/romshark/jscan-experimental-decoder/internal/vsym"
)

// AllPoint is a struct.
type AllPoint struct {
	X int
	Y string
}

// AllTree is a recursive struct.
type AllTree struct {
	V uint16
	C []AllTree
	P *AllTree
	M map[string]AllTree
}

var errAll = errors.New("refused")

// AllJSON is a json.Unmarshaler.
type AllJSON struct{ S string }

func (u *AllJSON) UnmarshalJSON(b []byte) error {
	if b[0] == 't' {
		return errAll
	}
	u.S = string(b)
	return nil
}

// AllText is an encoding.TextUnmarshaler.
type AllText struct{ S string }

func (u *AllText) UnmarshalText(b []byte) error {
	if len(b) > 0 && b[0] == '7' {
		return errAll
	}
	u.S = string(b)
	return nil
}

func allPtr() *int8 { i := int8(77); return &i }

func allPPtr() **string { s := "old"; p := &s; return &p }

// the places a kind of an All has
const (
	PField = iota
	PSlice
	PArray
	PMap
	PPointer
	PNested
	PQuoted   // a `string` field, the value in quotes
	PUnquoted // a `string` field
	PKey
	AllPlaces
)

// AllPlace is a place of kind k.
func AllPlace(k int) int {
	x := allKinds[k]
	switch {
	case x.quoted && x.key:
		return vsym.Choose(AllPlaces)
	case x.quoted:
		return vsym.Choose(PUnquoted + 1)
	case x.key:
		p := vsym.Choose(PNested + 2)
		if p == PNested+1 {
			return PKey
		}
		return p
	}
	return vsym.Choose(PNested + 1)
}

// AllFits is a value that fits kind k.
func AllFits(k int) string { return allKinds[k].fits }

// AllAlt is another value that fits kind k, for the composite ones in part.
func AllAlt(k int) []byte { return []byte(allKinds[k].alt) }

// quote puts a value into a string.
func quote(v []byte) []byte {
	b := []byte{'"'}
	for i, c := range v {
		if i == 0 && c == '"' || i == len(v)-1 && c == '"' {
			b = append(b, '\\')
		}
		b = append(b, c)
	}
	return append(b, '"')
}

// AllDoc is a document for an All with v at the place p of the kind k.
func AllDoc(k, p int, v []byte) []byte {
	n, w := allKinds[k].name, allKinds[k].fits
	var m []byte
	switch p {
	case PField:
		m = Cat(`"`, n, `":`, v)
	case PSlice:
		m = Cat(`"`, n, `L":[`, w, `,`, v, `,`, w, `]`)
	case PArray:
		m = Cat(`"`, n, `A":[`, w, `,`, v, `]`)
	case PMap:
		m = Cat(`"`, n, `M":{"k":`, w, `,"l":`, v, `,"m":`, w, `}`)
	case PPointer:
		m = Cat(`"`, n, `P":`, v)
	case PNested:
		m = Cat(`"`, n, `N":[[`, v, `,`, w, `],[],[`, w, `,`, v, `]]`)
	case PQuoted:
		m = Cat(`"`, n, `Q":`, quote(v))
	case PUnquoted:
		m = Cat(`"`, n, `Q":`, v)
	case PKey:
		x := v
		if len(v) < 2 || v[0] != '"' {
			x = Cat(`"`, v, `"`)
		}
		m = Cat(`"`, n, `K":{`, x, `:5}`)
	}
	return Cat(`{"Z0":`, Pos(), `,`, m, `,"Z1":5}`)
}

// Basic tells whether slices of kind k have a fast path, so that null over an
// existing element is left open.
func Basic(k int) bool { return k <= KString }

var allDigits = [AllKinds]int{KInt: 19, KInt8: 3, KInt16: 5, KInt32: 10, KInt64: 19, KUint: 20, KUint8: 3, KUint16: 5, KUint32: 10, KUint64: 20}

// AllNum is a number literal for a kind of numbers, at the limits of the kind.
func AllNum(k int) []byte {
	if n := allDigits[k]; n > 0 {
		return IntN(n+vsym.Choose(2), vsym.Choose(2) == 1)
	}
	switch vsym.Choose(3) {
	case 0:
		return NumLit()
	case 1:
		return IntN(8, false)
	}
	return Cat(Pos(), "e", vsym.ByteIn("-+"), vsym.ByteIn("23"), vsym.ByteIn("0349"), Digit())
}

// Odd is one of many values, most of which do not fit a kind.
func Odd() []byte {
	switch vsym.Choose(13) {
	case 0:
		return []byte("null")
	case 1:
		if vsym.Choose(2) == 1 {
			return []byte("false")
		}
		return []byte("true")
	case 2:
		return IntN(1, false)
	case 3:
		return IntN(1, true)
	case 4:
		return Cat(Pos(), "e", vsym.ByteIn("012"))
	case 5:
		return Cat("-", Digit(), ".0")
	case 6:
		return []byte(`""`)
	case 7:
		return Cat(`"`, Plain(), `"`)
	case 8:
		return Cat(`"`, Pos(), `"`)
	case 9:
		return []byte("[]")
	case 10:
		return Cat("[", Pos(), "]")
	case 11:
		return []byte("{}")
	}
	return Cat(`{"`, vsym.ByteIn("X1"), `":`, Pos(), `}`)
}

// AllOf is an AllN that can be populated.
type AllOf[T any] interface {
	*T
	Fill(k, grow int)
}

// InAll decodes what gen gives for the place at every place of kind k, in a
// struct that may be populated, with a slice that may have to grow. What all documents have in common comes first.
func InAll(k int, gen func(p int) []byte) {
	switch k / 8 {
	case 0:
		inAll[All0](k, gen)
	case 1:
		inAll[All1](k, gen)
	case 2:
		inAll[All2](k, gen)
	case 3:
		inAll[All3](k, gen)
	}
}

func inAll[T any, P AllOf[T]](k int, gen func(p int) []byte) {
	p := AllPlace(k)
	old := vsym.Choose(2)
	if old == 1 && p == PSlice {
		old += vsym.Choose(2)
	}
	str := (k + p + old) % 2
	if vsym.Pick(0, 1) == 1 {
		str = vsym.Choose(2)
	}
	got, want := new(T), new(T)
	if old > 0 {
		P(got).Fill(k, 1-old)
		P(want).Fill(k, 1-old)
	}
	if str == 0 {
		dec := Dec[[]byte, T]()
		if d := allDoc(k, p, old, gen); d != nil {
			DocWith(dec, d, jd.DefaultOptions, got, want)
		}
		return
	}
	dec := Dec[string, T]()
	if d := allDoc(k, p, old, gen); d != nil {
		DocWith(dec, d, jd.DefaultOptions, got, want)
	}
}

func allDoc(k, p, old int, gen func(p int) []byte) []byte {
	v := gen(p)
	if old > 0 && v[0] == 'n' && (p == PSlice || p == PNested) && Basic(k) {
		return nil
	}
	return AllDoc(k, p, v)
}

// AllList decodes an array of n elements of kind k, v at one of them, into a slice.
func AllList(k, n int, v []byte) {
	at := vsym.Choose(n)
	d := Cat(`{"Z0":5,"`, allKinds[k].name, `L":[`)
	for i := 0; i < n; i++ {
		if i > 0 {
			d = append(d, ',')
		}
		if i == at {
			d = append(d, v...)
		} else {
			d = append(d, allKinds[k].fits...)
		}
	}
	d = Cat(d, `],"Z1":`, Pos(), `}`)
	switch k / 8 {
	case 0:
		Doc[All0](d)
	case 1:
		Doc[All1](d)
	case 2:
		Doc[All2](d)
	case 3:
		Doc[All3](d)
	}
}
