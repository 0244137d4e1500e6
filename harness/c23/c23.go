// Package c23: separate decoders can be used at the same time.
package c23

import (
	"encoding/json"

	jd "github.com/romshark/jscan-experimental-decoder"
	"github.com/romshark/jscan-experimental-decoder/internal/vref"
	"github.com/romshark/jscan-experimental-decoder/internal/vsym"
	"github.com/romshark/jscan/v2"
)

// together decodes doc, which is shared, by every entry point with decoders
// and destinations of its own, with or without an earlier call for the type.
func together[T any](doc []byte, opts func() *jd.DecodeOptions) {
	str := string(doc)
	init := &jd.InitOptions{}
	entry := vsym.Choose(4)
	warm := (entry+len(doc))%2 == 1
	if vsym.Pick(0, 1) == 1 {
		warm = vsym.Choose(2) == 1
	}
	switch entry {
	case 0:
		if warm {
			_ = jd.Unmarshal(doc, new(T))
		}
		vsym.Concurrently(func() {
			var v T
			_ = jd.Unmarshal(doc, &v)
		})
	case 1:
		if warm {
			_ = jd.Unmarshal(str, new(T))
		}
		vsym.Concurrently(func() {
			var v T
			_ = jd.Unmarshal(str, &v)
		})
	case 2:
		o := opts()
		if warm {
			_, _ = vref.Dec[[]byte, T]().Decode(doc, new(T), o)
		}
		vsym.Concurrently(func() {
			d, err := jd.NewDecoder[[]byte, T](jscan.NewTokenizer[[]byte](8, 64), init)
			vsym.Assert(err == nil, "NewDecoder fails for a supported type")
			var v, w T
			_, _ = d.Decode(doc, &v, o)
			_, _ = d.Decode(doc, &w, o)
		})
	case 3:
		o := opts()
		if warm {
			_, _ = vref.Dec[string, T]().Decode(str, new(T), o)
		}
		vsym.Concurrently(func() {
			d, err := jd.NewDecoder[string, T](jscan.NewTokenizer[string](8, 64), jd.DefaultInitOptions)
			vsym.Assert(err == nil, "NewDecoder fails for a supported type")
			var v T
			_, _ = d.Decode(str, &v, o)
			_, _ = d.Decode(str, &v, o)
		})
	}
	vsym.Reach("finished")
}

func std() *jd.DecodeOptions { return jd.DefaultOptions }

func opts() *jd.DecodeOptions {
	switch vsym.Choose(3) {
	case 1:
		return &jd.DecodeOptions{DisallowUnknownFields: true, DisableFieldNameUnescaping: true}
	case 2:
		return &jd.DecodeOptions{DisableCaseInsensitiveMatching: true}
	}
	return jd.DefaultOptions
}

type unm struct{ S string }

func (u *unm) UnmarshalJSON(b []byte) error { u.S = string(b); return nil }

type txt struct{ S string }

func (u *txt) UnmarshalText(b []byte) error { u.S = string(b); return nil }

type rec struct {
	S string
	P *rec
	Q []rec
	M map[string]rec
}

type all struct {
	A  any
	B  bool
	C  int8
	D  uint64
	E  float32
	F  float64
	G  string
	H  jd.Number
	I  unm
	J  txt
	K  []int
	L  []string
	M  []bool
	N  []float64
	O  map[string]string
	P  map[string]any
	Q  map[int]string
	R  map[txt]int
	S  *int
	T  []*string
	U  [2]int8
	V  struct{}
	W  []struct{}
	X  rec
	Y  json.RawMessage
	Z  [][]uint16
	AA int     `json:"aa,string"`
	AB string  `json:"ab,string"`
	AC float64 `json:"ac,string"`
	AD []struct {
		X int
		Y *string
	}
}

var names = []string{"A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T",
	"U", "V", "W", "X", "Y", "Z", "aa", "ab", "ac", "AD", "x", `\u0041`}

func name() string { return names[vsym.Choose(len(names))] }

// HMember: every kind of member with any value.
func HMember() {
	if vsym.Choose(2) == 0 {
		together[all](vref.Cat(`{"`, name(), `":`, vref.Value(1), `}`), std)
	} else {
		together[all](vref.Cat(`{"`, name(), `":`, vref.Small(), `}`), opts)
	}
}

// HNumber: numbers.
func HNumber() {
	together[all](vref.Cat(`{"`, name(), `":`, vref.NumLit(), `}`), std)
}

// HString: strings, with escapes, and as keys.
func HString() {
	s := vref.Cat(vref.Plain(), `\u00`, vsym.BytesIn(1, "0123456789abcdef"), "e", vref.Plain())
	switch vsym.Choose(5) {
	case 0:
		together[all](vref.Cat(`{"`, name(), `":"`, s, `"}`), std)
	case 1:
		together[all](vref.Cat(`{"`, name(), `":{"`, s, `":"`, s, `"}}`), std)
	case 2:
		together[all](vref.Cat(`{"`, name(), `":["`, s, `","abc"]}`), std)
	case 3:
		together[all](vref.Cat(`{"`, s, `":1}`), opts)
	case 4:
		together[all](vref.Cat(`{"`, name(), `":"`, vref.Int(3), `"}`), opts)
	}
}

// HArray: arrays of every kind of member.
func HArray() {
	v := vref.Small()
	switch vsym.Choose(3) {
	case 0:
		together[all](vref.Cat(`{"`, name(), `":[`, v, `,`, vref.Digit(), `]}`), std)
	case 1:
		together[all](vref.Cat(`{"`, name(), `":[[],[`, v, `]]}`), std)
	case 2:
		together[all](vref.Cat(`{"`, name(), `":[{"X":`, v, `}]}`), opts)
	}
}

// HRecursive: recursive types.
func HRecursive() {
	v := vref.Small()
	switch vsym.Choose(3) {
	case 0:
		together[rec](vref.Cat(`{"P":{"S":`, v, `},"Q":[{"S":"a"},{"M":{"a":{"S":"b"},"b":`, v, `}}]}`), std)
	case 1:
		together[[]rec](vref.Cat(`[{"P":{"Q":[{},{"S":`, v, `}]}},{}]`), opts)
	case 2:
		together[map[string]*rec](vref.Cat(`{"k":{"P":`, v, `},"l":{"M":{"a":{},"b":{}}}}`), std)
	}
}

// HRoot: other roots.
func HRoot() {
	v := vref.Value(vsym.Pick(1, 2))
	switch vsym.Choose(8) {
	case 0:
		together[any](v, std)
	case 1:
		together[[]any](vref.Cat("[", v, "]"), std)
	case 2:
		together[map[string]string](v, std)
	case 3:
		together[*int](v, std)
	case 4:
		together[string](v, std)
	case 5:
		together[unm](v, std)
	case 6:
		together[[]float32](v, std)
	case 7:
		together[map[string][]int](v, std)
	}
}

// HInvalid: documents that are refused.
func HInvalid() {
	h := vsym.Bytes(1)
	switch vsym.Choose(3) {
	case 0:
		together[all](vref.Cat(`{"A":1`, h, `"B":true}`), std)
	case 1:
		together[any](vref.Cat(`[1,"a`, h, `"]`), std)
	case 2:
		together[rec](vref.Cat(`{"P":{"S":"x"}`, h), opts)
	}
}

// HZoo: a value at every place of a type.
func HZoo() {
	i := vsym.Choose(vref.ZooPlaces)
	v := vref.Scalar()
	switch vsym.Choose(3) {
	case 0:
		together[vref.Zoo[int]](vref.ZooDoc(i, v, []byte("1"), []byte("2")), std)
	case 1:
		together[vref.Zoo[string]](vref.ZooDoc(i, v, []byte(`"w\n"`), []byte("2")), std)
	case 2:
		together[vref.Zoo[any]](vref.ZooDoc(i, v, []byte(`[{"a":1}]`), []byte("2")), std)
	}
}
