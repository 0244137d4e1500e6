// Package c05: decoding into any builds the generic model.
package c05

import (
	jd "github.com/romshark/jscan-experimental-decoder"
	"github.com/romshark/jscan-experimental-decoder/internal/vref"
	"github.com/romshark/jscan-experimental-decoder/internal/vsym"
)

func prior(v *any) {
	*v = map[string]any{"a": "old", "z": []any{1.0}}
}

// HTop: every shape up to the depth.
func HTop() { vref.Doc[any](vref.Value(2)) }

// HPrior: the old value does not show through.
func HPrior() {
	switch vsym.Choose(3) {
	case 0:
		vref.DocOpt[any](vref.Value(1), jd.DefaultOptions, prior)
	case 1:
		vref.DocOpt[any](vref.Value(1), jd.DefaultOptions, func(v *any) { *v = []any{"x", 2.0, nil} })
	case 2:
		vref.DocOpt[any](vref.Value(1), jd.DefaultOptions, func(v *any) { *v = 3 })
	}
}

// HIn: any as an element, a field, a map value, behind a pointer.
func HIn() {
	v := vref.Value(1)
	switch vsym.Choose(7) {
	case 0:
		vref.Doc[[]any](vref.Cat("[", v, ",", vref.Small(), "]"))
	case 1:
		vref.Doc[map[string]any](vref.Cat("{", vref.Key(), ":", v, ",", vref.Key(), ":", vref.Small(), "}"))
	case 2:
		vref.Doc[struct{ A, B any }](vref.Cat(`{"A":`, v, `,"B":`, vref.Small(), "}"))
	case 3:
		vref.Doc[[2]any](vref.Cat("[", vref.Small(), ",", v, "]"))
	case 4:
		vref.Doc[*any](v)
	case 5:
		vref.Doc[[][]any](vref.Cat("[[", v, "],[],[", vref.Small(), "]]"))
	case 6:
		vref.Doc[map[string][]any](vref.Cat(`{"k":[`, v, `],"l":[`, vref.Small(), `]}`))
	}
}

// HObj: objects with several, possibly equal or escaped, keys.
func HObj() {
	key := func() []byte {
		switch vsym.Choose(3) {
		case 0:
			return vref.Cat(`"`, vsym.ByteIn("ab"), `"`)
		case 1:
			return vref.Cat(`"\u006`, vsym.ByteIn("12"), `"`)
		}
		return vref.Cat(`"`, vref.Plain(), `"`)
	}
	vref.Doc[any](vref.Cat("{", key(), ":1,", key(), ":", vref.Small(), ",", key(), ":[true]}"))
}

// HLong: arrays with many elements.
func HLong() {
	n := 3 + vsym.Choose(vsym.Pick(8, 20))
	b := []byte("[")
	for i := 0; i < n; i++ {
		if i > 0 {
			b = append(b, ',')
		}
		switch i % 4 {
		case 0:
			b = append(b, vref.Digit())
		case 1:
			b = vref.Cat(b, `"`, vref.Plain(), `"`)
		case 2:
			b = vref.Cat(b, `{"k":`, vref.Digit(), `}`)
		case 3:
			b = vref.Cat(b, `[null,`, vref.Digit(), `]`)
		}
	}
	vref.DocStr[any](append(b, ']'), jd.DefaultOptions, nil)
}

// HDeep: deep nesting.
func HDeep() {
	n := 1 + vsym.Choose(vsym.Pick(12, 40))
	var o, c []byte
	for i := 0; i < n; i++ {
		if i%3 == 2 {
			o = append(o, `{"k":`...)
			c = append([]byte("}"), c...)
		} else {
			o = append(o, '[')
			c = append([]byte("]"), c...)
		}
	}
	vref.Doc[any](vref.Cat(o, vref.Small(), c))
}

// HNumbers: numbers as float64.
func HNumbers() { vref.Doc[any](vref.Cat("[", vref.NumLit(), ",", vref.NumLit(), "]")) }

// HZoo: at every place of a type, which may be populated.
func HZoo() {
	vref.InZoo(vref.Value(1), `{"w":[]}`, func() any { return map[string]any{"old": []any{1.0}} })
}
