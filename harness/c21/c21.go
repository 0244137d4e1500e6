// Package c21: construction of decoders accepts supported types and cleanly
// rejects the others. A type is fixed at compile time, so the choice of the
// type is a solver variable over the tables below; the documents decoded with
// the supported ones are symbolic.
package c21

import (
	"unsafe"

	jd "github.com/romshark/jscan-experimental-decoder"
	"github.com/romshark/jscan-experimental-decoder/internal/vref"
	"github.com/romshark/jscan-experimental-decoder/internal/vsym"
	"github.com/romshark/jscan/v2"
)

var strict = &jd.InitOptions{DisallowStringTagOptOnUnsupportedTypes: true}

func newDec[T any](o *jd.InitOptions) (d *jd.Decoder[[]byte, T], err error) {
	defer func() {
		vsym.Assert(recover() == nil, "NewDecoder panics")
	}()
	return jd.NewDecoder[[]byte, T](jscan.NewTokenizer[[]byte](8, 64), o)
}

// bad: every way to make a decoder for T fails with an error.
func bad[T any]() {
	switch vsym.Choose(3) {
	case 0:
		d, err := newDec[T](jd.DefaultInitOptions)
		vsym.Assert(err != nil, "NewDecoder accepts an unsupported type")
		vsym.Assert(d == nil, "NewDecoder returns a decoder together with an error")
		vsym.Assert(err != jd.ErrStringTagOptionOnUnsupportedType, "the wrong error for an unsupported type")
	case 1:
		_, err := newDec[T](strict)
		vsym.Assert(err != nil, "NewDecoder accepts an unsupported type")
	case 2:
		var v T
		vsym.Assert(unmarshal(vref.Value(0), &v) != nil, "Unmarshal accepts an unsupported type")
	}
	vsym.Reach("refused")
}

func unmarshal[T any](b []byte, v *T) (err error) {
	defer func() {
		vsym.Assert(recover() == nil, "Unmarshal panics")
	}()
	return jd.Unmarshal(b, v)
}

// good: T is supported, with any init options, and decodes as the reference does.
func good[T any]() {
	switch vsym.Choose(3) {
	case 0:
		_, err := newDec[T](strict)
		vsym.Assert(err == nil, "NewDecoder refuses a supported type")
	case 1:
		var v, w T
		doc := vref.Value(0)
		err := unmarshal(doc, &v)
		_, e := vref.Ref(doc, &w, jd.DefaultOptions)
		vsym.Assert((err == nil) == (e == nil), "Unmarshal differs from the reference")
		if e == nil {
			vsym.Assert(vsym.DeepEq(&v, &w), "Unmarshal gives another value")
		}
	case 2:
		vref.Doc[T](vref.Value(vsym.Pick(1, 2)))
	}
	vsym.Reach("accepted")
}

func pickOf(fs []func()) { fs[vsym.Choose(len(fs))]() }

type (
	errI interface{ Error() string }
	// chains of definitions
	chanT   chan int
	fnT     func(int) string
	strT    string
	intT    int16
	boolT   bool
	flT     float32
	slT     []intT
	mapT    map[strT]intT
	arrT    [2]strT
	anyT    any
	ptrT    *int
	structT struct {
		A intT
		B slT
		C mapT
		D arrT
		E anyT
		F ptrT
		G boolT
		H flT
	}
	// text is a key by its methods only.
	text struct{ S string }
	tkey [2]byte

	recS  []recS
	recM  map[string]recM
	recP  *recP
	recA  struct{ N *[2]recA }
	recPP struct{ N **recPP }
	recSS struct{ N [][]recSS }
	inBad struct {
		A int
		B []map[string]*struct {
			X string
			Y [3]chan int
		}
	}
	inGood struct {
		A int
		B []map[string]*struct {
			X string
			Y [3]bool
		}
	}
	hidden struct {
		A int
		c chan int
		f func()
		B string
	}
	dash struct {
		C chan int `json:"-"`
		A int
	}
	dashComma struct {
		C chan int `json:"-,"`
		A int
	}
	lastBad struct {
		A, B, C, D int
		E          complex64
	}
	embBad struct {
		A int
		B struct {
			C struct {
				D struct{ E func() }
			}
		}
	}
	ifcB interface {
		errI
		Foo()
	}
)

func (t *text) UnmarshalText(b []byte) error { t.S = string(b); return nil }
func (t *tkey) UnmarshalText(b []byte) error { copy(t[:], b); return nil }

// HBad: types that cannot be decoded.
func HBad() {
	pickOf([]func(){
		bad[chan int], bad[chanT], bad[<-chan string], bad[chan<- struct{}],
		bad[func()], bad[fnT], bad[complex64], bad[complex128], bad[unsafe.Pointer],
		bad[error], bad[errI], bad[ifcB],
	})
}

// HBadIn: the same inside of other types.
func HBadIn() {
	pickOf([]func(){
		bad[[]chan int], bad[[2]func()], bad[*complex64], bad[**error], bad[map[string]errI],
		bad[struct{ A chan int }], bad[[]struct{ A fnT }], bad[map[string][]*struct {
			A int
			B complex128
		}],
		bad[[][]chanT], bad[[3][2]func()], bad[map[int]map[string]chan int], bad[[]*[]chan int],
		bad[*struct{ A *chan int }], bad[inBad], bad[[]inBad], bad[*inBad], bad[map[string]inBad],
		bad[dashComma], bad[lastBad], bad[embBad], bad[[1]lastBad], bad[struct {
			A any
			B error
		}],
		bad[struct {
			A int
			B [0]int
			C []unsafe.Pointer
		}],
	})
}

// HBadKey: key types no JSON object name converts to.
func HBadKey() {
	pickOf([]func(){
		bad[map[float64]int], bad[map[bool]string], bad[map[struct{}]int], bad[map[[2]int]int],
		bad[map[*int]int], bad[map[any]string], bad[map[complex64]int], bad[map[chan int]int],
		bad[map[float32]string], bad[map[boolT]int], bad[map[[1]string]string], bad[map[error]any],
		bad[[]map[bool]int], bad[struct {
			A int
			M map[float64]string
		}],
		bad[map[string]map[bool]bool], bad[*map[[1]byte]string], bad[map[struct{ A string }]int],
		bad[map[*string]string], bad[map[bool]struct{ A int }],
	})
}

// HBadRec: recursion without an end that is not a struct's.
func HBadRec() {
	pickOf([]func(){
		bad[recS], bad[recM], bad[recP], bad[*recS], bad[struct{ A recM }], bad[[]recP],
	})
}

// HGood: supported types and compositions of them.
func HGood() {
	pickOf([]func(){
		good[structT], good[inGood], good[hidden], good[dash], good[anyT], good[ptrT], good[mapT], good[slT], good[arrT],
		good[struct{}], good[[0]int], good[[]struct{}], good[map[string]struct{}], good[[2]struct{}], good[*struct{}],
	})
}

func HGoodKey() {
	pickOf([]func(){
		good[map[strT]bool], good[map[intT]bool], good[map[uint8]string], good[map[uint64][]int],
		good[map[text]int], good[map[tkey]string], good[map[text]string], good[map[jd.Number]int],
	})
}

func HGoodDeep() {
	pickOf([]func(){
		good[[][][]bool], good[***int], good[map[string]map[int]map[uint]string], good[[2][1][2]int],
		good[[]*map[string]*[]any], good[*[]*[2]*string], good[struct {
			A struct{ B struct{ C struct{ D []int } } }
		}],
		good[map[string]struct{ A *struct{ B map[string][]int } }], good[[]struct{ A, B []struct{ C any } }],
	})
}

// The string option: on a supported type it is in effect, which the decoded
// document shows; on another type it is ignored, or an error on request.

func strictOK[T any](want bool) {
	_, err := newDec[T](strict)
	if want {
		vsym.Assert(err == nil, "the `string` option is refused although there is none or the type supports it")
	} else {
		vsym.Assert(err == jd.ErrStringTagOptionOnUnsupportedType, "the `string` option on an unsupported type is not reported")
	}
	_, err = newDec[T](jd.DefaultInitOptions)
	vsym.Assert(err == nil, "the tag makes the type unsupported")
}

func tagDoc(x any) []byte {
	k := []string{"A", "x", "-", "string", "strin"}[vsym.Choose(5)]
	return vref.Cat(`{"`, k, `":`, x, `,"B":true}`)
}

func tagged[T any](opt bool) func() {
	return func() {
		if vsym.Choose(2) == 0 {
			strictOK[T](true)
			return
		}
		d := vref.Digit()
		x := []byte{d}
		if vsym.Choose(2) == 1 {
			x = []byte{'"', d, '"'}
		}
		vref.Doc[T](tagDoc(x))
	}
}

func untagged[T any](opt bool) func() {
	return func() {
		if vsym.Choose(2) == 0 {
			strictOK[T](!opt)
			return
		}
		vref.Doc[T](tagDoc(vref.Cat("[", vref.Digit(), "]")))
	}
}

func dashed[T any](bool) func() {
	return func() {
		if vsym.Choose(2) == 0 {
			strictOK[T](true)
			return
		}
		vref.Doc[T](tagDoc(vref.Small()))
	}
}

// HTagNum: spellings of the tag of a number field.
func HTagNum() { pickOf(tagsNum) }

// HTagOther: spellings of the tag of a slice field.
func HTagOther() { pickOf(tagsNo) }

func opt[T any](supported bool) func() {
	type S struct {
		A int
		B T `json:"b,omitempty,string"`
	}
	return func() {
		strictOK[S](supported)
		strictOK[[]S](supported)
		strictOK[map[string]*S](supported)
	}
}

// HTagType: which types support the option.
func HTagType() {
	pickOf([]func(){
		opt[bool](true), opt[string](true), opt[int](true), opt[int8](true), opt[int16](true), opt[int32](true), opt[int64](true),
		opt[uint](true), opt[uint8](true), opt[uint16](true), opt[uint32](true), opt[uint64](true), opt[float32](true), opt[float64](true),
		opt[strT](true), opt[intT](true), opt[boolT](true), opt[flT](true),
		opt[any](false), opt[jd.Number](false), opt[*int](false), opt[[]string](false), opt[map[string]int](false), opt[struct{ A int }](false), opt[struct{}](false),
		opt[[2]int](false), opt[[0]int](false), opt[text](false), opt[[]struct{}](false), opt[map[string]string](false), opt[*struct{ A string }](false),
	})
}

// badField: a field of an unsupported type is not skipped.
func badField[T any]() {
	switch vsym.Choose(3) {
	case 0:
		bad[struct {
			A int
			B T
		}]()
	case 1:
		bad[struct {
			A int
			B T `json:"b,omitempty,string"`
			C string
		}]()
	case 2:
		bad[[]*struct{ B T }]()
	}
}

// HBadField: every kind of unsupported type as a field.
func HBadField() {
	pickOf([]func(){
		badField[func()], badField[func(int)], badField[func(string, ...any) (int, error)], badField[chan<- func()],
		badField[complex64], badField[complex128], badField[unsafe.Pointer], badField[interface{ Foo() }],
		badField[map[bool]int], badField[*fnT], badField[recS],
	})
}
