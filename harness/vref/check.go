package vref

import (
	"reflect"
	"strconv"

	jd "github.com/romshark/jscan-experimental-decoder"
	"github.com/romshark/jscan-experimental-decoder/internal/vsym"
	"github.com/romshark/jscan/v2"
)

var numberType = reflect.TypeOf(jd.Number(""))

// RefOpts translates the options.
func RefOpts(o *jd.DecodeOptions) Opts {
	return Opts{DisallowUnknown: o.DisallowUnknownFields, NoUnescape: o.DisableFieldNameUnescaping,
		NoFold: o.DisableCaseInsensitiveMatching, Number: numberType}
}

// Dec makes a decoder.
func Dec[S []byte | string, T any]() *jd.Decoder[S, T] {
	d, err := jd.NewDecoder[S, T](jscan.NewTokenizer[S](8, 64), jd.DefaultInitOptions)
	vsym.Assert(err == nil, "NewDecoder fails for a supported type")
	return d
}

// Ref decodes doc into v with the reference.
func Ref(doc []byte, v any, o *jd.DecodeOptions) (n *Node, e *Err) {
	n, ok := Parse(doc)
	if !ok {
		return nil, nil
	}
	return n, Fill(doc, n, reflect.ValueOf(v).Elem(), RefOpts(o))
}

// Identity makes Judge look at which error it is.
var Identity bool

func identity(err error, e *Err) {
	if e == nil {
		for _, x := range []error{jd.ErrUnexpectedValue, jd.ErrIntegerOverflow, jd.ErrUnknownField, jd.ErrNilDest, strconv.ErrRange} {
			vsym.Assert(!is(err, x), "invalid JSON is reported as an unfitting value")
		}
		return
	}
	vsym.Observe(int64(e.What))
	switch e.What {
	case EUnknown:
		vsym.Assert(is(err, jd.ErrUnknownField), "the error is not ErrUnknownField")
	case ECustom:
		vsym.Assert(is(err, e.Err), "the error is not the unmarshaler's")
	case EKind:
		vsym.Assert(is(err, jd.ErrUnexpectedValue), "the error is not ErrUnexpectedValue")
	case EOver:
		vsym.Assert(is(err, jd.ErrIntegerOverflow), "the error is not ErrIntegerOverflow")
	case EFloat:
		vsym.Assert(is(err, strconv.ErrRange), "the error is not strconv's")
	}
}

// DocErr compares only the error Unmarshal gives.
func DocErr[T any](doc []byte) {
	var got, want T
	err := jd.Unmarshal(doc, &got)
	n, e := Ref(doc, &want, jd.DefaultOptions)
	vsym.ObserveBool(err == nil)
	if n != nil && e == nil {
		vsym.Reach("decoded")
		vsym.Assert(err == nil, "a valid document is rejected")
		return
	}
	vsym.Reach("rejected")
	vsym.Assert(err != nil, "a document that cannot be stored is accepted")
	identity(err, e)
}

// Judge compares what Decode did with the reference. got and want point at
// the destinations of the two; the second starts with the same prior value.
func Judge(doc []byte, idx int, err error, got, want any, o *jd.DecodeOptions) {
	n, e := Ref(doc, want, o)
	vsym.ObserveBool(err == nil)
	if n == nil {
		vsym.Assert(err != nil, "an invalid document is accepted")
		vsym.Assert(vsym.And(idx >= 0, idx <= len(doc)), "the error index is outside of the input")
		if Identity {
			identity(err, nil)
		}
		return
	}
	if e == nil {
		vsym.Reach("decoded")
		vsym.Assert(err == nil, "a valid document is rejected")
		vsym.Assert(vsym.DeepEq(got, want), "the decoded value differs from the reference")
		return
	}
	vsym.Reach("rejected")
	vsym.Assert(err != nil, "a document that cannot be stored is accepted")
	vsym.Observe(int64(idx))
	vsym.Assert(vsym.Or(e.AnyIdx, idx == e.Idx), "the error index is not the start of the offending value")
	if Identity && !e.AnyIdx {
		identity(err, e)
	}
	switch e.What {
	case EUnknown:
		vsym.Assert(is(err, jd.ErrUnknownField), "the error is not ErrUnknownField")
	case ECustom:
		vsym.Assert(is(err, e.Err), "the error is not the unmarshaler's")
	default:
		vsym.Assert(!is(err, jd.ErrUnknownField), "ErrUnknownField for a known field")
	}
}

// Doc decodes doc with a []byte decoder into a fresh value and into the
// reference and compares.
func Doc[T any](doc []byte) { DocOpt[T](doc, jd.DefaultOptions, nil) }

// DocOpt is Doc with options and a prior value.
func DocOpt[T any](doc []byte, o *jd.DecodeOptions, prior func(*T)) {
	got, want := new(T), new(T)
	if prior != nil {
		prior(got)
		prior(want)
	}
	idx, err := Dec[[]byte, T]().Decode(doc, got, o)
	Judge(doc, idx, err, got, want, o)
}

// DocWith is DocOpt with a decoder and destinations made before, got and want
// hold the same.
func DocWith[S []byte | string, T any](d *jd.Decoder[S, T], doc []byte, o *jd.DecodeOptions, got, want *T) {
	idx, err := d.Decode(S(doc), got, o)
	Judge(doc, idx, err, got, want, o)
}

// DocStr is DocOpt for string input.
func DocStr[T any](doc []byte, o *jd.DecodeOptions, prior func(*T)) {
	got, want := new(T), new(T)
	if prior != nil {
		prior(got)
		prior(want)
	}
	idx, err := Dec[string, T]().Decode(string(doc), got, o)
	Judge(doc, idx, err, got, want, o)
}

// is is errors.Is for the errors at hand.
func is(err, target error) bool {
	for err != nil {
		if err == target {
			return true
		}
		u, ok := err.(interface{ Unwrap() error })
		if !ok {
			return false
		}
		err = u.Unwrap()
	}
	return false
}
