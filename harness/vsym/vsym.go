// Package vsym is the interface between the harnesses and the symbolic
// executor. Every function here is replaced by the executor; the bodies are
// only used when a counterexample or a witness is replayed natively.
package vsym

import (
	"bytes"
	"math"
	"reflect"
	"runtime"
	"runtime/debug"
)

var tier int

// Tier is 0 for the quick check and 1 for the thorough one.
func Tier() int { return tier }

// Pick returns q in the quick tier and t in the thorough one.
func Pick(q, t int) int {
	if tier > 0 {
		return t
	}
	return q
}

type stopT struct{ assume bool }

// Input is one recorded input.
type Input struct {
	K string `json:"k"`
	V int    `json:"v"`
	N int    `json:"n,omitempty"`
}

var (
	vec    []Input
	pos    int
	obs    []int64
	reach  []string
	failed string
	// Strict replay: the vector must fit the calls.
	mismatch bool
	// fill makes up the inputs the vector does not have.
	fill bool
	used []Input
)

// made is the next input of the kind, or zero.
func made(k string, zero, n int) int {
	v := zero
	for i := range vec {
		if vec[i].K == k {
			v = vec[i].V
			vec = append(append([]Input(nil), vec[:i]...), vec[i+1:]...)
			break
		}
	}
	used = append(used, Input{K: k, V: v, N: n})
	return v
}

func next(k string) int {
	if pos >= len(vec) {
		mismatch = true
		panic(stopT{})
	}
	i := vec[pos]
	pos++
	if i.K != k {
		mismatch = true
		panic(stopT{})
	}
	return i.V
}

// Byte returns an arbitrary byte.
func Byte() byte {
	if fill {
		return byte(made("byte", '1', 0))
	}
	return byte(next("byte"))
}

// ByteIn returns an arbitrary byte of set.
func ByteIn(set string) byte {
	if fill {
		return byte(made("byte", int(set[0]), 0))
	}
	b := byte(next("byte"))
	if bytes.IndexByte([]byte(set), b) < 0 {
		panic(stopT{true})
	}
	return b
}

// Bytes returns n arbitrary bytes.
func Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = Byte()
	}
	return b
}

// BytesIn returns n arbitrary bytes of set.
func BytesIn(n int, set string) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = ByteIn(set)
	}
	return b
}

// Choose returns an arbitrary number in [0, n); the executor explores every one.
func Choose(n int) int {
	if fill {
		return made("choose", 0, n)
	}
	v := next("choose")
	if v >= n {
		panic(stopT{true})
	}
	return v
}

// Assume restricts the inputs.
func Assume(b bool) {
	if !b {
		panic(stopT{true})
	}
}

// Assert states the property.
func Assert(b bool, msg string) {
	if !b {
		failed = msg
		panic(stopT{})
	}
}

// And, Or and Not combine conditions without branching.
func And(a, b bool) bool { return a && b }
func Or(a, b bool) bool  { return a || b }
func Not(a bool) bool    { return !a }

// IteInt selects without branching.
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// In tells whether b is one of set.
func In(b byte, set string) bool { return bytes.IndexByte([]byte(set), b) >= 0 }

// Reach marks a program point whose reachability is reported.
func Reach(name string) { reach = append(reach, name) }

func obsInt(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

// Observe records a value that must be the same symbolically and natively.
func Observe(v int64) { obs = append(obs, v) }

// ObserveBool is Observe for conditions.
func ObserveBool(b bool) {
	if b {
		Observe(1)
	} else {
		Observe(0)
	}
}

// Symbolic tells whether the harness runs in the executor.
func Symbolic() bool { return false }

// GC runs the garbage collector (natively) to expose hidden pointers.
func GC() {
	runtime.GC()
	junk := make([][]byte, 0, 256)
	for i := 0; i < 256; i++ {
		b := make([]byte, 16+i%96)
		for j := range b {
			b[j] = 0xA5
		}
		junk = append(junk, b)
	}
	runtime.KeepAlive(junk)
	debug.FreeOSMemory()
	runtime.GC()
}

// DeepEq compares deeply: dynamic types, nil-ness, floats by bits.
func DeepEq(a, b any) bool {
	return deep(reflect.ValueOf(a), reflect.ValueOf(b), 0)
}

func deep(a, b reflect.Value, d int) bool {
	if !a.IsValid() || !b.IsValid() {
		return a.IsValid() == b.IsValid()
	}
	if a.Type() != b.Type() {
		return false
	}
	if d > 400 {
		return true
	}
	switch a.Kind() {
	case reflect.Bool:
		return a.Bool() == b.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() == b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return a.Uint() == b.Uint()
	case reflect.Float32:
		return math.Float32bits(float32(a.Float())) == math.Float32bits(float32(b.Float()))
	case reflect.Float64:
		return math.Float64bits(a.Float()) == math.Float64bits(b.Float())
	case reflect.String:
		return a.String() == b.String()
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		return a.IsNil() && b.IsNil()
	case reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return deep(a.Elem(), b.Elem(), d+1)
	case reflect.Pointer:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		if a.Pointer() == b.Pointer() {
			return true
		}
		return deep(a.Elem(), b.Elem(), d+1)
	case reflect.Slice:
		if a.IsNil() != b.IsNil() || a.Len() != b.Len() || a.Cap() < a.Len() || b.Cap() < b.Len() {
			return false // a slice longer than its capacity is none
		}
		for i := 0; i < a.Len(); i++ {
			if !deep(a.Index(i), b.Index(i), d+1) {
				return false
			}
		}
		return true
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if !deep(a.Index(i), b.Index(i), d+1) {
				return false
			}
		}
		return true
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !deep(a.Field(i), b.Field(i), d+1) {
				return false
			}
		}
		return true
	case reflect.Map:
		if a.IsNil() != b.IsNil() || a.Len() != b.Len() {
			return false
		}
		for _, k := range a.MapKeys() {
			v := b.MapIndex(k)
			if !v.IsValid() || !deep(a.MapIndex(k), v, d+1) {
				return false
			}
		}
		return true
	}
	return false
}
