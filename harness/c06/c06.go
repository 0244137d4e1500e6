// Package c06: a value of the wrong JSON type is an error at that value.
package c06

import (
	jd "github.com/romshark/jscan-experimental-decoder"
	"github.com/romshark/jscan-experimental-decoder/internal/vref"
	"github.com/romshark/jscan-experimental-decoder/internal/vsym"
)

type in[T any] struct {
	A int
	B T
	C string
}

// at puts v, any JSON value, at every place a T can have. ok is a literal T takes.
func at[T any](ok string) {
	v := vref.Value(vsym.Pick(1, 2))
	switch vsym.Choose(10) {
	case 0:
		vref.Doc[T](v)
	case 1:
		vref.DocStr[T](v, jd.DefaultOptions, nil)
	case 2:
		vref.Doc[[]T](vref.Cat("[", v, "]"))
	case 3:
		vref.Doc[[]T](vref.Cat("[", ok, ", ", v, ",", ok, "]"))
	case 4:
		vref.Doc[[2]T](vref.Cat("[", ok, ",", v, "]"))
	case 5:
		vref.Doc[in[T]](vref.Cat(`{"A":1,"B": `, v, `,"C":"x"}`))
	case 6:
		vref.Doc[map[string]T](vref.Cat(`{"k":`, ok, `,"l":`, v, `}`))
	case 7:
		vref.Doc[[]*T](vref.Cat(`[`, ok, `,`, v, `]`))
	case 8:
		vref.Doc[[][]T](vref.Cat(`[[],[`, ok, `,`, v, `]]`))
	case 9:
		vref.Doc[map[string]*in[T]](vref.Cat(`{"k":{"B":`, v, `},"l":null}`))
	}
}

type named struct {
	X int
	Y []string
}

func HBool()     { at[bool]("true") }
func HInt()      { at[int]("5") }
func HInt8()     { at[int8]("-5") }
func TInt16()    { at[int16]("5") }
func TInt32()    { at[int32]("5") }
func TInt64()    { at[int64]("5") }
func HUint()     { at[uint]("5") }
func HUint8()    { at[uint8]("5") }
func TUint16()   { at[uint16]("5") }
func TUint32()   { at[uint32]("5") }
func HUint64()   { at[uint64]("5") }
func TFloat32()  { at[float32]("5.5") }
func HFloat64()  { at[float64]("5.5") }
func HString()   { at[string](`"s"`) }
func HNumber()   { at[jd.Number]("1e5") }
func HStruct()   { at[named](`{"X":1}`) }
func TEmpty()    { at[struct{}](`{}`) }
func HArray()    { at[[2]int]("[1,2]") }
func TArray0()   { at[[0]int]("[]") }
func HMapSI()    { at[map[string]int](`{"a":1}`) }
func HMapSS()    { at[map[string]string](`{"a":"b"}`) }
func HMapIB()    { at[map[int]bool](`{"1":true}`) }
func HPtr()      { at[*int]("1") }
func TPtrStr()   { at[**string](`"a"`) }
func HSlStr()    { at[[]*string](`["a"]`) }
func TSlStruct() { at[[]named](`[{}]`) }
func HSlEmpty()  { at[[]struct{}](`[{}]`) }

// HZoo: at every place of a type, which may be populated.
func HZoo() {
	v := vref.Small()
	switch vsym.Choose(6) {
	case 0:
		vref.InZoo[bool](v, "true", nil)
	case 1:
		vref.InZoo[uint16](v, "5", nil)
	case 2:
		vref.InZoo[string](v, `"s"`, nil)
	case 3:
		vref.InZoo(v, `{"X":1}`, func() named { return named{7, []string{"y"}} })
	case 4:
		vref.InZoo(v, `[1]`, func() [2]int { return [2]int{7, 8} })
	case 5:
		vref.InZoo(v, `{"a":"b"}`, func() map[string]string { return map[string]string{"o": "o"} })
	}
}

// TZoo: more of them.
func TZoo() {
	v := vref.Value(1)
	switch vsym.Choose(8) {
	case 0:
		vref.InZoo[float32](v, "1", nil)
	case 1:
		vref.InZoo[int64](v, "5", nil)
	case 2:
		vref.InZoo[jd.Number](v, `"5"`, nil)
	case 3:
		vref.InZoo(v, `{}`, func() struct{} { return struct{}{} })
	case 4:
		vref.InZoo(v, `[]`, func() [0]int { return [0]int{} })
	case 5:
		vref.InZoo(v, `["a"]`, func() []string { return []string{"o"} })
	case 6:
		vref.InZoo(v, `{"1":[1]}`, func() map[int8][]int { return map[int8][]int{1: {7}} })
	case 7:
		vref.InZoo(v, `[{"X":1}]`, func() []*named { return []*named{{7, nil}} })
	}
}

// HAll: values at every place of every kind of type, which may be populated.
func HAll() {
	vref.InAll(vsym.Choose(vref.AllKinds), func(int) []byte { return vref.Odd() })
}
