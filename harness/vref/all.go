// Code generated by tools/gen_all.py. DO NOT EDIT.

package vref

import jd "github.com/romshark/jscan-experimental-decoder"

// All0 has a field of every kind from 0 in every kind of container.
type All0 struct {
	Z0     int
	Bool   bool
	BoolL  []bool
	BoolA  [2]bool
	BoolM  map[string]bool
	BoolP  *bool
	BoolN  [][]bool
	BoolQ  bool `json:",string"`
	Int    int
	IntL   []int
	IntA   [2]int
	IntM   map[string]int
	IntP   *int
	IntN   [][]int
	IntQ   int `json:",string"`
	IntK   map[int]int
	Int8   int8
	Int8L  []int8
	Int8A  [2]int8
	Int8M  map[string]int8
	Int8P  *int8
	Int8N  [][]int8
	Int8Q  int8 `json:",string"`
	Int8K  map[int8]int
	Int16  int16
	Int16L []int16
	Int16A [2]int16
	Int16M map[string]int16
	Int16P *int16
	Int16N [][]int16
	Int16Q int16 `json:",string"`
	Int16K map[int16]int
	Int32  int32
	Int32L []int32
	Int32A [2]int32
	Int32M map[string]int32
	Int32P *int32
	Int32N [][]int32
	Int32Q int32 `json:",string"`
	Int32K map[int32]int
	Int64  int64
	Int64L []int64
	Int64A [2]int64
	Int64M map[string]int64
	Int64P *int64
	Int64N [][]int64
	Int64Q int64 `json:",string"`
	Int64K map[int64]int
	Uint   uint
	UintL  []uint
	UintA  [2]uint
	UintM  map[string]uint
	UintP  *uint
	UintN  [][]uint
	UintQ  uint `json:",string"`
	UintK  map[uint]int
	Uint8  uint8
	Uint8L []uint8
	Uint8A [2]uint8
	Uint8M map[string]uint8
	Uint8P *uint8
	Uint8N [][]uint8
	Uint8Q uint8 `json:",string"`
	Uint8K map[uint8]int
	Z1     int
}

// All1 has a field of every kind from 8 in every kind of container.
type All1 struct {
	Z0       int
	Uint16   uint16
	Uint16L  []uint16
	Uint16A  [2]uint16
	Uint16M  map[string]uint16
	Uint16P  *uint16
	Uint16N  [][]uint16
	Uint16Q  uint16 `json:",string"`
	Uint16K  map[uint16]int
	Uint32   uint32
	Uint32L  []uint32
	Uint32A  [2]uint32
	Uint32M  map[string]uint32
	Uint32P  *uint32
	Uint32N  [][]uint32
	Uint32Q  uint32 `json:",string"`
	Uint32K  map[uint32]int
	Uint64   uint64
	Uint64L  []uint64
	Uint64A  [2]uint64
	Uint64M  map[string]uint64
	Uint64P  *uint64
	Uint64N  [][]uint64
	Uint64Q  uint64 `json:",string"`
	Uint64K  map[uint64]int
	Float32  float32
	Float32L []float32
	Float32A [2]float32
	Float32M map[string]float32
	Float32P *float32
	Float32N [][]float32
	Float32Q float32 `json:",string"`
	Float64  float64
	Float64L []float64
	Float64A [2]float64
	Float64M map[string]float64
	Float64P *float64
	Float64N [][]float64
	Float64Q float64 `json:",string"`
	String   string
	StringL  []string
	StringA  [2]string
	StringM  map[string]string
	StringP  *string
	StringN  [][]string
	StringQ  string `json:",string"`
	StringK  map[string]int
	Number   jd.Number
	NumberL  []jd.Number
	NumberA  [2]jd.Number
	NumberM  map[string]jd.Number
	NumberP  *jd.Number
	NumberN  [][]jd.Number
	Any      any
	AnyL     []any
	AnyA     [2]any
	AnyM     map[string]any
	AnyP     *any
	AnyN     [][]any
	Z1       int
}

// All2 has a field of every kind from 16 in every kind of container.
type All2 struct {
	Z0      int
	Point   AllPoint
	PointL  []AllPoint
	PointA  [2]AllPoint
	PointM  map[string]AllPoint
	PointP  *AllPoint
	PointN  [][]AllPoint
	Empty   struct{}
	EmptyL  []struct{}
	EmptyA  [2]struct{}
	EmptyM  map[string]struct{}
	EmptyP  *struct{}
	EmptyN  [][]struct{}
	Ptr     *int8
	PtrL    []*int8
	PtrA    [2]*int8
	PtrM    map[string]*int8
	PtrP    **int8
	PtrN    [][]*int8
	Slice   []int8
	SliceL  [][]int8
	SliceA  [2][]int8
	SliceM  map[string][]int8
	SliceP  *[]int8
	SliceN  [][][]int8
	Strs    []string
	StrsL   [][]string
	StrsA   [2][]string
	StrsM   map[string][]string
	StrsP   *[]string
	StrsN   [][][]string
	Array   [2]uint16
	ArrayL  [][2]uint16
	ArrayA  [2][2]uint16
	ArrayM  map[string][2]uint16
	ArrayP  *[2]uint16
	ArrayN  [][][2]uint16
	Array0  [0]int
	Array0L [][0]int
	Array0A [2][0]int
	Array0M map[string][0]int
	Array0P *[0]int
	Array0N [][][0]int
	Map     map[string]int
	MapL    []map[string]int
	MapA    [2]map[string]int
	MapM    map[string]map[string]int
	MapP    *map[string]int
	MapN    [][]map[string]int
	Z1      int
}

// All3 has a field of every kind from 24 in every kind of container.
type All3 struct {
	Z0     int
	MapSS  map[string]string
	MapSSL []map[string]string
	MapSSA [2]map[string]string
	MapSSM map[string]map[string]string
	MapSSP *map[string]string
	MapSSN [][]map[string]string
	MapIB  map[int16]bool
	MapIBL []map[int16]bool
	MapIBA [2]map[int16]bool
	MapIBM map[string]map[int16]bool
	MapIBP *map[int16]bool
	MapIBN [][]map[int16]bool
	JSON   AllJSON
	JSONL  []AllJSON
	JSONA  [2]AllJSON
	JSONM  map[string]AllJSON
	JSONP  *AllJSON
	JSONN  [][]AllJSON
	Text   AllText
	TextL  []AllText
	TextA  [2]AllText
	TextM  map[string]AllText
	TextP  *AllText
	TextN  [][]AllText
	TextK  map[AllText]int
	PJSON  *AllJSON
	PJSONL []*AllJSON
	PJSONA [2]*AllJSON
	PJSONM map[string]*AllJSON
	PJSONP **AllJSON
	PJSONN [][]*AllJSON
	PText  *AllText
	PTextL []*AllText
	PTextA [2]*AllText
	PTextM map[string]*AllText
	PTextP **AllText
	PTextN [][]*AllText
	Tree   AllTree
	TreeL  []AllTree
	TreeA  [2]AllTree
	TreeM  map[string]AllTree
	TreeP  *AllTree
	TreeN  [][]AllTree
	PPtr   **string
	PPtrL  []**string
	PPtrA  [2]**string
	PPtrM  map[string]**string
	PPtrP  ***string
	PPtrN  [][]**string
	Z1     int
}

// AllKinds is the number of kinds.
const AllKinds = 32

// the kinds
const (
	KBool    = 0
	KInt     = 1
	KInt8    = 2
	KInt16   = 3
	KInt32   = 4
	KInt64   = 5
	KUint    = 6
	KUint8   = 7
	KUint16  = 8
	KUint32  = 9
	KUint64  = 10
	KFloat32 = 11
	KFloat64 = 12
	KString  = 13
	KNumber  = 14
	KAny     = 15
	KPoint   = 16
	KEmpty   = 17
	KPtr     = 18
	KSlice   = 19
	KStrs    = 20
	KArray   = 21
	KArray0  = 22
	KMap     = 23
	KMapSS   = 24
	KMapIB   = 25
	KJSON    = 26
	KText    = 27
	KPJSON   = 28
	KPText   = 29
	KTree    = 30
	KPPtr    = 31
)

type allKind struct {
	name, fits, alt string
	quoted, key     bool
}

var allKinds = [AllKinds]allKind{
	{"Bool", `true`, `false`, true, false},
	{"Int", `5`, `-6`, true, true},
	{"Int8", `5`, `-6`, true, true},
	{"Int16", `5`, `-6`, true, true},
	{"Int32", `5`, `-6`, true, true},
	{"Int64", `5`, `-6`, true, true},
	{"Uint", `5`, `6`, true, true},
	{"Uint8", `5`, `6`, true, true},
	{"Uint16", `5`, `6`, true, true},
	{"Uint32", `5`, `6`, true, true},
	{"Uint64", `5`, `6`, true, true},
	{"Float32", `5.5`, `6`, true, false},
	{"Float64", `5.5`, `6`, true, false},
	{"String", `"s"`, `"nu"`, true, true},
	{"Number", `5`, `-6.5`, false, false},
	{"Any", `"a"`, `{"b":[6]}`, false, false},
	{"Point", `{"X":5}`, `{"Y":"n"}`, false, false},
	{"Empty", `{}`, `{"X":6}`, false, false},
	{"Ptr", `5`, `-6`, false, false},
	{"Slice", `[5]`, `[6,-7,8]`, false, false},
	{"Strs", `["s"]`, `["n","u"]`, false, false},
	{"Array", `[5,6]`, `[6]`, false, false},
	{"Array0", `[]`, `[6]`, false, false},
	{"Map", `{"a":5}`, `{"b":6}`, false, false},
	{"MapSS", `{"a":"s"}`, `{"b":"n"}`, false, false},
	{"MapIB", `{"5":true}`, `{"-6":true}`, false, false},
	{"JSON", `5`, `[ 6]`, false, false},
	{"Text", `"s"`, `"nu"`, false, true},
	{"PJSON", `5`, `{"b":6}`, false, false},
	{"PText", `"s"`, `"nu"`, false, false},
	{"Tree", `{"V":5}`, `{"C":[{"V":6},{}]}`, false, false},
	{"PPtr", `"s"`, `"nu"`, false, false},
}

// Fill populates the fields of kind k. The slice has a capacity of 3+grow.
func (z *All0) Fill(k, grow int) {
	z.Z0, z.Z1 = 91, 92
	switch k {
	case KBool:
		mk := func() bool { return true }
		p := mk()
		z.Bool, z.BoolL, z.BoolA, z.BoolP = mk(), make([]bool, 2, 3+grow), [2]bool{mk(), mk()}, &p
		z.BoolL[0], z.BoolL[1] = mk(), mk()
		z.BoolM, z.BoolN = map[string]bool{"l": mk(), "z": mk()}, [][]bool{{mk(), mk()}, {mk()}}
		z.BoolQ = mk()
	case KInt:
		mk := func() int { return 77 }
		p := mk()
		z.Int, z.IntL, z.IntA, z.IntP = mk(), make([]int, 2, 3+grow), [2]int{mk(), mk()}, &p
		z.IntL[0], z.IntL[1] = mk(), mk()
		z.IntM, z.IntN = map[string]int{"l": mk(), "z": mk()}, [][]int{{mk(), mk()}, {mk()}}
		z.IntQ = mk()
		z.IntK = map[int]int{77: 1}
	case KInt8:
		mk := func() int8 { return 77 }
		p := mk()
		z.Int8, z.Int8L, z.Int8A, z.Int8P = mk(), make([]int8, 2, 3+grow), [2]int8{mk(), mk()}, &p
		z.Int8L[0], z.Int8L[1] = mk(), mk()
		z.Int8M, z.Int8N = map[string]int8{"l": mk(), "z": mk()}, [][]int8{{mk(), mk()}, {mk()}}
		z.Int8Q = mk()
		z.Int8K = map[int8]int{77: 1}
	case KInt16:
		mk := func() int16 { return 77 }
		p := mk()
		z.Int16, z.Int16L, z.Int16A, z.Int16P = mk(), make([]int16, 2, 3+grow), [2]int16{mk(), mk()}, &p
		z.Int16L[0], z.Int16L[1] = mk(), mk()
		z.Int16M, z.Int16N = map[string]int16{"l": mk(), "z": mk()}, [][]int16{{mk(), mk()}, {mk()}}
		z.Int16Q = mk()
		z.Int16K = map[int16]int{77: 1}
	case KInt32:
		mk := func() int32 { return 77 }
		p := mk()
		z.Int32, z.Int32L, z.Int32A, z.Int32P = mk(), make([]int32, 2, 3+grow), [2]int32{mk(), mk()}, &p
		z.Int32L[0], z.Int32L[1] = mk(), mk()
		z.Int32M, z.Int32N = map[string]int32{"l": mk(), "z": mk()}, [][]int32{{mk(), mk()}, {mk()}}
		z.Int32Q = mk()
		z.Int32K = map[int32]int{77: 1}
	case KInt64:
		mk := func() int64 { return 77 }
		p := mk()
		z.Int64, z.Int64L, z.Int64A, z.Int64P = mk(), make([]int64, 2, 3+grow), [2]int64{mk(), mk()}, &p
		z.Int64L[0], z.Int64L[1] = mk(), mk()
		z.Int64M, z.Int64N = map[string]int64{"l": mk(), "z": mk()}, [][]int64{{mk(), mk()}, {mk()}}
		z.Int64Q = mk()
		z.Int64K = map[int64]int{77: 1}
	case KUint:
		mk := func() uint { return 77 }
		p := mk()
		z.Uint, z.UintL, z.UintA, z.UintP = mk(), make([]uint, 2, 3+grow), [2]uint{mk(), mk()}, &p
		z.UintL[0], z.UintL[1] = mk(), mk()
		z.UintM, z.UintN = map[string]uint{"l": mk(), "z": mk()}, [][]uint{{mk(), mk()}, {mk()}}
		z.UintQ = mk()
		z.UintK = map[uint]int{77: 1}
	case KUint8:
		mk := func() uint8 { return 77 }
		p := mk()
		z.Uint8, z.Uint8L, z.Uint8A, z.Uint8P = mk(), make([]uint8, 2, 3+grow), [2]uint8{mk(), mk()}, &p
		z.Uint8L[0], z.Uint8L[1] = mk(), mk()
		z.Uint8M, z.Uint8N = map[string]uint8{"l": mk(), "z": mk()}, [][]uint8{{mk(), mk()}, {mk()}}
		z.Uint8Q = mk()
		z.Uint8K = map[uint8]int{77: 1}
	}
}

// Fill populates the fields of kind k. The slice has a capacity of 3+grow.
func (z *All1) Fill(k, grow int) {
	z.Z0, z.Z1 = 91, 92
	switch k {
	case KUint16:
		mk := func() uint16 { return 77 }
		p := mk()
		z.Uint16, z.Uint16L, z.Uint16A, z.Uint16P = mk(), make([]uint16, 2, 3+grow), [2]uint16{mk(), mk()}, &p
		z.Uint16L[0], z.Uint16L[1] = mk(), mk()
		z.Uint16M, z.Uint16N = map[string]uint16{"l": mk(), "z": mk()}, [][]uint16{{mk(), mk()}, {mk()}}
		z.Uint16Q = mk()
		z.Uint16K = map[uint16]int{77: 1}
	case KUint32:
		mk := func() uint32 { return 77 }
		p := mk()
		z.Uint32, z.Uint32L, z.Uint32A, z.Uint32P = mk(), make([]uint32, 2, 3+grow), [2]uint32{mk(), mk()}, &p
		z.Uint32L[0], z.Uint32L[1] = mk(), mk()
		z.Uint32M, z.Uint32N = map[string]uint32{"l": mk(), "z": mk()}, [][]uint32{{mk(), mk()}, {mk()}}
		z.Uint32Q = mk()
		z.Uint32K = map[uint32]int{77: 1}
	case KUint64:
		mk := func() uint64 { return 77 }
		p := mk()
		z.Uint64, z.Uint64L, z.Uint64A, z.Uint64P = mk(), make([]uint64, 2, 3+grow), [2]uint64{mk(), mk()}, &p
		z.Uint64L[0], z.Uint64L[1] = mk(), mk()
		z.Uint64M, z.Uint64N = map[string]uint64{"l": mk(), "z": mk()}, [][]uint64{{mk(), mk()}, {mk()}}
		z.Uint64Q = mk()
		z.Uint64K = map[uint64]int{77: 1}
	case KFloat32:
		mk := func() float32 { return 77 }
		p := mk()
		z.Float32, z.Float32L, z.Float32A, z.Float32P = mk(), make([]float32, 2, 3+grow), [2]float32{mk(), mk()}, &p
		z.Float32L[0], z.Float32L[1] = mk(), mk()
		z.Float32M, z.Float32N = map[string]float32{"l": mk(), "z": mk()}, [][]float32{{mk(), mk()}, {mk()}}
		z.Float32Q = mk()
	case KFloat64:
		mk := func() float64 { return 77 }
		p := mk()
		z.Float64, z.Float64L, z.Float64A, z.Float64P = mk(), make([]float64, 2, 3+grow), [2]float64{mk(), mk()}, &p
		z.Float64L[0], z.Float64L[1] = mk(), mk()
		z.Float64M, z.Float64N = map[string]float64{"l": mk(), "z": mk()}, [][]float64{{mk(), mk()}, {mk()}}
		z.Float64Q = mk()
	case KString:
		mk := func() string { return "old" }
		p := mk()
		z.String, z.StringL, z.StringA, z.StringP = mk(), make([]string, 2, 3+grow), [2]string{mk(), mk()}, &p
		z.StringL[0], z.StringL[1] = mk(), mk()
		z.StringM, z.StringN = map[string]string{"l": mk(), "z": mk()}, [][]string{{mk(), mk()}, {mk()}}
		z.StringQ = mk()
		z.StringK = map[string]int{"old": 1}
	case KNumber:
		mk := func() jd.Number { return "77" }
		p := mk()
		z.Number, z.NumberL, z.NumberA, z.NumberP = mk(), make([]jd.Number, 2, 3+grow), [2]jd.Number{mk(), mk()}, &p
		z.NumberL[0], z.NumberL[1] = mk(), mk()
		z.NumberM, z.NumberN = map[string]jd.Number{"l": mk(), "z": mk()}, [][]jd.Number{{mk(), mk()}, {mk()}}
	case KAny:
		mk := func() any { return "old" }
		p := mk()
		z.Any, z.AnyL, z.AnyA, z.AnyP = mk(), make([]any, 2, 3+grow), [2]any{mk(), mk()}, &p
		z.AnyL[0], z.AnyL[1] = mk(), mk()
		z.AnyM, z.AnyN = map[string]any{"l": mk(), "z": mk()}, [][]any{{mk(), mk()}, {mk()}}
	}
}

// Fill populates the fields of kind k. The slice has a capacity of 3+grow.
func (z *All2) Fill(k, grow int) {
	z.Z0, z.Z1 = 91, 92
	switch k {
	case KPoint:
		mk := func() AllPoint { return AllPoint{77, "old"} }
		p := mk()
		z.Point, z.PointL, z.PointA, z.PointP = mk(), make([]AllPoint, 2, 3+grow), [2]AllPoint{mk(), mk()}, &p
		z.PointL[0], z.PointL[1] = mk(), mk()
		z.PointM, z.PointN = map[string]AllPoint{"l": mk(), "z": mk()}, [][]AllPoint{{mk(), mk()}, {mk()}}
	case KEmpty:
		mk := func() struct{} { return struct{}{} }
		p := mk()
		z.Empty, z.EmptyL, z.EmptyA, z.EmptyP = mk(), make([]struct{}, 2, 3+grow), [2]struct{}{mk(), mk()}, &p
		z.EmptyL[0], z.EmptyL[1] = mk(), mk()
		z.EmptyM, z.EmptyN = map[string]struct{}{"l": mk(), "z": mk()}, [][]struct{}{{mk(), mk()}, {mk()}}
	case KPtr:
		mk := func() *int8 { return allPtr() }
		p := mk()
		z.Ptr, z.PtrL, z.PtrA, z.PtrP = mk(), make([]*int8, 2, 3+grow), [2]*int8{mk(), mk()}, &p
		z.PtrL[0], z.PtrL[1] = mk(), mk()
		z.PtrM, z.PtrN = map[string]*int8{"l": mk(), "z": mk()}, [][]*int8{{mk(), mk()}, {mk()}}
	case KSlice:
		mk := func() []int8 { return []int8{77, 78} }
		p := mk()
		z.Slice, z.SliceL, z.SliceA, z.SliceP = mk(), make([][]int8, 2, 3+grow), [2][]int8{mk(), mk()}, &p
		z.SliceL[0], z.SliceL[1] = mk(), mk()
		z.SliceM, z.SliceN = map[string][]int8{"l": mk(), "z": mk()}, [][][]int8{{mk(), mk()}, {mk()}}
	case KStrs:
		mk := func() []string { return []string{"old"} }
		p := mk()
		z.Strs, z.StrsL, z.StrsA, z.StrsP = mk(), make([][]string, 2, 3+grow), [2][]string{mk(), mk()}, &p
		z.StrsL[0], z.StrsL[1] = mk(), mk()
		z.StrsM, z.StrsN = map[string][]string{"l": mk(), "z": mk()}, [][][]string{{mk(), mk()}, {mk()}}
	case KArray:
		mk := func() [2]uint16 { return [2]uint16{77, 78} }
		p := mk()
		z.Array, z.ArrayL, z.ArrayA, z.ArrayP = mk(), make([][2]uint16, 2, 3+grow), [2][2]uint16{mk(), mk()}, &p
		z.ArrayL[0], z.ArrayL[1] = mk(), mk()
		z.ArrayM, z.ArrayN = map[string][2]uint16{"l": mk(), "z": mk()}, [][][2]uint16{{mk(), mk()}, {mk()}}
	case KArray0:
		mk := func() [0]int { return [0]int{} }
		p := mk()
		z.Array0, z.Array0L, z.Array0A, z.Array0P = mk(), make([][0]int, 2, 3+grow), [2][0]int{mk(), mk()}, &p
		z.Array0L[0], z.Array0L[1] = mk(), mk()
		z.Array0M, z.Array0N = map[string][0]int{"l": mk(), "z": mk()}, [][][0]int{{mk(), mk()}, {mk()}}
	case KMap:
		mk := func() map[string]int { return map[string]int{"o": 77} }
		p := mk()
		z.Map, z.MapL, z.MapA, z.MapP = mk(), make([]map[string]int, 2, 3+grow), [2]map[string]int{mk(), mk()}, &p
		z.MapL[0], z.MapL[1] = mk(), mk()
		z.MapM, z.MapN = map[string]map[string]int{"l": mk(), "z": mk()}, [][]map[string]int{{mk(), mk()}, {mk()}}
	}
}

// Fill populates the fields of kind k. The slice has a capacity of 3+grow.
func (z *All3) Fill(k, grow int) {
	z.Z0, z.Z1 = 91, 92
	switch k {
	case KMapSS:
		mk := func() map[string]string { return map[string]string{"o": "old"} }
		p := mk()
		z.MapSS, z.MapSSL, z.MapSSA, z.MapSSP = mk(), make([]map[string]string, 2, 3+grow), [2]map[string]string{mk(), mk()}, &p
		z.MapSSL[0], z.MapSSL[1] = mk(), mk()
		z.MapSSM, z.MapSSN = map[string]map[string]string{"l": mk(), "z": mk()}, [][]map[string]string{{mk(), mk()}, {mk()}}
	case KMapIB:
		mk := func() map[int16]bool { return map[int16]bool{77: true} }
		p := mk()
		z.MapIB, z.MapIBL, z.MapIBA, z.MapIBP = mk(), make([]map[int16]bool, 2, 3+grow), [2]map[int16]bool{mk(), mk()}, &p
		z.MapIBL[0], z.MapIBL[1] = mk(), mk()
		z.MapIBM, z.MapIBN = map[string]map[int16]bool{"l": mk(), "z": mk()}, [][]map[int16]bool{{mk(), mk()}, {mk()}}
	case KJSON:
		mk := func() AllJSON { return AllJSON{"old"} }
		p := mk()
		z.JSON, z.JSONL, z.JSONA, z.JSONP = mk(), make([]AllJSON, 2, 3+grow), [2]AllJSON{mk(), mk()}, &p
		z.JSONL[0], z.JSONL[1] = mk(), mk()
		z.JSONM, z.JSONN = map[string]AllJSON{"l": mk(), "z": mk()}, [][]AllJSON{{mk(), mk()}, {mk()}}
	case KText:
		mk := func() AllText { return AllText{"old"} }
		p := mk()
		z.Text, z.TextL, z.TextA, z.TextP = mk(), make([]AllText, 2, 3+grow), [2]AllText{mk(), mk()}, &p
		z.TextL[0], z.TextL[1] = mk(), mk()
		z.TextM, z.TextN = map[string]AllText{"l": mk(), "z": mk()}, [][]AllText{{mk(), mk()}, {mk()}}
		z.TextK = map[AllText]int{AllText{"old"}: 1}
	case KPJSON:
		mk := func() *AllJSON { return &AllJSON{"old"} }
		p := mk()
		z.PJSON, z.PJSONL, z.PJSONA, z.PJSONP = mk(), make([]*AllJSON, 2, 3+grow), [2]*AllJSON{mk(), mk()}, &p
		z.PJSONL[0], z.PJSONL[1] = mk(), mk()
		z.PJSONM, z.PJSONN = map[string]*AllJSON{"l": mk(), "z": mk()}, [][]*AllJSON{{mk(), mk()}, {mk()}}
	case KPText:
		mk := func() *AllText { return &AllText{"old"} }
		p := mk()
		z.PText, z.PTextL, z.PTextA, z.PTextP = mk(), make([]*AllText, 2, 3+grow), [2]*AllText{mk(), mk()}, &p
		z.PTextL[0], z.PTextL[1] = mk(), mk()
		z.PTextM, z.PTextN = map[string]*AllText{"l": mk(), "z": mk()}, [][]*AllText{{mk(), mk()}, {mk()}}
	case KTree:
		mk := func() AllTree { return AllTree{V: 77, C: []AllTree{{V: 78}}} }
		p := mk()
		z.Tree, z.TreeL, z.TreeA, z.TreeP = mk(), make([]AllTree, 2, 3+grow), [2]AllTree{mk(), mk()}, &p
		z.TreeL[0], z.TreeL[1] = mk(), mk()
		z.TreeM, z.TreeN = map[string]AllTree{"l": mk(), "z": mk()}, [][]AllTree{{mk(), mk()}, {mk()}}
	case KPPtr:
		mk := func() **string { return allPPtr() }
		p := mk()
		z.PPtr, z.PPtrL, z.PPtrA, z.PPtrP = mk(), make([]**string, 2, 3+grow), [2]**string{mk(), mk()}, &p
		z.PPtrL[0], z.PPtrL[1] = mk(), mk()
		z.PPtrM, z.PPtrN = map[string]**string{"l": mk(), "z": mk()}, [][]**string{{mk(), mk()}, {mk()}}
	}
}
