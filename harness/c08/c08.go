// Package c08: members reach the field their name selects.
package c08

import (
	jd "github.com/romshark/jscan-experimental-decoder"
	"github.com/romshark/jscan-experimental-decoder/internal/vref"
	"github.com/romshark/jscan-experimental-decoder/internal/vsym"
)

type s1 struct{ Ab int }
type s2 struct{ A, B int }
type s3 struct {
	A int `json:"a"`
	B int `json:"b,omitempty"`
	C int `json:"A"`
}
type s4 struct{ Ab, AB, Ac, B int }
type s5 struct {
	A int `json:"a"`
	B int `json:"ab"`
	C int `json:"aB"`
	D int `json:"Ab"`
	E int `json:"AB"`
}
type s9 struct {
	A, B, C int
	D       int `json:"-"`
	E       int `json:"e,string"`
	F       int `json:"-,"`
	g       int
	H       int `json:",omitempty"`
	I, J, K int
}
type s12 struct{ Aa, Ab, Ac, Ba, Bb, Bc, Ca, Cb, Cc, AA, BB, CC int }
type uni struct {
	E int `json:"é"`
	K int `json:"k"`
	S int `json:"ſ"`
	N int `json:"aé"`
	O int `json:"日"`
}
type long struct {
	Abcdefgh         int
	AbcdefghI        int
	Abcdefghijklmnop int
	A2               int `json:"abcdefgh"`
}

func opts() *jd.DecodeOptions {
	o := *jd.DefaultOptions
	o.DisableFieldNameUnescaping = vsym.Choose(2) == 1
	o.DisableCaseInsensitiveMatching = vsym.Choose(2) == 1
	return &o
}

// key is a key of at most max arbitrary characters, possibly with escapes.
func key(max int) []byte {
	char := vref.Plain
	if max > 2 {
		char = vref.Ascii
	}
	switch vsym.Choose(4) {
	case 1:
		return vref.Cat(`"\u00`, vsym.ByteIn("046"), vsym.ByteIn("0123456789abcdefABCDEF"), `"`)
	case 2:
		return vref.Cat(`"`, char(), `\u00`, vsym.ByteIn("46"), vsym.ByteIn("123456789abcdefABCDEF"), `"`)
	case 3:
		return vref.Cat(`"\u00`, vsym.ByteIn("46"), vsym.ByteIn("123"), char(), `"`)
	}
	k := []byte{'"'}
	for n := vsym.Choose(max + 1); n > 0; n-- {
		k = append(k, char())
	}
	return append(k, '"')
}

func one[T any](max int) {
	k := key(max)
	o := opts()
	switch vsym.Choose(3) {
	case 0:
		vref.DocOpt[T](vref.Cat("{", k, ":7}"), o, nil)
	case 1:
		vref.DocStr[T](vref.Cat("{", k, ":7}"), o, nil)
	case 2:
		vref.DocOpt[[]T](vref.Cat("[{},{", k, ":7}]"), o, nil)
	}
}

func HOne()    { one[s1](3) }
func HTwo()    { one[s2](2) }
func HThree()  { one[s3](3) }
func HFour()   { one[s4](3) }
func HFive()   { one[s5](3) }
func HNine()   { one[s9](1 + vsym.Pick(2, 3)) }
func HTwelve() { one[s12](3) }
func HZero()   { one[struct{}](2) }

// HPair: two members, in any order, any names.
func HPair() {
	name := func(n int) []byte { return vref.Cat(`"`, vsym.BytesIn(n, "aAbBcCx"), `"`) }
	d := vref.Cat("{", name(1+vsym.Choose(2)), ":1,", name(1+vsym.Choose(2)), ":2}")
	o := opts()
	switch vsym.Choose(4) {
	case 0:
		vref.DocOpt[s2](d, o, nil)
	case 1:
		vref.DocOpt[s3](d, o, nil)
	case 2:
		vref.DocOpt[s4](d, o, nil)
	case 3:
		vref.DocOpt[s5](d, o, nil)
	}
}

func pick(set string) byte { return set[vsym.Choose(len(set))] }

// HUni: names outside of ASCII.
func HUni() {
	o := opts()
	var k []byte
	switch vsym.Choose(6) {
	case 0:
		k = vref.Cat(`"`, pick("\xc2\xc3\xc4\xc5"), pick("\x89\xa9\xbf\xa8\x88\x8a\xaa"), `"`)
	case 1:
		k = vref.Cat(`"`, "\xe2\x84", pick("\xaa\xab\xa9"), `"`)
	case 2:
		k = vref.Cat(`"`, vsym.ByteIn("kKsS"), `"`)
	case 3:
		k = vref.Cat(`"\u017`, pick("0123456789abcdefABCDEF"), `"`)
	case 4:
		k = vref.Cat(`"`, vsym.ByteIn("aAbe"), "\xc3", pick("\x89\xa9\xa8"), `"`)
	case 5:
		k = vref.Cat(`"\u212`, pick("aAbB"), `"`)
	}
	vref.DocOpt[uni](vref.Cat("{", k, ":5}"), o, nil)
}

// HLong: long names that share prefixes.
func HLong() {
	k := []byte([]string{"Abcdefgh", "AbcdefghI", "Abcdefghijklmnop", "abcdefgh"}[vsym.Choose(4)])
	k[vsym.Choose(len(k))] = vref.Ascii()
	switch vsym.Choose(3) {
	case 1:
		k = k[:len(k)-1]
	case 2:
		k = append(k, vref.Ascii())
	}
	vref.DocOpt[long](vref.Cat(`{"`, k, `":1,"A2":2}`), opts(), nil)
}

// HMany: repeated and reordered members; later fields are still found.
func HMany() {
	names := []string{"Aa", "Ab", "Ac", "Ba", "Bb", "Bc", "Ca", "Cb", "Cc", "AA", "BB", "CC", "aa", "zz"}
	d := []byte("{")
	for i, n := 0, 1+vsym.Choose(vsym.Pick(3, 4)); i < n; i++ {
		if i > 0 {
			d = append(d, ',')
		}
		d = vref.Cat(d, `"`, names[vsym.Choose(len(names))], `":`, vref.Pos())
	}
	vref.Doc[s12](append(d, '}'))
}

type deep struct {
	A struct {
		A, B int
		C    struct{ A, D int }
	}
	B struct{ A int }
	C int
}

// HDeep: names are looked up in the struct they belong to.
func HDeep() {
	c := func() []byte { return vref.Cat(`"`, vsym.ByteIn("ABCDabcx"), `"`) }
	switch vsym.Choose(3) {
	case 0:
		vref.Doc[deep](vref.Cat(`{"A":{"C":{`, c(), `:1},`, c(), `:null},`, c(), `:null}`))
	case 1:
		vref.Doc[deep](vref.Cat(`{"B":{`, c(), `:1},"A":{"C":{"D":3},"B":4},`, c(), `:null}`))
	case 2:
		vref.Doc[deep](vref.Cat(`{"A":{"B":2,"C":{`, c(), `:1}},"C":`, vref.Pos(), `}`))
	}
}

// HPrior: fields that are not mentioned keep their values.
func HPrior() {
	vref.DocOpt[s9](vref.Cat(`{`, key(1), `:7,"B":1}`), opts(), func(s *s9) {
		*s = s9{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}
	})
}

// tags has names of all kinds; those with quotes, backslashes, controls and
// symbols do not count.
type tags struct {
	A int "json:\"it's\""
	B int "json:\"q\\\"x\""
	C int "json:\"b\\\\s\""
	D int "json:\"\u00e9-1_ $%&()*+./:;<=>?@[]^{|}~!#\""
	E int "json:\"\U0001f600\""
	F int "json:\"\u65e5\u672c\""
	G int "json:\"t\\tb\""
	H int "json:\"\u0663\""
	I int "json:\"`\""
	J int "json:\" \""
}

// HTags: what a tag's name can be.
func HTags() {
	ks := []string{"it's", `q\"x`, `b\\s`, "\u00e9-1_ $%&()*+./:;<=>?@[]^{|}~!#", "\u00c9-1_ $%&()*+./:;<=>?@[]^{|}~!#", "\U0001f600", "\u65e5\u672c", `t\tb`, "\u0663", "`", " ", "\x7f"}
	switch vsym.Choose(3) {
	case 0:
		vref.DocOpt[tags](vref.Cat(`{"`, vref.Ascii(), `":1}`), opts(), nil)
	case 1:
		vref.DocOpt[tags](vref.Cat(`{"`, ks[vsym.Choose(len(ks))], `":`, vref.Pos(), `}`), opts(), nil)
	case 2:
		vref.DocOpt[tags](vref.Cat(`{"`, ks[vsym.Choose(len(ks))], `":1,"`, vsym.ByteIn("ABCDEFGHIJabcdefghij"), `":2}`), opts(), nil)
	}
}

// wide has more fields than fit a byte.
type wide struct {
	F0, F1, F2, F3, F4, F5, F6, F7, F8, F9, F10, F11, F12, F13, F14, F15, F16, F17, F18, F19                               int16
	F20, F21, F22, F23, F24, F25, F26, F27, F28, F29, F30, F31, F32, F33, F34, F35, F36, F37, F38, F39                     int16
	F40, F41, F42, F43, F44, F45, F46, F47, F48, F49, F50, F51, F52, F53, F54, F55, F56, F57, F58, F59                     int16
	F60, F61, F62, F63, F64, F65, F66, F67, F68, F69, F70, F71, F72, F73, F74, F75, F76, F77, F78, F79                     int16
	F80, F81, F82, F83, F84, F85, F86, F87, F88, F89, F90, F91, F92, F93, F94, F95, F96, F97, F98, F99                     int16
	F100, F101, F102, F103, F104, F105, F106, F107, F108, F109, F110, F111, F112, F113, F114, F115, F116, F117, F118, F119 int16
	F120, F121, F122, F123, F124, F125, F126, F127, F128, F129, F130, F131, F132, F133, F134, F135, F136, F137, F138, F139 int16
	F140, F141, F142, F143, F144, F145, F146, F147, F148, F149, F150, F151, F152, F153, F154, F155, F156, F157, F158, F159 int16
	F160, F161, F162, F163, F164, F165, F166, F167, F168, F169, F170, F171, F172, F173, F174, F175, F176, F177, F178, F179 int16
	F180, F181, F182, F183, F184, F185, F186, F187, F188, F189, F190, F191, F192, F193, F194, F195, F196, F197, F198, F199 int16
	F200, F201, F202, F203, F204, F205, F206, F207, F208, F209, F210, F211, F212, F213, F214, F215, F216, F217, F218, F219 int16
	F220, F221, F222, F223, F224, F225, F226, F227, F228, F229, F230, F231, F232, F233, F234, F235, F236, F237, F238, F239 int16
	F240, F241, F242, F243, F244, F245, F246, F247, F248, F249, F250, F251, F252, F253, F254, F255, F256, F257, F258, F259 int16
	F260, F261, F262, F263, F264, F265, F266, F267, F268, F269, F270, F271, F272, F273, F274, F275, F276, F277, F278, F279 int16
	F280, F281, F282, F283, F284, F285, F286, F287, F288, F289, F290, F291, F292, F293, F294, F295, F296, F297, F298, F299 int16
}

type wider struct {
	W wide
	X struct{ A, B int }
	Y []struct{ A, B int }
	M map[string]wide
	Z string
}

// HWide: all fields are found, also those of the types after them.
func HWide() {
	name := func() []byte {
		n := []string{"F0", "F7", "F63", "F64", "F127", "F128", "F254", "F255", "F256", "F257", "f298", "F299", "F300"}
		return vref.Cat(`"`, n[vsym.Choose(len(n))], `":`, vref.Pos())
	}
	switch vsym.Choose(5) {
	case 0:
		vref.DocOpt[wide](vref.Cat(`{`, name(), `}`), opts(), nil)
	case 1:
		vref.Doc[wide](vref.Cat(`{"F256":1,`, name(), `,"F0":2}`))
	case 2:
		vref.Doc[wider](vref.Cat(`{"W":{`, name(), `},"X":{"B":`, vref.Pos(), `},"Z":"z"}`))
	case 3:
		vref.Doc[wider](vref.Cat(`{"X":{"A":1,"B":`, vref.Pos(), `},"Y":[{"A":5},{"B":`, vref.Pos(), `}],"Z":"z"}`))
	case 4:
		vref.Doc[wider](vref.Cat(`{"M":{"k":{`, name(), `}},"X":{"A":1}}`))
	}
}

type zoo struct {
	Name int
	NAME int
	Na   int `json:"na"`
	g    int
	Skip int `json:"-"`
}

// HZoo: structs at every place of a type, which may be populated.
func HZoo() {
	v := vref.Cat(`{"`, vsym.ByteIn("nN"), vsym.ByteIn("aA"), vsym.ByteIn("mM"), `e":1,"`, vsym.ByteIn("nN"), `\u00`, vsym.ByteIn("46"), `1":2,"`,
		[]string{"g", "-", "Skip", "nam"}[vsym.Choose(4)], `":[3]}`)
	vref.InZoo(v, `{"NAME":1}`, func() zoo { return zoo{1, 2, 3, 4, 5} })
}
