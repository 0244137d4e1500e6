// Package c09: unknown members are skipped whole, or reported.
package c09

import (
	jd "github.com/romshark/jscan-experimental-decoder"
	"github.com/romshark/jscan-experimental-decoder/internal/vref"
	"github.com/romshark/jscan-experimental-decoder/internal/vsym"
)

type flat struct {
	A int
	B string
}

type nest struct {
	A flat
	P *flat
	S []flat
	M map[string]flat
	X [1]flat
	Z int
}

func opts() *jd.DecodeOptions {
	o := *jd.DefaultOptions
	o.DisallowUnknownFields = vsym.Choose(2) == 1
	return &o
}

// unk is a member that flat and nest don't know.
func unk(d int) []byte { return vref.Cat(`"`, vsym.ByteIn("uvw"), `":`, vref.Value(d)) }

func HFlat() {
	u := unk(vsym.Pick(2, 3))
	o := opts()
	switch vsym.Choose(5) {
	case 0:
		vref.DocOpt[flat](vref.Cat("{", u, "}"), o, nil)
	case 1:
		vref.DocOpt[flat](vref.Cat(`{`, u, `,"A":1,"B":"b"}`), o, nil)
	case 2:
		vref.DocOpt[flat](vref.Cat(`{"A":1,`, u, `,"B":"b"}`), o, nil)
	case 3:
		vref.DocStr[flat](vref.Cat(`{"A":1,"B":"b",`, u, `}`), o, nil)
	case 4:
		vref.DocOpt[struct{}](vref.Cat("{", u, `,"A":3}`), o, nil)
	}
}

func HTwo() {
	u := unk(1)
	w := vref.Cat(`"x":`, vref.Small())
	o := opts()
	switch vsym.Choose(3) {
	case 0:
		vref.DocOpt[flat](vref.Cat(`{`, u, `,`, w, `,"B":"b","A":1}`), o, nil)
	case 1:
		vref.DocOpt[flat](vref.Cat(`{`, w, `,"A":2,`, u, `,"B":"b"}`), o, nil)
	case 2:
		vref.DocOpt[flat](vref.Cat(`{"A":2,`, u, `,"B":null,`, w, `}`), o, nil)
	}
}

// HNest: unknown members of structs inside of anything.
func HNest() {
	u := unk(1)
	o := opts()
	switch vsym.Choose(8) {
	case 0:
		vref.DocOpt[nest](vref.Cat(`{"A":{`, u, `,"A":1},"Z":9}`), o, nil)
	case 1:
		vref.DocOpt[nest](vref.Cat(`{"P":{"A":1,`, u, `},"Z":9}`), o, nil)
	case 2:
		vref.DocOpt[nest](vref.Cat(`{"S":[{`, u, `},{"B":"x",`, u, `,"A":3}],"Z":9}`), o, nil)
	case 3:
		vref.DocOpt[nest](vref.Cat(`{"M":{"k":{`, u, `,"A":1},"l":{"A":2,`, u, `}},"Z":9}`), o, nil)
	case 4:
		vref.DocOpt[nest](vref.Cat(`{"X":[{"A":5,`, u, `}],"Z":9}`), o, nil)
	case 5:
		vref.DocOpt[[]flat](vref.Cat(`[{`, u, `},{"A":2}]`), o, nil)
	case 6:
		vref.DocOpt[map[string]*flat](vref.Cat(`{"a":{`, u, `},"b":{"A":2}}`), o, nil)
	case 7:
		vref.DocOpt[[2]struct{}](vref.Cat(`[{`, u, `},{}]`), o, nil)
	}
}

type rec struct {
	N int
	L *rec
	C []rec
	M map[string]rec
}

// HRec: unknown members in recursive types.
func HRec() {
	u := unk(1)
	o := opts()
	switch vsym.Choose(4) {
	case 0:
		vref.DocOpt[rec](vref.Cat(`{"L":{`, u, `,"N":2},"N":1}`), o, nil)
	case 1:
		vref.DocOpt[rec](vref.Cat(`{"C":[{`, u, `},{"N":3,`, u, `}],"N":1}`), o, nil)
	case 2:
		vref.DocOpt[rec](vref.Cat(`{"M":{"k":{"N":3,`, u, `}},"N":1}`), o, nil)
	case 3:
		vref.DocOpt[rec](vref.Cat(`{"L":{"L":null,"C":[],`, u, `},`, u, `,"N":1}`), o, nil)
	}
}

// HWrong: which of an unknown member and a wrong value comes first counts.
func HWrong() {
	o := opts()
	u := unk(0)
	v := vref.Small()
	switch vsym.Choose(3) {
	case 0:
		vref.DocOpt[flat](vref.Cat(`{"A":`, v, `,`, u, `}`), o, nil)
	case 1:
		vref.DocOpt[flat](vref.Cat(`{`, u, `,"A":`, v, `}`), o, nil)
	case 2:
		vref.DocOpt[nest](vref.Cat(`{"P":{"B":`, v, `,`, u, `},"Z":`, v, `}`), o, nil)
	}
}

// HKey: the key is arbitrary.
func HKey() {
	k := vref.Cat(vref.Plain(), vref.Plain())
	vref.DocOpt[flat](vref.Cat(`{"`, k[:1+vsym.Choose(2)], `":null,"A":5}`), opts(), nil)
}

// HDepth: deep values are skipped.
func HDepth() {
	n := 1 + vsym.Choose(vsym.Pick(20, 60))
	var op, cl []byte
	for i := 0; i < n; i++ {
		if i%2 == 0 {
			op = append(op, '[')
			cl = append([]byte("]"), cl...)
		} else {
			op = append(op, `{"A":`...)
			cl = append([]byte("}"), cl...)
		}
	}
	vref.DocOpt[flat](vref.Cat(`{"u":`, op, vref.Small(), cl, `,"A":`, vref.Pos(), `}`), opts(), nil)
}

// HEmpty: types without fields, for which every member is unknown.
func HEmpty() {
	type e = struct{}
	o := opts()
	u := vref.Cat(`"`, vsym.ByteIn("uvw"), `":`, vref.Small())
	el := func() []byte {
		switch vsym.Choose(4) {
		case 0:
			return []byte("{}")
		case 1:
			return vref.Cat(`{`, u, `}`)
		case 2:
			return vref.Cat(`{"x":[{}],`, u, `}`)
		}
		return vref.Cat(vsym.ByteIn("017"))
	}
	switch vsym.Choose(9) {
	case 0:
		vref.DocOpt[e](el(), o, nil)
	case 1:
		vref.DocOpt[[]e](vref.Cat(`[`, el(), `,`, el(), `]`), o, nil)
	case 2:
		vref.DocStr[[2]e](vref.Cat(`[`, el(), `,`, el(), `,`, el(), `]`), o, nil)
	case 3:
		vref.DocOpt[map[string]e](vref.Cat(`{"a":`, el(), `,"b":`, el(), `}`), o, nil)
	case 4:
		vref.DocOpt[*e](el(), o, nil)
	case 5:
		vref.DocOpt[[][]e](vref.Cat(`[[],[`, el(), `],[{},`, el(), `]]`), o, nil)
	case 6:
		vref.DocOpt[struct {
			A e
			B []e
			C int
		}](vref.Cat(`{"A":`, el(), `,"B":[{},`, el(), `],"C":7}`), o, nil)
	case 7:
		vref.DocOpt[[]*e](vref.Cat(`[null,`, el(), `,`, el(), `]`), o, nil)
	case 8:
		vref.DocOpt[[]struct{ X e }](vref.Cat(`[{"X":`, el(), `},{"X":{},`, u, `}]`), o, nil)
	}
}

// HZoo: unknown members at every place of a type, which may be populated.
func HZoo() {
	i := vsym.Choose(vref.ZooPlaces)
	o := opts()
	k := []byte{vsym.ByteIn("uvA")}
	var v []byte
	switch vsym.Choose(3) {
	case 0:
		v = vref.Cat(`{"`, k, `":`, vref.Small(), `,"B":"b"}`)
	case 1:
		v = vref.Cat(`{"A":1,"`, k, `":{"B":[{}]}}`)
	case 2:
		v = vref.Cat(`{"u":[[1],{"A":[2]}],"`, k, `":4}`)
	}
	d := vref.ZooDoc(i, v, []byte(`{"A":1}`), []byte{vref.Pos()})
	if vsym.Choose(2) == 0 {
		vref.DocOpt[vref.Zoo[flat]](d, o, nil)
	} else {
		vref.DocStr(d, o, func(z *vref.Zoo[flat]) { z.Fill(func() flat { return flat{7, "old"} }, true) })
	}
}

type opaque struct {
	a int
	B int `json:"-"`
}

// HOpaque: structs whose fields are all unexported or ignored.
func HOpaque() {
	_ = opaque{a: 1}
	u := vref.Cat(`{"`, vsym.ByteIn("aAbB-x"), `":`, vref.Value(1), `}`)
	o := opts()
	switch vsym.Choose(6) {
	case 0:
		vref.DocOpt[opaque](u, o, nil)
	case 1:
		vref.DocOpt[[]opaque](vref.Cat("[{},", u, ",{}]"), o, nil)
	case 2:
		vref.DocOpt[map[string]opaque](vref.Cat(`{"k":`, u, `,"l":{}}`), o, nil)
	case 3:
		vref.DocStr[*opaque](u, o, nil)
	case 4:
		vref.DocOpt[struct {
			A opaque
			B *opaque
			C int
		}](vref.Cat(`{"A":`, u, `,"B":`, u, `,"C":1}`), o, nil)
	case 5:
		vref.DocStr[[2]opaque](vref.Cat("[{},", u, "]"), o, func(a *[2]opaque) { a[0].a, a[1].B = 1, 2 })
	}
}
