// Package c14: a reused decoder behaves like a fresh one.
package c14

import (
	"errors"

	jd "github.com/romshark/jscan-experimental-decoder"
	"github.com/romshark/jscan-experimental-decoder/internal/vref"
	"github.com/romshark/jscan-experimental-decoder/internal/vsym"
	"github.com/romshark/jscan/v2"
)

// reuse decodes docs one after the other with one decoder and compares every
// call with that of a new decoder.
func reuse[T any](docs ...[]byte) {
	d := vref.Dec[[]byte, T]()
	reuseWith(d, docs...)
}

func reuseWith[T any](d *jd.Decoder[[]byte, T], docs ...[]byte) {
	var gots, wants []*T
	for _, doc := range docs {
		got, want := new(T), new(T)
		idx, err := d.Decode(doc, got, jd.DefaultOptions)
		fidx, ferr := vref.Dec[[]byte, T]().Decode(doc, want, jd.DefaultOptions)
		vsym.ObserveBool(err == nil)
		vsym.Assert((err == nil) == (ferr == nil), "a used decoder reports an error where a new one does not, or the reverse")
		vsym.Assert(vsym.Or(err == nil, idx == fidx), "a used decoder reports another index")
		if err != nil {
			vsym.Reach("failed")
		}
		gots, wants = append(gots, got), append(wants, want)
		vsym.Assert(vsym.DeepEq(got, want), "a used decoder gives another value")
	}
	for i := range gots {
		vsym.Assert(vsym.DeepEq(gots[i], wants[i]), "a later call modified the destination of an earlier one")
	}
}

type rec struct {
	V int
	P *rec
	C []rec
	M map[string]rec
	T string
}

type obj struct {
	A int
	B []int
	C map[string]int
	D *obj2
	E string
	F [2]int
	G any
	H []obj2
	I map[string]*obj2
}

type obj2 struct {
	X, Y int
	S    []string
}

// recDoc is a document for rec; some fail somewhere.
func recDoc() []byte {
	x := vref.Small()
	switch vsym.Choose(8) {
	case 0:
		return vref.Cat(`{"P":{"V":`, x, `},"T":"a"}`)
	case 1:
		return vref.Cat(`{"C":[{"V":1},{"C":[{"V":`, x, `}],"T":"b"}],"V":2}`)
	case 2:
		return vref.Cat(`{"M":{"k":{"M":{"l":`, x, `}}},"V":3}`)
	case 3:
		return vref.Cat(`{"P":{"P":{"C":[{"T":`, x, `},{}]},"T":"c"}}`)
	case 4:
		return vref.Cat(`{"C":[{"P":{"M":{"k":{"V":`, x, `}}}}],"T":"d"}`)
	case 5:
		return vref.Cat(`{"M":{"k":{"C":`, x, `}},"P":null}`)
	case 6:
		return x
	}
	return []byte(`{"V":5,"T":"t"}`)
}

var recDocs = []string{
	`{"V":1,"T":"x"}`, `{"P":{"V":2,"P":{"V":3}},"T":"y"}`, `{"C":[{"V":1},{"V":2,"C":[{"T":"z"}]}],"M":{"a":{"V":7}}}`, `{"M":{"a":{"C":[{},{"V":3}]},"b":{"P":{"V":9}}},"V":1}`, `null`, `{}`,
}

func HRec() { reuse[rec](recDoc(), []byte(recDocs[vsym.Choose(len(recDocs))])) }

func objDoc() []byte {
	x := vref.Small()
	switch vsym.Choose(10) {
	case 0:
		return vref.Cat(`{"A":`, x, `,"E":"e"}`)
	case 1:
		return vref.Cat(`{"B":[1,`, x, `,3],"A":4}`)
	case 2:
		return vref.Cat(`{"C":{"k":1,"l":`, x, `},"A":4}`)
	case 3:
		return vref.Cat(`{"D":{"X":1,"Y":`, x, `,"S":["a"]},"A":4}`)
	case 4:
		return vref.Cat(`{"F":[1,`, x, `],"A":4}`)
	case 5:
		return vref.Cat(`{"G":[`, x, `,{"k":1}],"A":4}`)
	case 6:
		return vref.Cat(`{"H":[{"X":1},`, x, `,{"S":["a","b"]}],"A":4}`)
	case 7:
		return vref.Cat(`{"I":{"k":{"X":`, x, `},"l":null},"A":4}`)
	case 8:
		return vref.Cat(`{"H":[{"S":[`, x, `]}],"I":{"a":{"S":["q"]}}}`)
	}
	return x
}

var objDocs = []string{
	`{"A":1,"B":[1,2],"C":{"a":1},"D":{"X":1,"S":["p"]},"E":"e","F":[1,2],"G":{"x":[1]},"H":[{"X":1},{"Y":2}],"I":{"a":{"Y":3}}}`,
	`{"H":[{"S":["a"]},{}],"I":{"a":null,"b":{"X":1}}}`, `{"F":[3],"B":[],"C":{}}`, `{"D":{"Y":1},"D":null,"G":null}`,
}

func HObj() { reuse[obj](objDoc(), []byte(objDocs[vsym.Choose(len(objDocs))])) }

// HThree: three calls, the second one fails or not.
func HThree() {
	a := []byte(objDocs[vsym.Choose(2)])
	reuse[obj](a, objDoc(), []byte(objDocs[1+vsym.Choose(2)]))
}

func TThree() { reuse[rec](recDoc(), recDoc(), []byte(recDocs[vsym.Choose(len(recDocs))])) }

func pair(f func() []byte) ([]byte, []byte) { return f(), f() }

// HKinds: reuse for all kinds of destinations.
func HKinds() {
	arr := func() []byte {
		switch vsym.Choose(5) {
		case 0:
			return []byte("[]")
		case 1:
			return vref.Cat("[", vref.Small(), "]")
		case 2:
			return vref.Cat("[", vref.Pos(), ",", vref.Pos(), ",", vref.Small(), "]")
		case 3:
			return []byte("null")
		}
		return vref.Cat("[", vref.Pos(), ",", vref.Pos())
	}
	ob := func() []byte {
		switch vsym.Choose(5) {
		case 0:
			return []byte("{}")
		case 1:
			return vref.Cat(`{"a":`, vref.Small(), `}`)
		case 2:
			return vref.Cat(`{"`, vsym.ByteIn("ab"), `":1,"b":`, vref.Small(), `}`)
		case 3:
			return []byte("null")
		}
		return vref.Cat(`{"a":1,`)
	}
	switch vsym.Choose(11) {
	case 0:
		reuse[[]int](pair(arr))
	case 1:
		reuse[[]any](pair(arr))
	case 2:
		reuse[[2]int8](pair(arr))
	case 3:
		reuse[[]*int](pair(arr))
	case 4:
		reuse[map[string]int](pair(ob))
	case 5:
		reuse[map[string]any](pair(ob))
	case 6:
		reuse[any](pair(ob))
	case 7:
		reuse[*map[string]*int](pair(ob))
	case 8:
		reuse[map[string]struct{ A, B int }](pair(func() []byte { return vref.Cat(`{"k":{"A":1,"B":`, vref.Small(), `},"l":{"B":3}}`) }))
	case 9:
		reuse[[][]string](pair(func() []byte { return vref.Cat(`[["a"],[`, vref.Small(), `],[]]`) }))
	case 10:
		reuse[[]struct {
			A []int
			B int
		}](pair(func() []byte { return vref.Cat(`[{"A":[1,2],"B":3},{"A":`, vref.Small(), `}]`) }))
	}
}

// HShared: decoders of two types share a tokenizer.
func HShared() {
	t := jscan.NewTokenizer[[]byte](8, 64)
	d1, err := jd.NewDecoder[[]byte, obj](t, jd.DefaultInitOptions)
	vsym.Assert(err == nil, "NewDecoder fails")
	d2, err := jd.NewDecoder[[]byte, rec](t, jd.DefaultInitOptions)
	vsym.Assert(err == nil, "NewDecoder fails")
	switch vsym.Choose(2) {
	case 0:
		reuseWith(d1, objDoc())
		reuseWith(d2, []byte(recDocs[vsym.Choose(len(recDocs))]))
	case 1:
		reuseWith(d2, recDoc())
		reuseWith(d1, []byte(objDocs[vsym.Choose(len(objDocs))]))
	}
}

// HSame: the destination of an earlier call is used again.
func HSame() {
	d := vref.Dec[[]byte, obj]()
	got, want := new(obj), new(obj)
	a, b := []byte(objDocs[vsym.Choose(len(objDocs))]), objDoc()
	for _, doc := range [][]byte{a, b} {
		idx, err := d.Decode(doc, got, jd.DefaultOptions)
		fidx, ferr := vref.Dec[[]byte, obj]().Decode(doc, want, jd.DefaultOptions)
		vsym.Assert((err == nil) == (ferr == nil), "a used decoder reports an error where a new one does not, or the reverse")
		vsym.Assert(vsym.Or(err == nil, idx == fidx), "a used decoder reports another index")
	}
	vsym.Assert(vsym.DeepEq(got, want), "a used decoder gives another value")
}

// HOptions: the options of one call have no effect on the next.
func HOptions() {
	d := vref.Dec[[]byte, obj2]()
	o := *jd.DefaultOptions
	o.DisallowUnknownFields, o.DisableCaseInsensitiveMatching, o.DisableFieldNameUnescaping = vsym.Choose(2) == 1, vsym.Choose(2) == 1, vsym.Choose(2) == 1
	k := vref.Cat(`{"`, vsym.ByteIn("xXuU"), `":`, vref.Pos(), `,"\u0059":2}`)
	var first, got, want obj2
	d.Decode(k, &first, &o)
	idx, err := d.Decode(k, &got, jd.DefaultOptions)
	fidx, ferr := vref.Dec[[]byte, obj2]().Decode(k, &want, jd.DefaultOptions)
	vsym.Assert((err == nil) == (ferr == nil), "the options of an earlier call still apply")
	vsym.Assert(idx == fidx, "the options of an earlier call still apply")
	vsym.Assert(vsym.DeepEq(&got, &want), "the options of an earlier call still apply")
}

// fuse is an unmarshaler that may fail or panic.
type fuse struct{ S string }

func (f *fuse) UnmarshalJSON(b []byte) error {
	switch b[0] {
	case 't':
		panic("fuse")
	case 'f':
		return errFuse
	}
	f.S = string(b)
	return nil
}

type tfuse string

func (f *tfuse) UnmarshalText(b []byte) error {
	if len(b) > 0 {
		switch b[0] {
		case 't':
			panic("fuse")
		case 'f':
			return errFuse
		}
	}
	*f = tfuse(b)
	return nil
}

// nest decodes its text with a decoder.
type nest struct {
	V []mix
	E bool
}

func (n *nest) UnmarshalJSON(b []byte) error {
	n.E = jd.Unmarshal(b, &n.V) != nil
	return nil
}

type mix struct {
	A fuse
	B []fuse
	C map[string]*fuse
	D *mix
	E []mix
	F map[tfuse]int
	G tfuse
	H *nest
	I [2]fuse
	J map[string]mix
	V int
}

var errFuse = errors.New("fuse")

func mixDoc() []byte {
	var x []byte
	switch vsym.Choose(4) {
	case 0:
		x = []byte("true")
	case 1:
		x = []byte("false")
	case 2:
		x = vref.Cat(`"`, vsym.ByteIn("tfx"), vref.Plain(), `"`)
	case 3:
		x = vref.Cat(vref.Pos())
	}
	switch vsym.Choose(14) {
	case 0:
		return vref.Cat(`{"V":1,"A":`, x, `}`)
	case 1:
		return vref.Cat(`{"B":[1,`, x, `,2],"V":3}`)
	case 2:
		return vref.Cat(`{"C":{"a":"x","b":`, x, `},"V":4}`)
	case 3:
		return vref.Cat(`{"D":{"D":{"A":`, x, `}},"V":5}`)
	case 4:
		return vref.Cat(`{"E":[{"V":1},{"E":[{"V":2},{"B":[`, x, `]}]}],"V":6}`)
	case 5:
		return vref.Cat(`{"F":{"a":1,"`, vsym.ByteIn("tfx"), `":2},"V":7}`)
	case 6:
		return vref.Cat(`{"D":{"G":`, x, `},"V":8}`)
	case 7:
		return vref.Cat(`{"H":[{"V":1},{"A":`, x, `}],"V":9}`)
	case 8:
		return vref.Cat(`{"I":[1,`, x, `],"V":9}`)
	case 9:
		return vref.Cat(`{"J":{"k":{"J":{"l":{"V":1,"A":`, x, `}}}},"V":9}`)
	case 10:
		return vref.Cat(`{"J":{"k":{"E":[{"D":{"G":`, x, `}},{}]}},"V":9}`)
	case 11:
		return vref.Cat(`{"D":{"H":[{"D":{"V":1}}],"A":`, x, `},"E":[{"V":2}]}`)
	case 12:
		return vref.Cat(`{"E":[{"H":[{"E":[{"V":2},{"V":3}]}],"V":4},{"A":`, x, `}],"V":5}`)
	}
	return x
}

var mixDocs = []string{
	`{"A":1,"B":[1,2],"C":{"a":1},"D":{"V":2,"D":{"V":3}},"E":[{"V":1},{"E":[{"V":4}]}],"F":{"x":1},"G":"g","H":[{"V":1}],"I":[1,2],"J":{"a":{"V":5}},"V":6}`,
	`{"D":{"V":2},"E":[{"B":[1]}]}`,
	`{"J":{"a":{"J":{"b":{"V":1}}}},"I":[3]}`,
	`{"E":[{}`,
}

func panics(f func()) (p bool) {
	defer func() {
		if e := recover(); e != nil {
			if e != any("fuse") {
				panic(e)
			}
			p = true
		}
	}()
	f()
	return
}

// HPanic: after a call that an unmarshaler failed or panicked in, or decoded with
// a decoder of its own in.
func HPanic() {
	d := vref.Dec[[]byte, mix]()
	for _, doc := range [][]byte{mixDoc(), []byte(mixDocs[vsym.Choose(len(mixDocs))])} {
		var got, want mix
		var idx, fidx int
		var err, ferr error
		p := panics(func() { idx, err = d.Decode(doc, &got, jd.DefaultOptions) })
		fp := panics(func() { fidx, ferr = vref.Dec[[]byte, mix]().Decode(doc, &want, jd.DefaultOptions) })
		if p {
			vsym.Reach("panicked")
		}
		vsym.Assert(p == fp, "a used decoder panics where a new one does not, or the reverse")
		vsym.Assert((err == nil) == (ferr == nil), "a used decoder reports an error where a new one does not, or the reverse")
		vsym.Assert(vsym.Or(err == nil, idx == fidx), "a used decoder reports another index")
		vsym.Assert(vsym.DeepEq(&got, &want), "a used decoder gives another value")
	}
}

// HZoo: two documents for types with all kinds of places; the first one may fail.
func HZoo() {
	v := vref.Small()
	i := vsym.Choose(vref.ZooPlaces)
	j := (i*7 + 3) % vref.ZooPlaces
	t := []byte{vref.Pos()}
	switch vsym.Choose(3) {
	case 0:
		reuse[vref.Zoo[int]](vref.ZooDoc(i, v, []byte("1"), t), vref.ZooDoc(j, []byte("5"), []byte("1"), t))
	case 1:
		reuse[vref.Zoo[string]](vref.ZooDoc(i, v, []byte(`"w"`), t), vref.ZooDoc(i, []byte(`"x"`), []byte(`"y"`), t), vref.ZooDoc(j, []byte(`"x"`), []byte(`"y"`), t))
	case 2:
		reuse[vref.Zoo[[]any]](vref.ZooDoc(j, v, []byte(`[1,{"a":[]}]`), t), vref.ZooDoc(i, []byte(`[[2]]`), []byte(`[{"b":3}]`), t))
	}
}

// HAll: two documents for a type with every kind of type; the first one may fail.
func HAll() {
	k := vsym.Choose(vref.AllKinds)
	switch k / 8 {
	case 0:
		inAll[vref.All0](k)
	case 1:
		inAll[vref.All1](k)
	case 2:
		inAll[vref.All2](k)
	case 3:
		inAll[vref.All3](k)
	}
}

func inAll[T any](k int) {
	p := vref.AllPlace(k)
	d, f1, f2 := vref.Dec[string, T](), vref.Dec[string, T](), vref.Dec[string, T]()
	got1, got2, want1, want2 := new(T), new(T), new(T), new(T)
	b := string(vref.AllDoc(k, p, vref.AllAlt(k)))
	fidx, ferr := f2.Decode(b, want2, jd.DefaultOptions)
	a := string(vref.AllDoc(k, p, vref.Odd()))
	idx1, err1 := d.Decode(a, got1, jd.DefaultOptions)
	fidx1, ferr1 := f1.Decode(a, want1, jd.DefaultOptions)
	if err1 != nil {
		vsym.Reach("failed")
	}
	idx, err := d.Decode(b, got2, jd.DefaultOptions)
	vsym.Assert((err1 == nil) == (ferr1 == nil) && (err == nil) == (ferr == nil), "a used decoder reports an error where a new one does not, or the reverse")
	vsym.Assert(vsym.And(idx1 == fidx1, idx == fidx), "a used decoder reports another index")
	vsym.Assert(vsym.DeepEq(got1, want1), "a later call modified the destination of an earlier one")
	vsym.Assert(vsym.DeepEq(got2, want2), "a used decoder gives another value")
}
