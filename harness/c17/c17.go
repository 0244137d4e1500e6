// Package c17: custom unmarshalers get the exact value text.
package c17

import (
	"errors"

	jd "github.com/romshark/jscan-experimental-decoder"
	"github.com/romshark/jscan-experimental-decoder/internal/vref"
	"github.com/romshark/jscan-experimental-decoder/internal/vsym"
)

var (
	errJSON = errors.New("json")
	errText = errors.New("text")
	calls   []string
)

// bad tells which values the unmarshalers reject: some of every kind.
func bad(b []byte) bool {
	switch b[0] {
	case '-', 'f':
		return true
	case '"':
		return b[1] == '-'
	case '[', '{':
		return len(b) == 2 || b[len(b)-2] == '0'
	}
	return false
}

func badText(b []byte) bool {
	return len(b) > 0 && b[0] == '!'
}

// js is a json.Unmarshaler that remembers the text and how often it was called.
type js struct {
	Raw string
	N   int
}

func (j *js) UnmarshalJSON(b []byte) error {
	calls = append(calls, "j"+string(b))
	if bad(b) {
		return errJSON
	}
	j.Raw = string(b)
	j.N++
	return nil
}

// small has another size.
type small byte

func (j *small) UnmarshalJSON(b []byte) error {
	calls = append(calls, "s"+string(b))
	if bad(b) {
		return errJSON
	}
	*j += small(len(b))
	return nil
}

// jsl, jmap and jptr are other kinds.
type jsl []byte

func (j *jsl) UnmarshalJSON(b []byte) error {
	calls = append(calls, "l"+string(b))
	if bad(b) {
		return errJSON
	}
	*j = append((*j)[:0], b...)
	return nil
}

type jmap map[string]string

func (j *jmap) UnmarshalJSON(b []byte) error {
	calls = append(calls, "m"+string(b))
	if bad(b) {
		return errJSON
	}
	*j = jmap{"raw": string(b)}
	return nil
}

// jval has its method on the value.
type jval struct{ X int }

func (j jval) UnmarshalJSON(b []byte) error {
	calls = append(calls, "v"+string(b))
	if bad(b) {
		return errJSON
	}
	return nil
}

// tx is an encoding.TextUnmarshaler.
type tx struct {
	S string
	N int
}

func (t *tx) UnmarshalText(b []byte) error {
	calls = append(calls, "t"+string(b))
	if badText(b) {
		return errText
	}
	t.S = string(b)
	t.N++
	return nil
}

type tint int16

func (t *tint) UnmarshalText(b []byte) error {
	calls = append(calls, "i"+string(b))
	if badText(b) {
		return errText
	}
	*t += tint(len(b))
	return nil
}

type tstr string

func (t *tstr) UnmarshalText(b []byte) error {
	calls = append(calls, "r"+string(b))
	if badText(b) {
		return errText
	}
	*t = tstr("<" + string(b) + ">")
	return nil
}

type tsl []int

func (t *tsl) UnmarshalText(b []byte) error {
	calls = append(calls, "a"+string(b))
	if badText(b) {
		return errText
	}
	*t = append(*t, len(b))
	return nil
}

type tval struct{ X int }

func (t tval) UnmarshalText(b []byte) error {
	calls = append(calls, "w"+string(b))
	if badText(b) {
		return errText
	}
	return nil
}

// both implements both interfaces.
type both struct{ S string }

func (t *both) UnmarshalJSON(b []byte) error {
	calls = append(calls, "J"+string(b))
	if bad(b) {
		return errJSON
	}
	t.S = "j" + string(b)
	return nil
}

func (t *both) UnmarshalText(b []byte) error {
	calls = append(calls, "T"+string(b))
	t.S = "t" + string(b)
	return nil
}

// run compares the value, the error and the calls with the reference's.
func run[T any](doc []byte, prior func(*T)) {
	got, want := new(T), new(T)
	if prior != nil {
		prior(got)
		prior(want)
	}
	calls = nil
	var idx int
	var err error
	if vsym.Choose(2) == 0 {
		idx, err = vref.Dec[[]byte, T]().Decode(doc, got, jd.DefaultOptions)
	} else {
		idx, err = vref.Dec[string, T]().Decode(string(doc), got, jd.DefaultOptions)
	}
	mine := calls
	calls = nil
	vref.Judge(doc, idx, err, got, want, jd.DefaultOptions)
	vsym.Assert(len(mine) == len(calls), "an unmarshaler is not called exactly once per value")
	vsym.Assert(vsym.DeepEq(mine, calls), "an unmarshaler gets another text than that of the value")
	if len(calls) > 0 {
		vsym.Reach("called")
	}
}

// at puts v where a T can be.
func at[T any](v []byte) {
	switch vsym.Choose(12) {
	case 0:
		run[T](v, nil)
	case 1:
		run[[]T](vref.Cat("[", v, "]"), nil)
	case 2:
		run[[]T](vref.Cat("[ null , ", v, " , \"z\" ]"), nil)
	case 3:
		run[*T](v, nil)
	case 4:
		run[[]*T](vref.Cat("[", v, ",null]"), nil)
	case 5:
		run[struct {
			A int
			B T
			C string
		}](vref.Cat(`{"A":1,"B" : `, v, ` ,"C":"x"}`), nil)
	case 6:
		run[struct {
			A *T
			B **T
			C int
		}](vref.Cat(`{"B":`, v, `,"A": `, v, `,"C":5}`), nil)
	case 7:
		run[map[string]T](vref.Cat(`{"k":`, v, `,"l":"y"}`), nil)
	case 8:
		run[map[string]*T](vref.Cat(`{"k":`, v, `,"l":null}`), nil)
	case 9:
		run[[2]T](vref.Cat(`[`, v, `]`), nil)
	case 10:
		run[[]struct{ X, Y T }](vref.Cat(`[{"Y":`, v, `},{"X":"q","Y":`, v, `}]`), nil)
	case 11:
		run[[][]T](vref.Cat(`[[`, v, `],[],["p"]]`), nil)
	}
}

// jv is any value, possibly with whitespace inside.
func jv() []byte {
	switch vsym.Choose(4) {
	case 0:
		return vref.Cat(`[ 1 ,`, vsym.BytesIn(1, " \t\n\r"), `{ "a" : [] } ]`)
	case 1:
		return vref.Cat(`{"a" :`, vref.Small(), ` , "b":[`, vref.Small(), `]}`)
	}
	return vref.Value(vsym.Pick(1, 2))
}

func HJSON()   { at[js](jv()) }
func HSmall()  { at[small](vref.Value(1)) }
func HJSlice() { at[jsl](vref.Value(1)) }
func HJMap()   { at[jmap](vref.Value(1)) }
func HJVal()   { at[jval](vref.Value(0)) }
func HBoth()   { at[both](vref.Value(1)) }

// tv is a value for a text unmarshaler.
func tv() []byte {
	switch vsym.Choose(6) {
	case 0:
		return vref.Cat(`"`, vref.Plain(), vref.Plain(), `"`)
	case 1:
		return vref.Cat(`"`, vref.Plain(), `\`, vsym.ByteIn(`"\/bfnrt`), `"`)
	case 2:
		return vref.Cat(`"\u00e`, vsym.ByteIn("19aA"), vref.Plain(), `"`)
	case 3:
		return vref.Cat(`"0123456`, vref.Plain(), `\n"`)
	}
	return vref.Small()
}

func HText()   { at[tx](tv()) }
func HTInt()   { at[tint](tv()) }
func HTStr()   { at[tstr](tv()) }
func HTSlice() { at[tsl](tv()) }
func HTVal()   { at[tval](vref.Small()) }

// HPrior: the method is called on what the destination holds.
func HPrior() {
	v := vref.Small()
	switch vsym.Choose(7) {
	case 0:
		run(v, func(x *js) { *x = js{"old", 5} })
	case 1:
		run(v, func(x **js) { *x = &js{"old", 5} })
	case 2:
		run(v, func(x *tx) { *x = tx{"old", 5} })
	case 3:
		run(v, func(x ***tx) { p := &tx{"old", 5}; *x = &p })
	case 4:
		run(vref.Cat(`{"a":`, v, `}`), func(x *map[string]js) { *x = map[string]js{"a": {"old", 5}, "b": {"p", 6}} })
	case 5:
		run(vref.Cat(`[`, v, `]`), func(x *[2]small) { *x = [2]small{7, 8} })
	case 6:
		run(vref.Cat(`{"A":`, v, `}`), func(x *struct{ A, B tint }) { x.A, x.B = 7, 8 })
	}
}

// HNulls: null for a destination that holds something.
func HNulls() {
	v := []byte("null")
	if vsym.Choose(2) == 1 {
		v = vref.Cat(`"`, vref.Plain(), `"`)
	}
	old := func(x *all) {
		tiny, two := tint(9), tint(10)
		*x = all{
			tx{"old", 5}, &tx{"p", 6}, 7, &tiny, "s", tsl{1, 2}, &tsl{3}, tmap{"k": 1}, tval{4}, both{"b"},
			js{"old", 5}, &js{"p", 6}, 8, jsl("abc"), &jsl{'d'}, jmap{"k": "v"}, jval{4}, tptr{&two},
		}
	}
	k := vsym.ByteIn("ABCDEFGHIJKLMNOPQR")
	switch vsym.Choose(4) {
	case 0:
		run(vref.Cat(`{"`, k, `":`, v, `}`), old)
	case 1:
		run(vref.Cat(`[{"`, k, `":`, v, `}]`), func(x *[]all) { *x = make([]all, 1); old(&(*x)[0]) })
	case 2:
		switch vsym.Choose(5) {
		case 0:
			run(v, func(x *tsl) { *x = tsl{1, 2} })
		case 1:
			run(v, func(x *tmap) { *x = tmap{"k": 1} })
		case 2:
			run(v, func(x *jsl) { *x = jsl{1, 2} })
		case 3:
			run(v, func(x *jmap) { *x = jmap{"k": "v"} })
		case 4:
			run(v, func(x **tsl) { *x = &tsl{1, 2} })
		}
	case 3:
		run(vref.Cat(`{"C":[{"P":{"T":null,"J":null}}],"T":`, v, `,"J":`, v, `}`), func(x *rec) {
			*x = rec{J: js{"old", 5}, T: &tx{"old", 5}, C: []rec{{P: &rec{J: js{"old", 6}, T: &tx{"old", 6}}}}}
		})
	}
}

type tmap map[string]int

func (t *tmap) UnmarshalText(b []byte) error {
	calls = append(calls, "m"+string(b))
	if badText(b) {
		return errText
	}
	*t = tmap{string(b): len(b)}
	return nil
}

type tptr struct{ P *tint }

func (t *tptr) UnmarshalText(b []byte) error {
	calls = append(calls, "p"+string(b))
	t.P = nil
	return nil
}

type all struct {
	A tx
	B *tx
	C tint
	D *tint
	E tstr
	F tsl
	G *tsl
	H tmap
	I tval
	J both
	K js
	L *js
	M small
	N jsl
	O *jsl
	P jmap
	Q jval
	R tptr
}

type rec struct {
	J js
	T *tx
	C []rec
	M map[string]rec
	P *rec
	V int
}

// HRec: inside of recursive types.
func HRec() {
	v := vref.Value(1)
	switch vsym.Choose(5) {
	case 0:
		run[rec](vref.Cat(`{"J":`, v, `,"P":{"J":`, v, `,"V":1},"V":2}`), nil)
	case 1:
		run[rec](vref.Cat(`{"C":[{"J":`, v, `},{"T":"x"}],"V":2}`), nil)
	case 2:
		run[rec](vref.Cat(`{"M":{"a":{"J":`, v, `,"V":1}},"J":1}`), nil)
	case 3:
		run[rec](vref.Cat(`{"T":`, v, `,"C":[],"J":[],"V":3}`), nil)
	case 4:
		run[rec](vref.Cat(`{"C":[{"C":[{"T":"a","J":`, v, `}],"V":1}],"V":2}`), nil)
	}
}

// HMixed: several unmarshalers next to other fields.
func HMixed() {
	type s struct {
		A js
		B small
		C tx
		D jsl
		E []int
		F *tint
		G map[string]tstr
		H int
	}
	v := vref.Small()
	switch vsym.Choose(3) {
	case 0:
		run[s](vref.Cat(`{"A":`, v, `,"B":{"x":[1]},"C":"c","D":[[]],"E":[1,2],"F":"f","G":{"a":"b"},"H":8}`), nil)
	case 1:
		run[s](vref.Cat(`{"G":{"a":`, v, `},"E":[1],"D":`, v, `,"C":"x","H":9}`), nil)
	case 2:
		run[s](vref.Cat(`{"u":{"A":1},"F":`, v, `,"B":`, v, `,"E":[5],"H":1}`), nil)
	}
}

// ju and tu have no size.
type ju struct{}

func (j *ju) UnmarshalJSON(b []byte) error {
	s := "u"
	if j == nil {
		s = "nil"
	}
	calls = append(calls, s+string(b))
	if bad(b) {
		return errJSON
	}
	return nil
}

type tu [0]int

func (t *tu) UnmarshalText(b []byte) error {
	s := "U"
	if t == nil {
		s = "nil"
	}
	calls = append(calls, s+string(b))
	if badText(b) {
		return errText
	}
	return nil
}

type unsized struct {
	A ju
	B tu
}

// HUnsized: values without a size have an address too.
func HUnsized() {
	v := vref.Small()
	d := vref.Cat(`{"A":`, v, `,"B":`, v, `}`)
	switch vsym.Choose(8) {
	case 0:
		run[*unsized](d, nil)
	case 1:
		run[[]*unsized](vref.Cat(`[`, d, `,`, d, `]`), nil)
	case 2:
		run[map[string]*unsized](vref.Cat(`{"a":`, d, `}`), nil)
	case 3:
		run[struct {
			N int
			P *unsized
			Q **unsized
			R unsized
		}](vref.Cat(`{"N":1,"P":`, d, `,"Q":`, d, `,"R":`, d, `}`), nil)
	case 4:
		run[map[string]unsized](vref.Cat(`{"a":`, d, `}`), nil)
	case 5:
		run[[]ju](vref.Cat(`[`, v, `,`, v, `]`), nil)
	case 6:
		run[[]*tu](vref.Cat(`[`, v, `,`, v, `]`), nil)
	case 7:
		run[[2]*ju](vref.Cat(`[`, v, `,`, v, `]`), nil)
	}
}

// HZoo: unmarshalers at every place of a type, which may be populated.
func HZoo() {
	i := vsym.Choose(vref.ZooPlaces)
	switch vsym.Choose(4) {
	case 0:
		run(vref.ZooDoc(i, vref.Small(), []byte(`[ 1]`), []byte("2")), func(z *vref.Zoo[js]) { z.Fill(func() js { return js{"old", 3} }, true) })
	case 1:
		run(vref.ZooDoc(i, vref.Small(), []byte(`"w"`), []byte("2")), func(z *vref.Zoo[tx]) { z.Fill(func() tx { return tx{"old", 3} }, true) })
	case 2:
		run(vref.ZooDoc(i, vref.Small(), []byte(`{"w" :1}`), []byte("2")), func(z *vref.Zoo[jval]) { z.Fill(func() jval { return jval{3} }, false) })
	case 3:
		run[vref.Zoo[jmap]](vref.ZooDoc(i, vref.Small(), []byte(`7`), []byte("2")), nil)
	}
}

// HSpaced: whitespace anywhere inside of the value.
func HSpaced() {
	at := vsym.Choose(20)
	w := vsym.BytesIn(1+vsym.Choose(2), " \t\n\r")
	var v []byte
	for i, x := range []string{"[", "1", ",", "{", `"a"`, ":", `"b"`, ",", `"c"`, ":", "[", "]", ",", `"d"`, ":", "{", "}", "}", ",", "null", "]"} {
		v = append(v, x...)
		if i == at {
			v = append(v, w...)
		}
	}
	switch vsym.Choose(6) {
	case 0:
		run[js](v, nil)
	case 1:
		run[[]js](vref.Cat("[", v, "]"), nil)
	case 2:
		run[struct {
			A *js
			B js
		}](vref.Cat(`{"A":{"x":`, v, `},"B":`, v, `}`), nil)
	case 3:
		run[map[string]jval](vref.Cat(`{"k":`, v, `}`), nil)
	case 4:
		run[[2]jmap](vref.Cat("[0,", v, "]"), nil)
	case 5:
		run[[]*both](vref.Cat("[", v, ",", v, "]"), nil)
	}
}
