// Package c04: exactly the RFC 8259 documents are accepted.
package c04

import (
	"encoding/json"
	"strconv"

	jd "github.com/romshark/jscan-experimental-decoder"
	"github.com/romshark/jscan-experimental-decoder/internal/vref"
	"github.com/romshark/jscan-experimental-decoder/internal/vsym"
)

type point struct {
	X int
	Y any
}

// accept decodes doc into destinations that accept everything.
func accept(doc []byte) {
	switch vsym.Choose(3) {
	case 0:
		var v any = "before"
		idx, err := vref.Dec[[]byte, any]().Decode(doc, &v, jd.DefaultOptions)
		verdict(doc, idx, err, v == "before")
	case 1:
		var v any = "before"
		idx, err := vref.Dec[string, any]().Decode(string(doc), &v, jd.DefaultOptions)
		verdict(doc, idx, err, v == "before")
	case 2:
		v := json.RawMessage("7")
		idx, err := vref.Dec[[]byte, json.RawMessage]().Decode(doc, &v, jd.DefaultOptions)
		verdict(doc, idx, err, string(v) == "7")
	}
}

func verdict(doc []byte, idx int, err error, same bool) {
	n, ok := vref.Parse(doc)
	if err != nil && ok && outOfRange(doc, n) {
		vsym.Reach("a number beyond float64")
		return
	}
	vsym.ObserveBool(ok)
	if ok {
		vsym.Reach("valid")
		vsym.Assert(err == nil, "a valid document is rejected")
		return
	}
	vsym.Reach("invalid")
	vsym.Assert(err != nil, "an invalid document is accepted")
	vsym.Assert(vsym.And(idx >= 0, idx <= len(doc)), "the error index is outside of the input")
	vsym.Assert(same, "the destination was changed by an invalid document")
}

// outOfRange tells whether doc has a number float64 can't hold: C04 leaves open
// whether an any takes it.
func outOfRange(doc []byte, n *vref.Node) bool {
	if n.K == vref.Num {
		_, err := strconv.ParseFloat(string(doc[n.S:n.E]), 64)
		return err != nil
	}
	for _, c := range n.Elems {
		if outOfRange(doc, c) {
			return true
		}
	}
	return false
}

// HBytes: arbitrary bytes.
func HBytes() { accept(vsym.Bytes(vsym.Choose(vsym.Pick(4, 5)))) }

// HChars: arbitrary texts over JSON's own characters.
func HChars() { accept(vsym.BytesIn(1+vsym.Choose(vsym.Pick(5, 6)), "[]{}\":,0-1.e\\ ")) }

// HLiteral: near misses of the literals.
func HLiteral() {
	l := []string{"true", "false", "null"}[vsym.Choose(3)]
	b := []byte(l)
	b[vsym.Choose(len(b))] = vsym.Byte()
	switch vsym.Choose(4) {
	case 0:
	case 1:
		b = b[:len(b)-1]
	case 2:
		b = append(b, vsym.Byte())
	case 3:
		b = vref.Cat("[", b, "]")
	}
	accept(b)
}

// HHole: two arbitrary bytes inside of larger documents.
func HHole() {
	h := vsym.Bytes(2)
	var d []byte
	switch vsym.Choose(9) {
	case 0:
		d = vref.Cat(`{"a":`, h, `}`)
	case 1:
		d = vref.Cat(`{"a"`, h, `1}`)
	case 2:
		d = vref.Cat(`{"a":1`, h, `"b":2}`)
	case 3:
		d = vref.Cat(`[1`, h, `2]`)
	case 4:
		d = vref.Cat(`[{"a":[]}`, h, `]`)
	case 5:
		d = vref.Cat(`"ab`, h, `cd"`)
	case 6:
		d = vref.Cat(`[-1.5e3]`, h)
	case 7:
		d = vref.Cat(h, `{"a":null}`)
	case 8:
		d = vref.Cat(`[12`, h, `0]`)
	}
	accept(d)
}

// HString: arbitrary bytes at every place of a string.
func HString() {
	n := vsym.Choose(vsym.Pick(20, 40))
	at := vsym.Choose(n + 1)
	q := []byte{'"'}
	for i := 0; i < n; i++ {
		if i == at {
			q = append(q, vsym.Byte())
		} else {
			q = append(q, vref.Plain())
		}
	}
	accept(append(q, '"'))
}

// HNumber: arbitrary texts over the characters of numbers.
func HNumber() {
	b := vsym.BytesIn(1+vsym.Choose(vsym.Pick(5, 6)), "-+.eE0123456789")
	if vsym.Choose(2) == 1 {
		b = vref.Cat("[", b, "]")
	}
	accept(b)
}

// HClean: a destination of a specific type is left alone by invalid input.
func HClean() {
	var d []byte
	switch vsym.Choose(5) {
	case 0:
		d = vref.Cat(`{"X":5,"Y":[1]`, vsym.Bytes(2))
	case 1:
		d = vref.Cat(`{"X":5,"Y":"a"}`, vsym.Bytes(2))
	case 2:
		d = vref.Cat(`{"Y":{"k":1},"X":`, vsym.Bytes(2))
	case 3:
		d = vref.Cat(`{"X":5`, vsym.Byte(), `"Y":"a`, vsym.Byte(), `}`)
	case 4:
		d = vref.Cat(vsym.Bytes(1), `{"X":5`, vsym.Byte())
	}
	v := point{X: 1, Y: "before"}
	idx, err := vref.Dec[[]byte, point]().Decode(d, &v, jd.DefaultOptions)
	if _, ok := vref.Parse(d); ok {
		return
	}
	verdict(d, idx, err, vsym.And(v.X == 1, v.Y == "before"))
}

// HCleanSlice is HClean for a populated slice.
func HCleanSlice() {
	d := vref.Cat(`[9,8`, vsym.Bytes(3))
	v := []int{1, 2, 3}
	idx, err := vref.Dec[[]byte, []int]().Decode(d, &v, jd.DefaultOptions)
	if _, ok := vref.Parse(d); ok {
		return
	}
	same := len(v) == 3
	if same {
		same = vsym.And(v[0] == 1, vsym.And(v[1] == 2, v[2] == 3))
	}
	verdict(d, idx, err, same)
}

// unmarshal is accept for Unmarshal.
func unmarshal(doc []byte) {
	switch vsym.Choose(3) {
	case 0:
		var v any = "before"
		err := jd.Unmarshal(doc, &v)
		verdict(doc, 0, err, v == "before")
	case 1:
		v := point{X: 1, Y: "before"}
		err := jd.Unmarshal(string(doc), &v)
		if err != nil {
			// a valid document of another type is none of C04's
			if _, ok := vref.Parse(doc); ok {
				return
			}
		}
		verdict(doc, 0, err, vsym.And(v.X == 1, v.Y == "before"))
	case 2:
		v := json.RawMessage("7")
		err := jd.Unmarshal(string(doc), &v)
		verdict(doc, 0, err, string(v) == "7")
	}
}

// HUnmarshal: arbitrary bytes.
func HUnmarshal() { unmarshal(vsym.Bytes(vsym.Choose(vsym.Pick(4, 5)))) }

// HAround: arbitrary bytes before and after complete documents.
func HAround() {
	w := [][]byte{[]byte("1"), []byte("{}"), []byte(`{"X":3}`), []byte("null"), []byte(`"a"`), []byte("[]")}[vsym.Choose(6)]
	var d []byte
	switch vsym.Choose(3) {
	case 0:
		d = vref.Cat(vsym.Bytes(3), w)
	case 1:
		d = vref.Cat(w, vsym.Bytes(3))
	case 2:
		d = vref.Cat(vsym.Bytes(2), w, vsym.Bytes(1))
	}
	if vsym.Choose(2) == 0 {
		accept(d)
	} else {
		unmarshal(d)
	}
}
