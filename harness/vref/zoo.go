package vref

import (
	jd "github.com/romshark/jscan-experimental-decoder"
	"github.com/romshark/jscan-experimental-decoder/internal/vsym"
)

// Pair holds an E and a neighbour.
type Pair[E any] struct {
	X E
	Y int
}

// Zoo holds an E everywhere.
type Zoo[E any] struct {
	A  E
	T  int
	B  *E
	C  []E
	D  [2]E
	M  map[string]E
	P  []*E
	Q  [][]E
	R  map[string][]E
	S  *[]E
	I  Pair[E]
	L  []Pair[E]
	K  **E
	U  map[int]E
	O  map[string]*E
	J  map[string]Pair[E]
	V  [2][2]E
	W  [][1]Pair[E]
	N  *Zoo[E]
	G  []Zoo[E]
	H  map[string]Zoo[E]
	F  map[string]map[string]E
	PC *Pair[E]
	LP []*Pair[E]
	Z  int
	// AA stays empty, since a repeated member may meet the spare capacity of a slice.
	AA E
}

// Fill populates a Zoo.
func (z *Zoo[E]) Fill(mk func() E, deep bool) {
	p := func() *E { e := mk(); return &e }
	k := p()
	s := []E{mk()}
	*z = Zoo[E]{A: mk(), T: 91, B: p(), C: []E{mk(), mk(), mk()}, D: [2]E{mk(), mk()}, M: map[string]E{"a": mk(), "z": mk()},
		P: []*E{p(), nil, p()}, Q: [][]E{{mk(), mk()}}, R: map[string][]E{"k": {mk(), mk(), mk()}}, S: &s, I: Pair[E]{mk(), 92},
		L: []Pair[E]{{mk(), 93}, {mk(), 94}}, K: &k, U: map[int]E{1: mk(), 7: mk()}, O: map[string]*E{"a": p(), "z": nil},
		J: map[string]Pair[E]{"a": {mk(), 95}}, V: [2][2]E{{mk(), mk()}, {mk(), mk()}}, W: [][1]Pair[E]{{{mk(), 96}}},
		F: map[string]map[string]E{"a": {"b": mk(), "z": mk()}}, PC: &Pair[E]{mk(), 97}, LP: []*Pair[E]{{mk(), 98}, nil}, Z: 99}
	if deep {
		z.N, z.G, z.H = &Zoo[E]{}, make([]Zoo[E], 3), map[string]Zoo[E]{}
		z.N.Fill(mk, false)
		z.G[0].Fill(mk, false)
		z.G[2].Fill(mk, false)
		var x Zoo[E]
		x.Fill(mk, false)
		z.H["x"] = x
	}
}

// ZooPlaces is the number of places of a Zoo.
const ZooPlaces = 31

// ZooDoc is a document for a Zoo with v at the i-th place and the valid value w
// at others; t is an int.
func ZooDoc(i int, v, w, t []byte) []byte {
	switch i {
	case 0:
		return Cat(`{"A":`, v, `,"T":`, t, `}`)
	case 1:
		return Cat(`{"B":`, v, `,"T":`, t, `}`)
	case 2:
		return Cat(`{"C":[`, v, `,`, w, `],"T":`, t, `}`)
	case 3:
		return Cat(`{"T":`, t, `,"C":[`, w, `,`, w, `,`, w, `,`, v, `]}`)
	case 4:
		return Cat(`{"D":[`, v, `],"T":`, t, `}`)
	case 5:
		return Cat(`{"D":[`, w, `,`, v, `],"T":`, t, `}`)
	case 6:
		return Cat(`{"M":{"a":`, v, `,"b":`, w, `},"T":`, t, `}`)
	case 7:
		return Cat(`{"M":{"b":`, w, `,"b":`, v, `},"T":`, t, `}`)
	case 8:
		return Cat(`{"P":[`, v, `,`, w, `,`, v, `],"T":`, t, `}`)
	case 9:
		return Cat(`{"Q":[[`, w, `],[],[`, w, `,`, v, `]],"T":`, t, `}`)
	case 10:
		return Cat(`{"R":{"k":[`, w, `,`, v, `],"l":[]},"T":`, t, `}`)
	case 11:
		return Cat(`{"S":[`, v, `],"T":`, t, `}`)
	case 12:
		return Cat(`{"I":{"X":`, v, `,"Y":`, t, `},"Z":2}`)
	case 13:
		return Cat(`{"L":[{"X":`, v, `},{"Y":`, t, `},{"X":`, w, `}],"Z":2}`)
	case 14:
		return Cat(`{"K":`, v, `,"T":`, t, `}`)
	case 15:
		return Cat(`{"U":{"1":`, v, `,"2":`, w, `},"T":`, t, `}`)
	case 16:
		return Cat(`{"O":{"a":`, v, `,"b":`, w, `},"T":`, t, `}`)
	case 17:
		return Cat(`{"J":{"a":{"X":`, v, `},"b":{"Y":`, t, `}},"Z":2}`)
	case 18:
		return Cat(`{"V":[[`, v, `],[`, w, `,`, v, `]],"T":`, t, `}`)
	case 19:
		return Cat(`{"W":[[{"X":`, v, `}],[{"Y":`, t, `,"X":`, w, `}]],"Z":2}`)
	case 20:
		return Cat(`{"N":{"A":`, v, `,"T":`, t, `},"Z":2}`)
	case 21:
		return Cat(`{"G":[{"A":`, w, `},{"C":[`, v, `]},{"T":`, t, `}],"Z":2}`)
	case 22:
		return Cat(`{"H":{"x":{"D":[`, v, `]},"y":{"T":`, t, `}},"Z":2}`)
	case 23:
		return Cat(`{"N":{"G":[{"H":{"x":{"A":`, v, `}},"T":`, t, `}]},"Z":2}`)
	case 24:
		return Cat(`{"F":{"a":{"b":`, v, `},"c":{"b":`, w, `}},"T":`, t, `}`)
	case 25:
		return Cat(`{"PC":{"X":`, v, `,"Y":`, t, `},"Z":2}`)
	case 26:
		return Cat(`{"LP":[{"X":`, v, `},{"Y":`, t, `},{"X":`, v, `}],"Z":2}`)
	case 27:
		return Cat(`{"AA":`, w, `,"T":`, t, `,"AA":`, v, `,"T":2}`)
	case 28:
		return Cat(`{"x":`, v, `,"T":`, t, `,"A":`, w, `}`)
	case 29:
		return Cat(`{"c":[`, v, `],"\u0054":`, t, `,"\u0041":`, w, `}`)
	}
	return Cat(`{"G":[{"G":[{"G":[]},{"L":[{"X":`, v, `}]}]},{"N":{"T":`, t, `}}],"Z":2}`)
}

// InZoo decodes v at every place of a Zoo that is zero or, if there is a mk,
// populated; w is a valid value.
func InZoo[E any](v []byte, w string, mk func() E) {
	i := vsym.Choose(ZooPlaces)
	d := ZooDoc(i, v, []byte(w), []byte{Pos()})
	var prior func(*Zoo[E])
	if mk != nil && vsym.Choose(2) == 1 {
		prior = func(z *Zoo[E]) { z.Fill(mk, true) }
	}
	if i%2 == 0 {
		DocOpt(d, jd.DefaultOptions, prior)
	} else {
		DocStr(d, jd.DefaultOptions, prior)
	}
}
