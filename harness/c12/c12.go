// Package c12: recursive types decode to the document's exact tree.
package c12

import (
	jd "github.com/romshark/jscan-experimental-decoder"
	"github.com/romshark/jscan-experimental-decoder/internal/vref"
	"github.com/romshark/jscan-experimental-decoder/internal/vsym"
)

type list struct {
	V int
	N *list
}

type tree struct {
	V int
	L *tree
	R *tree
	T string
}

type kids struct {
	V int
	C []kids
	T string
}

type pkids struct {
	V int
	C []*pkids
	T string
}

type dict struct {
	V int
	M map[string]dict
	T string
}

type pdict struct {
	V int
	M map[string]*pdict
	T string
}

type mixed struct {
	V int
	P *mixed
	S []mixed
	M map[string]mixed
	T string
}

type inner struct {
	X int
	B *outer
	Y int
}

type outer struct {
	I inner
	J *inner
	Z int
}

type arr struct {
	C [2][]arr
	V int
}

func v() []byte { return vref.Cat(`"V":`, vref.Pos()) }

// orders puts members in several orders and leaves some out.
func orders(ms ...[]byte) []byte {
	b := []byte("{")
	add := func(m []byte) {
		if len(b) > 1 {
			b = append(b, ',')
		}
		b = append(b, m...)
	}
	n := len(ms)
	switch vsym.Choose(4) {
	case 0:
		for i := 0; i < n; i++ {
			add(ms[i])
		}
	case 1:
		for i := n - 1; i >= 0; i-- {
			add(ms[i])
		}
	case 2:
		for i := 0; i < n; i++ {
			add(ms[(i+1)%n])
		}
	case 3:
		add(ms[vsym.Choose(n)])
	}
	return append(b, '}')
}

func listDoc(d int) []byte {
	if d == 0 {
		switch vsym.Choose(3) {
		case 0:
			return []byte("null")
		case 1:
			return []byte("{}")
		}
		return vref.Cat("{", v(), "}")
	}
	return orders(v(), vref.Cat(`"N":`, listDoc(d-1)))
}

func HList() {
	vref.Doc[list](listDoc(vsym.Choose(vsym.Pick(4, 6))))
}

// HListLong: long chains.
func HListLong() {
	n := 2 + vsym.Choose(vsym.Pick(20, 40))
	var b, e []byte
	for i := 0; i < n; i++ {
		if i%2 == 0 {
			b = vref.Cat(b, `{"N":`)
			e = vref.Cat(`,`, v(), `}`, e)
		} else {
			b = vref.Cat(b, `{`, v(), `,"N":`)
			e = vref.Cat(`}`, e)
		}
	}
	vref.DocStr[list](vref.Cat(b, "null", e), jd.DefaultOptions, nil)
}

func treeDoc(d int) []byte {
	if d == 0 {
		switch vsym.Choose(2) {
		case 0:
			return []byte("null")
		}
		return vref.Cat("{", v(), "}")
	}
	switch vsym.Choose(3) {
	case 0:
		return vref.Cat(`{"L":`, treeDoc(d-1), `,"R":`, treeDoc(d-1), `,"T":"t",`, v(), `}`)
	case 1:
		return vref.Cat(`{`, v(), `,"R":`, treeDoc(d-1), `,"T":"u"}`)
	}
	return vref.Cat(`{"T":"w","L":`, treeDoc(d-1), `,`, v(), `}`)
}

func HTree() { vref.Doc[tree](treeDoc(vsym.Choose(vsym.Pick(3, 4)))) }

// many is a JSON array of up to two of el.
func many(el func() []byte) []byte {
	switch vsym.Choose(4) {
	case 0:
		return []byte("[]")
	case 1:
		return []byte("null")
	case 2:
		return vref.Cat("[", el(), "]")
	}
	return vref.Cat("[", el(), ",", el(), "]")
}

// table is an object with up to two members.
func table(el func() []byte) []byte {
	switch vsym.Choose(4) {
	case 0:
		return []byte("{}")
	case 1:
		return []byte("null")
	case 2:
		return vref.Cat(`{"`, vsym.ByteIn("abVMT"), `":`, el(), `}`)
	}
	return vref.Cat(`{"a":`, el(), `,"`, vsym.ByteIn("ab"), `":`, el(), `}`)
}

func kidsDoc(d int, null bool) []byte {
	if d == 0 {
		switch vsym.Choose(3) {
		case 0:
			if null {
				return []byte("null")
			}
			return []byte("{}")
		case 1:
			return []byte(`{"C":[]}`)
		}
		return vref.Cat("{", v(), "}")
	}
	sub := func() []byte { return kidsDoc(d-1, null) }
	switch vsym.Choose(3) {
	case 0:
		return vref.Cat(`{"C":`, many(sub), `,"T":"t",`, v(), `}`)
	case 1:
		return vref.Cat(`{`, v(), `,"C":`, many(sub), `}`)
	}
	return vref.Cat(`{"T":"t","C":`, many(sub), `,`, v(), `}`)
}

func HKids()  { vref.Doc[kids](kidsDoc(1+vsym.Choose(2), false)) }
func HPkids() { vref.Doc[pkids](kidsDoc(1+vsym.Choose(vsym.Pick(1, 2)), true)) }
func TKids()  { vref.Doc[kids](kidsDoc(3, false)) }

func dictDoc(d int, null bool) []byte {
	if d == 0 {
		switch vsym.Choose(3) {
		case 0:
			if null {
				return []byte("null")
			}
			return []byte("{}")
		case 1:
			return []byte(`{"M":{}}`)
		}
		return vref.Cat("{", v(), "}")
	}
	sub := func() []byte { return dictDoc(d-1, null) }
	switch vsym.Choose(2) {
	case 0:
		return vref.Cat(`{"M":`, table(sub), `,"T":"t",`, v(), `}`)
	}
	return vref.Cat(`{`, v(), `,"M":`, table(sub), `,"T":"u"}`)
}

func HDict()  { vref.Doc[dict](dictDoc(1+vsym.Choose(2), false)) }
func HPdict() { vref.Doc[pdict](dictDoc(1+vsym.Choose(vsym.Pick(1, 2)), true)) }

func mixedDoc(d int) []byte {
	if d == 0 {
		switch vsym.Choose(2) {
		case 0:
			return []byte("{}")
		}
		return vref.Cat("{", v(), "}")
	}
	sub := func() []byte { return mixedDoc(d - 1) }
	switch vsym.Choose(4) {
	case 0:
		return vref.Cat(`{"P":`, sub(), `,"S":[`, sub(), `],"T":"t"}`)
	case 1:
		return vref.Cat(`{"S":[`, sub(), `],"M":{"k":`, sub(), `},`, v(), `}`)
	case 2:
		return vref.Cat(`{"M":{"k":`, sub(), `},"P":`, sub(), `,"T":"t",`, v(), `}`)
	}
	return vref.Cat(`{"S":[`, sub(), `,`, sub(), `],"P":null,"T":"x"}`)
}

func HMixed() { vref.Doc[mixed](mixedDoc(1 + vsym.Choose(2))) }

// HMutual: types that refer to each other.
func HMutual() {
	in := func(b []byte) []byte {
		switch vsym.Choose(4) {
		case 0:
			return vref.Cat(`{"X":1,"B":`, b, `,"Y":`, vref.Pos(), `}`)
		case 1:
			return vref.Cat(`{"B":`, b, `,"Y":`, vref.Pos(), `}`)
		case 2:
			return vref.Cat(`{"Y":2,"B":`, b, `}`)
		}
		return []byte("null")
	}
	out := func(i, j []byte) []byte {
		switch vsym.Choose(3) {
		case 0:
			return vref.Cat(`{"I":`, i, `,"J":`, j, `,"Z":`, vref.Pos(), `}`)
		case 1:
			return vref.Cat(`{"J":`, j, `,"Z":3,"I":`, i, `}`)
		}
		return vref.Cat(`{"J":`, j, `}`)
	}
	b := out(in([]byte("null")), in([]byte(`{"Z":4}`)))
	vref.Doc[outer](out(in(b), in(b)))
}

// HIn: recursive types inside of other types.
func HIn() {
	d := kidsDoc(1, false)
	switch vsym.Choose(6) {
	case 0:
		vref.Doc[[]kids](vref.Cat("[", d, ",", d, "]"))
	case 1:
		vref.Doc[map[string]kids](vref.Cat(`{"a":`, d, `,"b":{"V":1}}`))
	case 2:
		vref.Doc[*kids](d)
	case 3:
		vref.Doc[struct {
			A kids
			B *list
			C int
		}](vref.Cat(`{"A":`, d, `,"B":{"N":{"V":2},"V":1},"C":4}`))
	case 4:
		vref.Doc[[2]kids](vref.Cat("[", d, ",", d, "]"))
	case 5:
		vref.Doc[[][]kids](vref.Cat("[[", d, "],[],[{},", d, "]]"))
	}
}

// HWrong: errors inside of recursive values are found at their place.
func HWrong() {
	w := vref.Small()
	switch vsym.Choose(5) {
	case 0:
		vref.Doc[kids](vref.Cat(`{"C":[{"C":`, w, `,"V":1},{}],"V":2}`))
	case 1:
		vref.Doc[kids](vref.Cat(`{"C":[{},{"V":`, w, `}],"T":"x"}`))
	case 2:
		vref.Doc[dict](vref.Cat(`{"M":{"a":{"M":`, w, `}},"V":2}`))
	case 3:
		vref.Doc[tree](vref.Cat(`{"L":{"R":`, w, `},"R":{"V":`, w, `}}`))
	case 4:
		vref.Doc[mixed](vref.Cat(`{"P":{"S":[`, w, `]},"M":{"a":{"T":`, w, `}}}`))
	}
}

// HPrior: into populated trees.
func HPrior() {
	mk := func(t *tree) { *t = tree{V: 1, L: &tree{V: 2, R: &tree{V: 3}}, T: "old"} }
	vref.DocOpt[tree](treeDoc(vsym.Choose(3)), jd.DefaultOptions, mk)
}

// HPriorAll: existing pointers, elements and entries of recursive types.
func HPriorAll() {
	mk := func(v *mixed) {
		*v = mixed{V: 1, T: "o",
			P: &mixed{V: 2, T: "p", S: []mixed{{V: 21}, {V: 22, T: "22"}}[:2:2]},
			S: []mixed{{V: 3, T: "s0"}, {V: 4, T: "s1", P: &mixed{V: 41}}}[:2:2],
			M: map[string]mixed{"a": {V: 5, T: "ma"}, "z": {V: 6, T: "mz"}}}
	}
	el := func() []byte {
		switch vsym.Choose(4) {
		case 0:
			return []byte("{}")
		case 1:
			return vref.Cat("{", v(), "}")
		case 2:
			return []byte(`{"T":"n"}`)
		}
		return vref.Cat(`{"P":{"T":"pn"},`, v(), `}`)
	}
	els := func() []byte {
		switch vsym.Choose(5) {
		case 0:
			return []byte("[]")
		case 1:
			return vref.Cat("[", el(), "]")
		case 2:
			return vref.Cat("[", el(), ",", el(), "]")
		case 3:
			return vref.Cat("[", el(), ",{},", el(), "]")
		}
		return vref.Cat("[{},{},{},", el(), ",", el(), "]")
	}
	var d []byte
	switch vsym.Choose(6) {
	case 0:
		d = vref.Cat(`{"S":`, els(), `,"T":"t"}`)
	case 1:
		d = vref.Cat(`{"P":{"S":`, els(), `,"T":"t"},"V":7}`)
	case 2:
		d = vref.Cat(`{"M":{"`, vsym.ByteIn("az"), `":`, el(), `,"`, vsym.ByteIn("azb"), `":`, el(), `},"T":"t"}`)
	case 3:
		d = vref.Cat(`{"P":`, el(), `,"S":`, els(), `}`)
	case 4:
		d = vref.Cat(`{"V":8,"S":`, els(), `,"P":null,"M":{"a":{"S":`, els(), `}}}`)
	case 5:
		d = vref.Cat(`{"S":[{"P":`, el(), `},{"S":`, els(), `,"P":`, el(), `}]}`)
	}
	vref.DocOpt[mixed](d, jd.DefaultOptions, mk)
}

// HPriorKids: element structs with pointers, at every length.
func HPriorKids() {
	n := vsym.Choose(4)
	mk := func(v *pkids) {
		*v = pkids{V: 1}
		for i := 0; i < n; i++ {
			v.C = append(v.C, &pkids{V: 2 + i, T: "x"})
		}
		v.C = v.C[:n:n]
	}
	mkk := func(v *kids) {
		*v = kids{V: 1}
		for i := 0; i < n; i++ {
			v.C = append(v.C, kids{V: 2 + i, T: "x"})
		}
		v.C = v.C[:n:n]
	}
	m := vsym.Choose(vsym.Pick(5, 9))
	d := []byte(`{"C":[`)
	for i := 0; i < m; i++ {
		if i > 0 {
			d = append(d, ',')
		}
		switch vsym.Choose(2) {
		case 0:
			d = vref.Cat(d, `{}`)
		case 1:
			d = vref.Cat(d, `{`, v(), `}`)
		}
	}
	d = vref.Cat(d, `],"T":"t"}`)
	if vsym.Choose(2) == 0 {
		vref.DocOpt[kids](d, jd.DefaultOptions, mkk)
	} else {
		vref.DocOpt[pkids](d, jd.DefaultOptions, mk)
	}
}

// HArr: recursion through an array of slices.
func HArr() {
	d := func(x []byte) []byte {
		switch vsym.Choose(3) {
		case 0:
			return vref.Cat(`{"C":[[`, x, `],[]],`, v(), `}`)
		case 1:
			return vref.Cat(`{"C":[[],[`, x, `,`, x, `]],`, v(), `}`)
		}
		return vref.Cat(`{`, v(), `,"C":[[`, x, `]]}`)
	}
	vref.Doc[arr](d(d([]byte(`{"V":9}`))))
}

// HChain: one child in the other, deeper than what is reserved.
func HChain() {
	n := []int{62, 63, 64, 65, 66, 130}[vsym.Choose(vsym.Pick(5, 6))]
	kind := vsym.Choose(5)
	var b, e []byte
	for i := 0; i < n; i++ {
		x := []byte(`"V":7`)
		if i < 2 || i > n-3 {
			x = v()
		}
		k := kind
		if k > 2 {
			k = (i*k + i/7) % 3
		}
		after := i%3 == 1 || i == n-1
		b = append(b, '{')
		if !after {
			b = vref.Cat(b, x, `,`)
		}
		end := `}`
		switch k {
		case 0:
			b = append(b, `"P":`...)
		case 1:
			b, end = append(b, `"S":[`...), `,{"T":"s"}]}`
		case 2:
			b, end = append(b, `"M":{"k":`...), `,"l":{"T":"m"}}}`
		}
		if after {
			end = string(vref.Cat(end[:len(end)-1], `,`, x, `}`))
		}
		e = vref.Cat(end, e)
	}
	vref.Doc[mixed](vref.Cat(b, `{"T":"end"}`, e))
}

// forms is one of the documents, # being any digit; thorough is any of a larger set.
func forms(thorough func() []byte, docs ...string) []byte {
	n := vsym.Choose(vsym.Pick(len(docs), len(docs)+1))
	if n == len(docs) {
		return thorough()
	}
	var b []byte
	for i := 0; i < len(docs[n]); i++ {
		if docs[n][i] == '#' {
			b = append(b, vref.Pos())
		} else {
			b = append(b, docs[n][i])
		}
	}
	return b
}

// HZoo: recursive types at every place of another one, which may be populated.
func HZoo() {
	switch vsym.Choose(4) {
	case 0:
		d := forms(func() []byte { return kidsDoc(1, false) }, `{"V":#}`, `{"C":[],"V":#}`, `{"C":[{"V":#},{"T":"t"}],"T":"t"}`,
			`{"T":"t","C":[{},{"C":[{"V":#},{}]},{}]}`, `{"C":null,"V":#}`, `{"C":[{"C":[{"C":[{}],"V":#}],"V":#}],"V":#}`)
		vref.InZoo(d, `{"C":[{"V":1}],"T":"w"}`, func() kids { return kids{V: 7, C: []kids{{V: 8, T: "o"}, {V: 9}}, T: "oo"} })
	case 1:
		vref.InZoo(listDoc(vsym.Choose(2)), `{"V":1,"N":{"V":2}}`, func() *list { return &list{V: 7, N: &list{V: 8}} })
	case 2:
		d := forms(func() []byte { return dictDoc(1, false) }, `{"V":#}`, `{"M":{},"V":#}`, `{"M":{"a":{"V":#},"b":{"T":"t"}},"T":"t"}`,
			`{"T":"t","M":{"z":{},"a":{"M":{"a":{"V":#}}},"c":{}}}`, `{"M":null,"V":#}`, `{"M":{"a":{"M":{"a":{"M":{"b":{}},"V":#}},"V":#}},"V":#}`)
		vref.InZoo(d, `{"M":{"a":{"V":1}},"T":"w"}`, func() dict { return dict{V: 7, M: map[string]dict{"a": {V: 8, T: "o"}, "z": {}}, T: "oo"} })
	case 3:
		d := forms(func() []byte { return mixedDoc(1) }, `{"P":{"V":#},"V":#}`, `{"S":[{"P":null,"V":#}],"M":{"a":{"S":[{}],"V":#}},"P":{"M":{"b":{"V":#}},"T":"t"},"T":"t"}`,
			`{"P":null,"M":{"a":{}},"V":#}`)
		vref.InZoo(d, `{"P":{"V":1},"S":[{"T":"w"}]}`, func() mixed { return mixed{V: 7, P: &mixed{V: 8, T: "o"}, M: map[string]mixed{"a": {V: 9}}} })
	}
}
