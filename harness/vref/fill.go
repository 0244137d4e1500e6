package vref

import (
	"encoding"
	"encoding/json"
	"reflect"
	"strconv"
	"strings"
	"unicode"

	"github.com/romshark/jscan-experimental-decoder/internal/vsym"
)

// What a decoding error is.
const (
	EValue   = iota // a value that does not fit its destination otherwise
	EUnknown        // an unknown member
	ECustom         // the error of an unmarshaler
	EKind           // a value of the wrong kind
	EOver           // an integer the destination can't hold
	EFloat          // a number beyond the range of the float type
)

// Err is the first error of a document.
type Err struct {
	Idx    int
	What   int
	Err    error
	AnyIdx bool // the index is not part of the reference
}

// Opts are the decoding options.
type Opts struct {
	DisallowUnknown bool
	NoUnescape      bool
	NoFold          bool
	Number          reflect.Type // the decoder's Number type
}

type filler struct {
	b   []byte
	o   Opts
	err *Err
}

// Fill decodes n, a value of the document b, into v.
func Fill(b []byte, n *Node, v reflect.Value, o Opts) *Err {
	f := &filler{b: b, o: o}
	f.val(v, n, false)
	return f.err
}

func (f *filler) fail(n *Node, what int, e error) bool {
	f.err = &Err{Idx: n.S, What: what, Err: e}
	return false
}

func (f *filler) raw(n *Node) []byte { return f.b[n.S:n.E] }

func (f *filler) val(v reflect.Value, n *Node, quoted bool) bool {
	null := n.K == Null
	haveAddr := false
	if v.Kind() != reflect.Pointer && v.Type().Name() != "" && v.CanAddr() {
		haveAddr = true
		v = v.Addr()
	}
	for v.Kind() == reflect.Pointer {
		if null && v.CanSet() {
			break
		}
		if v.IsNil() {
			v.Set(reflect.New(v.Type().Elem()))
		}
		if v.Type().NumMethod() > 0 {
			i := v.Interface()
			if u, ok := i.(json.Unmarshaler); ok {
				if e := u.UnmarshalJSON(f.raw(n)); e != nil {
					return f.fail(n, ECustom, e)
				}
				return true
			}
			if !null {
				if u, ok := i.(encoding.TextUnmarshaler); ok {
					if n.K != Str {
						return f.fail(n, EKind, nil)
					}
					if e := u.UnmarshalText(Unquote(f.raw(n))); e != nil {
						return f.fail(n, ECustom, e)
					}
					return true
				}
			}
		}
		v = v.Elem()
		if haveAddr {
			haveAddr = false
		}
	}
	t := v.Type()
	if null {
		switch v.Kind() {
		case reflect.Interface, reflect.Pointer, reflect.Map, reflect.Slice:
			v.Set(reflect.Zero(t))
		}
		return true
	}
	if quoted {
		return f.quoted(v, n)
	}
	switch v.Kind() {
	case reflect.Bool:
		if n.K != True && n.K != False {
			return f.fail(n, EKind, nil)
		}
		v.SetBool(n.K == True)
		return true
	case reflect.String:
		if t == f.o.Number {
			if n.K == Num {
				v.SetString(string(f.raw(n)))
				return true
			}
			if n.K != Str {
				return f.fail(n, EKind, nil)
			}
			s := Unquote(f.raw(n))
			if !IsNumber(s) {
				return f.fail(n, EValue, nil)
			}
			v.SetString(string(s))
			return true
		}
		if n.K != Str {
			return f.fail(n, EKind, nil)
		}
		v.SetString(string(Unquote(f.raw(n))))
		return true
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64,
		reflect.Float32, reflect.Float64:
		if n.K != Num {
			return f.fail(n, EKind, nil)
		}
		if !f.number(v, f.raw(n), n.Int) {
			return f.fail(n, whatNum(v.Kind(), f.raw(n), n.Int), nil)
		}
		return true
	case reflect.Interface:
		if t.NumMethod() != 0 {
			panic("vref: interface type")
		}
		a, ok := f.any(n)
		if !ok {
			return false
		}
		if a == nil {
			v.Set(reflect.Zero(t))
		} else {
			v.Set(reflect.ValueOf(a))
		}
		return true
	case reflect.Slice:
		if n.K != Arr {
			return f.fail(n, EKind, nil)
		}
		return f.slice(v, n)
	case reflect.Array:
		if n.K != Arr {
			return f.fail(n, EKind, nil)
		}
		for i, e := range n.Elems {
			if i >= v.Len() {
				break
			}
			if !f.val(v.Index(i), e, false) {
				return false
			}
		}
		for i := len(n.Elems); i < v.Len(); i++ {
			v.Index(i).Set(reflect.Zero(t.Elem()))
		}
		return true
	case reflect.Map:
		if n.K != Obj {
			return f.fail(n, EKind, nil)
		}
		return f.mapping(v, n)
	case reflect.Struct:
		if n.K != Obj {
			return f.fail(n, EKind, nil)
		}
		return f.structure(v, n)
	}
	panic("vref: unsupported type " + t.String())
}

// IsNumber tells whether s as a whole is a JSON number literal.
func IsNumber(s []byte) bool {
	if len(s) == 0 || !vsym.In(s[0], "-0123456789") {
		return false
	}
	n, ok := Parse(s)
	return ok && n.K == Num && n.E == len(s)
}

// whatNum is why a number does not fit.
func whatNum(k reflect.Kind, txt []byte, isInt bool) int {
	switch k {
	case reflect.Float32, reflect.Float64:
		return EFloat
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if txt[0] == '-' {
			return EKind
		}
	}
	if isInt {
		return EOver
	}
	return EKind
}

func (f *filler) number(v reflect.Value, txt []byte, isInt bool) bool {
	switch v.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if !isInt {
			return false
		}
		i, ok := IntOf(txt, int(v.Type().Size()))
		if !ok {
			return false
		}
		v.SetInt(i)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if !isInt {
			return false
		}
		i, ok := UintOf(txt, int(v.Type().Size()))
		if !ok {
			return false
		}
		v.SetUint(i)
	case reflect.Float32:
		x, e := strconv.ParseFloat(string(txt), 32)
		if e != nil {
			return false
		}
		v.SetFloat(x)
	case reflect.Float64:
		x, e := strconv.ParseFloat(string(txt), 64)
		if e != nil {
			return false
		}
		v.SetFloat(x)
	}
	return true
}

// quoted is the `string` tag option: a JSON string whose whole content is one
// literal of the destination's type.
func (f *filler) quoted(v reflect.Value, n *Node) bool {
	if n.K != Str {
		return f.fail(n, EValue, nil)
	}
	s := Unquote(f.raw(n))
	switch v.Kind() {
	case reflect.Bool:
		if eq(s, "true") {
			v.SetBool(true)
			return true
		}
		if eq(s, "false") {
			v.SetBool(false)
			return true
		}
	case reflect.String:
		if len(s) >= 2 && s[0] == '"' {
			if m, ok := Parse(s); ok && m.K == Str && m.E == len(s) {
				v.SetString(string(Unquote(s)))
				return true
			}
		}
	default:
		if IsNumber(s) {
			m, _ := Parse(s)
			if f.number(v, s, m.Int) {
				return true
			}
		}
	}
	return f.fail(n, EValue, nil)
}

// eq compares without branching on the bytes.
func eq(b []byte, s string) bool {
	if len(b) != len(s) {
		return false
	}
	ok := true
	for i := range b {
		ok = vsym.And(ok, b[i] == s[i])
	}
	return ok
}

func (f *filler) any(n *Node) (any, bool) {
	switch n.K {
	case Null:
		return nil, true
	case True:
		return true, true
	case False:
		return false, true
	case Num:
		x, e := strconv.ParseFloat(string(f.raw(n)), 64)
		if e != nil {
			f.fail(n, EFloat, nil)
			f.err.AnyIdx = true
			return nil, false
		}
		return x, true
	case Str:
		return string(Unquote(f.raw(n))), true
	case Arr:
		r := []any{}
		for _, e := range n.Elems {
			x, ok := f.any(e)
			if !ok {
				return nil, false
			}
			r = append(r, x)
		}
		return r, true
	}
	m := map[string]any{}
	for i, e := range n.Elems {
		x, ok := f.any(e)
		if !ok {
			return nil, false
		}
		m[string(Unquote(f.raw(n.Keys[i])))] = x
	}
	return m, true
}

func (f *filler) slice(v reflect.Value, n *Node) bool {
	t := v.Type()
	if len(n.Elems) == 0 {
		v.Set(reflect.MakeSlice(t, 0, 0))
		return true
	}
	r := reflect.MakeSlice(t, len(n.Elems), len(n.Elems))
	reflect.Copy(r, v)
	for i, e := range n.Elems {
		if !f.val(r.Index(i), e, false) {
			return false
		}
	}
	v.Set(r)
	return true
}

var textUnm = reflect.TypeOf((*encoding.TextUnmarshaler)(nil)).Elem()

func (f *filler) mapping(v reflect.Value, n *Node) bool {
	t := v.Type()
	if v.IsNil() {
		v.Set(reflect.MakeMap(t))
	}
	kt := t.Key()
	for i, e := range n.Elems {
		k := n.Keys[i]
		txt := Unquote(f.raw(k))
		kv := reflect.New(kt)
		if reflect.PointerTo(kt).Implements(textUnm) {
			if err := kv.Interface().(encoding.TextUnmarshaler).UnmarshalText(txt); err != nil {
				return f.fail(k, ECustom, err)
			}
		} else if kt.Kind() == reflect.String {
			kv.Elem().SetString(string(txt))
		} else {
			if !IsNumber(txt) {
				return f.fail(k, EValue, nil)
			}
			m, _ := Parse(txt)
			if !m.Int || !f.number(kv.Elem(), txt, true) {
				return f.fail(k, EValue, nil)
			}
		}
		x := reflect.New(t.Elem()).Elem()
		if !f.val(x, e, false) {
			return false
		}
		v.SetMapIndex(kv.Elem(), x)
	}
	return true
}

type field struct {
	idx    int
	name   string
	quoted bool
}

func fieldsOf(t reflect.Type) []field {
	var fs []field
	for i := 0; i < t.NumField(); i++ {
		sf := t.Field(i)
		tag := sf.Tag.Get("json")
		if !sf.IsExported() || tag == "-" {
			continue
		}
		name, rest, _ := strings.Cut(tag, ",")
		fd := field{idx: i, name: name}
		if !validName(name) {
			fd.name = sf.Name
		}
		for rest != "" {
			var o string
			o, rest, _ = strings.Cut(rest, ",")
			if o == "string" {
				switch sf.Type.Kind() {
				case reflect.Bool, reflect.String, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
					reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Float32, reflect.Float64:
					fd.quoted = true
				}
			}
		}
		fs = append(fs, fd)
	}
	return fs
}

// foldEq is equality under simple case folding.
func foldEq(key []byte, name string) bool {
	if ASCII(key) && ASCII([]byte(name)) {
		if len(key) != len(name) {
			return false
		}
		ok := true
		for i := range key {
			c := name[i]
			switch {
			case 'a' <= c && c <= 'z':
				ok = vsym.And(ok, vsym.Or(key[i] == c, key[i] == c-32))
			case 'A' <= c && c <= 'Z':
				ok = vsym.And(ok, vsym.Or(key[i] == c, key[i] == c+32))
			default:
				ok = vsym.And(ok, key[i] == c)
			}
		}
		return ok
	}
	return strings.EqualFold(string(key), name)
}

// field is the index of the field the key selects.
func (f *filler) field(fs []field, k *Node) int {
	var txt []byte
	if f.o.NoUnescape {
		txt = f.b[k.S+1 : k.E-1]
	} else {
		txt = Unquote(f.raw(k))
	}
	for j := range fs {
		if eq(txt, fs[j].name) {
			return j
		}
	}
	if !f.o.NoFold {
		for j := range fs {
			if foldEq(txt, fs[j].name) {
				return j
			}
		}
	}
	return -1
}

func (f *filler) structure(v reflect.Value, n *Node) bool {
	fs := fieldsOf(v.Type())
	for i, e := range n.Elems {
		k := n.Keys[i]
		at := f.field(fs, k)
		if at < 0 {
			if f.o.DisallowUnknown {
				return f.fail(k, EUnknown, nil)
			}
			continue
		}
		if !f.val(v.Field(fs[at].idx), e, fs[at].quoted) {
			return false
		}
	}
	return true
}

// validName tells whether a name in a tag counts.
func validName(s string) bool {
	for _, c := range s {
		if !strings.ContainsRune("!#$%&()*+-./:;<=>?@[]^_{|}~ ", c) && !unicode.IsLetter(c) && !unicode.IsDigit(c) {
			return false
		}
	}
	return s != ""
}
