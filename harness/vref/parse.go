// Package vref is an independent reference for what decoding a JSON document
// into a Go value has to do. It is written from RFC 8259 and the behaviour of
// encoding/json, shares no code with the decoder, and runs inside the
// symbolic executor as well as natively.
package vref

import (
	"unicode/utf8"

	"github.com/romshark/jscan-experimental-decoder/internal/vsym"
)

// Kind is the kind of a JSON value.
type Kind int

const (
	Null Kind = iota
	True
	False
	Num
	Str
	Arr
	Obj
)

// Node is a JSON value with its place in the document.
type Node struct {
	K     Kind
	S, E  int
	Int   bool
	Esc   bool // strings: contains an escape
	Elems []*Node
	Keys  []*Node
}

type parser struct {
	b []byte
	i int
}

// Parse parses one JSON text as RFC 8259 defines it.
func Parse(b []byte) (*Node, bool) {
	p := parser{b: b}
	p.ws()
	n := p.value(0)
	if n == nil {
		return nil, false
	}
	p.ws()
	return n, p.i == len(b)
}

func (p *parser) ws() {
	for p.i < len(p.b) {
		if !vsym.In(p.b[p.i], " \t\r\n") {
			return
		}
		p.i++
	}
}

func (p *parser) lit(s string, k Kind) *Node {
	if len(p.b)-p.i < len(s) {
		return nil
	}
	for j := 0; j < len(s); j++ {
		if p.b[p.i+j] != s[j] {
			return nil
		}
	}
	n := &Node{K: k, S: p.i, E: p.i + len(s)}
	p.i += len(s)
	return n
}

func (p *parser) value(depth int) *Node {
	if p.i >= len(p.b) {
		return nil
	}
	c := p.b[p.i]
	if c == '"' {
		return p.str()
	}
	if c == '{' {
		return p.obj(depth)
	}
	if c == '[' {
		return p.arr(depth)
	}
	if c == 't' {
		return p.lit("true", True)
	}
	if c == 'f' {
		return p.lit("false", False)
	}
	if c == 'n' {
		return p.lit("null", Null)
	}
	if vsym.In(c, "-0123456789") {
		return p.num()
	}
	return nil
}

const digits = "0123456789"

func (p *parser) digits() int {
	n := 0
	for p.i < len(p.b) {
		if !vsym.In(p.b[p.i], digits) {
			break
		}
		p.i++
		n++
	}
	return n
}

func (p *parser) num() *Node {
	n := &Node{K: Num, S: p.i, Int: true}
	if p.b[p.i] == '-' {
		p.i++
	}
	if p.i >= len(p.b) {
		return nil
	}
	if p.b[p.i] == '0' {
		p.i++
	} else if p.digits() == 0 {
		return nil
	}
	if p.i < len(p.b) && p.b[p.i] == '.' {
		n.Int = false
		p.i++
		if p.digits() == 0 {
			return nil
		}
	}
	if p.i < len(p.b) && vsym.In(p.b[p.i], "eE") {
		n.Int = false
		p.i++
		if p.i < len(p.b) && vsym.In(p.b[p.i], "+-") {
			p.i++
		}
		if p.digits() == 0 {
			return nil
		}
	}
	n.E = p.i
	return n
}

const hex = "0123456789abcdefABCDEF"

func (p *parser) str() *Node {
	n := &Node{K: Str, S: p.i}
	p.i++
	for p.i < len(p.b) {
		c := p.b[p.i]
		p.i++
		if c == '"' {
			n.E = p.i
			return n
		}
		if c < 0x20 {
			return nil
		}
		if c == '\\' {
			n.Esc = true
			if p.i >= len(p.b) {
				return nil
			}
			e := p.b[p.i]
			p.i++
			if e == 'u' {
				if len(p.b)-p.i < 4 {
					return nil
				}
				for j := 0; j < 4; j++ {
					if !vsym.In(p.b[p.i+j], hex) {
						return nil
					}
				}
				p.i += 4
			} else if !vsym.In(e, `"\/bfnrt`) {
				return nil
			}
		}
	}
	return nil
}

func (p *parser) arr(depth int) *Node {
	n := &Node{K: Arr, S: p.i}
	p.i++
	p.ws()
	if p.i < len(p.b) && p.b[p.i] == ']' {
		p.i++
		n.E = p.i
		return n
	}
	for {
		p.ws()
		e := p.value(depth + 1)
		if e == nil {
			return nil
		}
		n.Elems = append(n.Elems, e)
		p.ws()
		if p.i >= len(p.b) {
			return nil
		}
		c := p.b[p.i]
		p.i++
		if c == ']' {
			n.E = p.i
			return n
		}
		if c != ',' {
			return nil
		}
	}
}

func (p *parser) obj(depth int) *Node {
	n := &Node{K: Obj, S: p.i}
	p.i++
	p.ws()
	if p.i < len(p.b) && p.b[p.i] == '}' {
		p.i++
		n.E = p.i
		return n
	}
	for {
		p.ws()
		if p.i >= len(p.b) || p.b[p.i] != '"' {
			return nil
		}
		k := p.str()
		if k == nil {
			return nil
		}
		p.ws()
		if p.i >= len(p.b) || p.b[p.i] != ':' {
			return nil
		}
		p.i++
		p.ws()
		e := p.value(depth + 1)
		if e == nil {
			return nil
		}
		n.Keys = append(n.Keys, k)
		n.Elems = append(n.Elems, e)
		p.ws()
		if p.i >= len(p.b) {
			return nil
		}
		c := p.b[p.i]
		p.i++
		if c == '}' {
			n.E = p.i
			return n
		}
		if c != ',' {
			return nil
		}
	}
}

// hexv is the value of a hex digit, without branching.
func hexv(c byte) int {
	return vsym.IteInt(c <= '9', int(c)-'0', vsym.IteInt(c <= 'F', int(c)-'A'+10, int(c)-'a'+10))
}

func hex4(b []byte) int {
	return hexv(b[0])<<12 | hexv(b[1])<<8 | hexv(b[2])<<4 | hexv(b[3])
}

// Unquote returns the text a valid JSON string (with its quotes) denotes.
// An unpaired surrogate denotes U+FFFD; other bytes are copied.
func Unquote(b []byte) []byte {
	b = b[1 : len(b)-1]
	out := make([]byte, 0, len(b)+8)
	for i := 0; i < len(b); {
		if b[i] != '\\' {
			out = append(out, b[i])
			i++
			continue
		}
		c := b[i+1]
		if c != 'u' {
			r := vsym.IteInt(c == 'b', 8, vsym.IteInt(c == 'f', 12, vsym.IteInt(c == 'n', 10,
				vsym.IteInt(c == 'r', 13, vsym.IteInt(c == 't', 9, int(c))))))
			out = append(out, byte(r))
			i += 2
			continue
		}
		r := hex4(b[i+2:])
		i += 6
		if r < 0x80 {
			out = append(out, byte(r))
			continue
		}
		if r < 0x800 {
			out = append(out, byte(0xC0|r>>6), byte(0x80|r&0x3F))
			continue
		}
		if r >= 0xD800 && r < 0xE000 {
			if r < 0xDC00 && len(b)-i >= 6 && b[i] == '\\' && b[i+1] == 'u' {
				if q := hex4(b[i+2:]); q >= 0xDC00 && q < 0xE000 {
					i += 6
					r = 0x10000 + (r-0xD800)<<10 + (q - 0xDC00)
					out = append(out, byte(0xF0|r>>18), byte(0x80|r>>12&0x3F), byte(0x80|r>>6&0x3F), byte(0x80|r&0x3F))
					continue
				}
			}
			out = append(out, "\uFFFD"...)
			continue
		}
		out = append(out, byte(0xE0|r>>12), byte(0x80|r>>6&0x3F), byte(0x80|r&0x3F))
	}
	return out
}

// ASCII tells whether all bytes are below 0x80.
func ASCII(b []byte) bool {
	for _, c := range b {
		if c >= utf8.RuneSelf {
			return false
		}
	}
	return true
}

var pow10 = [20]uint64{1, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000,
	10000000000, 100000000000, 1000000000000, 10000000000000, 100000000000000, 1000000000000000,
	10000000000000000, 100000000000000000, 1000000000000000000, 10000000000000000000}

// fits tells whether the digits (no leading zeros) denote at most lim. The
// value of up to 19 digits is exact in 64 bits; of 20 digits the first one is
// compared separately.
func fits(b []byte, lim uint64) bool {
	if len(b) > 20 {
		return false
	}
	if len(b) == 20 {
		const e19 = 10000000000000000000
		return vsym.And(lim >= e19, vsym.And(b[0] == '1', digitsValue(b[1:]) <= lim-e19))
	}
	return digitsValue(b) <= lim
}

func digitsValue(b []byte) uint64 {
	var v uint64
	for i, c := range b {
		v += uint64(c-'0') * pow10[len(b)-1-i]
	}
	return v
}

// the largest values by size
var maxSigned = [9]uint64{1: 127, 2: 32767, 4: 2147483647, 8: 9223372036854775807}
var maxUnsigned = [9]uint64{1: 255, 2: 65535, 4: 4294967295, 8: 18446744073709551615}

// IntOf returns the value of an integer literal for a signed type of size bytes.
func IntOf(b []byte, size int) (int64, bool) {
	if b[0] == '-' {
		if !fits(b[1:], maxSigned[size]+1) {
			return 0, false
		}
		return -int64(digitsValue(b[1:])), true
	}
	if !fits(b, maxSigned[size]) {
		return 0, false
	}
	return int64(digitsValue(b)), true
}

// UintOf returns the value of an integer literal for an unsigned type.
func UintOf(b []byte, size int) (uint64, bool) {
	if b[0] == '-' {
		return 0, false
	}
	if !fits(b, maxUnsigned[size]) {
		return 0, false
	}
	return digitsValue(b), true
}
