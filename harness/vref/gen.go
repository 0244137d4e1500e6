package vref

import "github.com/romshark/jscan-experimental-decoder/internal/vsym"

// Cat concatenates pieces: strings, byte slices and bytes.
func Cat(parts ...any) []byte {
	var b []byte
	for _, p := range parts {
		switch x := p.(type) {
		case string:
			b = append(b, x...)
		case []byte:
			b = append(b, x...)
		case byte:
			b = append(b, x)
		}
	}
	return b
}

// Digit is any digit.
func Digit() byte { return vsym.ByteIn("0123456789") }

// Pos is a digit other than 0.
func Pos() byte { return vsym.ByteIn("123456789") }

// PlainSet is a set of characters that need no escaping.
const PlainSet = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 _-.:,[]{}\x7f\xc3\xa9\xff"

// Plain is any character of a string that is neither a quote, nor a backslash,
// nor a control character.
func Plain() byte {
	c := vsym.Byte()
	vsym.Assume(vsym.And(c >= 0x20, vsym.And(c != '"', c != '\\')))
	return c
}

// Ascii is Plain without the bytes of multi-byte characters.
func Ascii() byte {
	c := Plain()
	vsym.Assume(c < 0x80)
	return c
}

// Int is an integer literal with 1 to max digits, all symbolic.
func Int(max int) []byte { return IntN(1+vsym.Choose(max), vsym.Choose(2) == 1) }

// IntN is an integer literal with n symbolic digits.
func IntN(n int, neg bool) []byte {
	var b []byte
	if neg {
		b = append(b, '-')
	}
	for i := 0; i < n; i++ {
		if i == 0 && n > 1 {
			b = append(b, vsym.ByteIn("123456789"))
		} else {
			b = append(b, Digit())
		}
	}
	return b
}

// NumLit is a number literal in one of the forms JSON knows, all digits symbolic.
func NumLit() []byte {
	switch vsym.Choose(5) {
	case 0:
		return IntN(1+vsym.Choose(2), false)
	case 1:
		return IntN(1, true)
	case 2:
		return Cat(IntN(1, false), ".", Digit())
	case 3:
		return Cat(IntN(1, true), ".", Digit(), Digit())
	}
	return Cat(IntN(1, false), vsym.ByteIn("eE"), Digit())
}

// Scalar is a scalar of any kind with symbolic content.
func Scalar() []byte {
	switch vsym.Choose(8) {
	case 0:
		return []byte("null")
	case 1:
		return []byte("true")
	case 2:
		return []byte("false")
	case 3:
		return IntN(1, false)
	case 4:
		return IntN(2, true)
	case 5:
		return Cat(IntN(1, false), ".", Digit())
	case 6:
		return []byte(`""`)
	}
	return Cat(`"`, Plain(), Plain(), `"`)
}

// Small is one of a few values, one for each JSON type, with symbolic leaves.
func Small() []byte {
	switch vsym.Choose(7) {
	case 0:
		return []byte("null")
	case 1:
		return []byte("true")
	case 2:
		return IntN(1, false)
	case 3:
		return Cat(`"`, Plain(), `"`)
	case 4:
		return []byte("[]")
	case 5:
		return []byte("{}")
	}
	return Cat("-", vsym.ByteIn("123456789"), ".5")
}

// Key is a short key with symbolic characters.
func Key() []byte { return Cat(`"`, vsym.ByteIn("abAB"), `"`) }

// Value is any value of at most depth levels of nesting.
func Value(depth int) []byte {
	if depth <= 0 {
		return Small()
	}
	switch vsym.Choose(12) {
	case 0:
		return []byte("null")
	case 1:
		return []byte("false")
	case 2:
		return NumLit()
	case 3:
		return Cat(`"`, Plain(), `"`)
	case 4:
		return Cat(`"\`, vsym.ByteIn(`"\/bfnrt`), Plain(), `"`)
	case 5:
		return []byte("[]")
	case 6:
		return []byte("{}")
	case 7:
		return Cat("[", Value(depth-1), "]")
	case 8:
		return Cat("[", Value(depth-1), ",", Small(), "]")
	case 9:
		return Cat("[", Small(), ",", Value(depth-1), "]")
	case 10:
		return Cat("{", Key(), ":", Value(depth-1), "}")
	}
	return Cat("{", Key(), ":", Value(depth-1), ",", Key(), ":", Small(), "}")
}

// Space is optional whitespace.
func Space() []byte {
	n := vsym.Choose(3)
	return vsym.BytesIn(n, " \t\r\n")
}
