From 81753cfb993b3a91b2edbee2a593965d4bf5fe02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:04 +0000
Subject: [PATCH 01/24] fix: detect overflow of signed integers with a leading
 digit that wraps around

---
 internal/atoi/atoi.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/internal/atoi/atoi.go b/internal/atoi/atoi.go
index 8ffc771..616994c 100644
--- a/internal/atoi/atoi.go
+++ b/internal/atoi/atoi.go
@@ -34,6 +34,9 @@ func I8[S []byte | string](s S) (n int8, overflow bool) {
 		case 3:
 			return -(d(1)*1e1 + d(2)), false
 		case 4: // This case can overflow
+			if s[1]-'0' > 1 {
+				return 0, true
+			}
 			if n = -(d(1)*1e2 + d(2)*1e1 + d(3)); n > 0 {
 				return 0, true
 			}
@@ -46,6 +49,9 @@ func I8[S []byte | string](s S) (n int8, overflow bool) {
 		case 2:
 			return d(0)*1e1 + d(1), false
 		case 3: // This case can overflow
+			if s[0]-'0' > 1 {
+				return 0, true
+			}
 			if n = d(0)*1e2 + d(1)*1e1 + d(2); n < 0 {
 				return 0, true
 			}
@@ -97,6 +103,9 @@ func I16[S []byte | string](s S) (n int16, overflow bool) {
 		case 5:
 			return -(d(1)*1e3 + d(2)*1e2 + d(3)*1e1 + d(4)), false
 		case 6: // This case can overflow
+			if s[1]-'0' > 3 {
+				return 0, true
+			}
 			n = -(d(1)*1e4 + d(2)*1e3 + d(3)*1e2 + d(4)*1e1 + d(5))
 			if n > 0 {
 				return 0, true
@@ -114,6 +123,9 @@ func I16[S []byte | string](s S) (n int16, overflow bool) {
 		case 4:
 			return d(0)*1e3 + d(1)*1e2 + d(2)*1e1 + d(3), false
 		case 5: // This case can overflow
+			if s[0]-'0' > 3 {
+				return 0, true
+			}
 			n = d(0)*1e4 + d(1)*1e3 + d(2)*1e2 + d(3)*1e1 + d(4)
 			if n < 0 {
 				return 0, true
@@ -214,6 +226,9 @@ func I32[S []byte | string](s S) (n int32, overflow bool) {
 				d(7)*1e2 + d(8)*1e1 +
 				d(9)), false
 		case 11: // This case can overflow
+			if s[1]-'0' > 2 {
+				return 0, true
+			}
 			n = d(1)*1e9 + d(2)*1e8 +
 				d(3)*1e7 + d(4)*1e6 +
 				d(5)*1e5 + d(6)*1e4 +
@@ -258,6 +273,9 @@ func I32[S []byte | string](s S) (n int32, overflow bool) {
 				d(6)*1e2 + d(7)*1e1 +
 				d(8), false
 		case 10: // This case can overflow
+			if s[0]-'0' > 2 {
+				return 0, true
+			}
 			n = d(0)*1e9 + d(1)*1e8 +
 				d(2)*1e7 + d(3)*1e6 +
 				d(4)*1e5 + d(5)*1e4 +
-- 
2.43.0


From 4ae38dc8800f8bf5fd99fa2e9f766f5a753081de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:26 +0000
Subject: [PATCH 02/24] fix: combine surrogate pairs when unescaping strings

---
 internal/unescape/unescape.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/internal/unescape/unescape.go b/internal/unescape/unescape.go
index c967696..0b3ff6e 100644
--- a/internal/unescape/unescape.go
+++ b/internal/unescape/unescape.go
@@ -46,6 +46,17 @@ func Valid[S []byte | string, O []byte | string](str S) O {
 			case r <= rune2Max:
 				buf = append(buf, t2|byte(r>>6), tx|byte(r)&maskx)
 			case r > maxRune, surrogateMin <= r && r <= surrogateMax:
+				if r < surrogateLowMin && len(s) >= 12 && s[6] == '\\' && s[7] == 'u' {
+					l := uint32(lut[s[8]]<<12 + lut[s[9]]<<8 + lut[s[10]]<<4 + lut[s[11]])
+					if surrogateLowMin <= l && l <= surrogateMax {
+						// Combine the surrogate pair to a single code point.
+						r = ((r-surrogateMin)<<10 | (l - surrogateLowMin)) + surrogateSelf
+						buf = append(buf, t4|byte(r>>18), tx|byte(r>>12)&maskx,
+							tx|byte(r>>6)&maskx, tx|byte(r)&maskx)
+						s = s[6:]
+						break
+					}
+				}
 				buf = append(buf, RuneError...) // Error placeholder rune
 			default:
 				buf = append(buf, t3|byte(r>>12), tx|byte(r>>6)&maskx, tx|byte(r)&maskx)
@@ -130,6 +141,10 @@ const (
 	// Code points in the surrogate range are not valid for UTF-8.
 	surrogateMin, surrogateMax = 0xD800, 0xDFFF
 
+	// surrogateLowMin is the first low surrogate and surrogateSelf
+	// is the first code point encoded as a surrogate pair.
+	surrogateLowMin, surrogateSelf = 0xDC00, 0x10000
+
 	tx, t2, t3, t4               = 0b10000000, 0b11000000, 0b11100000, 0b11110000
 	maskx                        = 0b00111111
 	rune1Max, rune2Max, rune3Max = 1<<7 - 1, 1<<11 - 1, 1<<16 - 1
-- 
2.43.0


From be988f661501eef1c6d10b9b51e8fa6bce4f306c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:24 +0000
Subject: [PATCH 03/24] fix: keep map entries of other keys and decode map
 values into fresh values

---
 jscandec.go | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/jscandec.go b/jscandec.go
index f69ede0..86dced5 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -2196,12 +2196,10 @@ func (d *Decoder[S, T]) Decode(
 					p := unsafe.Pointer(
 						uintptr(d.stackExp[si].Dest) + d.stackExp[si].Offset,
 					)
-					if tokens[ti].Elements == 0 {
-						ti += 2
-						*(*map[string]string)(p) = make(map[string]string, 0)
-						goto ON_VAL_END
+					m := *(*map[string]string)(p)
+					if m == nil {
+						m = make(map[string]string, tokens[ti].Elements)
 					}
-					m := make(map[string]string, tokens[ti].Elements)
 					tiEnd := tokens[ti].End
 
 					for ti++; ti < tiEnd; ti += 2 {
@@ -2520,11 +2518,8 @@ func (d *Decoder[S, T]) Decode(
 
 					d.stackExp[si].Dest = pNewData
 
-					// Zero struct values
-					if d.stackExp[si].Type == ExpectTypeStruct ||
-						d.stackExp[si].Type == ExpectTypeStructRecur {
-						typedmemclr(typVal, pNewData)
-					}
+					// Zero the value, the key may already exist in the map.
+					typedmemclr(typVal, pNewData)
 
 				default:
 					errIndex, err = tokens[ti].Index, ErrUnexpectedValue
-- 
2.43.0


From 770fd15ae5dc58faf5e696622f9fb3c4fa22582a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:54 +0000
Subject: [PATCH 04/24] fix: advance to the next element, member or key after a
 pointer value

---
 jscandec.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jscandec.go b/jscandec.go
index 86dced5..cfee598 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -2632,7 +2632,9 @@ func (d *Decoder[S, T]) Decode(
 			if siCon := d.stackExp[si].ParentFrameIndex; siCon != noParentFrame {
 				switch d.stackExp[siCon].Type {
 				case ExpectTypePtr:
+					// The pointer itself is the value that ended.
 					si--
+					goto ON_VAL_END
 				case ExpectTypeArray:
 					d.stackExp[si].Len++
 					if d.stackExp[si].Len >= d.stackExp[si].Cap {
-- 
2.43.0


From c6dbc9917aac6f11e0646e875a74f9ebe21a78e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:47 +0000
Subject: [PATCH 05/24] fix: decode into the value an existing pointer points
 to

---
 jscandec.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/jscandec.go b/jscandec.go
index cfee598..cc28bf6 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -359,8 +359,7 @@ func (t ExpectType) String() string {
 // otherwise returns true.
 func (t ExpectType) isElemComposite() bool {
 	switch t {
-	case ExpectTypePtr,
-		ExpectTypeArrayLen0, // Zero-length arrays require no memory
+	case ExpectTypeArrayLen0, // Zero-length arrays require no memory
 		ExpectTypeEmptyStruct,
 		ExpectTypeBool,
 		ExpectTypeStr,
@@ -2673,7 +2672,10 @@ func (d *Decoder[S, T]) Decode(
 					uintptr(d.stackExp[si].Dest) + d.stackExp[si].Offset,
 				)
 				si++
-				if d.stackExp[si].Size == 0 {
+				if dp := *(*unsafe.Pointer)(p); dp != nil {
+					// Decode into the value that's already pointed to.
+					d.stackExp[si].Dest = dp
+				} else if d.stackExp[si].Size == 0 {
 					*(*unsafe.Pointer)(p) = emptyStructAddr
 				} else {
 					dp := mallocgc(d.stackExp[si].Size, d.stackExp[si].Typ, true)
-- 
2.43.0


From 0f22391cf1a88cd7a6448fbe0cf0c68c8c32ec07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:14 +0000
Subject: [PATCH 06/24] fix: leave scalars unchanged on null and set []struct{}
 to nil

---
 jscandec.go | 56 +++--------------------------------------------------
 1 file changed, 3 insertions(+), 53 deletions(-)

diff --git a/jscandec.go b/jscandec.go
index cc28bf6..1b87570 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -1229,51 +1229,16 @@ func (d *Decoder[S, T]) Decode(
 					uintptr(d.stackExp[si].Dest) + d.stackExp[si].Offset,
 				)
 				switch d.stackExp[si].Type {
-				case ExpectTypeEmptyStruct:
-					// Nothing
 				case ExpectTypeAny:
 					*(*any)(p) = nil
 				case ExpectTypeMapStringString:
 					*(*map[string]string)(p) = nil
 				case ExpectTypeMap, ExpectTypeMapRecur:
 					*(*unsafe.Pointer)(p) = nil
-				case ExpectTypeSlice, ExpectTypeSliceRecur:
-					// Skip
+				case ExpectTypeSlice, ExpectTypeSliceRecur, ExpectTypeSliceEmptyStruct:
 					*(*[]any)(p) = nil
-				case ExpectTypeStruct, ExpectTypeStructRecur:
-					// Skip
 				case ExpectTypePtr, ExpectTypePtrRecur:
 					*(*unsafe.Pointer)(p) = nil
-				case ExpectTypeBool:
-					*(*bool)(p) = zeroBool
-				case ExpectTypeStr:
-					*(*string)(p) = zeroStr
-				case ExpectTypeNumber:
-					*(*Number)(p) = ""
-				case ExpectTypeFloat32:
-					*(*float32)(p) = zeroFloat32
-				case ExpectTypeFloat64:
-					*(*float64)(p) = zeroFloat64
-				case ExpectTypeInt:
-					*(*int)(p) = zeroInt
-				case ExpectTypeInt8:
-					*(*int8)(p) = zeroInt8
-				case ExpectTypeInt16:
-					*(*int16)(p) = zeroInt16
-				case ExpectTypeInt32:
-					*(*int32)(p) = zeroInt32
-				case ExpectTypeInt64:
-					*(*int64)(p) = zeroInt64
-				case ExpectTypeUint:
-					*(*uint)(p) = zeroUint
-				case ExpectTypeUint8:
-					*(*uint8)(p) = zeroUint8
-				case ExpectTypeUint16:
-					*(*uint16)(p) = zeroUint16
-				case ExpectTypeUint32:
-					*(*uint32)(p) = zeroUint32
-				case ExpectTypeUint64:
-					*(*uint64)(p) = zeroUint64
 				case ExpectTypeSliceBool:
 					*(*[]bool)(p) = nil
 				case ExpectTypeSliceString:
@@ -1304,6 +1269,8 @@ func (d *Decoder[S, T]) Decode(
 					*(*[]uint64)(p) = nil
 				case ExpectTypeJSONUnmarshaler:
 					goto ON_JSON_UNMARSHALER
+				default:
+					// Null has no effect on values of any other type.
 				}
 				ti++
 				goto ON_VAL_END
@@ -2727,23 +2694,6 @@ type sliceHeader struct {
 	Len, Cap uintptr
 }
 
-var (
-	zeroBool    bool
-	zeroStr     string
-	zeroInt     int
-	zeroUint    uint
-	zeroInt8    int8
-	zeroUint8   uint8
-	zeroInt16   int16
-	zeroUint16  uint16
-	zeroInt32   int32
-	zeroUint32  uint32
-	zeroInt64   int64
-	zeroUint64  uint64
-	zeroFloat32 float32
-	zeroFloat64 float64
-)
-
 // fieldFrameIndexByName returns the frame index of the field identified by name
 // or -1 if no field is found. Exact matches are prioritized over
 // case-insensitive matches.
-- 
2.43.0


From 225e76e39a22ccd7477befc06f67ced82df8b7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:29 +0000
Subject: [PATCH 07/24] fix: require quoted literals and integer keys to be
 read as a whole and unescaped

---
 internal/jsonnum/jsonnum.go |  14 ++++
 jscandec.go                 | 134 +++++++++++++++++++++---------------
 2 files changed, 92 insertions(+), 56 deletions(-)

diff --git a/internal/jsonnum/jsonnum.go b/internal/jsonnum/jsonnum.go
index aa8f823..b22b55f 100644
--- a/internal/jsonnum/jsonnum.go
+++ b/internal/jsonnum/jsonnum.go
@@ -8,11 +8,25 @@ const (
 	ReturnCodeNumber  ReturnCode = 10 // Translates to jscan.TokenTypeNumber
 )
 
+// ReadAll returns the type of the number that makes up the whole of s
+// or ReturnCodeErr if s isn't a number or contains anything but the number.
+func ReadAll[S ~string | ~[]byte](s S) ReturnCode {
+	trailing, rc := ReadNumber(s)
+	if len(trailing) > 0 {
+		return ReturnCodeErr
+	}
+	return rc
+}
+
 // ReadNumber returns s with the read number value cut off
 // and err=ReturnCodeErr if a syntax error was encountered.
 func ReadNumber[S ~string | ~[]byte](s S) (trailing S, rc ReturnCode) {
 	var i int
 
+	if len(s) < 1 {
+		// Expected at least one digit
+		return s, ReturnCodeErr
+	}
 	if s[0] == '-' {
 		// Signed
 		s = s[1:]
diff --git a/jscandec.go b/jscandec.go
index 1b87570..ec1d518 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -1,7 +1,6 @@
 package jscandec
 
 import (
-	"bytes"
 	"encoding"
 	"encoding/json"
 	"errors"
@@ -1016,7 +1015,9 @@ func (d *Decoder[S, T]) Decode(
 						s[tokens[ti].Index+1 : tokens[ti].End-1],
 					)
 				case ExpectTypeBoolString:
-					switch string(s[tokens[ti].Index+1 : tokens[ti].End-1]) {
+					switch unescape.Valid[S, string](
+						s[tokens[ti].Index+1 : tokens[ti].End-1],
+					) {
 					case "true":
 						*(*bool)(p) = true
 					case "false":
@@ -1026,39 +1027,32 @@ func (d *Decoder[S, T]) Decode(
 						return true
 					}
 				case ExpectTypeStrString:
-					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					if len(tv) < len(`\"\"`) ||
-						string(tv[0:2]) != `\"` ||
-						string(tv[len(tv)-2:]) != `\"` {
-						// Too short or not encloused by \"
-						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
-						return true
-					}
-					val := tv[2 : len(tv)-2]
-					var indexReverseSolidus int
-					switch val := any(val).(type) {
-					case string:
-						indexReverseSolidus = strings.IndexByte(val, '\\')
-					case []byte:
-						indexReverseSolidus = bytes.IndexByte(val, '\\')
-					}
-					if indexReverseSolidus != -1 {
+					tv := unescape.Valid[S, S](
+						s[tokens[ti].Index+1 : tokens[ti].End-1],
+					)
+					if len(tv) < len(`""`) || tv[0] != '"' || tv[len(tv)-1] != '"' ||
+						!jscan.Valid(tv) {
+						// The unescaped content isn't a JSON string
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
 					}
-					*(*string)(p) = string(val)
+					*(*string)(p) = unescape.Valid[S, string](tv[1 : len(tv)-1])
 
 				case ExpectTypeNumber:
-					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					if _, rc := jsonnum.ReadNumber(tv); rc == jsonnum.ReturnCodeErr {
+					tv := unescape.Valid[S, S](
+						s[tokens[ti].Index+1 : tokens[ti].End-1],
+					)
+					if jsonnum.ReadAll(tv) == jsonnum.ReturnCodeErr {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
 					}
 					*(*Number)(p) = Number(tv)
 
 				case ExpectTypeFloat32String:
-					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					_, rc := jsonnum.ReadNumber(tv)
+					tv := unescape.Valid[S, S](
+						s[tokens[ti].Index+1 : tokens[ti].End-1],
+					)
+					rc := jsonnum.ReadAll(tv)
 					if rc == jsonnum.ReturnCodeErr {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
@@ -1070,8 +1064,10 @@ func (d *Decoder[S, T]) Decode(
 					}
 					*(*float32)(p) = v
 				case ExpectTypeFloat64String:
-					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					_, rc := jsonnum.ReadNumber(tv)
+					tv := unescape.Valid[S, S](
+						s[tokens[ti].Index+1 : tokens[ti].End-1],
+					)
+					rc := jsonnum.ReadAll(tv)
 					if rc == jsonnum.ReturnCodeErr {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
@@ -1083,8 +1079,10 @@ func (d *Decoder[S, T]) Decode(
 					}
 					*(*float64)(p) = v
 				case ExpectTypeIntString:
-					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					_, rc := jsonnum.ReadNumber(tv)
+					tv := unescape.Valid[S, S](
+						s[tokens[ti].Index+1 : tokens[ti].End-1],
+					)
+					rc := jsonnum.ReadAll(tv)
 					if rc != jsonnum.ReturnCodeInteger {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
@@ -1096,8 +1094,10 @@ func (d *Decoder[S, T]) Decode(
 					}
 					*(*int)(p) = v
 				case ExpectTypeInt8String:
-					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					_, rc := jsonnum.ReadNumber(tv)
+					tv := unescape.Valid[S, S](
+						s[tokens[ti].Index+1 : tokens[ti].End-1],
+					)
+					rc := jsonnum.ReadAll(tv)
 					if rc != jsonnum.ReturnCodeInteger {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
@@ -1109,8 +1109,10 @@ func (d *Decoder[S, T]) Decode(
 					}
 					*(*int8)(p) = v
 				case ExpectTypeInt16String:
-					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					_, rc := jsonnum.ReadNumber(tv)
+					tv := unescape.Valid[S, S](
+						s[tokens[ti].Index+1 : tokens[ti].End-1],
+					)
+					rc := jsonnum.ReadAll(tv)
 					if rc != jsonnum.ReturnCodeInteger {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
@@ -1122,8 +1124,10 @@ func (d *Decoder[S, T]) Decode(
 					}
 					*(*int16)(p) = v
 				case ExpectTypeInt32String:
-					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					_, rc := jsonnum.ReadNumber(tv)
+					tv := unescape.Valid[S, S](
+						s[tokens[ti].Index+1 : tokens[ti].End-1],
+					)
+					rc := jsonnum.ReadAll(tv)
 					if rc != jsonnum.ReturnCodeInteger {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
@@ -1135,8 +1139,10 @@ func (d *Decoder[S, T]) Decode(
 					}
 					*(*int32)(p) = v
 				case ExpectTypeInt64String:
-					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					_, rc := jsonnum.ReadNumber(tv)
+					tv := unescape.Valid[S, S](
+						s[tokens[ti].Index+1 : tokens[ti].End-1],
+					)
+					rc := jsonnum.ReadAll(tv)
 					if rc != jsonnum.ReturnCodeInteger {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
@@ -1148,8 +1154,10 @@ func (d *Decoder[S, T]) Decode(
 					}
 					*(*int64)(p) = v
 				case ExpectTypeUintString:
-					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					_, rc := jsonnum.ReadNumber(tv)
+					tv := unescape.Valid[S, S](
+						s[tokens[ti].Index+1 : tokens[ti].End-1],
+					)
+					rc := jsonnum.ReadAll(tv)
 					if rc != jsonnum.ReturnCodeInteger || tv[0] == '-' {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
@@ -1161,8 +1169,10 @@ func (d *Decoder[S, T]) Decode(
 					}
 					*(*uint)(p) = v
 				case ExpectTypeUint8String:
-					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					_, rc := jsonnum.ReadNumber(tv)
+					tv := unescape.Valid[S, S](
+						s[tokens[ti].Index+1 : tokens[ti].End-1],
+					)
+					rc := jsonnum.ReadAll(tv)
 					if rc != jsonnum.ReturnCodeInteger || tv[0] == '-' {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
@@ -1174,8 +1184,10 @@ func (d *Decoder[S, T]) Decode(
 					}
 					*(*uint8)(p) = v
 				case ExpectTypeUint16String:
-					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					_, rc := jsonnum.ReadNumber(tv)
+					tv := unescape.Valid[S, S](
+						s[tokens[ti].Index+1 : tokens[ti].End-1],
+					)
+					rc := jsonnum.ReadAll(tv)
 					if rc != jsonnum.ReturnCodeInteger || tv[0] == '-' {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
@@ -1187,8 +1199,10 @@ func (d *Decoder[S, T]) Decode(
 					}
 					*(*uint16)(p) = v
 				case ExpectTypeUint32String:
-					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					_, rc := jsonnum.ReadNumber(tv)
+					tv := unescape.Valid[S, S](
+						s[tokens[ti].Index+1 : tokens[ti].End-1],
+					)
+					rc := jsonnum.ReadAll(tv)
 					if rc != jsonnum.ReturnCodeInteger || tv[0] == '-' {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
@@ -1200,8 +1214,10 @@ func (d *Decoder[S, T]) Decode(
 					}
 					*(*uint32)(p) = v
 				case ExpectTypeUint64String:
-					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					_, rc := jsonnum.ReadNumber(tv)
+					tv := unescape.Valid[S, S](
+						s[tokens[ti].Index+1 : tokens[ti].End-1],
+					)
+					rc := jsonnum.ReadAll(tv)
 					if rc != jsonnum.ReturnCodeInteger || tv[0] == '-' {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
@@ -2320,6 +2336,12 @@ func (d *Decoder[S, T]) Decode(
 					// pNewData will point to the new data cell in the map.
 					var pNewData unsafe.Pointer
 
+					switch d.stackExp[si+1].Type {
+					case ExpectTypeTextUnmarshaler, ExpectTypeStr:
+					default:
+						key = unescape.Valid[S, S](key)
+					}
+
 					// The key frame is guaranteed to be non-composite (single frame)
 					// and at an offset of 1 relative to the map frame index.
 					switch d.stackExp[si+1].Type {
@@ -2343,7 +2365,7 @@ func (d *Decoder[S, T]) Decode(
 						}
 
 					case ExpectTypeInt:
-						_, rc := jsonnum.ReadNumber(key)
+						rc := jsonnum.ReadAll(key)
 						if rc != jsonnum.ReturnCodeInteger {
 							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 							return true
@@ -2356,7 +2378,7 @@ func (d *Decoder[S, T]) Decode(
 						pNewData = mapassign(typMap, pMap, noescape(unsafe.Pointer(&v)))
 
 					case ExpectTypeInt8:
-						_, rc := jsonnum.ReadNumber(key)
+						rc := jsonnum.ReadAll(key)
 						if rc != jsonnum.ReturnCodeInteger {
 							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 							return true
@@ -2369,7 +2391,7 @@ func (d *Decoder[S, T]) Decode(
 						pNewData = mapassign(typMap, pMap, noescape(unsafe.Pointer(&v)))
 
 					case ExpectTypeInt16:
-						_, rc := jsonnum.ReadNumber(key)
+						rc := jsonnum.ReadAll(key)
 						if rc != jsonnum.ReturnCodeInteger {
 							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 							return true
@@ -2382,7 +2404,7 @@ func (d *Decoder[S, T]) Decode(
 						pNewData = mapassign(typMap, pMap, noescape(unsafe.Pointer(&v)))
 
 					case ExpectTypeInt32:
-						_, rc := jsonnum.ReadNumber(key)
+						rc := jsonnum.ReadAll(key)
 						if rc != jsonnum.ReturnCodeInteger {
 							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 							return true
@@ -2395,7 +2417,7 @@ func (d *Decoder[S, T]) Decode(
 						pNewData = mapassign(typMap, pMap, noescape(unsafe.Pointer(&v)))
 
 					case ExpectTypeInt64:
-						_, rc := jsonnum.ReadNumber(key)
+						rc := jsonnum.ReadAll(key)
 						if rc != jsonnum.ReturnCodeInteger {
 							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 							return true
@@ -2408,7 +2430,7 @@ func (d *Decoder[S, T]) Decode(
 						pNewData = mapassign(typMap, pMap, noescape(unsafe.Pointer(&v)))
 
 					case ExpectTypeUint:
-						_, rc := jsonnum.ReadNumber(key)
+						rc := jsonnum.ReadAll(key)
 						if rc != jsonnum.ReturnCodeInteger || key[0] == '-' {
 							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 							return true
@@ -2421,7 +2443,7 @@ func (d *Decoder[S, T]) Decode(
 						pNewData = mapassign(typMap, pMap, noescape(unsafe.Pointer(&v)))
 
 					case ExpectTypeUint8:
-						_, rc := jsonnum.ReadNumber(key)
+						rc := jsonnum.ReadAll(key)
 						if rc != jsonnum.ReturnCodeInteger || key[0] == '-' {
 							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 							return true
@@ -2434,7 +2456,7 @@ func (d *Decoder[S, T]) Decode(
 						pNewData = mapassign(typMap, pMap, noescape(unsafe.Pointer(&v)))
 
 					case ExpectTypeUint16:
-						_, rc := jsonnum.ReadNumber(key)
+						rc := jsonnum.ReadAll(key)
 						if rc != jsonnum.ReturnCodeInteger || key[0] == '-' {
 							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 							return true
@@ -2447,7 +2469,7 @@ func (d *Decoder[S, T]) Decode(
 						pNewData = mapassign(typMap, pMap, noescape(unsafe.Pointer(&v)))
 
 					case ExpectTypeUint32:
-						_, rc := jsonnum.ReadNumber(key)
+						rc := jsonnum.ReadAll(key)
 						if rc != jsonnum.ReturnCodeInteger || key[0] == '-' {
 							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 							return true
@@ -2460,7 +2482,7 @@ func (d *Decoder[S, T]) Decode(
 						pNewData = mapassign(typMap, pMap, noescape(unsafe.Pointer(&v)))
 
 					case ExpectTypeUint64:
-						_, rc := jsonnum.ReadNumber(key)
+						rc := jsonnum.ReadAll(key)
 						if rc != jsonnum.ReturnCodeInteger || key[0] == '-' {
 							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 							return true
-- 
2.43.0


From af74da1bc5e7c093617eddd3229013dff7be751b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:51 +0000
Subject: [PATCH 08/24] fix: support the map key types of encoding/json and
 reject all others

---
 append_type_stack.go | 60 +++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 57 insertions(+), 3 deletions(-)

diff --git a/append_type_stack.go b/append_type_stack.go
index 575e0d1..4a149e8 100644
--- a/append_type_stack.go
+++ b/append_type_stack.go
@@ -244,7 +244,7 @@ func appendTypeToStack[S []byte | string](
 					{
 						newAtIndex := len(stack)
 						var err error
-						stack, err = appendTypeToStack(stack, t.Key(), options)
+						stack, err = appendMapKeyTypeToStack(stack, t.Key(), options)
 						if err != nil {
 							return nil, err
 						}
@@ -256,7 +256,9 @@ func appendTypeToStack[S []byte | string](
 			}
 		}
 
-		if t.Key().Kind() == reflect.String && t.Elem().Kind() == reflect.String {
+		if t.Key().Kind() == reflect.String && t.Elem().Kind() == reflect.String &&
+			!reflect.PointerTo(t.Key()).Implements(tpTextUnmarshaler) &&
+			elem != tpNumber && !implementsUnmarshaler(elem) {
 			return append(stack, stackFrame[S]{
 				Type:             ExpectTypeMapStringString,
 				Typ:              getTyp(t),
@@ -278,7 +280,8 @@ func appendTypeToStack[S []byte | string](
 		{
 			newAtIndex := len(stack)
 			var err error
-			if stack, err = appendTypeToStack(stack, t.Key(), options); err != nil {
+			stack, err = appendMapKeyTypeToStack(stack, t.Key(), options)
+			if err != nil {
 				return nil, err
 			}
 			// Link map key to the map frame.
@@ -544,6 +547,57 @@ func appendTypeToStack[S []byte | string](
 	return stack, nil
 }
 
+// appendMapKeyTypeToStack appends the frame of map key type t.
+// Same as in encoding/json the key must either be a TextUnmarshaler
+// or be of a string or integer kind.
+func appendMapKeyTypeToStack[S []byte | string](
+	stack []stackFrame[S], t reflect.Type, options *InitOptions,
+) ([]stackFrame[S], error) {
+	if reflect.PointerTo(t).Implements(tpTextUnmarshaler) {
+		return append(stack, stackFrame[S]{
+			Type:             ExpectTypeTextUnmarshaler,
+			Typ:              getTyp(t),
+			RType:            t,
+			Size:             t.Size(),
+			ParentFrameIndex: noParentFrame,
+		}), nil
+	}
+	switch t.Kind() {
+	case reflect.String:
+		t = reflect.TypeOf("")
+	case reflect.Int:
+		t = reflect.TypeOf(int(0))
+	case reflect.Int8:
+		t = reflect.TypeOf(int8(0))
+	case reflect.Int16:
+		t = reflect.TypeOf(int16(0))
+	case reflect.Int32:
+		t = reflect.TypeOf(int32(0))
+	case reflect.Int64:
+		t = reflect.TypeOf(int64(0))
+	case reflect.Uint:
+		t = reflect.TypeOf(uint(0))
+	case reflect.Uint8:
+		t = reflect.TypeOf(uint8(0))
+	case reflect.Uint16:
+		t = reflect.TypeOf(uint16(0))
+	case reflect.Uint32:
+		t = reflect.TypeOf(uint32(0))
+	case reflect.Uint64:
+		t = reflect.TypeOf(uint64(0))
+	default:
+		return nil, fmt.Errorf("unsupported map key type: %v", t)
+	}
+	return appendTypeToStack(stack, t, options)
+}
+
+// implementsUnmarshaler returns true if t or pointer to t implements
+// either encoding/json.Unmarshaler or encoding.TextUnmarshaler.
+func implementsUnmarshaler(t reflect.Type) bool {
+	return determineJSONUnmarshalerSupport(t) != interfaceSupportNone ||
+		determineTextUnmarshalerSupport(t) != interfaceSupportNone
+}
+
 func getTyp(t reflect.Type) *typ {
 	return (*typ)(((*emptyInterface)(unsafe.Pointer(&t))).ptr)
 }
-- 
2.43.0


From 94b01384b4cbe511c7da7345e5d3331dd972b5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:12 +0000
Subject: [PATCH 09/24] fix: use the fast paths of slices only for elements
 without an unmarshaler

---
 append_type_stack.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/append_type_stack.go b/append_type_stack.go
index 4a149e8..6070836 100644
--- a/append_type_stack.go
+++ b/append_type_stack.go
@@ -76,9 +76,14 @@ func appendTypeToStack[S []byte | string](
 
 	case reflect.Slice:
 		elem := t.Elem()
-		switch elem.Kind() {
+		elemKind := elem.Kind()
+		if implementsUnmarshaler(elem) {
+			// The elements must be decoded by their own unmarshaler.
+			elemKind = reflect.Invalid
+		}
+		switch elemKind {
 		case reflect.Struct:
-			if elem.Size() < 1 {
+			if elem.NumField() < 1 {
 				return append(stack, stackFrame[S]{
 					Type:             ExpectTypeSliceEmptyStruct,
 					Typ:              getTyp(t),
-- 
2.43.0


From b6865f25570f8d34c9cc19c2acee8dda75576a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:57 +0000
Subject: [PATCH 10/24] fix: decode recursive types nested in other containers
 and reject unsupported ones

---
 append_type_stack.go |  34 +++++-
 jscandec.go          | 275 ++++++++++++++-----------------------------
 2 files changed, 121 insertions(+), 188 deletions(-)

diff --git a/append_type_stack.go b/append_type_stack.go
index 6070836..16e8da4 100644
--- a/append_type_stack.go
+++ b/append_type_stack.go
@@ -35,6 +35,11 @@ func appendTypeToStack[S []byte | string](
 			ParentFrameIndex: noParentFrame,
 		}), nil
 	}
+	if isRecursiveType(stack, t) {
+		// Only recursion of structs through their pointers, slices and maps
+		// is supported, see below.
+		return nil, fmt.Errorf("unsupported recursive type: %v", t)
+	}
 	switch t.Kind() {
 	case reflect.Interface:
 		if t.NumMethod() != 0 {
@@ -93,7 +98,7 @@ func appendTypeToStack[S []byte | string](
 			}
 			// Check for recursion
 			for i := range stack {
-				if stack[i].RType == elem {
+				if stack[i].isOpenStruct(elem) {
 					// Recursion of type stack[i] detected.
 					// Link recursive frame to the recursion frame.
 					stack[i].Type = ExpectTypeStructRecur
@@ -232,7 +237,7 @@ func appendTypeToStack[S []byte | string](
 		if elem.Kind() == reflect.Struct && elem.Size() > 0 {
 			// Check for recursion
 			for i := range stack {
-				if stack[i].RType == elem {
+				if stack[i].isOpenStruct(elem) {
 					// Recursion of type stack[i] detected.
 					// Link recursive frame to the recursion frame.
 					stack[i].Type = ExpectTypeStructRecur
@@ -516,7 +521,7 @@ func appendTypeToStack[S []byte | string](
 		if elem.Kind() == reflect.Struct && elem.Size() > 0 {
 			// Check for recursion
 			for i := range stack {
-				if stack[i].RType == elem {
+				if stack[i].isOpenStruct(elem) {
 					// Recursion of type stack[i] detected.
 					// Link recursive frame to the recursion frame.
 					stack[i].Type = ExpectTypeStructRecur
@@ -552,6 +557,29 @@ func appendTypeToStack[S []byte | string](
 	return stack, nil
 }
 
+// isRecursiveType returns true if t is the type of a frame that the next appended
+// frame would be a child of, with no struct in between if t isn't a struct.
+func isRecursiveType[S []byte | string](stack []stackFrame[S], t reflect.Type) bool {
+	for i := len(stack) - 1; i >= 0; i-- {
+		if stack[i].ParentFrameIndex != noParentFrame {
+			continue // Already linked, hence not a parent.
+		}
+		if stack[i].Typ == getTyp(t) {
+			return true
+		}
+		if t.Kind() != reflect.Struct && stack[i].Fields != nil {
+			return false
+		}
+	}
+	return false
+}
+
+// isOpenStruct returns true if f is the frame of struct type t and its fields
+// are still being appended, which makes it a parent of the next appended frame.
+func (f *stackFrame[S]) isOpenStruct(t reflect.Type) bool {
+	return f.RType == t && f.ParentFrameIndex == noParentFrame
+}
+
 // appendMapKeyTypeToStack appends the frame of map key type t.
 // Same as in encoding/json the key must either be a TextUnmarshaler
 // or be of a string or integer kind.
diff --git a/jscandec.go b/jscandec.go
index ec1d518..e7a7236 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -390,17 +390,24 @@ type fieldStackFrame struct {
 	Name string
 }
 
+// recursionStackFrame represents a value of a recursive struct (or a slice of those)
+// that's currently being decoded on behalf of a recursive container.
 type recursionStackFrame struct {
-	// Dest stores the destination pointer for the recursive frame to be reset to.
-	Dest unsafe.Pointer
-
-	// Offset stores the offset for the recursive frame to be reset to.
-	Offset uintptr
+	// Frames stores the runtime state of the recursive struct frame and
+	// all frames following it to be reset to.
+	Frames []frameState
 
 	// ContainerFrame stores the index of the recursive container frame.
 	ContainerFrame uint32
 }
 
+// frameState is the state of a stack frame that's overwritten at runtime.
+type frameState struct {
+	Dest   unsafe.Pointer
+	Offset uintptr
+	Len    int
+}
+
 type stackFrame[S []byte | string] struct {
 	// Fields is only relevant to structs.
 	// For every other type Fields is always nil.
@@ -508,6 +515,56 @@ type Decoder[S []byte | string, T any] struct {
 	parseUint    func(s S) (uint, error)
 	parseFloat32 func(s S) (float32, error)
 	parseFloat64 func(s S) (float64, error)
+
+	// recursions stores the indexes of the ExpectTypeStructRecur frames that are
+	// currently being decoded recursively in the order of their nesting.
+	recursions []uint32
+}
+
+// pushRecursion begins decoding the data at dest with the recursive struct frame
+// that container frame si refers to and returns the index of the struct frame.
+func (d *Decoder[S, T]) pushRecursion(si uint32, dest unsafe.Pointer) uint32 {
+	recurFrame := uint32(d.stackExp[si].RecurFrame)
+	r := recursionStackFrame{
+		Frames:         make([]frameState, len(d.stackExp[recurFrame:])),
+		ContainerFrame: si,
+	}
+	for i := range r.Frames {
+		f := &d.stackExp[recurFrame+uint32(i)]
+		r.Frames[i] = frameState{Dest: f.Dest, Offset: f.Offset, Len: f.Len}
+	}
+	f := &d.stackExp[recurFrame]
+	f.RecursionStack = append(f.RecursionStack, r)
+	f.Dest, f.Offset = dest, 0
+	d.recursions = append(d.recursions, recurFrame)
+	return recurFrame
+}
+
+// popRecursion resets the stack to the state before the last call to pushRecursion
+// and returns the index of the container frame.
+func (d *Decoder[S, T]) popRecursion() uint32 {
+	recurFrame := d.recursions[len(d.recursions)-1]
+	d.recursions = d.recursions[:len(d.recursions)-1]
+	f := &d.stackExp[recurFrame]
+	top := len(f.RecursionStack) - 1
+	r := f.RecursionStack[top]
+	f.RecursionStack[top] = recursionStackFrame{}
+	f.RecursionStack = f.RecursionStack[:top]
+	for i, state := range r.Frames {
+		f := &d.stackExp[recurFrame+uint32(i)]
+		f.Dest, f.Offset, f.Len = state.Dest, state.Offset, state.Len
+	}
+	return r.ContainerFrame
+}
+
+// recursionContainer returns the type of the recursive container that frame si is
+// currently being decoded for, or 0 if frame si isn't being decoded recursively.
+func (d *Decoder[S, T]) recursionContainer(si uint32) ExpectType {
+	if l := len(d.recursions); l < 1 || d.recursions[l-1] != si {
+		return 0
+	}
+	s := d.stackExp[si].RecursionStack
+	return d.stackExp[s[len(s)-1].ContainerFrame].Type
 }
 
 // NewDecoder creates a new reusable decoder instance.
@@ -714,6 +771,9 @@ func (d *Decoder[S, T]) Decode(
 	s S, t *T, options *DecodeOptions,
 ) (errIndex int, err error) {
 	defer func() {
+		for len(d.recursions) > 0 {
+			d.popRecursion()
+		}
 		for i := range d.stackExp {
 			d.stackExp[i].Dest = nil
 		}
@@ -1394,11 +1454,7 @@ func (d *Decoder[S, T]) Decode(
 						}
 						*(*sliceHeader)(p) = emptySlice
 						ti += 2
-						if len(d.stackExp[recursiveFrame].RecursionStack) < 1 {
-							goto ON_VAL_END
-						}
-						si = uint32(recursiveFrame)
-						continue
+						goto ON_VAL_END
 					}
 
 					var dp unsafe.Pointer
@@ -1425,18 +1481,7 @@ func (d *Decoder[S, T]) Decode(
 					}
 					ti++
 
-					// Push recursion stack
-					d.stackExp[recursiveFrame].RecursionStack = append(
-						d.stackExp[recursiveFrame].RecursionStack, recursionStackFrame{
-							Dest:           d.stackExp[recursiveFrame].Dest,
-							Offset:         d.stackExp[recursiveFrame].Offset,
-							ContainerFrame: si,
-						},
-					)
-
-					si = uint32(recursiveFrame)
-					d.stackExp[si].Dest = dp
-					d.stackExp[si].Offset = 0
+					si = d.pushRecursion(si, dp)
 
 				case ExpectTypeSliceEmptyStruct:
 					p := unsafe.Pointer(
@@ -2102,63 +2147,16 @@ func (d *Decoder[S, T]) Decode(
 						uintptr(d.stackExp[si].Dest) + d.stackExp[si].Offset,
 					)
 
-					siPointer := si
-					si = uint32(d.stackExp[si].RecurFrame)
-					// Push recursion stack
-					d.stackExp[si].RecursionStack = append(
-						d.stackExp[si].RecursionStack, recursionStackFrame{
-							Dest:           d.stackExp[si].Dest,
-							Offset:         d.stackExp[si].Offset,
-							ContainerFrame: siPointer,
-						},
-					)
-
-					var dp unsafe.Pointer
-					if *(*unsafe.Pointer)(p) != nil {
-						dp = *(*unsafe.Pointer)(p)
-					} else {
-						dp = mallocgc(d.stackExp[si].Size, d.stackExp[si].Typ, true)
+					dp := *(*unsafe.Pointer)(p)
+					if dp == nil {
+						elem := &d.stackExp[d.stackExp[si].RecurFrame]
+						dp = mallocgc(elem.Size, elem.Typ, true)
 						*(*unsafe.Pointer)(p) = dp
 					}
-					d.stackExp[si].Dest = dp
-
-					if tokens[ti].Elements == 0 {
-						ti += 2
-						goto ON_RECUR_OBJ_END
-					}
-					// Point all fields to the struct, the offsets are already
-					// set statically during decoder init time.
-					for i := range d.stackExp[si].Fields {
-						d.stackExp[d.stackExp[si].Fields[i].FrameIndex].Dest = dp
-					}
-					ti++
-
-				case ExpectTypeMapRecur:
-					// Push recursion stack
-					recursiveFrame := d.stackExp[si].RecurFrame
-					d.stackExp[recursiveFrame].RecursionStack = append(
-						d.stackExp[recursiveFrame].RecursionStack, recursionStackFrame{
-							Dest:           d.stackExp[recursiveFrame].Dest,
-							Offset:         d.stackExp[recursiveFrame].Offset,
-							ContainerFrame: si,
-						},
-					)
-					p := unsafe.Pointer(
-						uintptr(d.stackExp[si].Dest) + d.stackExp[si].Offset,
-					)
-					if *(*unsafe.Pointer)(p) == nil {
-						// Map not yet initialized, initialize map.
-						*(*unsafe.Pointer)(p) = makemap(
-							d.stackExp[si].Typ, tokens[ti].Elements,
-						)
-					}
-					if tokens[ti].Elements == 0 {
-						ti += 2
-						goto ON_VAL_END
-					}
-					ti++
+					// The object is decoded by the recursive struct frame.
+					si = d.pushRecursion(si, dp)
 
-				case ExpectTypeMap:
+				case ExpectTypeMap, ExpectTypeMapRecur:
 					p := unsafe.Pointer(
 						uintptr(d.stackExp[si].Dest) + d.stackExp[si].Offset,
 					)
@@ -2205,7 +2203,7 @@ func (d *Decoder[S, T]) Decode(
 					*(*map[string]string)(p) = m
 					goto ON_VAL_END
 
-				case ExpectTypeStruct:
+				case ExpectTypeStruct, ExpectTypeStructRecur:
 					p := unsafe.Pointer(
 						uintptr(d.stackExp[si].Dest) + d.stackExp[si].Offset,
 					)
@@ -2221,21 +2219,6 @@ func (d *Decoder[S, T]) Decode(
 					}
 					ti++
 
-				case ExpectTypeStructRecur:
-					p := unsafe.Pointer(
-						uintptr(d.stackExp[si].Dest) + d.stackExp[si].Offset,
-					)
-					if tokens[ti].Elements == 0 {
-						ti += 2
-						goto ON_RECUR_OBJ_END
-					}
-					// Point all fields to the struct, the offsets are already
-					// set statically during decoder init time.
-					for i := range d.stackExp[si].Fields {
-						d.stackExp[d.stackExp[si].Fields[i].FrameIndex].Dest = p
-					}
-					ti++
-
 				case ExpectTypePtr:
 					goto ON_PTR
 
@@ -2496,16 +2479,14 @@ func (d *Decoder[S, T]) Decode(
 					}
 
 					if d.stackExp[si].Type == ExpectTypeMapRecur {
-						recursiveFrame := d.stackExp[si].RecurFrame
-						si = uint32(recursiveFrame)
+						si = d.pushRecursion(si, pNewData)
 					} else {
 						// For non-recursive maps the value frame is guaranteed to
 						// be at an offset of 2 relative to the map frame index.
 						si += 2
+						d.stackExp[si].Dest = pNewData
 					}
 
-					d.stackExp[si].Dest = pNewData
-
 					// Zero the value, the key may already exist in the map.
 					typedmemclr(typVal, pNewData)
 
@@ -2517,106 +2498,30 @@ func (d *Decoder[S, T]) Decode(
 
 			case jscan.TokenTypeObjectEnd:
 				ti++
-				switch d.stackExp[si].Type {
-				case ExpectTypeStruct:
-					goto ON_VAL_END
-				case ExpectTypeMapRecur:
-					recursiveFrame := d.stackExp[si].RecurFrame
-					recurStack := d.stackExp[recursiveFrame].RecursionStack
-					if len(recurStack) < 1 {
-						// In map of the root recursive struct
-						si = uint32(d.stackExp[si].RecurFrame)
-						goto ON_VAL_END
-					}
-
-					// Reset to parent context
-					topIndex := len(recurStack) - 1
-					resetTo := d.stackExp[recursiveFrame].RecursionStack[topIndex]
-					d.stackExp[recursiveFrame].Dest = resetTo.Dest
-					d.stackExp[recursiveFrame].Offset = resetTo.Offset
-					fields := d.stackExp[recursiveFrame].Fields
-					for i := range fields {
-						d.stackExp[fields[i].FrameIndex].Dest = resetTo.Dest
-					}
-
-					// Pop recursion stack
-					recurStack[topIndex].Dest = nil
-					d.stackExp[recursiveFrame].RecursionStack = recurStack[:topIndex]
-					si = d.stackExp[si].ParentFrameIndex
-					continue
-				}
-				goto ON_RECUR_OBJ_END
+				goto ON_VAL_END
 
 			case jscan.TokenTypeArrayEnd:
 				ti++
-				if d.stackExp[si].Type == ExpectTypeStructRecur {
-					recurStack := d.stackExp[si].RecursionStack
-					if len(recurStack) < 1 {
-						// In slice of the root recursive struct
-						goto ON_VAL_END
-					}
-
-					// Reset to parent context
-					topIndex := len(recurStack) - 1
-					resetTo := d.stackExp[si].RecursionStack[topIndex]
-					d.stackExp[si].Dest = resetTo.Dest
-					d.stackExp[si].Offset = resetTo.Offset
-					fields := d.stackExp[si].Fields
-					for i := range fields {
-						d.stackExp[fields[i].FrameIndex].Dest = resetTo.Dest
-					}
-
-					// Pop recursion stack
-					recurStack[topIndex].Dest = nil
-					d.stackExp[si].RecursionStack = recurStack[:topIndex]
-					si = d.stackExp[resetTo.ContainerFrame].ParentFrameIndex
-					continue
+				if d.recursionContainer(si) == ExpectTypeSliceRecur {
+					si = d.popRecursion()
+					goto ON_VAL_END
 				}
 				si--
 				goto ON_VAL_END
 			}
 			continue
 
-		ON_RECUR_OBJ_END:
-			if l := len(d.stackExp[si].RecursionStack); l > 0 {
-				top := d.stackExp[si].RecursionStack[l-1]
-				switch d.stackExp[top.ContainerFrame].Type {
-				case ExpectTypeSliceRecur:
-					d.stackExp[si].Offset += d.stackExp[si].Size
-				case ExpectTypePtrRecur:
-					recurStack := d.stackExp[si].RecursionStack
-					if len(recurStack) < 1 {
-						// In map of the root recursive struct
-						goto ON_VAL_END
-					}
-
-					// Reset to parent context
-					topIndex := len(recurStack) - 1
-					d.stackExp[si].Dest = top.Dest
-					d.stackExp[si].Offset = top.Offset
-					fields := d.stackExp[si].Fields
-					for i := range fields {
-						d.stackExp[fields[i].FrameIndex].Dest = top.Dest
-					}
-
-					// Pop recursion stack
-					recurStack[topIndex].Dest = nil
-					d.stackExp[si].RecursionStack = recurStack[:topIndex]
-					si = d.stackExp[top.ContainerFrame].ParentFrameIndex
-					continue
-
-				case ExpectTypeMapRecur:
-					si = top.ContainerFrame
-					// Set the top stack destination so the next key gets assigned to it.
-					// Otherwise we'll be in the destination of the previously assigned
-					// key, which will point to an empty map.
-					d.stackExp[si].Dest = top.Dest
-				}
+		ON_VAL_END:
+			switch d.recursionContainer(si) {
+			case ExpectTypeSliceRecur:
+				d.stackExp[si].Offset += d.stackExp[si].Size
 				continue
+			case ExpectTypeMapRecur:
+				si = d.popRecursion()
+				continue
+			case ExpectTypePtrRecur:
+				si = d.popRecursion()
 			}
-			// Here we expect to fallthrough directly to ON_VAL_END!
-
-		ON_VAL_END:
 			if siCon := d.stackExp[si].ParentFrameIndex; siCon != noParentFrame {
 				switch d.stackExp[siCon].Type {
 				case ExpectTypePtr:
-- 
2.43.0


From 4a9af5a4caef1a1d5c6d49804cb8dc661dc09246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:28 +0000
Subject: [PATCH 11/24] fix: zero the array elements a shorter JSON array
 doesn't provide

---
 jscandec.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/jscandec.go b/jscandec.go
index e7a7236..2a9f16f 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -1375,11 +1375,13 @@ func (d *Decoder[S, T]) Decode(
 					p := unsafe.Pointer(
 						uintptr(d.stackExp[si].Dest) + d.stackExp[si].Offset,
 					)
+					// Zero the elements that the JSON array doesn't provide.
+					elem := &d.stackExp[si+1]
+					for i := tokens[ti].Elements; i < elem.Cap; i++ {
+						typedmemclr(elem.Typ, unsafe.Add(p, uintptr(i)*elem.Size))
+					}
 					if tokens[ti].Elements < 1 {
 						ti += 2 // Skip over closing TokenArrayEnd
-						// Empty array, no need to allocate memory.
-						// Go will automatically allocate it together with its parent
-						// and zero it.
 						goto ON_VAL_END
 					}
 					ti++
-- 
2.43.0


From 4b24a9d7609bfcf0e786e7b4ae89b7392f155e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:08 +0000
Subject: [PATCH 12/24] fix: reject elements of []struct{} that aren't objects
 and skip objects of empty structs whole

---
 jscandec.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/jscandec.go b/jscandec.go
index 2a9f16f..b866a73 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -1486,6 +1486,21 @@ func (d *Decoder[S, T]) Decode(
 					si = d.pushRecursion(si, dp)
 
 				case ExpectTypeSliceEmptyStruct:
+					for i := ti + 1; i < tokens[ti].End; {
+						switch tokens[i].Type {
+						case jscan.TokenTypeNull:
+							i++
+						case jscan.TokenTypeObject:
+							if options.DisallowUnknownFields && tokens[i].Elements > 0 {
+								errIndex, err = tokens[i+1].Index, ErrUnknownField
+								return true
+							}
+							i = tokens[i].End + 1 // Skip object value
+						default:
+							errIndex, err = tokens[i].Index, ErrUnexpectedValue
+							return true
+						}
+					}
 					p := unsafe.Pointer(
 						uintptr(d.stackExp[si].Dest) + d.stackExp[si].Offset,
 					)
@@ -2129,7 +2144,11 @@ func (d *Decoder[S, T]) Decode(
 			case jscan.TokenTypeObject:
 				switch d.stackExp[si].Type {
 				case ExpectTypeEmptyStruct:
-					ti = tokens[ti].End // Skip object value
+					if options.DisallowUnknownFields && tokens[ti].Elements > 0 {
+						errIndex, err = tokens[ti+1].Index, ErrUnknownField
+						return true
+					}
+					ti = tokens[ti].End + 1 // Skip object value
 					goto ON_VAL_END
 				case ExpectTypeAny:
 					v, tail, errDecode := decodeAny(s, tokens[ti:])
-- 
2.43.0


From ca6c0088504ee0c92ffb33c7fd4d1f1e0f74074c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:28 +0000
Subject: [PATCH 13/24] fix: skip the whole value of an unknown field

---
 jscandec.go | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/jscandec.go b/jscandec.go
index b866a73..3de9e84 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -2301,22 +2301,17 @@ func (d *Decoder[S, T]) Decode(
 							}
 							// Skip value, go to the next key
 							ti++
-							for l := 0; ; ti++ {
-								switch tokens[ti].Type {
-								case jscan.TokenTypeKey:
-									if l < 1 {
-										continue SCAN_KEYVALS
-									}
-								case jscan.TokenTypeObject:
-									l++
-								case jscan.TokenTypeObjectEnd:
-									l--
-									if l < 1 {
-										ti--
-										break SCAN_KEYVALS
-									}
-								}
+							switch tokens[ti].Type {
+							case jscan.TokenTypeObject, jscan.TokenTypeArray:
+								ti = tokens[ti].End + 1
+							default:
+								ti++
+							}
+							if tokens[ti].Type == jscan.TokenTypeObjectEnd {
+								ti--
+								break SCAN_KEYVALS
 							}
+							continue SCAN_KEYVALS
 						}
 						si = frameIndex
 						if si == noParentFrame {
-- 
2.43.0


From fa82c19e427dc411056e556a5e786923ec222916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:30 +0000
Subject: [PATCH 14/24] fix: support pointer types that implement an
 unmarshaler interface

---
 jscandec.go | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/jscandec.go b/jscandec.go
index 3de9e84..07e7ad0 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -1056,9 +1056,9 @@ func (d *Decoder[S, T]) Decode(
 
 				switch d.stackExp[si].Type {
 				case ExpectTypeTextUnmarshaler:
-					u := reflect.NewAt(
+					u := unmarshalerAt(
 						d.stackExp[si].RType, p,
-					).Interface().(encoding.TextUnmarshaler)
+					).(encoding.TextUnmarshaler)
 					tb := unescape.Valid[S, []byte](
 						s[tokens[ti].Index+1 : tokens[ti].End-1],
 					)
@@ -1344,7 +1344,15 @@ func (d *Decoder[S, T]) Decode(
 				case ExpectTypeSliceUint64:
 					*(*[]uint64)(p) = nil
 				case ExpectTypeJSONUnmarshaler:
-					goto ON_JSON_UNMARSHALER
+					if d.stackExp[si].RType.Kind() != reflect.Pointer {
+						goto ON_JSON_UNMARSHALER
+					}
+					*(*unsafe.Pointer)(p) = nil
+				case ExpectTypeTextUnmarshaler:
+					switch d.stackExp[si].RType.Kind() {
+					case reflect.Pointer, reflect.Map, reflect.Slice:
+						typedmemclr(d.stackExp[si].Typ, p)
+					}
 				default:
 					// Null has no effect on values of any other type.
 				}
@@ -2612,7 +2620,7 @@ func (d *Decoder[S, T]) Decode(
 					raw = s[tokens[ti].Index:tokens[ti].End]
 					ti++
 				}
-				u := reflect.NewAt(d.stackExp[si].RType, p).Interface().(json.Unmarshaler)
+				u := unmarshalerAt(d.stackExp[si].RType, p).(json.Unmarshaler)
 				if errUnmarshal := u.UnmarshalJSON([]byte(raw)); errUnmarshal != nil {
 					errIndex, err = tkIndex, errUnmarshal
 					return true
@@ -2632,6 +2640,19 @@ func (d *Decoder[S, T]) Decode(
 	return -1, nil
 }
 
+// unmarshalerAt returns the pointer to the value of type t at p.
+// If t is a pointer itself then it's returned and allocated if nil.
+func unmarshalerAt(t reflect.Type, p unsafe.Pointer) any {
+	v := reflect.NewAt(t, p)
+	if t.Kind() == reflect.Pointer {
+		v = v.Elem()
+		if v.IsNil() {
+			v.Set(reflect.New(t.Elem()))
+		}
+	}
+	return v.Interface()
+}
+
 type sliceHeader struct {
 	Data     unsafe.Pointer
 	Len, Cap uintptr
-- 
2.43.0


From b0b73bdd5dadf7ae53eaccd9912b5b3fab9c6a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:13 +0000
Subject: [PATCH 15/24] fix: find the `string` option anywhere in the tag and
 ignore fields tagged exactly "-"

---
 append_type_stack.go | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/append_type_stack.go b/append_type_stack.go
index 16e8da4..ae5a328 100644
--- a/append_type_stack.go
+++ b/append_type_stack.go
@@ -332,20 +332,23 @@ func appendTypeToStack[S []byte | string](
 			name := f.Name
 			optionString := false
 			if jsonTag := f.Tag.Get("json"); jsonTag != "" {
-				name = jsonTag
-				if i := strings.IndexByte(jsonTag, ','); i != -1 {
-					name = jsonTag[:i]
-					optionName := jsonTag[i+1:]
-					optionString = optionName == "string"
-				}
-				switch name {
-				case "":
-					// Either there was no tag or no name specified in it.
-					name = f.Name
-				case "-":
+				if jsonTag == "-" {
 					// Ignore this field.
 					continue
 				}
+				tagName, tagOptions, _ := strings.Cut(jsonTag, ",")
+				for tagOptions != "" {
+					var option string
+					option, tagOptions, _ = strings.Cut(tagOptions, ",")
+					if option == "string" {
+						optionString = true
+					}
+				}
+				name = tagName
+				if name == "" {
+					// No name specified in the tag.
+					name = f.Name
+				}
 			}
 
 			newAtIndex := uint32(len(stack))
-- 
2.43.0


From 55ac2048585a84e044b6326869dfe45ac34cf141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:33 +0000
Subject: [PATCH 16/24] fix: never write to unexported struct fields

---
 append_type_stack.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/append_type_stack.go b/append_type_stack.go
index ae5a328..39dc83d 100644
--- a/append_type_stack.go
+++ b/append_type_stack.go
@@ -329,6 +329,10 @@ func appendTypeToStack[S []byte | string](
 
 		for i := 0; i < numFields; i++ {
 			f := t.Field(i)
+			if !f.IsExported() {
+				// Only exported fields can be set.
+				continue
+			}
 			name := f.Name
 			optionString := false
 			if jsonTag := f.Tag.Get("json"); jsonTag != "" {
-- 
2.43.0


From 42cc910ef97635f3de77516f3dcad287914e11b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:05 +0000
Subject: [PATCH 17/24] fix: match field names case-insensitively when the
 encodings differ in length

---
 jscandec.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/jscandec.go b/jscandec.go
index 07e7ad0..9a0ec8c 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -2688,21 +2688,21 @@ func fieldFrameIndexByName[S []byte | string](fields []fieldStackFrame, name S)
 	f := fields
 	eq := strings.EqualFold
 	for ; len(f) >= 4; f = f[4:] { // Try 4 at a time if enough are left
-		if len(f[0].Name) == len(name) && eq(string(f[0].Name), string(name)) {
+		if eq(string(f[0].Name), string(name)) {
 			return f[0].FrameIndex
 		}
-		if len(f[1].Name) == len(name) && eq(string(f[1].Name), string(name)) {
+		if eq(string(f[1].Name), string(name)) {
 			return f[1].FrameIndex
 		}
-		if len(f[2].Name) == len(name) && eq(string(f[2].Name), string(name)) {
+		if eq(string(f[2].Name), string(name)) {
 			return f[2].FrameIndex
 		}
-		if len(f[3].Name) == len(name) && eq(string(f[3].Name), string(name)) {
+		if eq(string(f[3].Name), string(name)) {
 			return f[3].FrameIndex
 		}
 	}
 	for i := range f {
-		if len(f[i].Name) == len(name) && eq(string(f[i].Name), string(name)) {
+		if eq(string(f[i].Name), string(name)) {
 			return f[i].FrameIndex
 		}
 	}
-- 
2.43.0


From 45a42b1bb6ebe1fd6fd6ce762669ce49c2f12e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:25 +0000
Subject: [PATCH 18/24] fix: reject non-empty interface types with an error
 instead of a panic

---
 append_type_stack.go |  8 ++++----
 jscandec.go          | 14 ++++++--------
 2 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/append_type_stack.go b/append_type_stack.go
index 39dc83d..f6b4f1a 100644
--- a/append_type_stack.go
+++ b/append_type_stack.go
@@ -18,6 +18,9 @@ func appendTypeToStack[S []byte | string](
 			Size:             unsafe.Sizeof(struct{ typ, dat uintptr }{}),
 			ParentFrameIndex: noParentFrame,
 		}), nil
+	} else if t.Kind() == reflect.Interface && t.NumMethod() != 0 {
+		// The concrete type to decode into is unknown.
+		return nil, fmt.Errorf("unsupported type: %v", t)
 	} else if s := determineJSONUnmarshalerSupport(t); s != interfaceSupportNone {
 		return append(stack, stackFrame[S]{
 			Type:             ExpectTypeJSONUnmarshaler,
@@ -42,10 +45,7 @@ func appendTypeToStack[S []byte | string](
 	}
 	switch t.Kind() {
 	case reflect.Interface:
-		if t.NumMethod() != 0 {
-			// TODO:
-			panic("not yet supported")
-		}
+
 		return append(stack, stackFrame[S]{
 			Type:             ExpectTypeAny,
 			Typ:              getTyp(t),
diff --git a/jscandec.go b/jscandec.go
index 9a0ec8c..f42141a 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -491,7 +491,7 @@ func Unmarshal[S []byte | string, T any](s S, t *T) error {
 	}
 	stack := make([]stackFrame[S], 0, 4)
 	var err error
-	stack, err = appendTypeToStack(stack, reflect.TypeOf(*t), DefaultInitOptions)
+	stack, err = appendTypeToStack(stack, reflect.TypeOf(t).Elem(), DefaultInitOptions)
 	if err != nil {
 		return err
 	}
@@ -500,11 +500,8 @@ func Unmarshal[S []byte | string, T any](s S, t *T) error {
 	)
 	d := Decoder[S, T]{tokenizer: tokenizer, stackExp: stack}
 	d.init()
-	if _, err := d.Decode(s, t, DefaultOptions); err != nil &&
-		err != ErrStringTagOptionOnUnsupportedType {
-		return err
-	}
-	return nil
+	_, err = d.Decode(s, t, DefaultOptions)
+	return err
 }
 
 // Decoder is a reusable decoder instance.
@@ -580,9 +577,10 @@ func NewDecoder[S []byte | string, T any](
 		stackExp:  make([]stackFrame[S], 0, 4),
 	}
 
-	var z T
 	var err error
-	d.stackExp, err = appendTypeToStack(d.stackExp, reflect.TypeOf(z), options)
+	d.stackExp, err = appendTypeToStack(
+		d.stackExp, reflect.TypeOf((*T)(nil)).Elem(), options,
+	)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From f1e91fedc17eb293a130a4a672bab768d0d7c98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:58 +0000
Subject: [PATCH 19/24] fix: keep the sign of negative zero when decoding
 integer literals to floats

---
 jscandec.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/jscandec.go b/jscandec.go
index f42141a..c8bed39 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -945,8 +945,9 @@ func (d *Decoder[S, T]) Decode(
 					*(*int64)(p) = v
 
 				case ExpectTypeFloat32:
-					if tokens[ti].End-tokens[ti].Index < len("16777216") {
-						// Numbers below this length are guaranteed to be smaller 1<<24
+					if tokens[ti].End-tokens[ti].Index < len("16777216") &&
+						s[tokens[ti].Index] != '-' {
+						// Non-negative numbers below this length are guaranteed to be smaller 1<<24
 						// And float32(i32) is faster than calling parseFloat32
 						i32, errParse := tokens[ti].Int32(s)
 						if errParse != nil {
@@ -964,8 +965,9 @@ func (d *Decoder[S, T]) Decode(
 					}
 
 				case ExpectTypeFloat64:
-					if tokens[ti].End-tokens[ti].Index < len("9007199254740992") {
-						// Numbers below this length are guaranteed to be smaller 1<<53
+					if tokens[ti].End-tokens[ti].Index < len("9007199254740992") &&
+						s[tokens[ti].Index] != '-' {
+						// Non-negative numbers below this length are guaranteed to be smaller 1<<53
 						// And float64(i64) is faster than calling parseFloat64
 						i64, errParse := tokens[ti].Int64(s)
 						if errParse != nil {
@@ -2046,8 +2048,9 @@ func (d *Decoder[S, T]) Decode(
 							}
 							sl[i] = v
 						case jscan.TokenTypeInteger:
-							if tokens[i].End-tokens[i].Index < len("16777216") {
-								// Numbers below this length are guaranteed to be smaller
+							if tokens[i].End-tokens[i].Index < len("16777216") &&
+								s[tokens[i].Index] != '-' {
+								// Non-negative numbers below this length are guaranteed to be smaller
 								// 1<<24 and float32(i32) is faster than parseFloat32.
 								i32, errParse := tokens[i].Int32(s)
 								if errParse != nil {
@@ -2108,8 +2111,9 @@ func (d *Decoder[S, T]) Decode(
 							}
 							sl[i] = v
 						case jscan.TokenTypeInteger:
-							if tokens[i].End-tokens[i].Index < len("9007199254740992") {
-								// Numbers below this length are guaranteed to be smaller
+							if tokens[i].End-tokens[i].Index < len("9007199254740992") &&
+								s[tokens[i].Index] != '-' {
+								// Non-negative numbers below this length are guaranteed to be smaller
 								// 1<<53a and float64(i64) is faster than parseFloat64.
 								v, errParse := tokens[i].Int64(s)
 								if errParse != nil {
-- 
2.43.0


From 4341ed2ff44e29b66c2a3c31f69e23fc3cdfc16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:47 +0000
Subject: [PATCH 20/24] fix: leave the destination unchanged when data follows
 the JSON value

---
 jscandec.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/jscandec.go b/jscandec.go
index c8bed39..3275bb6 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -785,6 +785,21 @@ func (d *Decoder[S, T]) Decode(
 	d.stackExp[0].Dest = unsafe.Pointer(t)
 
 	errTok := d.tokenizer.Tokenize(s, func(tokens []jscan.Token[S]) (exit bool) {
+		end := tokens[0].End
+		switch tokens[0].Type {
+		case jscan.TokenTypeObject, jscan.TokenTypeArray:
+			end = tokens[end].Index + 1
+		}
+		for ; end < len(s); end++ {
+			switch s[end] {
+			case ' ', '\n', '\r', '\t':
+			default:
+				// Not a valid JSON document, let the tokenizer report the error
+				// instead of decoding the value.
+				return false
+			}
+		}
+
 		// ti stands for the token index and points at the current token
 		for ti := 0; ti < len(tokens); {
 			switch tokens[ti].Type {
@@ -947,7 +962,8 @@ func (d *Decoder[S, T]) Decode(
 				case ExpectTypeFloat32:
 					if tokens[ti].End-tokens[ti].Index < len("16777216") &&
 						s[tokens[ti].Index] != '-' {
-						// Non-negative numbers below this length are guaranteed to be smaller 1<<24
+						// Non-negative numbers below this length
+						// are guaranteed to be smaller 1<<24
 						// And float32(i32) is faster than calling parseFloat32
 						i32, errParse := tokens[ti].Int32(s)
 						if errParse != nil {
@@ -967,7 +983,8 @@ func (d *Decoder[S, T]) Decode(
 				case ExpectTypeFloat64:
 					if tokens[ti].End-tokens[ti].Index < len("9007199254740992") &&
 						s[tokens[ti].Index] != '-' {
-						// Non-negative numbers below this length are guaranteed to be smaller 1<<53
+						// Non-negative numbers below this length
+						// are guaranteed to be smaller 1<<53
 						// And float64(i64) is faster than calling parseFloat64
 						i64, errParse := tokens[ti].Int64(s)
 						if errParse != nil {
-- 
2.43.0


From 09eb8ac6583b095e488cd89449194387acb71d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:38 +0000
Subject: [PATCH 21/24] fix: do not use runtime.typedslicecopy for types
 without pointers

It requires a type with pointers: while the garbage collector marks,
growing a non-empty slice of, for example, struct{ X, Y int16 } ended
the process with 'bulkBarrierPreWrite: unaligned arguments'.
---
 jscandec.go | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/jscandec.go b/jscandec.go
index 3275bb6..2f5f43c 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -1441,11 +1441,7 @@ func (d *Decoder[S, T]) Decode(
 							if h.Len != 0 && d.stackExp[si+1].Type.isElemComposite() {
 								// Must copy existing data bzecause it's not guarenteed
 								// that the existing data will be fully overwritten.
-								typedslicecopy(
-									d.stackExp[si+1].Typ,
-									sh.Data, int(elems),
-									h.Data, int(h.Len),
-								)
+								typedslicecopy(d.stackExp[si+1].Typ, sh, h)
 							}
 						} else {
 							sh.Data = emptyStructAddr
@@ -1494,11 +1490,7 @@ func (d *Decoder[S, T]) Decode(
 						if h.Len != 0 {
 							// Must copy existing data because it's not guarenteed
 							// that the existing data will be fully overwritten.
-							typedslicecopy(
-								d.stackExp[recursiveFrame].Typ,
-								sh.Data, int(elems),
-								h.Data, int(h.Len),
-							)
+							typedslicecopy(d.stackExp[recursiveFrame].Typ, sh, h)
 						}
 						*(*sliceHeader)(p) = sh
 						dp = sh.Data
@@ -2791,11 +2783,12 @@ func newarray(typ *typ, n uintptr) unsafe.Pointer
 //go:linkname mallocgc runtime.mallocgc
 func mallocgc(size uintptr, typ *typ, needzero bool) unsafe.Pointer
 
-//go:linkname typedslicecopy runtime.typedslicecopy
-//go:nosplit
-func typedslicecopy(
-	elemTyp *typ, dstPtr unsafe.Pointer, dstLen int, srcPtr unsafe.Pointer, srcLen int,
-) int
+// typedslicecopy is linked to the version of package reflect because, unlike
+// runtime.typedslicecopy, it accepts types without pointers.
+//
+//go:linkname typedslicecopy reflect.typedslicecopy
+//go:noescape
+func typedslicecopy(elemTyp *typ, dst, src sliceHeader) int
 
 //go:linkname typedmemclr runtime.typedmemclr
 //go:noescape
-- 
2.43.0


From 7beac3aa08470155cf5de410e368edf9736c079b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:59 +0000
Subject: [PATCH 22/24] fix: set the destination of a new pointer's value when
 its type has no size

Without it unmarshalers inside were called on nil or on a stale address.
---
 jscandec.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jscandec.go b/jscandec.go
index 2f5f43c..aced082 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -2605,6 +2605,7 @@ func (d *Decoder[S, T]) Decode(
 					// Decode into the value that's already pointed to.
 					d.stackExp[si].Dest = dp
 				} else if d.stackExp[si].Size == 0 {
+					d.stackExp[si].Dest = emptyStructAddr
 					*(*unsafe.Pointer)(p) = emptyStructAddr
 				} else {
 					dp := mallocgc(d.stackExp[si].Size, d.stackExp[si].Typ, true)
-- 
2.43.0


From bfbd9741e67023547d02bbbbc84a578d080c37fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:21 +0000
Subject: [PATCH 23/24] fix: decode deeply nested values into any without
 recursion

A few million opening brackets overflowed the stack, which ends the process.
---
 jscandec.go | 94 +++++++++++++++++++++++++++++++----------------------
 1 file changed, 55 insertions(+), 39 deletions(-)

diff --git a/jscandec.go b/jscandec.go
index aced082..7ee74ef 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -2721,54 +2721,70 @@ func fieldFrameIndexByName[S []byte | string](fields []fieldStackFrame, name S)
 	return noParentFrame
 }
 
+// decodeAny decodes the value that begins at tokens[0] and returns it together with
+// the tokens after it. It isn't recursive since the stack would overflow on deeply
+// nested input.
 func decodeAny[S []byte | string](
 	str S, tokens []jscan.Token[S],
 ) (any, []jscan.Token[S], error) {
-	switch tokens[0].Type {
-	case jscan.TokenTypeNull:
-		return nil, tokens[1:], nil
-	case jscan.TokenTypeNumber, jscan.TokenTypeInteger:
-		f64, err := tokens[0].Float64(str)
-		if err != nil {
-			return nil, nil, err
-		}
-		return f64, tokens[1:], nil
-	case jscan.TokenTypeTrue:
-		return true, tokens[1:], nil
-	case jscan.TokenTypeFalse:
-		return false, tokens[1:], nil
-	case jscan.TokenTypeString:
-		return unescape.Valid[S, string](
-			str[tokens[0].Index+1 : tokens[0].End-1],
-		), tokens[1:], nil
-	case jscan.TokenTypeArray:
-		l := make([]any, 0, tokens[0].Elements)
-		for tokens = tokens[1:]; tokens[0].Type != jscan.TokenTypeArrayEnd; {
-			var v any
-			var err error
-			if v, tokens, err = decodeAny(str, tokens); err != nil {
+	// container is an array or object that's not closed yet.
+	type container struct {
+		array  []any
+		object map[string]any
+		key    S
+	}
+	var open []container
+	for {
+		var v any
+		switch tokens[0].Type {
+		case jscan.TokenTypeNull:
+		case jscan.TokenTypeNumber, jscan.TokenTypeInteger:
+			f64, err := tokens[0].Float64(str)
+			if err != nil {
 				return nil, nil, err
 			}
-			l = append(l, v)
+			v = f64
+		case jscan.TokenTypeTrue:
+			v = true
+		case jscan.TokenTypeFalse:
+			v = false
+		case jscan.TokenTypeString:
+			v = unescape.Valid[S, string](
+				str[tokens[0].Index+1 : tokens[0].End-1],
+			)
+		case jscan.TokenTypeArray:
+			open = append(open, container{array: make([]any, 0, tokens[0].Elements)})
+			tokens = tokens[1:]
+			continue
+		case jscan.TokenTypeObject:
+			open = append(open, container{
+				object: make(map[string]any, tokens[0].Elements),
+			})
+			tokens = tokens[1:]
+			continue
+		case jscan.TokenTypeKey:
+			open[len(open)-1].key = str[tokens[0].Index+1 : tokens[0].End-1]
+			tokens = tokens[1:]
+			continue
+		case jscan.TokenTypeArrayEnd:
+			v = open[len(open)-1].array
+			open = open[:len(open)-1]
+		case jscan.TokenTypeObjectEnd:
+			v = open[len(open)-1].object
+			open = open[:len(open)-1]
+		default:
+			panic("unreachable")
 		}
-		return l, tokens[1:], nil
-	case jscan.TokenTypeObject:
-		if tokens[0].Elements == 0 {
-			return map[string]any{}, tokens[2:], nil
+		tokens = tokens[1:]
+		if len(open) == 0 {
+			return v, tokens, nil
 		}
-		m := make(map[string]any, tokens[0].Elements)
-		for tokens = tokens[1:]; tokens[0].Type != jscan.TokenTypeObjectEnd; {
-			key := str[tokens[0].Index+1 : tokens[0].End-1]
-			var v any
-			var err error
-			if v, tokens, err = decodeAny(str, tokens[1:]); err != nil {
-				return nil, nil, err
-			}
-			m[unescape.Valid[S, string](key)] = v
+		if c := &open[len(open)-1]; c.object != nil {
+			c.object[unescape.Valid[S, string](c.key)] = v
+		} else {
+			c.array = append(c.array, v)
 		}
-		return m, tokens[1:], nil
 	}
-	panic("unreachable")
 }
 
 // emptyStructAddr the address to an empty slice remains the same
-- 
2.43.0


From e96c604c0d7ba4c982957e406107311d9b3dcefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:52 +0000
Subject: [PATCH 24/24] fix: ignore names in json tags that encoding/json
 ignores

A field tagged json:"it's" was reachable by that name and not by its Go name.
---
 append_type_stack.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/append_type_stack.go b/append_type_stack.go
index f6b4f1a..fe87476 100644
--- a/append_type_stack.go
+++ b/append_type_stack.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"reflect"
 	"strings"
+	"unicode"
 	"unsafe"
 )
 
@@ -349,8 +350,8 @@ func appendTypeToStack[S []byte | string](
 					}
 				}
 				name = tagName
-				if name == "" {
-					// No name specified in the tag.
+				if !isValidTagName(name) {
+					// No name specified in the tag, or none that counts.
 					name = f.Name
 				}
 			}
@@ -641,3 +642,14 @@ func implementsUnmarshaler(t reflect.Type) bool {
 func getTyp(t reflect.Type) *typ {
 	return (*typ)(((*emptyInterface)(unsafe.Pointer(&t))).ptr)
 }
+
+// isValidTagName returns true if encoding/json uses the name in a struct field tag.
+func isValidTagName(name string) bool {
+	for _, c := range name {
+		if !strings.ContainsRune("!#$%&()*+-./:;<=>?@[]^_{|}~ ", c) &&
+			!unicode.IsLetter(c) && !unicode.IsDigit(c) {
+			return false
+		}
+	}
+	return name != ""
+}
-- 
2.43.0

