#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),
           why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    P.append(d)
J='jscandec.go'; A='append_type_stack.go'
p('C01','Integer literals decode exactly or fail',
 "Decoding a JSON integer literal into any Go integer type (int, int8..int64, uint, uint8..uint64), as the whole document, a slice or array element, a struct field or a map value, stores exactly the mathematical value of the literal when that value fits the type and otherwise returns an error. It never stores a wrapped, truncated or otherwise different number, and never rejects a literal whose value fits, except that a minus sign (also in -0) is an error for an unsigned type, as it is for strconv.ParseUint.",
 ['inputs'],'every JSON integer literal (any sign, up to and beyond the maximum digit count of the type) and every integer destination type and position',
 'the existing tests try min, max, max+1 and a few samples per type; wrap-around happens only for particular leading digits, positions and lengths',
 ['internal/atoi/atoi.go',J],[('digit accumulation and overflow detection','internal/atoi/atoi.go U8..I64'),('typed stores','jscandec.go Decode, TokenTypeInteger and ExpectTypeSlice{Int,Uint}* cases')],['destination value and error of Decode/Unmarshal'])
p('C02','Floats decode to the correctly rounded value of their text',
 "Decoding a JSON number into float32, float64 or any (alone, in slices, arrays, fields or maps) gives the same bits, including the sign of zero, that strconv.ParseFloat gives for the literal's text at that precision. A literal that ParseFloat reports as out of range is an error and never a silently stored infinity or other value.",
 ['inputs'],'every JSON number literal (integer, fraction, exponent forms) and every float destination position',
 'tests sample a few literals; the decoder has separate fast paths by literal length and by container whose agreement depends on the input',
 [J],[('integer fast path for short literals','jscandec.go ExpectTypeFloat32/ExpectTypeFloat64 and ExpectTypeSliceFloat32/64'),('parseFloat closures','jscandec.go init')],['destination bits and error of Decode'])
p('C03','String values are unescaped exactly as JSON defines',
 "A JSON string decoded into a string (alone, in []string, maps, any, struct fields or as a TextUnmarshaler argument) equals the text the JSON escapes denote: every two-character escape, \\uXXXX in either hex case, and surrogate pairs combined into one code point; an unpaired surrogate becomes U+FFFD and all other bytes are copied unchanged. This holds for every length and every position of the escapes.",
 ['inputs'],'every valid JSON string with valid UTF-8 content, any mix and position of escapes',
 'tests sample some escape positions; the unescaper has batch-of-8 scanning and table look-ups whose errors appear only for specific offsets and code points',
 ['internal/unescape/unescape.go',J],[('unescape.Valid','internal/unescape/unescape.go'),('string stores','jscandec.go ExpectTypeStr, ExpectTypeSliceString, ExpectTypeMapStringString, decodeAny')],['destination string'])
p('C04','Exactly the RFC 8259 documents are accepted; rejection is clean',
 "Decoding into a destination that accepts every JSON value (`any`, where numbers outside the float64 range are an error of their own, or a JSON Unmarshaler) succeeds exactly when the input is one valid JSON value with only insignificant whitespace around it, as RFC 8259 defines (encoding/json.Valid). For invalid input Decode into any destination returns an error and an index within the input, does not panic, and leaves the destination value as it was.",
 ['inputs'],'every byte string used as input (including truncated, garbage-trailed, control characters, wrong literals) and every destination type',
 'tests list a handful of malformed documents; malformed input space is the set of all byte strings',
 [J],[('tokenizer callback and error return','jscandec.go Decode, errTok handling')],['error and errIndex of Decode','destination value'])
p('C05','Decoding into any builds the generic encoding/json model',
 "A valid document decoded into an `any` destination (alone or as an element, field or map value) yields nil, bool, float64, string, []any or map[string]any trees equal to what encoding/json produces: element order, element count, unescaped keys, last duplicate key wins, empty containers non-nil. The value previously held by the destination does not show through.",
 ['inputs'],'every valid document up to the stated size and nesting, with symbolic keys and leaves',
 'tests sample a few documents; duplicates, escapes and nesting combine',
 [J],[('decodeAny','jscandec.go decodeAny'),('ExpectTypeAny cases','jscandec.go Decode')],['destination value'])
p('C06','A value of the wrong JSON type is always an error at that value',
 "When a JSON value cannot be stored in its destination type (for example an object for an int, a fraction or negative number for a uint, a string for a bool, an array for a struct, at any depth), decoding returns an error, and the reported index is the byte offset where that value starts. It is never silently skipped, coerced or stored, and values before it do not change whether it is reported.",
 ['inputs','configurations'],'every pair of destination type and JSON value kind, at the root and inside slices, arrays, maps, pointers and structs, first or later element',
 'tests list mismatches per type mostly at the root; the combination with nesting and position is a product',
 [J],[('default cases of the token switch','jscandec.go Decode'),('typed slice fast paths','jscandec.go ExpectTypeSlice*')],['error and errIndex of Decode'])
p('C07','Slices and arrays receive exactly the JSON elements in order',
 "Decoding a JSON array into a slice gives a slice of exactly that length holding the decoded elements in order, for every element type and nesting, whether or not the destination slice already had capacity; an empty array gives an empty non-nil slice and null gives nil. Decoding into a fixed array fills it in order, zeroes the elements the document does not provide, and ignores surplus values, without touching anything outside the array.",
 ['inputs','configurations'],'every array document up to the stated length and nesting, element types and pre-existing slices of any length and capacity',
 'tests sample lengths and types; capacity reuse, surplus elements, nested surplus containers and empty inner arrays combine',
 [J],[('ExpectTypeSlice / ExpectTypeArray frames','jscandec.go Decode TokenTypeArray, ON_VAL_END'),('ExpectTypeSlice<T> fast paths','jscandec.go')],['destination value'])
p('C08','Object members reach the struct field their name selects',
 "Each object member is stored in the exported struct field encoding/json would choose: the field whose name (json tag name, or Go name without one) equals the unescaped key, otherwise the first one equal under Unicode case folding, with `-` fields, unexported fields and fields of absent members left untouched. (Embedded structs are ordinary fields here and field names are distinct.) DisableFieldNameUnescaping and DisableCaseInsensitiveMatching switch off exactly the unescaping and the case-insensitive step. This holds regardless of the order of members, repetition, number of fields, and depth.",
 ['inputs','configurations'],'every key string up to the stated length, structs of 1 to 9+ fields including names differing in case or prefix, every member order and option setting',
 'tests use a few names; matching is unrolled in batches of four with separate exact and folded passes, so errors are position specific',
 [J,A],[('fieldFrameIndexByName','jscandec.go'),('exact-only loop','jscandec.go SCAN_KEYVALS'),('tag parsing','append_type_stack.go reflect.Struct case')],['destination fields'])
p('C09','Unknown members are skipped whole, or reported on request',
 "With default options a member whose key matches no field is ignored together with its entire value, whatever its shape, and the members after it, the enclosing containers and the rest of the document decode as if it were absent. With DisallowUnknownFields decoding stops with ErrUnknownField and the index of that key, at any depth, exactly when such a member exists before any other error.",
 ['inputs','configurations'],'every position of unknown members (first, middle, last, several), every value shape including nested objects and arrays, structs at root, in slices, maps, pointers and nested structs',
 'tests skip a few values at the root; skipping works by bracket counting over tokens and fails only for particular nestings',
 [J],[('SCAN_KEYVALS skip loop','jscandec.go Decode TokenTypeKey')],['destination fields','error and errIndex'])
p('C10','Maps get exactly the document\'s keys and values',
 "Decoding an object into a map adds or overwrites exactly one entry per distinct key, with the key converted to the key type (string kinds unescaped, integer kinds parsed with range check, TextUnmarshaler keys called) and the value decoded as for a fresh value of the element type; the last duplicate wins, and entries already in the destination map under other keys stay. A key that does not convert is an error (for an integer key type the whole unescaped key must be a JSON integer literal in range); null sets the map to nil and an empty object adds nothing but leaves a non-nil map.",
 ['inputs','configurations'],'every object up to the stated size with arbitrary keys (escapes, duplicates), for all supported key types and element types including structs, slices, maps, pointers',
 'tests sample key types and values; duplicate keys, cell reuse and element zeroing depend on the input',
 [J],[('map key dispatch and cell assignment','jscandec.go TokenTypeKey, ExpectTypeMap'),('map[string]string fast path','jscandec.go ExpectTypeMapStringString')],['destination map'])
p('C11','Pointers are allocated for values and nulls act as in encoding/json',
 "A non-null JSON value for a pointer destination leaves a non-nil pointer (chain) to a correctly decoded value, and null sets the pointer to nil, at any depth and position, with the following values decoded normally. null for a map, slice, pointer or any makes it nil, and null for a bool, number, string, struct or array (as document, field, array element or pointer target) leaves the destination unchanged and is not an error; a null element of a fresh slice or a null map value is the zero value.",
 ['inputs','configurations'],'every document mixing null and non-null for pointers, pointers to pointers and non-pointer types, in fields, elements and map values',
 'tests sample; returning to the right container after a pointer value depends on the surrounding types and on what follows',
 [J,A],[('ON_PTR and ON_VAL_END','jscandec.go Decode'),('TokenTypeNull cases','jscandec.go Decode')],['destination value'])
p('C12','Recursive types decode to the document\'s exact tree',
 "A struct type that refers to itself through *T, []T or map[K]T fields, directly or via other structs, decodes to exactly the tree the document describes, for every depth and mix of empty, null and populated children and for members in any order. Members that follow a recursive member are still stored in the struct they belong to.",
 ['inputs'],'every document up to the stated depth and width for struct types recursive via *T, []T, map[string]T and combinations',
 'tests decode a few trees; the decoder hand-manages a recursion stack whose push/pop pairing depends on the shape of the document',
 [J,A],[('RecursionStack push/pop','jscandec.go ExpectTypePtrRecur, ExpectTypeMapRecur, ExpectTypeSliceRecur, ON_RECUR_OBJ_END')],['destination value'],
 [('RecursionStack','where to return to after a nested value of the recursive type','jscandec.go stackFrame')])
p('C13','The `string` tag option decodes quoted values exactly',
 "A field tagged with the `string` option accepts exactly a JSON string whose whole unescaped content is a JSON literal of the field's type (true or false, integer in range, float in range, or quoted string) and stores that literal's value, and null, which leaves the field unchanged; anything else, including unquoted literals, surrounding garbage, whitespace, empty strings and overflow, is an error. Neighbouring fields are unaffected. (On field types other than booleans, integers, floats and strings the option has no effect.)",
 ['inputs'],'every string content up to the stated length for each supported field type',
 'tests list a few invalid contents per type',
 [J,A,'internal/jsonnum/jsonnum.go'],[('ExpectType*String cases','jscandec.go Decode TokenTypeString'),('ReadNumber','internal/jsonnum/jsonnum.go')],['destination field and error'])
p('C14','A reused decoder behaves like a fresh one',
 "The result, error and index of a Decode call depend only on its input, its options and the destination's prior value: a Decoder that was used before (for any documents, valid or failing at any point, sharing its tokenizer or not) gives the same as a new one. Earlier destinations are not modified by later calls.",
 ['histories','inputs'],'every sequence of calls up to the stated length, each with an arbitrary document including ones that fail mid-way, for struct, slice, map, pointer and recursive types',
 'tests reuse a decoder for a few successes; leftovers depend on where a previous call stopped',
 [J],[('per-call reset of frames','jscandec.go Decode defer'),('runtime-overwritten frame fields','jscandec.go stackFrame Dest, Offset, Len, RecursionStack')],['result of a later Decode','earlier destinations'])
p('C15','Decoded data never aliases the mutable input buffer',
 "After decoding from a []byte, no later change to that buffer changes anything reachable from the destination, for strings, map keys, any trees, Numbers, RawMessage-like bytes and pointers alike, and decoding does not modify the input. The same holds for decoding from a string, which is never written to.",
 ['inputs','histories'],'every document and destination type, every later content of the buffer',
 'tests do not overwrite the buffer for most types; zero-copy conversions are used in several places',
 [J,'internal/unescape/unescape.go'],[('copies of token text','jscandec.go typed stores; unescape.Valid'),('unsafe.String float parsing','jscandec.go')],['destination value after overwriting the input'])
p('C16','All entry points and input kinds agree',
 "Unmarshal, a Decoder for string input and a Decoder for []byte input give the same value (and leave the same behind when they fail), and the decoders the same error presence and index, for the same document, destination type and prior value; inserting insignificant whitespace between tokens does not change the decoded value. A nil destination pointer yields ErrNilDest.",
 ['inputs','configurations'],'every document and destination type, string versus []byte, Unmarshal versus Decoder, any whitespace placement',
 'tests run both input kinds on fixed documents only',
 [J,A],[('type-set switches on S','jscandec.go, unescape.go'),('Unmarshal','jscandec.go')],['values, errors and indexes of the variants'])
p('C17','Custom unmarshalers get the exact value text and their result is used',
 "For a type implementing encoding/json.Unmarshaler (on the value or its pointer, including pointer fields and elements) the method is called exactly once per value with exactly the raw bytes of that JSON value on the addressable destination; for encoding.TextUnmarshaler it is called with the unescaped string and non-strings other than null are errors. An error it returns is returned by Decode with the value's start index, and decoding otherwise continues correctly after the value.",
 ['inputs','configurations'],'every value kind including nested objects and arrays, positions in slices, structs, maps and pointers, method failures at any call',
 'tests cover a few types and values',
 [J,A],[('ON_JSON_UNMARSHALER','jscandec.go'),('ExpectTypeTextUnmarshaler','jscandec.go'),('support detection','jscandec.go determine*UnmarshalerSupport')],['recorded calls, destination and error'])
p('C18','Writes stay inside the destination and respect memory safety',
 "Whatever the input, decoding reads and writes only memory belonging to the destination value, its allocations and the decoder: no out-of-bounds access, nil dereference, panic or stack exhaustion (the call depth does not grow with the nesting of the input), no write to the neighbours of the destination or of any slice element, and every allocated object is typed so that the garbage collector keeps everything reachable from the result alive.",
 ['inputs','configurations'],'every document (valid or not) up to the stated size for a family of destination types with mixed sizes and alignments',
 'unsafe pointer arithmetic faults silently on inputs the tests do not contain; a stray write need not fail any assertion',
 [J],[('offset arithmetic on Dest','jscandec.go Decode'),('mallocgc/newarray/typedslicecopy use','jscandec.go')],['memory around the destination','result after garbage collection'])
p('C19','Decoding into a populated destination merges as encoding/json does',
 "Decoding into a value that already holds data overwrites exactly what the document mentions: absent struct members keep their old values, maps keep their other entries, map values are decoded afresh, slices get the document's length with existing elements (up to the old length) decoded into, arrays are zeroed past the document's end, and existing pointers and maps are decoded into, so that other references to them see the outcome. No stale data of the old value appears where encoding/json would not show it. (What lies in the spare capacity of a slice, and a null element over an existing slice element of a basic type, are left open.)",
 ['inputs','histories'],'every pre-existing value (symbolic scalars, slices with spare capacity, maps, pointers) and document for a family of types',
 'tests almost always start from zero values',
 [J],[('in-place stores','jscandec.go Decode'),('slice growth copy','jscandec.go ExpectTypeSlice')],['destination value'])
p('C20','Number holds exactly valid JSON number text',
 "A Number destination receives exactly the source text of a JSON number literal, or the unescaped content of a JSON string when that whole content is a valid JSON number literal; null leaves it unchanged; any other string or value kind is an error. Its Int64 and Float64 methods give the values strconv gives for that text.",
 ['inputs'],'every literal and every string content up to the stated length, in every position a Number can occupy',
 'tests list a few literals; the number grammar scanner is unrolled by eight and errs only at specific offsets',
 [J,'internal/jsonnum/jsonnum.go'],[('ExpectTypeNumber','jscandec.go'),('ReadNumber','internal/jsonnum/jsonnum.go')],['destination Number and error'])
p('C21','Decoder construction accepts supported types and cleanly rejects others',
 "NewDecoder (and Unmarshal) returns an error, and does not panic, for a destination type containing anything that cannot be decoded (channels, functions, complex numbers, uintptr, unsafe pointers, non-empty interfaces, map keys that are neither strings, integers nor TextUnmarshalers, types recursive in any other way than a struct through its own *T, []T or map[K]T), however deeply nested outside of ignored fields and zero-length arrays, and succeeds for every composition of supported types. With DisallowStringTagOptOnUnsupportedTypes it returns ErrStringTagOptionOnUnsupportedType exactly when the `string` option sits on an unsupported field type; otherwise that option is ignored there.",
 ['configurations','programs'],'every composition of supported and unsupported kinds up to the stated nesting, every tag spelling up to the stated length',
 'tests construct decoders for a fixed list of types',
 [A,J],[('appendTypeToStack','append_type_stack.go'),('NewDecoder','jscandec.go')],['error or panic of NewDecoder/Unmarshal'])
p('C22','Errors name their cause',
 "The error of Decode tells (by errors.Is) what is wrong with the value it points at: ErrUnexpectedValue for a value of a kind the destination does not take (including a fraction or an exponent for an integer type, and a minus sign for an unsigned one), ErrIntegerOverflow for an integer literal beyond the range of its integer type, strconv.ErrRange for a number beyond the range of its float type, ErrUnknownField for a member DisallowUnknownFields forbids, and the very error a custom unmarshaler returned. Input that is not valid JSON gives none of these. When several values are wrong it is the first one in the document that is reported. Unmarshal returns an error of the same identity. (Inside of strings, that is for the `string` option, map keys and Number, and inside of an `any` value, only that there is an error is specified.)",
 ['inputs','configurations'],'every value of every kind at every place of the stated destination types, alone and after other wrong values',
 'tests check the identity of the error for one wrong value per type, mostly at the root; each of the many type-specific fast paths has its own error stores',
 [J,'internal/atoi/atoi.go'],[('error stores','jscandec.go Decode, every case of the type switches'),('overflow detection','internal/atoi/atoi.go')],['error of Decode and Unmarshal'])
p('C23','Separate decoders can be used at the same time',
 "Decoding keeps no mutable state outside of its own Decoder, tokenizer and destination: goroutines that each have their own Decoder (with a tokenizer of its own) or call Unmarshal may run at the same time, also on the same input bytes, the same options and the same types, without a data race and without affecting each other's results. Decode never writes to its input or to the options, not even temporarily, and memory that lives longer than the call (package variables) is written to only under synchronisation.",
 ['schedules','inputs','configurations'],'every interleaving of goroutines with decoders of their own: a race needs an unsynchronised write to memory that existed before the goroutines started, and its absence on every path decides all schedules',
 'no test runs decoders concurrently; a shared buffer or cache gives right results as long as calls do not overlap',
 [J,A,'internal/unescape/unescape.go'],[('package variables','jscandec.go, append_type_stack.go, internal/*'),('per-decoder frames','jscandec.go Decoder.stackExp')],['writes to shared memory; the race detector natively'])
p('C24','A failed decode leaves only earlier values and old data',
 "When Decode or Unmarshal fails at a value (of the wrong kind, out of range, an unknown member, a map key, a failing unmarshaler), nothing that follows this value in the document is stored and what precedes it is: members of enclosing structs, elements of enclosing arrays and entries of enclosing maps that come before are decoded, everything that was not reached holds what it held, and the value's own place keeps its old value (zero if new, behind pointers allocated on the way; what a failing unmarshaler leaves in its receiver is its own business). A slice that encloses the value holds, for each index, the decoded element, the old one or zero, a new map that encloses it may be missing, the entry of a map that it is the value of (or inside of) may be zero there unless the map is one of strings to strings, and an `any` it is inside of is unspecified. The destination never shows uninitialised or unrelated data, and input that is not valid JSON changes nothing.",
 ['inputs','histories'],'every document with a value that does not fit at every place of the stated types, and every prior value of the stated shapes',
 'tests check the error and rarely the destination after a failure; what a failed call leaves depends on where it stops and on what was there before',
 [J,A],[('error returns inside of the token loop','jscandec.go Decode'),('fast paths for slices and maps','jscandec.go ExpectTypeSlice*, ExpectTypeMapStringString')],['destination value after an error'])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+'\n')
