#!/usr/bin/env python3
"""Writes /verif/checks.json: what each check runs, its bounds and what lies outside of them (Q = quick, T = thorough)."""
import json, os
COMMON_OUT=['other destination types than those of the harness','longer or deeper documents','non-amd64 targets and 32-bit int','concurrent use of one decoder (documented as not safe)']
C={}
def c(id,bounds,outside=(),reach=('decoded','rejected'),**kw):
    C[id]=dict(harness=[id.lower()],bounds=bounds,outside=list(outside)+COMMON_OUT,reach=list(reach),**kw)
c('C01',['integer literals of either sign with every digit symbolic, 1 to one digit more than the widest value of the type (8 bit: 4, 16: 6, 32: 11, 64: 20/21 digits)',
 '10 integer types and 2 named ones x 9 positions (document as []byte and string, first/second slice element, array, field, map value, pointer, nested slice)',
 'arbitrary texts over "-+.eE0123456789" up to Q 3, T 5 characters for the 10 types'],['literals with more digits'])
c('C02',['number literals sign/1..Q 3, T 5 integer digits/0..Q 2, T 4 fraction digits/five exponent forms up to 3 digits, every digit symbolic; integers of 6 to 21 digits with and without 1 or 10 fraction digits',
 'float32, float64, any and named floats x 8 positions; exponents of 2-3 digits around the ends of the ranges','arbitrary texts over "-+.eE019" up to Q 4, T 5 characters',
 '14 (T 22) literals next to rounding boundaries and the ends of the ranges with one symbolic digit, x float32, float64, any x 8 positions; literals at the ends of the ranges at 12 further places'],
 ['longer mantissas and exponents'],assumptions=['strconv.ParseFloat is an uninterpreted function of the text and precision (its own rounding is not re-verified; the out-of-range condition is exact); equal texts give equal results, so a text that is altered, truncated or parsed at the wrong precision is a violation'])
c('C03',['arbitrary bytes between the quotes, up to Q 3, T 4','\\uXXXX with all four hex digits symbolic, alone with a following arbitrary character, two in a row, surrogates followed by anything, also by the digits of a low surrogate without \\u',
 'one escape at every position of texts up to Q 36, T 70 arbitrary characters; two and three escapes with up to Q 20, T 36 characters between them','10 positions (string, []string, map key and value, any, any key, field, TextUnmarshaler)'],
 ['more than three escapes in one string'],reach=('decoded',))
c('C04',['arbitrary bytes up to Q 4, T 5 in a row','texts over JSON\'s characters up to Q 5, T 6; numbers up to Q 5, T 6 characters','two arbitrary bytes at nine places of larger documents; one arbitrary byte at every place of strings up to Q 20, T 40 bytes and of true/false/null',
 'up to three arbitrary bytes before, after and around six complete documents, for Decode and Unmarshal ([]byte and string)','destinations any ([]byte and string input), json.RawMessage; struct and populated slice for rejected documents'],['documents with more arbitrary bytes'],reach=('valid','invalid'))
c('C05',['every shape of value up to nesting 2 with symbolic leaves and keys (up to two elements or members)','objects of three members with plain and escaped keys that may coincide; arrays of up to Q 11, T 23 elements; nesting up to Q 12, T 40 levels','three kinds of prior values; any at 7 other places'],['invalid documents (C04)'],reach=('decoded',))
c('C06',['any value of nesting Q 1, T 2 with symbolic leaves in the place of a T, at 10 positions (root, first and later elements, array, field, map value, pointer, nested)','T ranges over scalars, Number, structs, arrays, maps, slices and pointers: 16 types Q, 24 types T'])
c('C07',['arrays of up to Q 4, T 6 elements (30/70 for growth) with symbolic elements','22 element types x 7 containers: slice, populated slice of length 1-3, empty slice of capacity 0-3, arrays longer and shorter than the document, slices of slices, arrays of arrays, fields','surplus elements: any value of nesting Q 1, T 2; null at every level','elements without a size; 255 to 300 elements of 13 types, populated slices of capacity 258 and 290, arrays of 9000 elements'],reach=('decoded',))
c('C08',['keys of up to 3 (12-field struct: 3; unicode: enumerated bytes) arbitrary characters, plain or with a \\u00XX escape','structs of 0, 1, 2, 3, 4, 5, 9 and 12 fields, with names differing in case or prefix, tags, "-", "-,", unexported; names of 2 to 16 characters',
 'all four combinations of the two options; two members in any order; up to Q 3, T 4 members of 14 names; nested structs; populated structs','30 tag names encoding/json accepts or ignores; structs of 300 fields, alone and inside of other types'],['embedded (anonymous) structs, duplicate field names, tag names encoding/json considers invalid'])
c('C09',['unknown members holding any value of nesting up to Q 2, T 3, at every position of structs at the root and in fields, pointers, slices, maps, arrays and recursive types','two unknown members; unknown member before and after a wrong value; arbitrary two-character keys; skipped values up to Q 20, T 60 levels deep; structs without (usable) fields at 9 places','with and without DisallowUnknownFields'])
c('C10',['objects of two members with symbolic, escaped and possibly equal keys x 8 element types','string, named string, 10 integer key types (keys of up to one digit more than the type holds), named integers, two TextUnmarshaler key types','arbitrary integer key texts up to Q 4, T 5 characters; populated maps; nulls and wrong values; up to Q 13, T 27 entries','elements of 0 to 300 bytes, since Go has several kinds of maps'],
 ['integer keys encoding/json accepts although they are no JSON integers (+1, 01)'])
c('C11',['16 element types x 13 arrangements of pointers (chains up to **T, in slices, arrays, maps, fields, nested structs), every one null or not','null over 15 kinds of populated roots and over every member of a populated struct of all kinds; null at 6 places; null for recursive members; null elements of 17 slice types','populated pointers'],['null elements over existing elements of basic-type slices'],reach=('decoded',))
c('C12',['10 recursive struct types (via *T, []T, []*T, map, map of *T, all three, mutual, through arrays)','trees of up to depth Q 3, T 5 (lists), Q 2, T 3 (others) with every mix of empty, null and populated children and member orders; chains up to Q 21, T 41, of 62 to 66 (T 130) levels through *T, []T, map[string]T and mixtures','recursive types inside of slices, maps, pointers, arrays, structs; wrong values inside; populated trees: existing pointers, elements, entries and element structs at every length'])
c('C13',['all supported field types and 4 named ones x 5 arrangements','contents: integers of up to one digit more than the type holds, floats in all forms, arbitrary texts of up to Q 3, T 4 characters, escapes, quoted strings with escapes, any other value'])
c('C14',['two or three calls on one decoder for 13 destination types; the first documents contain an arbitrary small value and may fail at any of ~18 places; each call is compared with a fresh decoder; earlier results are compared again at the end','shared tokenizers, reused destinations, changed options','unmarshalers that fail, panic or decode with the same tokenizer within a call'],['histories longer than three calls'],reach=('failed',))
c('C15',['35 arrangements of strings (with and without escapes, short and longer than 16), keys, Numbers, RawMessage, unmarshalers, recursive types, texts beyond 100 bytes; after decoding every byte of the buffer becomes a fresh symbolic byte'],reach=('decoded',))
c('C16',['any value of nesting Q 1, T 2 for any, struct, 10 scalar types alone and in containers; arbitrary bytes up to 3 (T 4); integers up to Q 5, T 21 digits','whitespace of up to Q 2, T 3 arbitrary whitespace characters at any place of 12 documents, single spaces elsewhere; whitespace at every place around and inside values of every type','nil destinations of three types','small values for 20 populated destinations','the destination after a failure is compared as well'],reach=('decoded','rejected'))
c('C17',['12 unmarshaler types (json/text/both; struct, byte, slice, map, int, string kinds; pointer and value receivers) x 12 arrangements x any value of nesting 1 (T 2 for some); methods fail on symbolic conditions','populated destinations (null over every kind), recursive types, unmarshalers without a size, several unmarshalers in one struct','composite unmarshalers (structs, slices, maps with methods) that fail','calls, their texts and order are compared with the reference\'s'],reach=('decoded','rejected','called'))
c('C18',['destinations between canaries and between equal neighbours, slices that are windows of larger arrays, for ~35 types of odd sizes','arbitrary values of nesting 1, two arbitrary structural bytes inside of documents, truncation at every place, arbitrary bytes up to Q 3, T 5, escapes at every position up to Q 18, T 40','every load and store of the encoding is bounds- and type-checked; counterexamples and samples are replayed natively with checkptr and forced garbage collection','documents nested 100 levels deep symbolically (the depth of the call stack must not grow with them), one million levels natively, for any and four recursive types'],
 ['races with the garbage collector other than collections after a call'],reach=('decoded',))
c('C19',['a struct of 19 members of all kinds populated with symbolic scalars, slices, arrays, maps, pointers; documents with any member holding a small value, two members, and partial nested members','two documents one after the other; maps of 8 element types; identity of existing pointers and maps (aliases of 9 members are compared after decoding)'],['content of the spare capacity of slices','null elements over existing elements of basic-type slices'])
c('C20',['number literals in all forms with symbolic digits, bare and quoted, at 9 positions','strings over "-+.eE0159" up to Q 5, T 6 characters, arbitrary characters up to Q 3, T 4; texts up to Q 21, T 37 digits with one arbitrary character anywhere; up to Q 18, T 26 digits followed by up to Q 3, T 5 characters of numbers and a filler; escapes','Int64 for integers of up to Q 20, T 22 digits, Float64'],assumptions=['strconv.ParseFloat is uninterpreted'])
c('C21',['~70 unsupported and ~45 supported types and compositions; 98 spellings of a json tag on an integer and on a slice field; 30 field types with the `string` option','documents of nesting Q 1, T 2 for the supported ones'],
 ['types are compile-time constants in Go: the choice of the type is an enumerated variable, only the documents are symbolic'],reach=('accepted','refused'))
c('C22',['numbers of up to Q 4, T 6 digits, 19 to 21 digits around the 64 bit limits, fractions and exponents of up to 3 digits, and any value of nesting Q 1, T 2, into 14 root types, every member of a struct of 12 numeric and of a struct of 12 numeric slice fields, and of a struct of 20 other kinds (directly, in an array, in an object)',
 'two members that may be wrong for different reasons, in any order; invalid documents that hold unfitting values; Unmarshal for six types'],reach=('decoded','rejected'))
c('C23',['Unmarshal ([]byte, string) and NewDecoder with two Decode calls ([]byte, string), all options, inside of `vsym.Concurrently`, with or without an earlier call for the same type: every store the decoder executes to memory that existed before (input, options, package variables, anything reachable from them) without holding a lock is a violation',
 'a struct with 30 members of all kinds: every member with any value of nesting 1, numbers, strings and keys with escapes, arrays; recursive types; 8 other roots with values of nesting Q 1, T 2; invalid documents with one arbitrary byte'],
 ['goroutines that share a Decoder or a tokenizer (documented as not allowed)','the run-time system and those parts of the standard library that are modelled (sync.Mutex, sync.Pool, atomics: by their contracts)'],reach=('finished',))
c('C24',['a small value of any kind at 31 places of a struct that holds one of 8 element types everywhere, zero or populated; unknown members there with DisallowUnknownFields','literals with as many digits as the largest value and one more for all integer types, with and without the option, and as keys of maps; failing text keys and elements','slices of 24 element types with 0 to 2 old elements and one of up to 5 elements unfitting; maps of 9 kinds with unfitting values and arbitrary one-byte keys; `string` members, arrays, nested structs; 9 root types; documents cut by an arbitrary byte'],reach=('stopped','decoded'))
ZOO={'C01':'integers of up to 4/6/Q 3, T 11/20 digits into int8, uint16, int32, uint64','C02':'numbers in all forms, a literal between two float32s, exponents around 3xx into float32, float64, any','C03':'escaped strings into string, any, TextUnmarshaler',
'C05':'any value of nesting 1 into any','C06':'a small value of any kind into 6 (T 14) element types','C07':'arrays of 0 to 3 elements into 4 slice and array types, recursive ones included','C08':'objects with two member names in any case, escaped, and unusable ones','C09':'objects with unknown members, both options',
'C10':'objects with escaped, integer and text keys into 4 map types','C11':'null and values into 9 element types','C12':'trees of 4 recursive types','C13':'members with the option','C14':'two or three documents on one decoder, the first of which may fail, for 3 element types','C15':'strings, objects, numbers into 4 element types','C16':'small values into 3 element types, with whitespace',
'C17':'small values into 4 unmarshaler types','C18':'small values into 4 element types between canaries','C19':'partial objects, maps, slices, arrays into 5 element types','C20':'numbers and strings into Number','C22':'numbers and values of other kinds into int8, uint8, float32','C23':'scalars into 3 element types'}
for k,v in ZOO.items():
    C[k]['bounds'].append('a struct that holds an element type at 31 places (fields, pointers, slices, arrays, four kinds of maps, nested slices, structs, recursion through a pointer, a slice and a map, repeated and unknown members), zero or populated: '+v)
ALL={'C01':'literals with as many digits as the largest value, and one more','C02':'numbers in all forms, exponents from 20 to 49 and 300 to 349','C06':'13 classes of values','C14':'two documents on one decoder, the first one of 13 classes of values','C15':'values and strings with escapes, the buffer overwritten afterwards',
'C16':'Q 7, T 13 classes of values','C19':'null, a whole and a partial value, slices with and without room','C22':'13 classes of values, the identity of the error','C24':'13 classes of values'}
for k,v in ALL.items():
    C[k]['bounds'].append('32 kinds of types (every basic type, Number, any, structs, the empty one, pointers, slices, arrays, the empty one, maps with three types of keys, unmarshalers, recursive ones) as a field, in a slice, an array, a map, behind a pointer, in nested slices, with the `string` option in and without quotes, as a key, zero or populated: '+v)
C['C07']['bounds'].append('arrays of 20 elements of 32 kinds of types with null or another value at any place')
C['C17']['bounds'].append('one or two whitespace characters between any two tokens inside of the value of an unmarshaler')
C['C18']['bounds'].append('slices of a recursive type with 0 to 3 elements, with room for one more or not, inside of a larger array, and arrays of up to 4 elements, at the root and inside of the type')
C['C02']['bounds'].append('51 concrete literals whose value shows how they were rounded, x float32, float64, any x 8 positions')
json.dump(C,open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','checks.json'),'w'),indent=1)
