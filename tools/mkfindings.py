#!/usr/bin/env python3
"""Writes /verif/known_findings.json (repaired defects; none is left open)."""
import json, os
F=[
('C01','81753cf','signed integer literals with as many digits as the largest value but a larger leading digit were stored wrapped, e.g. 999 into int8 or -999 as 25'),
('C03','4ae38dc','a surrogate pair such as "\\ud83d\\ude00" was decoded to two U+FFFD (or wrong code points) instead of U+1F600'),
('C10','be988f6','decoding {"b":2} into map {"a":1} dropped the entry "a", and a repeated key\'s struct value showed members of the first value'),
('C11','770fd15','after a pointer value the following element, member or key was stored over it: [1,2] into []*int, {"a":1,"b":2} into map[string]*int'),
('C19','c6dbc99','a non-nil pointer of the destination was replaced instead of decoded into: {"P":{"X":1}} dropped P.Y'),
('C11','0f22391','null for a number, bool, string, array or struct was an error or zeroed the destination; null for []struct{} was not nil'),
('C13','225e76e','`string` fields accepted partial, garbage or escaped contents ("1x", "01"), ReadNumber("") panicked, integer map keys were not read as a whole'),
('C21','af74da1','map key types no object name converts to (bool, float, struct) were accepted and corrupted memory; named integer and string keys failed'),
('C17','94b0138','slices of named basic types with UnmarshalJSON/UnmarshalText were decoded by the fast paths without calling the method'),
('C12','b6865f2','recursive struct types inside other containers lost members or nodes, and unsupported recursion overflowed the stack in NewDecoder'),
('C07','4a9af5a','a JSON array shorter than the Go array left the remaining elements as they were'),
('C06','4b24a9d','[]struct{} accepted elements that are not objects ([1,"x"]), and objects for empty structs were not skipped as a whole'),
('C09','ca6c008','the value of an unknown member that is an array or nested object was not skipped whole: the members after it were lost'),
('C17','fa82c19','the unmarshaler of a pointer type was called on a wrong or nil receiver'),
('C13','b0b73bd','the `string` option was only seen when it was the first option, and `json:"-,"` fields were ignored'),
('C08','55ac204','unexported struct fields were written'),
('C08','42cc910','names equal under case folding with encodings of different length (K and the Kelvin sign) did not match'),
('C21','45a42b1','NewDecoder panicked for non-empty interface types'),
('C02','f1e91fe','-0 decoded to +0 in float destinations'),
('C04','4341ed2','a document followed by garbage changed the destination although it was rejected'),
('C18','09eb8ac','growing a non-empty slice of a pointer-free struct or array type during garbage collection ended the process with bulkBarrierPreWrite: unaligned arguments: [{"X":1},{"Y":2}] into []struct{X,Y int16}{{5,6}}'),
('C17','7beac3a','unmarshalers of types without a size were called on a nil or stale receiver inside a new pointer to a zero-size struct: {"A":1} into *struct{A U}'),
('C18','bfbd974','a document nested a few million levels deep decoded into any overflowed the goroutine stack, which ends the process (decodeAny was recursive): 5000000 opening and closing brackets'),
('C08','e96c604','names in json tags that do not count for encoding/json (with quotes, backslashes, symbols) were used: a field tagged json:"it\'s" was not reachable by its Go name'),
]
L=[dict(property=p,status='fixed',commit=c,what=w,line=f'fixed: property={p} {c} {w}') for p,c,w in F]
json.dump(L,open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','known_findings.json'),'w'),indent=1)
