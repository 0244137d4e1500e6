#!/usr/bin/env python3
"""writes harness/vref/all.go: a struct with every kind of type at every kind of place"""
import os,subprocess
# name, type, fitting literal, old value, quotable, key literal (or None)
K=[('Bool','bool','true','true',1,None)]
for n,d in (('Int',19),('Int8',3),('Int16',5),('Int32',10),('Int64',19),('Uint',20),('Uint8',3),('Uint16',5),('Uint32',10),('Uint64',20)):
    K.append((n,n.lower(),'5','77',1,'77'))
K+=[('Float32','float32','5.5','77',1,None),('Float64','float64','5.5','77',1,None),
 ('String','string','"s"','"old"',1,'"old"'),
 ('Number','jd.Number','5','"77"',0,None),
 ('Any','any','"a"','"old"',0,None),
 ('Point','AllPoint','{"X":5}','AllPoint{77, "old"}',0,None),
 ('Empty','struct{}','{}','struct{}{}',0,None),
 ('Ptr','*int8','5','allPtr()',0,None),
 ('Slice','[]int8','[5]','[]int8{77, 78}',0,None),
 ('Strs','[]string','["s"]','[]string{"old"}',0,None),
 ('Array','[2]uint16','[5,6]','[2]uint16{77, 78}',0,None),
 ('Array0','[0]int','[]','[0]int{}',0,None),
 ('Map','map[string]int','{"a":5}','map[string]int{"o": 77}',0,None),
 ('MapSS','map[string]string','{"a":"s"}','map[string]string{"o": "old"}',0,None),
 ('MapIB','map[int16]bool','{"5":true}','map[int16]bool{77: true}',0,None),
 ('JSON','AllJSON','5','AllJSON{"old"}',0,None),
 ('Text','AllText','"s"','AllText{"old"}',0,'AllText{"old"}'),
 ('PJSON','*AllJSON','5','&AllJSON{"old"}',0,None),
 ('PText','*AllText','"s"','&AllText{"old"}',0,None),
 ('Tree','AllTree','{"V":5}','AllTree{V: 77, C: []AllTree{{V: 78}}}',0,None),
 ('PPtr','**string','"s"','allPPtr()',0,None),
]
o=[]
w=o.append
w('// Code generated by tools/gen_all.py. DO NOT EDIT.\n\npackage vref\n\nimport jd "github.com/romshark/jscan-experimental-decoder"\n')
G=8
for g in range(0,len(K),G):
    w(f'// All{g//G} has a field of every kind from {g} in every kind of container.\ntype All{g//G} struct {{\n Z0 int')
    for n,t,l,old,q,k in K[g:g+G]:
        w(f' {n} {t}\n {n}L []{t}\n {n}A [2]{t}\n {n}M map[string]{t}\n {n}P *{t}\n {n}N [][]{t}')
        if q: w(f' {n}Q {t} `json:",string"`')
        if k: w(f' {n}K map[{t}]int')
    w(' Z1 int\n}\n')
w('// AllKinds is the number of kinds.\nconst AllKinds = %d\n'%len(K))
w('// the kinds')
w('const ('); 
for i,x in enumerate(K): w(f' K{x[0]} = {i}')
w(')\n')
ALT={'Bool': 'false', 'String': '"nu"', 'Number': '-6.5', 'Any': '{"b":[6]}', 'Point': '{"Y":"n"}', 'Empty': '{"X":6}', 'Ptr': '-6', 'Slice': '[6,-7,8]', 'Strs': '["n","u"]', 'Array': '[6]', 'Array0': '[6]', 'Map': '{"b":6}', 'MapSS': '{"b":"n"}', 'MapIB': '{"-6":true}', 'JSON': '[ 6]', 'Text': '"nu"', 'PJSON': '{"b":6}', 'PText': '"nu"', 'Tree': '{"C":[{"V":6},{}]}', 'PPtr': '"nu"'}
def alt(n): return ALT.get(n,'-6' if n.startswith('Int') else '6')
w('type allKind struct {\n name, fits, alt string\n quoted, key bool\n}\n')
w('var allKinds = [AllKinds]allKind{')
for n,t,l,old,q,k in K: w(' {"%s", `%s`, `%s`, %s, %s},'%(n,l,alt(n),'true' if q else 'false','true' if k else 'false'))
w('}\n')
for g in range(0,len(K),G):
    w(f'// Fill populates the fields of kind k. The slice has a capacity of 3+grow.\nfunc (z *All{g//G}) Fill(k, grow int) {{\n z.Z0, z.Z1 = 91, 92\n switch k {{')
    for i,(n,t,l,old,q,k) in list(enumerate(K))[g:g+G]:
        w(f' case K{n}:')
        w(f'  mk := func() {t} {{ return {old} }}\n  p := mk()')
        w(f'  z.{n}, z.{n}L, z.{n}A, z.{n}P = mk(), make([]{t}, 2, 3+grow), [2]{t}{{mk(), mk()}}, &p')
        w(f'  z.{n}L[0], z.{n}L[1] = mk(), mk()')
        w(f'  z.{n}M, z.{n}N = map[string]{t}{{"l": mk(), "z": mk()}}, [][]{t}{{{{mk(), mk()}}, {{mk()}}}}')
        if q: w(f'  z.{n}Q = mk()')
        if k: w(f'  z.{n}K = map[{t}]int{{{k}: 1}}')
    w(' }\n}\n')
p=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','harness','vref','all.go')
open(p,'w').write('\n'.join(o)+'\n')
subprocess.run(['gofmt','-w',p],check=True)
