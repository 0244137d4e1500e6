#!/usr/bin/env python3
"""Writes harness/c21/tags.go: one type per spelling of a json tag."""
import itertools, os
opts=['','string','omitempty','strings',' string','String']
tags=[]
for n in ['','x']:
    for k in range(0,4):
        for o in itertools.product(opts,repeat=k):
            if k==3 and not (o.count('string')==1 and o.count('')<=1 and 'omitempty' in o): continue
            if k==2 and 'string' not in o: continue
            tags.append(','.join([n,*o]))
tags+=['-','-,','-,string','-,omitempty,string','string','string,','string,string','strin,g']
seen=[]
for t in tags:
    if t not in seen: seen.append(t)
out=['// Code generated by tools/gen_c21.py. DO NOT EDIT.','package c21','','var (']
for name,typ in (('tagsNum','int'),('tagsNo','[]int')):
    out.append('\t%s = []func(){'%name)
    for t in seen:
        opt='string' in t.split(',')[1:] and t!='-'
        f=('tagged' if typ=='int' else 'untagged')
        if t=='-': f='dashed'
        out.append('\t\t%s[struct{ A %s `json:"%s"`; B bool }](%s),'%(f,typ,t,'true' if opt else 'false'))
    out.append('\t}')
out.append(')')
p=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','harness','c21','tags.go')
open(p,'w').write('\n'.join(out)+'\n')
os.system('gofmt -w '+p)
print(len(seen))
