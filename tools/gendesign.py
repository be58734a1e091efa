#!/usr/bin/env python3
"""Writes DESIGN.md: design_head.md plus the tables of fixes and seeded bugs.
Seeded results come from tools/seed_results.txt (output of seed.py --recheck)."""
import json, os, re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
k=json.load(open(V+'/known_findings.json'))
k=k if isinstance(k,list) else k.get('findings',k.get('entries'))
by={}
for e in k: by.setdefault(e['commit'][:7],[[],e['what']])[0].append(e['property'])
fixes='\n'.join('| %s | %s | %s |'%(c,', '.join(p),w) for c,(p,w) in by.items())
res={}
for l in open(V+'/tools/seed_results.txt'):
    t=l.split()
    if len(t)>=3: res.setdefault(t[0],[]).append((t[1],t[2]))
rows=[]
hist=json.load(open(V+'/tools/seed_history.json'))
n=c=0
for s in sorted(os.listdir(V+'/seeded')):
    m=json.load(open(f'{V}/seeded/{s}/meta.json'))
    r=res.get(s,[])
    caught=[p for p,v in r if v=='CAUGHT']
    n+=1; c+=bool(caught)
    rows.append('| %s | %s | %s | %s | %s |'%(s,m['property'],m['what_it_breaks'].replace('|','/'),m['needs'].replace('|','/'),(', '.join(caught) or '**missed**')+('; first missed: '+hist[s] if s in hist else '')))
h=open(V+'/tools/design_head.md').read().replace('%FIXES%',fixes)
h+='''## Seeded bugs

%d changes, each confirmed to compile, pass the stable tests and fail its
demonstration; %d are caught by the check of their property (quick tier). "First
missed" says what was added to the check because of it.

| id | property | breaks | needs | caught by |
|---|---|---|---|---|
'''%(n,c)+'\n'.join(rows)+'\n'
h+=open(V+'/tools/design_tail.md').read()
open(V+'/DESIGN.md','w').write(h)
