#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, the notes below, the evidence of the last run and the seeds."""
import json,glob,os
V='/verif'
T=json.load(open(V+'/tools/technique.json'))
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
NA={x['property']:x['reason'] for x in json.load(open(V+'/MANIFEST.json'))['not_applicable']}
notes={}
cur=None
for l in open(V+'/tools/design_notes.md'):
    if l.startswith('## '):
        cur=l[3:].strip(); notes[cur]=''
    elif cur: notes[cur]+=l
out=[open(V+'/tools/design_head.md').read().rstrip(),'','# The checks','']
seeds={}
for f in sorted(glob.glob(V+'/seeded/*/meta.json')):
    d=json.load(open(f)); seeds.setdefault(d['property'],[]).append((f.split('/')[-2],d))
fixed={}
for l in open(V+'/known_findings.txt'):
    if l.startswith('fixed: property='):
        p,h,t=l[len('fixed: property='):].strip().split(' ',2); fixed.setdefault(p,[]).append((h,t))
nrules=0
for p in props:
    i=p['id']
    if i in NA: continue
    ev=json.load(open(V+'/evidence/%s.json'%i)); c=ev['coverage']
    out+=['## %s — %s'%(i,p['title']),'','*Technique:* '+T[i].strip()+'.','']
    out+=['Rules (obligations on the present tree):','']
    for k in c['rules']:
        out.append('- `%s` (%s): %s'%(k,c['obligations_by_rule'].get(k,0),c['rules'][k]))
    out.append('')
    if ev.get('assumptions'): out+=['*Assumes:* '+'; '.join(ev['assumptions'])+'.','']
    if c.get('undecided'): out+=['%d constructs are left undecided (listed in the evidence, no alarm).'%len(c['undecided']),'']
    if i in notes: out+=[notes[i].strip(),'']
    if i in seeds: out+=['*Planted bugs caught:* '+'; '.join('%s (%s)'%(n,d['what_it_breaks'].rstrip('. ')) for n,d in seeds[i])+'.','']
    if i in fixed: out+=['*Genuine defects found and repaired:* '+'; '.join('%s %s'%x for x in fixed[i])+'.','']
out+=['# Properties static analysis does not decide here','']
for p in props:
    if p['id'] in NA: out.append('- **%s %s**: %s'%(p['id'],p['title'],NA[p['id']]))
open(V+'/DESIGN.md','w').write('\n'.join(out)+'\n')
