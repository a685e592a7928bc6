#!/usr/bin/env python3
"""DESIGN.md from design_body.md, properties.jsonl, props.py, known_findings.txt and the seeded changes"""
import json,os,sys,glob
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,V+'/tools')
from props import PROPS
import design_props
T=open(V+'/tools/design_body.md').read()
out=[]
for l in open(V+'/properties.jsonl'):
    d=json.loads(l); p=PROPS[d['id']]
    out.append('### %s %s\n\n%s\n'%(d['id'],d['title'],design_props.TEXT[d['id']].strip()))
    out.append('Contracts: %s. Companion: %s.\n'%(', '.join('`verifier/%s.py`'%s if '@' not in s else '`%s` on `spec/%s.cpp`'%tuple(s.split('@')) for s in p['specs']+[x for x in p.get('thorough_specs',[])]) + (' (the last one: thorough only)' if p.get('thorough_specs') else '') or 'none', ', '.join('`%s`'%h['name'] for h in p.get('harness',[])) or 'none'))
T=T.replace('PROPERTIES\n','\n'.join(out))
T+='\n## 6. Defects found and repaired\n\nEach is a separate `fix:` commit in /repo and a line of `known_findings.txt` (no finding is left unrepaired):\n\n'
for l in open(V+'/known_findings.txt'):
    l=l.strip()
    if l.startswith('fixed:'):
        _,p,c,*w=l.split(); T+='* %s, commit %s: %s\n'%(p.split('=')[1],c,' '.join(w))
T+='\n## 7. Planted changes and what catches them\n\n`tools/seeded_results.json` is written by hand-started runs of all checks on the planted changes ("concrete": the companion shows a failing input; "proof": only the failed obligation).\n\n| change | property | caught by | what it breaks |\n|---|---|---|---|\n'
try: R=json.load(open(V+'/tools/seeded_results.json'))
except OSError: R={}
for m in sorted(glob.glob(V+'/seeded/*/meta.json')):
    i=os.path.basename(os.path.dirname(m)); d=json.load(open(m))
    T+='| %s | %s | %s | %s |\n'%(i,d['property'],R.get(i,'not yet run'),d['what_it_breaks'].replace('|','/').replace('\n',' ')[:220])
open(V+'/DESIGN.md','w').write(T)
