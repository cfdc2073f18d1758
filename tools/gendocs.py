#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the texts below (run by hand; outputs are committed)."""
import json,os,sys
ROOT=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,ROOT); sys.path.insert(0,ROOT+'/tools')
from proptext import PROP,NA
import props
T='solver-based checking: symbolic execution of the LLVM bitcode of the current tree, path conditions and assertions decided by Z3, counterexamples replayed natively under ASan'
lines=[];checks=[]
for p in PROP:
    d=dict(id=p['id'],title=p['title'],statement=p['statement'],quantifier=dict(over=p['over'],text=p['q']),why_tests_cant=p['why'],anchors=dict(files=p['files'],mechanism=[dict(name=n,where=w) for n,w in p['mech']],observe_at=p.get('obs',[]),hook_needed=None))
    lines.append(json.dumps(d))
    if p['id'] in props.PROPS:
        checks.append(dict(property=p['id'],quick_cmd='python3 check.py %s'%p['id'],thorough_cmd='python3 check.py %s --thorough'%p['id'],evidence_file='evidence/%s.json'%p['id'],technique=T,level='model_checking',level_note=p['note']+' Trusted: the bitcode interpreter in engine/, the runtime models in rt/, clang -O1, Z3; traces are cross-validated against a native build on every run.'))
open(ROOT+'/properties.jsonl','w').write('\n'.join(lines)+'\n')
na=[dict(property=i,reason=r) for i,r in NA]+[dict(property=p['id'],reason=p.get('na','no check built')) for p in PROP if p['id'] not in props.PROPS and p['id'] not in dict(NA)]
json.dump(dict(version=1,setup_cmd='python3 check.py setup',checks=checks,not_applicable=na,notes='See DESIGN.md. Evidence is written by check.py; known and fixed findings are in known_findings.txt.'),open(ROOT+'/MANIFEST.json','w'),indent=1)
print(len(lines),'properties,',len(checks),'checks,',len(na),'not applicable')
# keep the harness names and run counts in DESIGN.md in step with props.py
import re
d=open(ROOT+'/DESIGN.md').read()
for pid,P in props.PROPS.items():
    hs={}
    for j in P['jobs']: hs.setdefault(j['h'],[])
    for j in P['jobs']:
        if j['entry'] not in hs[j['h']]: hs[j['h']].append(j['entry'])
    h='; '.join('%s: %s'%(f,', '.join(e)) for f,e in hs.items()); n=[sum(t in j['tiers'] for j in P['jobs']) for t in ('quick','thorough')]
    def sub(m):
        t=re.sub(r'Harness: .*? Oracle:',lambda _:'Harness: %s. Oracle:'%h,m.group(0),1); return re.sub(r'Runs: \d+ quick, \d+ thorough','Runs: %d quick, %d thorough'%tuple(n),t,1)
    d=re.sub(r'(?m)^\*\*%s .*$'%pid,sub,d)
open(ROOT+'/DESIGN.md','w').write(d)
