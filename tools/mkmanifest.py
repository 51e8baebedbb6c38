#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and the rules that exist."""
import json, os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(os.path.join(V,'properties.jsonl'))]
T=json.load(open(os.path.join(V,'tools','claims.json')))
NA=T['not_applicable']
checks=[];na=[]
for p in props:
    i=p['id']
    if i in NA: na.append({'property':i,'reason':NA[i]}); continue
    if i in T['claims'] and os.path.exists(os.path.join(V,'analysis/rules',i.lower()+'.py')):
        c=T['claims'][i]
        checks.append({'property':i,'quick_cmd':'./check '+i,'thorough_cmd':'./check '+i,'evidence_file':'evidence/%s.json'%i,
            'technique':c['technique'],'level':'other','level_note':c['note']})
    else: na.append({'property':i,'reason':'no check has been built for it yet'})
m={'version':1,'setup_cmd':'./setup.sh','checks':checks,'not_applicable':na,
   'notes':'Static analysis of the optimised-free MIR of the whole workspace; see DESIGN.md. No hooks in /repo.'}
json.dump(m,open(os.path.join(V,'MANIFEST.json'),'w'),indent=1)
print(len(checks),'checks',len(na),'not applicable')
