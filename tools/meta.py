#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from one table"""
import json,glob,re
P=[]
NA=[]
def prop(id,title,statement,over,qtext,why,files,mech,observe,note,state=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))
    P[-1]['_note']=note
def na(id,reason): NA.append(dict(property=id,reason=reason))
exec(open('/verif/tools/props_table.py').read())
with open('/verif/properties.jsonl','w') as f:
    for p in P:
        f.write(json.dumps({k:v for k,v in p.items() if not k.startswith('_')})+'\n')
naids={x['property'] for x in NA}
M=dict(version=1,setup_cmd="bash setup.sh",checks=[],not_applicable=NA,
 notes="No hooks: the contracts live in /verif/contracts and are checked against the SSA form of /repo's current source; /repo only carries fix: commits.")
for p in P:
    assert len(p['title'])<=80,p['id']
    if p['id'] in naids: continue
    M['checks'].append(dict(property=p['id'],quick_cmd=f"./check {p['id']} quick",thorough_cmd=f"./check {p['id']} thorough",
      technique="contract-based deductive verification (VCs from Go SSA, bit-vector SMT)",level="proof",level_note=p['_note']))
json.dump(M,open('/verif/MANIFEST.json','w'),indent=1)
