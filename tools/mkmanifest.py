#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the harness directories and properties.jsonl."""
import json, os
root='/verif'
props=[json.loads(l) for l in open(root+'/properties.jsonl')]
NA={}   # property -> reason it cannot be decided this way
checks=[];na=[]
for p in props:
    i=p['id']
    d=root+'/harness/'+i.lower()
    if i not in NA and os.path.isdir(d) and any(f.endswith('.go') for f in os.listdir(d)):
        checks.append(dict(property=i,
            quick_cmd=f'bash check.sh {i} quick', thorough_cmd=f'bash check.sh {i} thorough',
            evidence_file=f'evidence/{i}.json',
            technique='symbolic execution of the compiled Go (go/ssa, regenerated from /repo on every run) with SMT (z3, cvc5); counterexamples replayed natively',
            level='model_checking',
            level_note='Every path of the encoded functions within the stated bounds is explored and each assertion is decided by the solver for all values on that path. Bounds and preconditions are in harness/'+i.lower()+' and DESIGN.md; trusted: the SSA interpreter in engine/ (cross-checked by replaying sampled paths against the native build), the library models in sym/stubs, and the SMT solvers. If the time budget ends first the unexplored remainder is reported in the evidence.'))
    else:
        na.append(dict(property=i,reason=NA.get(i,'No check is registered for this property yet.')))
m=dict(version=1,setup_cmd='bash setup.sh',checks=checks,not_applicable=na,
  notes='No hooks in /repo: harnesses are laid over the tree with go build -overlay and never committed there.')
json.dump(m,open(root+'/MANIFEST.json','w'),indent=1); open(root+'/MANIFEST.json','a').write('\n')
print(len(checks),'checks',len(na),'not claimed')
