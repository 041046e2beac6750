#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the contracts modules that exist and the not-applicable table."""
import json, os, sys, importlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
NA = {
}
PENDING = 'not yet under contract in this revision of /verif; see DESIGN.md for the plan'
ids = [json.loads(l)['id'] for l in open(os.path.join(V,'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if i in NA: na.append(dict(property=i, reason=NA[i])); continue
    if not os.path.exists(os.path.join(V,'contracts',i.lower()+'.py')): na.append(dict(property=i, reason=PENDING)); continue
    m = importlib.import_module('contracts.'+i.lower())
    checks.append(dict(property=i, quick_cmd='python3-vt check.py %s --tier quick' % i, thorough_cmd='python3-vt check.py %s --tier thorough' % i,
        evidence_file='evidence/%s.json' % i, technique=getattr(m,'TECHNIQUE','contract-based deductive verification: VC generation from the LLVM IR of the real functions, loop invariants, z3'),
        level=m.LEVEL, level_note=m.NOTE))
json.dump(dict(version=1, setup_cmd='python3-vt tools/setup.py', checks=checks, not_applicable=na,
  notes='Contracts in contracts/, drivers that instantiate the real templates in drivers/, executable contracts for replay and bounded search in native/. See DESIGN.md.'), open(os.path.join(V,'MANIFEST.json'),'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not applicable')
