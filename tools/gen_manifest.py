#!/usr/bin/env python3
"""Writes MANIFEST.json from contracts/registry.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from contracts.registry import REG, NA
checks = []; na = []
for l in open(V + '/properties.jsonl'):
    p = json.loads(l)['id']
    if p in REG:
        r = REG[p]
        checks.append(dict(property=p, quick_cmd=f'python3 check.py {p} --tier quick', thorough_cmd=f'python3 check.py {p} --tier thorough', technique=r.get('technique', 'contract-based deductive verification: weakest-precondition obligations generated from the LLVM IR of the real code, discharged by z3/cvc5'), level=r.get('level', 'proof'), level_note=r['note']))
    else: na.append(dict(property=p, reason=NA.get(p, 'check under construction')))
m = dict(version=1, setup_cmd='bash build_engine.sh', checks=checks, not_applicable=na, notes='No hooks in /repo: the harnesses reach private data members with -fno-access-control. See DESIGN.md.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1); open(V + '/MANIFEST.json', 'a').write('\n')
