#!/usr/bin/env python3
"""Writes MANIFEST.json from onexv/plan.json and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
plan = json.load(open(os.path.join(V, 'onexv/plan.json')))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in plan:
        e = plan[i]
        checks.append({'property': i, 'quick_cmd': 'python3 onexv/check.py --property %s' % i,
            'thorough_cmd': 'python3 onexv/check.py --property %s --tier thorough' % i,
            'technique': e.get('technique', 'contract-based deductive verification of the real C++ functions (clang AST to WhyML, Why3 VCs, z3/cvc5)'),
            'level': e.get('level', 'proof'),
            'level_note': e.get('note', 'Every obligation generated from the current source is discharged for all inputs; trusts the AST translation, the memory/arithmetic model and the library contracts listed in the evidence.')})
    else:
        na.append({'property': i, 'reason': plan.get('_na', {}).get(i, 'no check yet')})
json.dump({'version': 1, 'setup_cmd': 'python3 onexv/setup.py', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks: the checks read the unmodified sources of /repo. See DESIGN.md.'}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
