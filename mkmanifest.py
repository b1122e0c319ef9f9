#!/usr/bin/env python3
"""Writes MANIFEST.json from contracts/checks.py and contracts/notclaimed.json."""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(H, 'contracts'), os.path.join(H, 'dv')]
import checks
ids = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl'))]
na = json.load(open(os.path.join(H, 'contracts', 'notclaimed.json')))
m = dict(version=1, setup_cmd='python3-vt -m compileall -q dv contracts check.py', checks=[], not_applicable=[])
for i in ids:
    if i in checks.CHECKS:
        ck = checks.CHECKS[i]
        m['checks'].append(dict(
            property=i, quick_cmd='python3-vt check.py %s' % i, thorough_cmd='python3-vt check.py %s --tier thorough' % i,
            technique=ck.get('technique', 'contract-based deductive verification of the C++ source (clang AST to SMT verification conditions, z3 and cvc5)'),
            level='proof',
            level_note=ck.get('note', 'Every obligation generated from the current source is discharged for all inputs, team sizes and schedules; no loop bound. ') + ck.get('note2', 'Assumes: double arithmetic as uninterpreted/real arithmetic, non-overlapping argument blocks unless the contract says otherwise, successful allocation, OpenMP barrier semantics; termination not proved. Trusted: clang AST, the generator in dv/, z3 and cvc5.')))
    else:
        m['not_applicable'].append(dict(property=i, reason=na.get(i, 'check not built yet')))
m['notes'] = 'No hooks are needed in /repo: contracts live in contracts/*.py and are attached to the functions of the parsed source by mangled name.'
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(H, 'MANIFEST.json'), 'a').write('\n')
