#!/usr/bin/env python3
"""Generates MANIFEST.json from the list of implemented checks."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), '..'))
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
try:
    from lib.registry import CLAIMED
except ImportError:
    CLAIMED = {}
PURE = ("a pure function of the compiler's (or the compiled program's) input: no schedule, clock, fault, I/O or "
        "second party influences it, so there is nothing for a simulator to decide; generating inputs for it would be "
        "differential testing, not deterministic simulation")
checks, na = [], []
for p in props:
    i = p['id']
    if i in CLAIMED:
        c = CLAIMED[i]
        checks.append({'property': i, 'quick_cmd': f'python3 check.py {i}', 'thorough_cmd': f'python3 check.py {i}',
                       'evidence_file': f'evidence/{i}.json', 'technique': c['technique'], 'level': c['level'],
                       'level_note': c['note']})
    elif int(i[1:]) >= 30:
        na.append({'property': i, 'reason': PURE})
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': na,
     'notes': 'See DESIGN.md. No hooks were needed in /repo: the simulators interpose at the libc boundary and at the generated machine code.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
