#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, the contracts and NOTES below."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from tools.levels import LEVELS, NA
from pyvc import vc
vc.load_contracts()
props = [json.loads(l) for l in open(HERE + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    hs = [h for h in vc.HARNESSES.values() if i in h['props']]
    if i in LEVELS and hs:
        level, note = LEVELS[i]
        checks.append({'property': i, 'quick_cmd': f'python3 run.py {i} --tier quick', 'thorough_cmd': f'python3 run.py {i} --tier thorough',
                       'technique': 'contract-based deductive verification of the real Python functions (weakest-precondition style path exploration, inductive loop summaries, obligations discharged by z3/cvc5)' if level == 'proof' else 'contracts on the real Python functions, discharged deductively where in reach and evaluated at run time (bounded) elsewhere',
                       'level': level, 'level_note': note})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'contracts for this property are not built yet')})
m = {'version': 1, 'setup_cmd': 'python3 run.py --setup', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo. See DESIGN.md for what is proved, what is bounded and what is assumed.'}
json.dump(m, open(HERE + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
