#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and lib/plan.py."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, 'lib'))
sys.dont_write_bytecode = True
from plan import PLAN
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
NOTE = ('TLC explores the TLA+ specification exhaustively within small bounds '
        '(invariants and action properties); the implementation is bound to it '
        'by trace validation: every recorded event of graph walks and random '
        'runs of the real code must be a transition of the specification. '
        'Trusted: TLC, the driver that records events, Python itself.')
checks = []
for p in props:
    if p['id'] not in PLAN:
        continue
    plan = PLAN[p['id']]
    checks.append({
        'property': p['id'],
        'quick_cmd': f"./check {p['id']}",
        'thorough_cmd': f"./check {p['id']} --thorough",
        'technique': plan.get('technique', 'TLA+ specification model-checked with TLC, bound to the code by '
                              'TLC-generated walks and trace validation'),
        'level': 'model_checking',
        'level_note': plan.get('note', '') + NOTE})
doc = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks,
       'not_applicable': [{'property': p['id'], 'reason': 'not built yet'}
                          for p in props if p['id'] not in PLAN],
       'notes': 'No hooks: everything is observed through the public API.'}
json.dump(doc, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks))
