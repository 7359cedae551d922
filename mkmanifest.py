#!/usr/bin/env python3
"""Writes MANIFEST.json from engine/plan.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V + '/engine')
from plan import PLAN
TECH = 'property-based testing: %s'
from plan import TECHNIQUE, NOTE
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl') if l.strip()]
checks, na = [], []
for i in ids:
    if i in PLAN:
        checks.append({'property': i, 'quick_cmd': 'python3 engine/check.py %s' % i, 'thorough_cmd': 'python3 engine/check.py %s --thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': TECH % TECHNIQUE.get(i, TECHNIQUE['*']), 'level': 'exploration',
                       'level_note': NOTE.get(i, NOTE['*'])})
    else:
        na.append({'property': i, 'reason': 'the check is not built yet'})
m = {'version': 1, 'setup_cmd': 'python3 engine/check.py --setup', 'checks': checks}
if na:
    m['not_applicable'] = na
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
