#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl (run: python3 tools/manifest.py)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(here, '..', 'properties.jsonl'))]
TECH = 'generated histories against an executable reference model + lifetime/allocator monitors under ASan/UBSan'
checks, na = [], []
for p in props:
    c = CHECKS.get(p['id'])
    if not c:
        na.append({'property': p['id'], 'reason': 'no check registered yet'})
        continue
    checks.append({
        'property': p['id'],
        'quick_cmd': 'python3 run.py %s quick' % p['id'],
        'thorough_cmd': 'python3 run.py %s thorough' % p['id'],
        'evidence_file': 'evidence/%s.json' % p['id'],
        'technique': c.get('technique', TECH),
        'level': c.get('level', 'exploration'),
        'level_note': c.get('note', 'held on the executions counted in the evidence (generated, seeded, bounded by number of cases); trusts the reference model and the stand-ins for itlib/splat'),
    })
m = {'version': 1, 'setup_cmd': 'python3 run.py --setup', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: everything is observed through user-supplied callbacks (mixin functions, rules, allocators, memory resources), the public interface and our stand-in of itlib::data_mutex.'}
json.dump(m, open(os.path.join(here, '..', 'MANIFEST.json'), 'w'), indent=1)
