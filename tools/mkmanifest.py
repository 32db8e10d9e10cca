#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the registered checks."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRACE = 'TLA+ specification; every schedule of the real code under a deterministic scheduler recorded and validated against it with TLC'
MBT = 'TLA+ specification explored exhaustively by TLC; its whole transition graph replayed on the real code'
tech = {i: TRACE for i in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08')}
tech['C09'] = TRACE + '; sequential graph replayed as well'
checks, na = [], []
for l in open(os.path.join(ROOT, 'properties.jsonl')):
    p = json.loads(l)
    i = p['id']
    if i in props.CHECKS:
        checks.append(dict(property=i, quick_cmd=f'python3 tools/check.py {i} quick', thorough_cmd=f'python3 tools/check.py {i} thorough',
                           evidence_file=f'evidence/{i}.json', technique=tech.get(i, MBT), level='model_checking',
                           level_note='Exhaustive over the bounded specification (see DESIGN.md, ' + i + '); binding to the code by conformance on every transition resp. every explored schedule.'))
    else:
        na.append(dict(property=i, reason='check not built yet'))
json.dump(dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na), open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
