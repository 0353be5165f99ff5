#!/usr/bin/env python3
"""Regenerates MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from checks import CHECKS
NA = {}
props = [json.loads(l) for l in open(os.path.join(VERIF, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i not in CHECKS:
        na.append(dict(property=i, reason=NA.get(i, 'check not built yet')))
        continue
    c = CHECKS[i]
    checks.append(dict(property=i, quick_cmd='python3 tools/check.py %s --tier quick' % i, thorough_cmd='python3 tools/check.py %s --tier thorough' % i,
        evidence_file='evidence/%s.json' % i, technique='property-based testing: ' + c['technique'], level='exploration', level_note=c.get('note', 'random search with shrinking; nothing is proved beyond the cases generated')))
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na, notes='Generated by tools/mkmanifest.py. See DESIGN.md.')
json.dump(m, open(os.path.join(VERIF, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
