#!/usr/bin/env python3
"""Writes /verif/known-findings.json: the fixed entries from the fix: commits of /repo (table below), plus the findings."""
import json, os, subprocess
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TABLE = json.load(open(os.path.join(VERIF, 'tools', 'fixes.json')))  # subject -> [properties, what failed]
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h\t%s'], capture_output=True, text=True).stdout
fixed = []
for l in log.splitlines():
    h, s = l.split('\t', 1)
    if not s.startswith('fix:'): continue
    props, what = TABLE.get(s, (None, None))
    if not props:
        print('not in the table:', s); continue
    for p in props: fixed.append('fixed: property=%s %s %s' % (p, h, what or s[4:].strip()))
f = os.path.join(VERIF, 'known-findings.json')
old = json.load(open(f)) if os.path.exists(f) else {'findings': []}
json.dump({'findings': old['findings'], 'fixed': fixed}, open(f, 'w'), indent=1)
