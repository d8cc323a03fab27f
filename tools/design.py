#!/usr/bin/env python3
# writes /verif/DESIGN.md from design_data.py, design_head.md, design_tail.md, the table of checks and the seeded bugs
import json, os, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + '/harness'); sys.path.insert(0, V + '/tools')
from table import CHECKS
from design_data import D
props = [json.loads(l) for l in open(V + '/properties.jsonl')]; kf = json.load(open(V + '/known_findings.json'))['findings']
o = [open(V + '/tools/design_head.md').read().rstrip(), '', '## Properties', '']
for p in props:
    i = p['id']; o += ['### %s %s' % (i, p['title']), '']
    if i not in CHECKS: o += ['Not claimed, see MANIFEST.json not_applicable.', '']; continue
    o += ['*Oracle.* ' + D[i][0], '', '*Generated.* ' + CHECKS[i]['rule'][0].upper() + CHECKS[i]['rule'][1:] + '.', '']
    if D[i][1]: o += ['*Bounds and what is left out.* ' + D[i][1], '']
    f = [k for k in kf if k['property'] == i]
    if f: o += ['*Found.*', ''] + ['- ' + k['what'].replace('fixed: property=%s ' % i, 'repaired in ') for k in f] + ['']
o += [open(V + '/tools/design_tail.md').read().rstrip(), '', '## Planted bugs and what caught them', '', '| bug | property | caught by | needs |', '|---|---|---|---|']
c = json.load(open(V + '/tools/caught.json'))
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    n = m.split('/')[-2]; j = json.load(open(m)); o.append('| %s | %s | %s | %s |' % (n, j['property'], c.get(n, '?'), j['needs']))
open(V + '/DESIGN.md', 'w').write('\n'.join(o) + '\n')
