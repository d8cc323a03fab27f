#!/usr/bin/env python3
"""Regenerates MANIFEST.json from harness/table.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from harness.table import CHECKS
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
m = dict(version=1, setup_cmd='python3 check.py --setup', checks=[], not_applicable=[],
         notes='Every check rebuilds libsparta and its harness from /repo into /verif/.build (ignored by git) when the tree changed, and searches generated cases deterministically from VERIF_SEED.')
NA = {}
for p in props:
    i = p['id']
    if i in CHECKS:
        c = CHECKS[i]
        m['checks'].append(dict(property=i, quick_cmd='python3 check.py %s' % i, thorough_cmd='VERIF_TIER=thorough python3 check.py %s' % i,
            technique=c.get('technique', 'model-based property testing with shrinking'), level='exploration',
            level_note=c.get('note', 'Held on every generated case of the run (counts and classes in the evidence); says nothing about cases outside the generator. Trusts the reference model in harness/%s and the compiler.' % c['src'][0])))
    else:
        m['not_applicable'].append(dict(property=i, reason=NA.get(i, 'the check for this property is not built yet')))
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1); open(V + '/MANIFEST.json', 'a').write('\n')
print(len(m['checks']), 'checks', len(m['not_applicable']), 'not applicable')
