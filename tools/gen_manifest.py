#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the registered checks."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(R + '/properties.jsonl')]
import sys
sys.path.insert(0, R)
try:
    from checks import REGISTRY
except ImportError:
    REGISTRY = {}
NA = {
 'C20': 'pure function of its arguments: no schedule, time, I/O or second party for a simulator to control',
}
for i in range(20, 35):
    NA['C%d' % i] = ('a numerical identity of pure functions: the result depends on the arguments alone, there is no '
                     'concurrency, time, I/O, randomness or crash point for a deterministic simulation to decide')
NA['C34'] = ('the picture produced is a pure function of the data drawn through matplotlib; no schedule, time or I/O is '
             'involved (side effects of plotting on the caller\'s data are claimed under C09)')
checks = []
for p in props:
    c = REGISTRY.get(p['id'])
    if c is None:
        continue
    checks.append(dict(property=p['id'], quick_cmd='python3 check.py %s' % p['id'],
                       thorough_cmd='VERIF_TIER=thorough python3 check.py %s' % p['id'],
                       technique='deterministic simulation with fault injection: ' + c['technique'],
                       level='exploration', level_note=c['note']))
done = {c['property'] for c in checks}
na = [dict(property=p['id'], reason=NA.get(p['id'], 'check not built yet')) for p in props if p['id'] not in done]
m = dict(version=1, setup_cmd='python3 check.py --setup', checks=checks, not_applicable=na,
         notes='Every check runs the real package from /repo (VERIF_REPO overrides it for development only) under the '
               'simulator in simkit/; no hooks in /repo are needed. known_findings.txt lists findings and fixes.')
json.dump(m, open(R + '/MANIFEST.json', 'w'), indent=1)
open(R + '/MANIFEST.json', 'a').write('\n')
