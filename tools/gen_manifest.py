#!/usr/bin/python3
"""Writes /verif/MANIFEST.json from the check registry and the property list."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from fdstat.checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    if p in CHECKS:
        c = CHECKS[p]
        checks.append(dict(property=p, quick_cmd='python3 check.py ' + p, thorough_cmd='python3 check.py %s --thorough' % p,
                           evidence_file='evidence/%s.json' % p, technique=c['technique'], level=c['level'], level_note=c['note']))
    else:
        na.append(dict(property=p, reason=NOT_APPLICABLE.get(p, 'check not built yet')))
m = dict(version=1, setup_cmd='python3 setup.py', checks=checks, not_applicable=na,
         notes='No hooks in /repo. The checks read /repo/opm with a clang front end and never build or run it. See DESIGN.md.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
