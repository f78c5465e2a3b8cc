#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the list of check modules."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from tools.claims import CLAIMS, NA
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []
na = []
for p in props:
    if p in CLAIMS:
        t, note = CLAIMS[p]
        checks.append(dict(property=p, quick_cmd='python3 check.py ' + p, thorough_cmd='python3 check.py ' + p,
                           evidence_file='evidence/%s.json' % p, technique=t, level='other', level_note=note))
    else:
        na.append(dict(property=p, reason=NA[p]))
m = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na,
         notes='Static analysis of the MIR of /repo (see DESIGN.md). No hooks: the analysis reads the compiler\'s intermediate representation of the unmodified crate.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not applicable')
