#!/usr/bin/env python3
"""writes MANIFEST.json from config.py (what is claimed) and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from config import CHECKS, NOT_APPLICABLE, NOTE
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
m = dict(version=1, setup_cmd='bash tools/setup.sh', checks=[], not_applicable=[],
         notes='No hooks: /repo is not instrumented; checks copy its sources into /verif/.build on every run. Defects repaired in /repo are listed in KNOWN_FINDINGS.')
for p in props:
    i = p['id']
    if i in CHECKS:
        m['checks'].append(dict(property=i, quick_cmd='python3 tools/check.py %s quick' % i, thorough_cmd='python3 tools/check.py %s thorough' % i,
                                evidence_file='evidence/%s.json' % i, technique=CHECKS[i].get('technique', 'contract-based deductive verification (Verus) of the real functions, extracted mechanically on every run'),
                                level='proof', level_note=CHECKS[i].get('note', NOTE) + CHECKS[i].get('note_more', '')))
    else:
        m['not_applicable'].append(dict(property=i, reason=NOT_APPLICABLE.get(i, 'no check yet')))
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
