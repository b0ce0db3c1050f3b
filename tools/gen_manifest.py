#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from registry import CHECKS, NOT_APPLICABLE, TECHNIQUE
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'python3 /verif/build.py plain harness', 
     'checks': [], 'not_applicable': []}
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        m['checks'].append({'property': i, 'quick_cmd': 'python3 /verif/check.py %s quick' % i, 'thorough_cmd': 'python3 /verif/check.py %s thorough' % i,
                            'technique': TECHNIQUE.get(i, c.get('technique', 'property-based testing (generated cases against an explicit oracle)')), 'level': c['level'], 'level_note': c.get('note', 'random search over generated cases; holds on everything explored')})
    else:
        m['not_applicable'].append({'property': i, 'reason': NOT_APPLICABLE.get(i, 'check not built yet')})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
