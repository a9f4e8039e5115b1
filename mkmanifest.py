#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and units.py."""
import json, os
from units import PROPS
H = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl'))]
NOTE = ('Holds on the executions explored only. Trusted: the reference model and independent traversal in harness/, the compilers and sanitizers, '
        'and (declared limits in DESIGN.md) allocation never fails, cache sizes >= 2, single thread. ')
m = dict(version=1, setup_cmd='python3 check.py --setup', checks=[], not_applicable=[])
for i in ids:
    if i in PROPS:
        m['checks'].append(dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i, thorough_cmd='python3 check.py %s --tier thorough' % i,
                                evidence_file='evidence/%s.json' % i, technique=PROPS[i]['technique'], level=PROPS[i].get('level', 'exploration'),
                                level_note=NOTE + PROPS[i].get('note', '')))
    else:
        m['not_applicable'].append(dict(property=i, reason='no check yet'))
if not m['not_applicable']:
    m['notes'] = 'Every property is decided by runtime monitoring; see DESIGN.md.'
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
