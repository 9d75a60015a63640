#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from tools/properties.py."""
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, 'tools')]
from properties import PROPERTIES, NOT_APPLICABLE, HOOKS
from components import COMPONENTS

def prop(p):
    return {
        'id': p['id'], 'title': p['title'], 'statement': p['statement'],
        'quantifier': {'over': p['over'], 'text': p['quant']},
        'why_tests_cant': p['tests'],
        'anchors': {'files': p['files'],
                    'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                    'observe_at': p.get('observe', []),
                    'hook_needed': p.get('hook')},
    }

built = [x for c in COMPONENTS for x in c['props']]
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPERTIES:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(prop(p)) + '\n')
na = {n['property'] for n in NOT_APPLICABLE}
checks = []
for p in PROPERTIES:
    if p['id'] in na:
        continue
    assert p['id'] in built, p['id']
    checks.append({
        'property': p['id'],
        'quick_cmd': 'python3 /verif/check.py %s --tier quick' % p['id'],
        'thorough_cmd': 'python3 /verif/check.py %s --tier thorough' % p['id'],
        'technique': p.get('technique', 'TLA+ specification checked with TLC; TLC-generated and random behaviours replayed in the real code and every recorded step validated against the specification'),
        'level': 'model_checking',
        'level_note': p['note'],
    })
m = {'version': 1, 'setup_cmd': 'bash /verif/setup.sh', 'checks': checks, 'not_applicable': NOT_APPLICABLE}
if HOOKS:
    m['hooks'] = HOOKS
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks')
assert set(built) <= {p['id'] for p in PROPERTIES}, set(built) - {p['id'] for p in PROPERTIES}
