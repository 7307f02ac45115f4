#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from tools/props.py."""
import json
import os
import sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from props import PROPS, HOOKS, NOTES  # noqa

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        f.write(json.dumps({k: p[k] for k in (
            'id', 'title', 'statement', 'quantifier', 'why_tests_cant',
            'anchors')}) + '\n')
checks, na = [], []
for p in PROPS:
    if 'na' in p:
        na.append({'property': p['id'], 'reason': p['na']})
        continue
    checks.append({
        'property': p['id'],
        'quick_cmd': './check %s --tier quick' % p['id'],
        'thorough_cmd': './check %s --tier thorough' % p['id'],
        'technique': p.get('technique', 'bounded symbolic execution of the '
                           'real code, assertions discharged by z3'),
        'level': 'model_checking',
        'level_note': p['note'],
    })
m = {'version': 1, 'setup_cmd': './check --selftest', 'checks': checks,
     'not_applicable': na, 'notes': NOTES}
if HOOKS:
    m['hooks'] = HOOKS
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
try:
    import jsonschema
    S = '/root/.vp/'
    jsonschema.validate(m, json.load(open(S + 'MANIFEST.schema.json')))
    for l in open(os.path.join(HERE, 'properties.jsonl')):
        jsonschema.validate(json.loads(l),
                            json.load(open(S + 'PROPERTIES.schema.json')))
except ImportError:
    print('not validated')
