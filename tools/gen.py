#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json
import os
import sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)
sys.path.insert(0, HERE)
from props import PROPS, NOTES
from lastatic.checks import REGISTRY

props, checks, na = [], [], []
for p in PROPS:
    if p.get('na') is None and p['id'] not in REGISTRY:
        print('not implemented yet: %s' % p['id'])
        continue
    assert len(p['title']) <= 80, p['id']
    props.append({
        'id': p['id'], 'title': p['title'], 'statement': p['statement'],
        'quantifier': {'over': p.get('over', ['inputs']), 'text': p['quant']},
        'why_tests_cant': p['why'],
        'anchors': {'files': p['files'],
                    'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}})
    if p.get('na') is not None:
        na.append({'property': p['id'], 'reason': p['na']})
        continue
    checks.append({
        'property': p['id'],
        'quick_cmd': 'python3 check.py %s' % p['id'],
        'thorough_cmd': 'python3 check.py %s --thorough' % p['id'],
        'technique': p['technique'],
        'level': 'other',
        'level_note': p['note']})
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in props:
        f.write(json.dumps(p) + '\n')
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1, 'setup_cmd': 'python3 -m py_compile check.py', 'checks': checks,
               'not_applicable': na, 'notes': NOTES}, f, indent=1)
    f.write('\n')
print('%d properties, %d checks, %d not applicable' % (len(props), len(checks), len(na)))
