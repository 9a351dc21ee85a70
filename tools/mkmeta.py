#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/props.py (one table, so the two stay in step)"""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS, NOT_APPLICABLE      # noqa: E402
ROOT = os.path.dirname(HERE)
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in PROPS + NOT_APPLICABLE:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['forall']}, 'why_tests_cant': p['why'],
            'anchors': {'files': p['files'],
                        'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                        'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in p.get('state', [])],
                        'observe_at': p['observe'], 'hook_needed': None}}) + '\n')
m = {'version': 1,
     'setup_cmd': 'python3-vt tools/selftest.py',
     'checks': [{'property': p['id'], 'quick_cmd': 'python3-vt run.py %s --tier quick' % p['id'],
                 'thorough_cmd': 'python3-vt run.py %s --tier thorough' % p['id'],
                 'evidence_file': 'evidence/%s.json' % p['id'],
                 'technique': p['technique'], 'level': 'other', 'level_note': p['note']} for p in PROPS],
     'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in NOT_APPLICABLE],
     'notes': 'Static analysis only: checks parse /repo on every run and interpret its syntax trees over abstract '
              'domains; no repository code is imported or executed. See DESIGN.md.'}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(PROPS), 'claimed', len(NOT_APPLICABLE), 'not applicable')
