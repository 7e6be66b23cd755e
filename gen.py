#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os
from props import PROPS, NOT_APPLICABLE
os.chdir(os.path.dirname(os.path.abspath(__file__)))
with open('properties.jsonl', 'w') as f:
    for i, p in sorted(PROPS.items()):
        assert len(p['title']) <= 80, i
        f.write(json.dumps({'id': i, 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']},
                            'why_tests_cant': p['why'],
                            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']], 'hook_needed': None}}) + '\n')
    for n in NOT_APPLICABLE:
        if 'line' in n:
            f.write(json.dumps(n['line']) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup',
     'checks': [{'property': i, 'quick_cmd': 'python3 check.py %s quick' % i, 'thorough_cmd': 'python3 check.py %s thorough' % i,
                 'evidence_file': 'evidence/%s.json' % i, 'technique': p['technique'], 'level': p['level'], 'level_note': p['note'] + ' Bounds: ' + p['bounds'] + '.'}
                for i, p in sorted(PROPS.items())],
     'not_applicable': [{'property': n['property'], 'reason': n['reason']} for n in NOT_APPLICABLE],
     'notes': 'No hooks in /repo: every check compiles the library sources of /repo as they stand together with a harness from /verif/harness. /repo carries only fix: commits (known_findings.json).'}
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
