#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from dev/props.py (developer tool, not run by checks)."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(V, 'checks'))
import props
import registry
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    props.PROPS = [p for p in props.PROPS if p['id'] in registry.CHECKS or p['na']]
    for p in props.PROPS:
        d = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
        assert len(p['title']) <= 80, p['title']
        assert p['statement'].count('. ') <= 2, p['id']
        f.write(json.dumps(d) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 checks/setup.py', 'checks': [], 'not_applicable': []}
for p in props.PROPS:
    if p['id'] in registry.CHECKS:
        m['checks'].append({'property': p['id'],
                            'quick_cmd': 'python3 checks/run.py %s' % p['id'],
                            'thorough_cmd': 'python3 checks/run.py %s --tier thorough' % p['id'],
                            'technique': p['technique'], 'level': 'other', 'level_note': p['level_note']})
    else:
        m['not_applicable'].append({'property': p['id'], 'reason': p['na']})
m['notes'] = 'No hooks in /repo. Every check parses /repo with clang (JSON AST) or the Python ast module on each run and builds value-flow summaries; the program under test is never executed.'
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
