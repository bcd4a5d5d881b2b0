#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from plist.py: every property with a module in rv/props is claimed."""
import json
import os
import re
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plist import PROPS  # noqa

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
checks, na = [], []
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        claimed = os.path.exists(os.path.join(V, 'rv', 'props', p['id'].lower() + '.py'))
        if not claimed and not p.get('na'):
            continue
        assert len(p['title']) <= 80, p['id']
        assert len(re.findall(r'[.!?](?:\s|$)', p['statement'])) <= 3, p['id'] + ' ' + p['statement']
        f.write(json.dumps(dict(
            id=p['id'], title=p['title'], statement=p['statement'],
            quantifier=dict(over=p['over'], text=p['qtext']), why_tests_cant=p['why'],
            anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']]))) + '\n')
        if claimed:
            checks.append(dict(property=p['id'], quick_cmd=f'{PY} check.py {p["id"]} --tier quick',
                               thorough_cmd=f'{PY} check.py {p["id"]} --tier thorough',
                               technique=p['technique'], level='exploration', level_note=p['note']))
        else:
            na.append(dict(property=p['id'], reason=p['na']))
json.dump(dict(version=1, setup_cmd=f'{PY} tools/setup.py', checks=checks, not_applicable=na,
               notes='See DESIGN.md. No hooks in /repo: every monitor wraps or observes public objects from outside.'),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not applicable')
