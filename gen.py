#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os, props
R = os.path.dirname(os.path.abspath(__file__))
with open(R + '/properties.jsonl', 'w') as f:
    for i, p in sorted(props.PROPS.items()):
        assert len(p['title']) <= 80, (i, len(p['title']))
        f.write(json.dumps(dict(id=i, title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['qtext']), why_tests_cant=p['why'], anchors=dict(files=p['files'], mechanism=p['mech']))) + '\n')
checks = []; na = []
for i, p in sorted(props.PROPS.items()):
    if p.get('na'): na.append(dict(property=i, reason=p['na'])); continue
    c = dict(property=i, quick_cmd='python3 run.py ' + i, thorough_cmd='env VERIF_TIER=thorough python3 run.py ' + i, technique=p.get('technique', props.TECH), level=p.get('level', 'other'), level_note=(props.NOTE if p['drivers'] else '') + p['note'])
    checks.append(c)
json.dump(dict(version=1, setup_cmd='mkdir -p build && make -s -C cx OUT=../build', checks=checks, not_applicable=na), open(R + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
