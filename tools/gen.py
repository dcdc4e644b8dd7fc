#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py and tools/checks.py."""
import json, os, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'tools'))
from props import P
from checks import CHECKS
with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        a = dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']])
        if p['state']:
            a['state'] = [dict(name=n, meaning=w) for n, w in p['state']]
        for x in p['files']:
            assert os.path.exists('/repo/' + x), x
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
                                quantifier=dict(over=p['over'], text=p['qtext']), why_tests_cant=p['why'], anchors=a)) + '\n')
checks, na = [], []
for p in P:
    if p['na']:
        na.append(dict(property=p['id'], reason=p['na']))
        continue
    assert p['id'] in CHECKS, p['id']
    checks.append(dict(property=p['id'], quick_cmd='python3 tools/check.py %s quick' % p['id'],
                       thorough_cmd='python3 tools/check.py %s thorough' % p['id'],
                       technique=p['technique'] or 'TLA+ specification, TLC design model checking, and TLC validation of traces recorded from the real code',
                       level='model_checking', level_note=p['note'] + '. Bounded by the generated inputs; trusts TLC, g++ and the recording driver.'))
m = dict(version=1, setup_cmd='python3 tools/setup.py',
         hooks=dict(guard='VIF_VP_HOOKS (unused: no hook was needed)', enable='nothing to enable; the drivers include /repo/include directly', source_commits=[]),
         checks=checks, not_applicable=na,
         notes='See DESIGN.md. Repairs made in /repo are listed in known_findings.txt.')
json.dump(m, open(os.path.join(VERIF, 'MANIFEST.json'), 'w'), indent=1)
