#!/usr/bin/env python3
"""Write MANIFEST.json from the property list and what vf/props.py decides."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
from vf import props
ids = [json.loads(l)['id'] for l in open(R + '/properties.jsonl')]
checks, na = [], []
for i in ids:
    p = props.PROPS.get(i)
    if p is None:
        na.append(dict(property=i, reason=props.NA[i]))
        continue
    checks.append(dict(
        property=i,
        quick_cmd='python3 -m vf.check %s quick' % i,
        thorough_cmd='python3 -m vf.check %s thorough' % i,
        evidence_file='evidence/%s.json' % i,
        technique='static analysis: ' + p.get('technique', p['rule']),
        level='other', level_note=p.get('level', p['explain'])))
json.dump(dict(version=1, setup_cmd='true', hooks=dict(
    guard='URKEL_LINE_COMMENTS',
    enable='CMake option, on by default; it only selects -std=gnu90 instead '
           'of -std=c90 so that // comments compile. The checks do not '
           'depend on it.', source_commits=['474a241']), checks=checks,
               not_applicable=na,
               notes='Static analysis of LLVM IR compiled from /repo on every '
                     'run; see DESIGN.md.'),
          open(R + '/MANIFEST.json', 'w'), indent=1)
