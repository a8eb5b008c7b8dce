#!/usr/bin/env python3
"""writes MANIFEST.json from sa/props.py and properties.jsonl"""
import json, os, sys
R = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, R)
from sa.props import PROPS, NA
props = [json.loads(l) for l in open(R + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in PROPS:
        s = PROPS[i]
        checks.append(dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i,
                           thorough_cmd='python3 check.py %s --tier thorough' % i,
                           technique=s['technique'], level='other',
                           level_note=s.get('note') or 'Static: ' + s['rule'] + ' Loops are followed for a bounded number of rounds; '
                           'the rules are necessary conditions for the property, and code of a shape they do not understand is '
                           'reported as inconclusive, not as a violation.'))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no sound static rule built for it yet')))
json.dump(dict(version=1, setup_cmd='python3 check.py --list', checks=checks, not_applicable=na),
          open(R + '/MANIFEST.json', 'w'), indent=1)
open(R + '/MANIFEST.json', 'a').write('\n')
