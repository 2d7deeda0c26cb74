#!/usr/bin/env python3
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [H, H + '/tools']
from spec import SPEC
from props import PROPS
NA = {
}
with open(H + '/properties.jsonl', 'w') as f:
    for p in SPEC: f.write(json.dumps(p) + '\n')
checks, na = [], []
for p in SPEC:
    i = p['id']
    if i in PROPS:
        q = PROPS[i]
        checks.append(dict(property=i, quick_cmd='./check %s quick' % i, thorough_cmd='./check %s thorough' % i, evidence_file='evidence/%s.json' % i,
            technique=q.get('technique', 'stateless model checking: exhaustive bounded exploration of the real code in lock-step with a reference model'),
            level=q.get('level', 'model_checking'),
            level_note=q.get('note', 'Every choice sequence within the stated bounds is executed on the real code (compiled from /repo with AddressSanitizer and UBSan) and compared with a reference model; nothing is claimed beyond the bounds. Assumes: ' + q.get('assume', 'nothing further') + '.')))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'its check is not built yet')))
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
         notes='No hooks are needed in /repo: the checks compile its sources from the working tree and drive the public API.')
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
for p in SPEC:
    n = p['statement'].count('. ') + 1
    assert len(p['title']) <= 80, (p['id'], len(p['title']))
    if n > 3: print('statement too long', p['id'], n)
