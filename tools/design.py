#!/usr/bin/env python3
# Writes DESIGN.md from the specification, the check table, the notes below, known-findings.txt and seeded/*/meta.json.
import json, os, glob, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [H, H + '/tools']
from spec import SPEC
from props import PROPS
from design_text import HEAD, NOTES, TAIL, MISSES
import re
out = [HEAD.strip('\n'), '']
for p in SPEC:
    i = p['id']
    out += ['### %s %s' % (i, p['title']), '']
    n = NOTES[i]
    if i not in PROPS:
        out += [n, '']
        continue
    out += ['* **Explored:** ' + PROPS[i]['rule'], '* **Oracle:** ' + n[0], '* **Beyond the tests:** ' + n[1], '* **Assumes:** ' + PROPS[i]['assume'] + '.', '* **Cost:** ' + n[2] + ' Harness: %s.' % ('`%s`' % PROPS[i]['src'][0] if PROPS[i]['src'] else 'those of the properties explored'), '']
out += [TAIL.strip('\n'), '', '## Planted changes', '',
        'Every one compiles, passes the repository\'s tests, and comes with a demonstration (`seeded/<id>/`). "caught by" was established by applying the patch to /repo and running the quick check. The last column says what a first miss led to.', '',
        '| change | what it breaks | needs | caught by | first missed, then |', '|---|---|---|---|---|']
for f in sorted(glob.glob(H + '/seeded/*/meta.json')):
    i = f.split('/')[-2]; d = json.load(open(f))
    c = lambda s: s.replace('|', '/').replace('\n', ' ')
    out.append('| %s | %s | %s | %s | %s |' % (i, c(d['what_it_breaks']), c(d['needs']), 'not caught' if MISSES.get(i, '').startswith('NOT') else d['property'], MISSES.get(i, '')))
out += ['', '## Defects found in the pinned tree', '', 'Each was shown on the real code by a check, repaired by a `fix:` commit, and is listed in known-findings.txt; the checks report them again should they return (each was confirmed by running the check on the tree before the repair).', '']
for l in open(H + '/known-findings.txt'):
    m = re.match(r'fixed: property=(C\d+) (\w+) (.*)', l)
    if m: out.append('* %s `%s` %s' % m.groups())
    elif l.startswith('known:'): out.append('* unrepaired: ' + l[6:].strip())
open(H + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
