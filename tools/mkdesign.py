#!/usr/bin/env python3
# fills the generated parts of DESIGN.md from DESIGN.in.md, properties.jsonl, checks.py and seeded/
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H); sys.path.insert(0, H + '/tools')
from checks import CHECKS
from design_props import T
import design_props
NA = {}
if os.path.exists(H + '/tools/not_applicable.py'): exec(open(H + '/tools/not_applicable.py').read())
out = []
for l in open(H + '/properties.jsonl'):
    j = json.loads(l); i = j['id']
    out.append('### %s %s\n' % (i, j['title']))
    if i in CHECKS: out.append(T.get(i, '') + '\n\nBounds: ' + CHECKS[i]['bounds'] + '.\n')
    else: out.append('Not claimed: ' + NA.get(i, 'no check yet') + '\n')
s = open(H + '/tools/DESIGN.in.md').read().replace('@@PROPERTIES@@', '\n'.join(out))
C = getattr(design_props, 'CATCH', {})
r = ['| planted bug | property | needs | caught by |', '|---|---|---|---|']
for d, n in [(d, n) for d in ('seeded', 'planted') if os.path.isdir(H + '/' + d) for n in sorted(os.listdir(H + '/' + d))]:
    m = json.load(open(H + '/%s/%s/meta.json' % (d, n))); r.append('| %s | %s | %s | %s |' % (n + ('' if d == 'seeded' else ' (+)'), m['property'], m['needs'], C.get(n + ('' if d == 'seeded' else ' (+)'), m['property'])))
s = s.replace('@@SEEDS@@', '\n'.join(r)).replace('@@MORE@@', getattr(design_props, 'MORE', ''))
open(H + '/DESIGN.md', 'w').write(s)
