#!/usr/bin/env python3
# writes MANIFEST.json from properties.jsonl and checks.py
import json, sys, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
from checks import CHECKS
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
NA = {}
exec(open(H + '/tools/not_applicable.py').read()) if os.path.exists(H + '/tools/not_applicable.py') else None
m = {'version': 1, 'setup_cmd': 'python3 check.py --build C03', 'checks': [], 'not_applicable': [],
     'hooks': {'guard': 'none', 'enable': 'no hooks are needed: the harnesses include the headers of /repo as they are and observe through the public interface, link-time interposition and compiler instrumentation', 'source_commits': []}}
for p in props:
    i = p['id']
    if i in CHECKS:
        c = CHECKS[i]
        m['checks'].append({'property': i, 'quick_cmd': 'python3 check.py %s' % i, 'thorough_cmd': 'python3 check.py %s --thorough' % i,
            'technique': c.get('technique', 'model checking: exhaustive enumeration of executions of the real code within stated bounds'),
            'level': 'model_checking', 'level_note': 'Holds on every execution within: ' + c['bounds'] + '. Assumes: ' + '; '.join(c['assumptions'])})
    else: m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'no check yet')})
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
