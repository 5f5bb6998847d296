#!/usr/bin/env python3
"""Writes MANIFEST.json from props.json and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = json.load(open(V + '/props.json'))
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl') if l.strip()]
m = {'version': 1, 'setup_cmd': 'true', 'checks': [], 'not_applicable': []}
for i in ids:
    p = P.get(i)
    if p is None or p.get('unclaimed'):
        m['not_applicable'].append({'property': i, 'reason': (p or {}).get('unclaimed', 'no check built yet')})
        continue
    m['checks'].append({
        'property': i,
        'quick_cmd': 'python3 check.py %s --tier quick' % i,
        'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
        'technique': p.get('technique', 'explicit-state exploration of the implementation against a reference model'),
        'level': 'model_checking',
        'level_note': p.get('note', 'Holds on every execution within the bounds stated in DESIGN.md and in the evidence; trusts the reference model in harness/, the compiler and the runtime.'),
    })
m['notes'] = 'No hooks: the harnesses compile the sources of /repo/lib themselves. Bounds per property are in DESIGN.md and in the evidence files.'
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
