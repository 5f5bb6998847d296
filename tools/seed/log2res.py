#!/usr/bin/env python3
"""Takes the outcomes printed by try.py over into results.json (read by mk.py) and the meta.json files.  Usage: log2res.py LOG..."""
import sys, os, re, json
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(os.path.dirname(HERE))
F = HERE + '/results.json'; R = json.load(open(F)) if os.path.exists(F) else {}
for l in open('/dev/stdin') if sys.argv[1:] == ['-'] else [l for f in sys.argv[1:] for l in open(f)]:
    m = re.match(r'(C\d\d-\S+) \| (.*)', l)
    if not m: continue
    if 'tests ok' not in l or 'TESTS FAIL' in l: print('does not count:', l[:200].strip()); continue
    got = re.findall(r'(C\d\d) rc=\d \d+s CAUGHT', l)
    r = R.setdefault(m.group(1), {}); old = [] if 'caught_by' not in r or r['caught_by'] == 'none' else r['caught_by'].split(', ')
    r['caught_by'] = ', '.join(sorted(set(old + got))) or 'none'
    f = V + '/seeded/' + m.group(1) + '/meta.json'
    if os.path.exists(f): d = json.load(open(f)); d.update(r); json.dump(d, open(f, 'w'), indent=1)
    print(m.group(1), r['caught_by'])
json.dump(R, open(F, 'w'), indent=1, sort_keys=True)
