#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the definitions in bugs/*.py (a list BUGS of dicts).
Usage: mk.py [ID...]"""
import sys, os, shutil, subprocess, json, glob, tempfile, stat
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(os.path.dirname(HERE))
BUGS = []
for f in sorted(glob.glob(HERE + '/bugs/*.py')):
    ns = {}; exec(open(f).read(), ns); BUGS += ns['BUGS']
want = sys.argv[1:]
RES = json.load(open(HERE + '/results.json')) if os.path.exists(HERE + '/results.json') else {}
for b in BUGS:
    if want and b['id'] not in want: continue
    t = tempfile.mkdtemp()
    subprocess.check_call(['git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', t + '/r', 'HEAD'])
    try:
        for e in b['edits']:
            f, old, new = e[:3]; n = e[3] if len(e) > 3 else 1
            p = t + '/r/lib/' + f; s = open(p).read()
            assert old in s, (b['id'], f, old)
            if n == 0:
                s = s.replace(old, new)
            else:       # n-th occurrence
                i = -1
                for _ in range(n): i = s.index(old, i + 1)
                s = s[:i] + new + s[i + len(old):]
            open(p, 'w').write(s)
        diff = subprocess.check_output(['git', '-C', t + '/r', 'diff']).decode()
    finally:
        subprocess.call(['git', '-C', '/repo', 'worktree', 'remove', '--force', t + '/r']); shutil.rmtree(t)
    d = V + '/seeded/' + b['id']; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.cpp', 'w').write('#include "kit.hpp"\n' + b['demo'].lstrip('\n'))
    sh = open(HERE + '/demo.sh').read().replace('@FLAGS@', b.get('flags', ''))
    open(d + '/demo.sh', 'w').write(sh); os.chmod(d + '/demo.sh', 0o755)
    for h in ('common.hpp', 'glue.hpp', 'steps.hpp', 'life.hpp'): shutil.copy(V + '/harness/' + h, d)
    shutil.copy(HERE + '/kit.hpp', d)
    json.dump(dict({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, **RES.get(b['id'], {})), open(d + '/meta.json', 'w'), indent=1)
    print(b['id'], len(diff))
