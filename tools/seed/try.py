#!/usr/bin/env python3
"""Confirms planted bugs in a scratch copy: builds, passes the stable tests, demo passes without / fails with, and which check catches it.
Usage: try.py [--no-tests] [--props C01,C02|own] ID...      (all if none given)"""
import sys, os, shutil, subprocess, json, time
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
args = sys.argv[1:]; tests = True; props = 'own'; base = True
while args and args[0].startswith('--'):
    a = args.pop(0)
    if a == '--no-tests': tests = False
    if a == '--no-base': base = False
    if a == '--props': props = args.pop(0)
ids = args or sorted(os.listdir(V + '/seeded'))
W = '/tmp/seedtry%d' % os.getpid(); R = W + '/repo'; S = '/opt/vp/support'
os.makedirs(W)
env = dict(os.environ, OMP_WAIT_POLICY='passive', RC_PARAMS='seed=20231118')
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
def run(cmd, **k): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def build():
    r = run(['cmake', '-S', R, '-B', R + '/_build', '-G', 'Ninja', '-DCMAKE_BUILD_TYPE=Release', '-DCMAKE_CXX_COMPILER=/usr/bin/g++', '-DCMAKE_CXX_FLAGS=-include %s/prefix.hpp' % S])
    r = run(['ninja', '-C', R + '/_build'])
    return r.returncode == 0, r.stdout.decode(errors='replace')
def test():
    O = R + '/_build/vp-results'; shutil.rmtree(O, ignore_errors=True); os.makedirs(O + '/cases')
    if not os.path.exists(W + '/f.so'): run(['g++', '-O1', '-fPIC', '-shared', '-o', W + '/f.so', S + '/fixed_random_device.cpp'])
    run(['ctest', '--test-dir', R + '/_build/lib', '-j8', '--timeout', '300', '--output-junit', O + '/ctest.xml'], env=dict(env, LD_PRELOAD=W + '/f.so', UT_RESULTS_DIR=O + '/cases'))
    run(['python3', S + '/collect.py', O + '/cases', O + '/ctest.xml', O + '/lines.txt'])
    r = run(['python3', '/opt/vp/results.py', W + '/out.json', 'lines:' + O + '/lines.txt'])
    d = json.load(open(W + '/out.json')); return sorted(stable - set(d['passed']))
# the checks are those of now, whatever is edited meanwhile
VC = W + '/verif'; shutil.copytree(V, VC, ignore=shutil.ignore_patterns('build', 'replays', 'evidence', '.git', 'tools')); V = VC
try:
    subprocess.check_call(['git', 'clone', '-q', '/repo', R])
    if tests: ok, o = build(); assert ok, o[-2000:]
    for i in ids:
        d = V + '/seeded/' + i; meta = json.load(open(d + '/meta.json')); res = []
        if base:
            r = run(['bash', d + '/demo.sh'], cwd=R); res.append('clean demo rc=%d' % r.returncode)
            if r.returncode: res.append(r.stdout.decode(errors='replace')[-300:])
        subprocess.check_call(['git', '-C', R, 'apply', d + '/patch.diff'])
        try:
            if tests:
                ok, o = build()
                res.append('builds' if ok else 'BUILD FAILED ' + o[-600:])
                if ok:
                    f = test(); res.append('tests ok' if not f else 'TESTS FAIL %d: %s' % (len(f), f[:3]))
            r = run(['bash', d + '/demo.sh'], cwd=R); res.append('demo rc=%d %s' % (r.returncode, r.stdout.decode(errors='replace').strip()[-150:]))
            for p in ([meta['property']] if props == 'own' else [] if props == 'none' else props.split(',')):
                t = time.time()
                r = run(['python3', V + '/check.py', p], cwd=V, env=dict(os.environ, VERIF_REPO=R, VERIF_SEED='1', VERIF_TIER='quick'))
                o = r.stdout.decode(errors='replace'); v = [l for l in o.splitlines() if 'VIOLATION' in l]
                res.append('%s rc=%d %.0fs %s' % (p, r.returncode, time.time() - t, 'CAUGHT' if r.returncode == 1 and v else 'MISSED'))
                if v: res.append([l for l in o.splitlines() if l.strip()][0][:260])
        finally:
            subprocess.check_call(['git', '-C', R, 'checkout', '-q', '--', '.'])
        print(i, '|', ' | '.join(res), flush=True)
finally:
    shutil.rmtree(W, ignore_errors=True)
