#!/usr/bin/env python3
"""Builds the library from /repo's working tree together with one harness, explores,
and reports.   check.py ID [--tier quick|thorough] [--case LABEL] [--keep]

exit 0: the property held on everything explored
exit 1: it is broken; a line VIOLATION property=<id> replay=<path>
exit 2: the check itself could not run (does not compile, ...)
"""
import argparse, concurrent.futures as cf, glob, hashlib, json, os, shlex, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
LIB = os.path.join(REPO, 'lib')
BASE = ['-std=c++17', '-w', '-fopenmp', '-include', 'cstdint', '-I' + LIB + '/include', '-I' + LIB + '/src', '-I' + V + '/harness']
ASSERT = ['-D_GLIBCXX_ASSERTIONS']
ASAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=alignment', '-g1', '-fno-omit-frame-pointer']

# id: harness source, flags for library and harness, whether json (slow to compile) is needed, extra sources
PROPS = json.load(open(os.path.join(V, 'props.json')))


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def tree_hash():
    h = hashlib.sha256()
    for root in (LIB + '/include', LIB + '/src', V + '/harness'):
        for d, ds, fs in sorted(os.walk(root)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode() + b'\0')
                with open(p, 'rb') as fh:
                    h.update(fh.read())
    return h.hexdigest()


def build(pid, tier, out):
    p = PROPS[pid]
    opt = p.get('opt_' + tier) or p.get('opt', ['-O2'])
    flags = BASE + opt + ASSERT + (ASAN if p.get('asan') else ['-DNDEBUG'])
    libflags = flags + p.get('libflags', [])
    jobs = []
    srcs = [] if p.get('nolib') else sorted(glob.glob(LIB + '/src/*.cpp'))
    for s in srcs:
        jobs.append((s, libflags))
    for h in p['harness']:
        own = p.get('hflags', [])
        if isinstance(h, list):        # a source with flags of its own
            h, own = h
        jobs.append((os.path.join(V, 'harness', h), flags + own + (['-DVF_THOROUGH'] if tier == 'thorough' else [])))
    cache = os.path.join(V, 'build', 'cache')
    os.makedirs(cache, exist_ok=True)
    th = tree_hash()

    def one(j):
        src, fl = j
        key = hashlib.sha256((th + src + ' '.join(fl)).encode()).hexdigest()[:32]
        obj = os.path.join(cache, key + '.o')
        if not os.path.exists(obj):
            tmp = obj + '.%d.tmp' % os.getpid()
            r = sh(['g++'] + fl + ['-c', src, '-o', tmp])
            if r.returncode:
                return src, None, r.stdout
            os.replace(tmp, obj)
        else:
            os.utime(obj)
        return src, obj, ''

    # the slowest ones first
    jobs.sort(key=lambda j: (not j[0].startswith(V), -os.path.getsize(j[0])))
    with cf.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, jobs))
    for src, obj, msg in res:
        if obj is None:
            print('cannot compile %s\n%s' % (src, msg[-4000:]))
            return None
    exe = os.path.join(out, 'harness')
    link = ['g++'] + opt + (ASAN[:2] if p.get('asan') else []) + [o for _, o, _ in res] + ['-o', exe] + p.get('ldflags', ['-fopenmp']) + ['-lpthread']
    r = sh(link)
    if r.returncode:
        print('cannot link\n' + r.stdout[-4000:])
        return None
    # keep the cache small
    objs = sorted(glob.glob(cache + '/*.o'), key=os.path.getmtime)
    for o in objs[:-400]:
        try:
            os.remove(o)
        except OSError:
            pass
    return exe


def known(pid):
    r = {}
    f = os.path.join(V, 'known_findings.txt')
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith('known: property=%s case=' % pid):
                rest = l.split('case=', 1)[1]
                case, _, what = rest.partition(' :: ')
                r[case.strip()] = what
    return r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--case')
    ap.add_argument('--list', action='store_true')
    ap.add_argument('--jobs', default='8')
    a = ap.parse_args()
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    p = PROPS[a.id]
    env = dict(os.environ)
    env.update(OMP_WAIT_POLICY='passive', GOMP_SPINCOUNT='0', OMP_DYNAMIC='false',
               ASAN_OPTIONS='detect_leaks=0:detect_stack_use_after_return=1:handle_abort=1:allocator_may_return_null=0:max_allocation_size_mb=4096',
               UBSAN_OPTIONS='print_stacktrace=0')
    for k in ('OMP_NUM_THREADS', 'OMP_THREAD_LIMIT', 'GOMP_CPU_AFFINITY', 'OMP_PROC_BIND'):
        env.pop(k, None)
    for k, v in p.get('env', {}).items():
        env[k] = (env[k] + ':' if k in env else '') + v
    out = tempfile.mkdtemp(prefix='vf-%s-' % a.id)
    try:
        exe = build(a.id, tier, out)
        if exe is None:
            return 2
        tb = time.time() - t0
        args = [exe, '--dir', out, '--jobs', a.jobs] + (['--thorough'] if tier == 'thorough' else [])
        if a.list:
            return subprocess.call(args + ['--list'], env=env)
        if a.case:
            rc = subprocess.call(args + ['--case', a.case], env=env)
            if rc != 0:
                print('VIOLATION property=%s replay=%s' % (a.id, a.case))
            return 1 if rc else 0
        limit = p.get('limit', 160 if tier == 'quick' else 1500)
        res = os.path.join(out, 'res.json')
        try:
            r = sh(args + ['--out', res, '--limit', str(limit)], env=env, timeout=820 if tier == 'quick' else 6 * 3600)
        except subprocess.TimeoutExpired:
            print('exploration did not finish in time')
            return 2
        if not os.path.exists(res):
            print('harness failed, status %d\n%s' % (r.returncode, r.stdout[-3000:]))
            return 2
        d = json.load(open(res))
        kn = known(a.id)
        viol, kfound, dropped = [], [], []
        for v in d['violations']:
            if v['case'] in kn:
                if v['case'] not in [k for k, _ in kfound]:
                    kfound.append((v['case'], kn[v['case']]))
                continue
            viol.append(v)
        # replay before reporting, the first few are enough
        confirmed = []
        for v in viol[:6]:
            if time.time() - t0 > 600:
                break
            if v['case'] == '?':
                v['replayed'] = 'not attributable to a case'
                confirmed.append(v)
                continue
            hung = v['msg'].startswith('HANG')
            rep = None
            for _ in range(3):
                try:
                    q = sh(args + ['--case', v['case']], env=env, timeout=2 * limit if hung else limit + 30)
                    rep = q.returncode != 0
                    tail = q.stdout[-1500:]
                except subprocess.TimeoutExpired:
                    rep, tail = True, 'HANG'
                if rep:
                    break
            v['replayed'] = 'reproduced alone: ' + tail if rep else 'not reproduced alone'
            if rep or not (hung or 'signal 9 ' in v['msg']):
                confirmed.append(v)
                if rep:
                    break
            else:
                dropped.append(v)
        for c, what in kfound:
            print('KNOWN-FINDING: property=%s case=%s %s' % (a.id, c, what))
        ev = {
            'property': a.id, 'tier': tier, 'seed': seed, 'level': 'model_checking',
            'coverage': {
                'states': d['states'], 'transitions': d['transitions'], 'traces_validated_against_impl': d['traces'],
                'samples': d['samples'], 'exhaustive_within_bounds': not viol and d['cases_done'] == d['cases'],
                'cases': d['cases'], 'cases_completed': d['cases_done'], 'counters': d['counters'],
                'bounds': p.get('bounds', ''),
                'how_validated': p.get('how', 'every transition is an execution of the library built from the working tree, compared with the reference model at each step'),
            },
            'violations': len(confirmed), 'known_findings': [c for c, _ in kfound],
            'unreproduced_timeouts': [x['case'] for x in dropped],
            'assumptions': p.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'build_s': round(tb, 2),
        }
        os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
        with open(os.path.join(V, 'evidence', a.id + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
        if confirmed:
            rd = os.path.join(V, 'replays')
            os.makedirs(rd, exist_ok=True)
            for i, v in enumerate(confirmed[:3]):
                rp = os.path.join(rd, '%s-%d.json' % (a.id, i))
                with open(rp, 'w') as f:
                    json.dump({'property': a.id, 'case': v['case'], 'message': v['msg'], 'replayed': v['replayed'], 'tier': tier,
                               'command': 'python3 %s/check.py %s --tier %s --case %s' % (V, a.id, tier, shlex.quote(v['case']))}, f, indent=1)
                print('%s: %s: %s' % (a.id, v['case'], v['msg'][:800]))
                print('VIOLATION property=%s replay=%s' % (a.id, rp))
            return 1
        if d['cases_done'] != d['cases']:
            print('only %d of %d cases were completed' % (d['cases_done'], d['cases']))
            return 2
        if d['states'] == 0 or d['transitions'] == 0 or d['traces'] == 0:
            print('vacuous exploration: %s' % {k: d[k] for k in ('states', 'transitions', 'traces')})
            return 2
        print('%s held: %d cases, %d states, %d transitions, %d traces, %.1f s (build %.1f s)' % (
            a.id, d['cases'], d['states'], d['transitions'], d['traces'], time.time() - t0, tb))
        return 0
    finally:
        shutil.rmtree(out, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
