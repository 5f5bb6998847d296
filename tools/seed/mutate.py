#!/usr/bin/env python3
"""Mutation sweep: single-token changes of the library, each run against the checks until one reports it.
Usage: mutate.py --list FILE...            shows the mutants
       mutate.py [--part i/n] [--every k] [--log F] FILE...   (paths relative to lib/)"""
import sys, os, re, shutil, subprocess, time
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
args = sys.argv[1:]; show = False; part = (0, 1); log = None; every = 1; only = None; start = 0
while args and args[0].startswith('--'):
    a = args.pop(0)
    if a == '--list': show = True
    if a == '--part': i, n = args.pop(0).split('/'); part = (int(i), int(n))
    if a == '--log': log = args.pop(0)
    if a == '--every': every = int(args.pop(0))
    if a == '--only': only = set(args.pop(0).split(','))
ORDER = {
 'algo': 'C03 C04 C01 C06 C19 C02 C16 C05 C27 C18 C07 C26 C08 C23 C25',
 'tsetlini.cpp': 'C12 C11 C02 C26 C03 C10 C09 C24 C21 C07 C04 C23',
 'params': 'C15 C11', 'include/tsetlini.hpp': 'C15 C12', 'arg_extract': 'C15',
 'json': 'C13 C23', 'state': 'C24 C09 C13 C14 C06 C07 C03 C05 C23 C10 C04', 'coin': 'C16 C03 C23 C13', 'loss': 'C19', 'box': 'C19 C23',
 'mt.hpp': 'C17 C13 C16 C14', 'bit_': 'C20 C01 C06 C12 C23', 'numeric': 'C20 C23 C13', 'aligned': 'C22 C20 C23',
}
REST = 'C12 C11 C24 C09 C10 C13 C21 C26 C15 C20 C22 C17 C05 C18 C16 C19 C06 C02 C14 C08 C23'.split()
RULES = [
 (r'(?<![<>=!-])<=(?!=)', '<'), (r'(?<![<>=!-])>=(?!=)', '>'), (r'(?<=[\w\)\]] )<(?= [\w\(-])', '<='), (r'(?<=[\w\)\]] )>(?= [\w\(-])', '>='),
 (r'==', '!='), (r'!=', '=='), (r'&&', '||'), (r'\|\|', '&&'), (r'(?<=[\w\)\]] )\+(?= [\w\(])', '-'), (r'(?<=[\w\)\]] )-(?= [\w\(])', '+'),
 (r'\+\+', '--'), (r'--(?=\w)', '++'), (r'(?<=[\w\)\]] )/(?= [\w\(])', '*'), (r'(?<=[\w\)\]] )\*(?= [\w\(])', '/'), (r'(?<=[\w\)\]] )%(?= [\w\(])', '/'),
 (r'\b0\b', '1'), (r'\b1\b', '0'), (r'\b1\b', '2'), (r'\b2\b', '3'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\bmin\b', 'max'), (r'\bmax\b', 'min'),
 (r'(?<=[\w\)\]] )& (?=[\w\(~])', '| '), (r'(?<=[\w\)\]] )\| (?=[\w\(~])', '& '), (r'\^', '|'), (r'~', ''), (r'!(?=[\w\(])', ''), (r'<<', '>>'), (r'>>', '<<'),
 (r'\|=', '&='), (r'&=', '|='), (r'\^=', '|='), (r'\+=', '-='), (r'-=', '+='), (r'\b(\w+)\.size\(\)', r'(\1.size() - 1)'),
]
def mutants(f, text):
    out = []; lines = text.split('\n'); comment = False
    for n, l in enumerate(lines):
        s = l.strip()
        if '/*' in s: comment = True
        if '*/' in s: comment = False; continue
        if comment or not s or s.startswith(('//', '#', 'template', 'LOG', 'using', 'static_assert', '*')): continue
        code = l.split('//')[0]
        if re.search(r'LOG_|"[^"]*"', code) and not re.search(r'if|==', code): continue
        done = set()
        for rx, rep in RULES:
            for m in re.finditer(rx, code):
                if code[:m.start()].count('"') % 2: continue
                if rx in ('<<', '>>') and ('stream' in code or '"' in code or 'vector' in code): continue
                if re.search(r'<[\w:, \.]*$', code[:m.start()]) and re.match(r'[\w:, \.]*>', code[m.end():]): continue
                new = code[:m.start()] + m.expand(rep) + l[m.end():]
                if new not in done: done.add(new); out.append((f, n, l, new))
        if re.match(r'^\s*[\w\.\[\]:\->]+(\(.*\)| [+\-\|&^]?= .*);\s*$', code) and not re.match(r'^\s*(return|break|continue|auto|const|using|int|unsigned|throw)\b', code):
            out.append((f, n, l, re.match(r'\s*', l).group(0) + ';'))
    return out
W = '/tmp/mutate%d' % os.getpid(); R = W + '/repo'; os.makedirs(W)
try:
    subprocess.check_call(['git', 'clone', '-q', '/repo', R])
    M = []
    for f in args: M += mutants(f, open(R + '/lib/' + f).read())
    M = [m for i, m in enumerate(M) if i % every == 0]
    M = [m for i, m in enumerate(M) if i % part[1] == part[0]]
    if show:
        for f, n, l, new in M: print('%s:%d: %s  =>  %s' % (f, n + 1, l.strip(), new.strip()))
        print(len(M)); sys.exit(0)
    VC = W + '/verif'; shutil.copytree(V, VC, ignore=shutil.ignore_patterns('build', 'replays', 'evidence', '.git', 'tools', 'seeded'))
    for f, n, l, new in M:
        p = R + '/lib/' + f; text = open(p).read(); ls = text.split('\n'); ls[n] = new
        open(p, 'w').write('\n'.join(ls)); t = time.time()
        try:
            src = p if p.endswith('.cpp') else R + '/lib/src/tsetlini.cpp'
            c = subprocess.run(['g++', '-std=c++17', '-w', '-fopenmp', '-include', 'cstdint', '-I' + R + '/lib/include', '-I' + R + '/lib/src', '-fsyntax-only', src], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if c.returncode: continue
            key = next((v for k, v in ORDER.items() if k in f), '')
            order = key.split(); order += [c for c in REST if c not in order]
            if only: order = [c for c in order if c in only]
            by = None; notes = []
            for c in order:
                try: r = subprocess.run(['python3', VC + '/check.py', c], cwd=VC, env=dict(os.environ, VERIF_REPO=R, VERIF_SEED='1', VERIF_TIER='quick'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=900)
                except subprocess.TimeoutExpired: notes.append(c + ' timeout'); continue
                if r.returncode == 1: by = c; break
                if r.returncode: notes.append(c + ' rc=%d' % r.returncode)
            s = '%s %s:%d: %s  =>  %s  [%.0fs] %s' % (by or 'SURVIVED', f, n + 1, l.strip(), new.strip(), time.time() - t, ' '.join(notes))
            print(s, flush=True)
        finally:
            open(p, 'w').write(text); shutil.rmtree(VC + '/build', ignore_errors=True)
finally: shutil.rmtree(W, ignore_errors=True)
