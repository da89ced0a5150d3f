#!/usr/bin/env python3
"""Mutations of the shared files of the library, one at a time, each against a list of checks until one notices.
  mutlib.py FILE(relative to ta-lib-rt/c/src) PROP,PROP.. [-n COUNT] [-s SEED] [-w WORKERS] [-l FROM-TO lines]
Prints the mutations that no check noticed."""
import os, re, sys, random, argparse, subprocess, concurrent.futures as cf, queue
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'seed'))
import seed as S
ap = argparse.ArgumentParser()
ap.add_argument('file'); ap.add_argument('props'); ap.add_argument('-n', type=int, default=20); ap.add_argument('-s', type=int, default=1)
ap.add_argument('-w', type=int, default=2); ap.add_argument('-l', default='1-1000000'); ap.add_argument('--base', type=int, default=20)
A = ap.parse_args()
lo, hi = map(int, A.l.split('-'))
rnd = random.Random(A.s)
P = 'ta-lib-rt/c/src/' + A.file
t = open('/repo/' + P, errors='surrogateescape', newline='').read()
u = re.sub(r'/\*.*?\*/', lambda m: re.sub(r'[^\n]', ' ', m.group()), t, flags=re.S)
u = re.sub(r'//[^\n]*', lambda m: ' ' * len(m.group()), u)
u = re.sub(r'#if[^\n]*(TA_LIB_PRO|_MANAGED|_JAVA)[^\n]*\n.*?#(else|endif)', lambda m: re.sub(r'[^\n]', ' ', m.group()), u, flags=re.S)
if not A.file.endswith('.h'):
    u = re.sub(r'(?m)^#[^\n]*', lambda m: ' ' * len(m.group()), u)
SW = [(r'(?<![<>=\-])<(?![<=])', ['<=', '>']), (r'<=', ['<']), (r'(?<![\->])>(?![>=])', ['>=', '<']), (r'>=', ['>']), (r'==', ['!=']), (r'!=', ['==']),
      (r'(?<=[\w\])]) ?\+ ?(?=[\w(])', ['-']), (r'(?<=[\w\])]) ?-(?![->=]) ?(?=[\w(])', ['+']), (r'\*(?=[ \w(])(?!/)', ['/']),
      (r'&&', ['||']), (r'\|\|', ['&&']), (r'\b([0-9])\b', ['%d']), (r'\b(\d+\.\d+)\b', ['F']), (r'\b1\b', ['0', '2']), (r'!(?=[\w(])', ['']), (r'\+\+', ['--']),
      (r'(?<=\n)[^\n;{}]*[^\n;{}= ] *[-+]?=[^\n;{}]*;', ['/*gone*/']), (r'(?<=\n) *return [^\n;]*;', ['/*gone*/']), (r'(?<=\n) *\w+\([^\n;]*\);', ['/*gone*/']),
      (r'\bTA_(BAD_PARAM|INVALID_HANDLE|INVALID_PARAM_HOLDER_TYPE|FUNC_NOT_FOUND|GROUP_NOT_FOUND|INVALID_PARAM_FUNCTION|BAD_OBJECT)\b', ['TA_SUCCESS', 'TA_INTERNAL_ERROR(9)'])]
inc = ['-I/repo/ta-lib-rt/c/' + x for x in ('include', 'src/ta_common', 'src/ta_func', 'src/ta_abstract', 'src/ta_abstract/frames')]


def pick():
    while True:
        pat, reps = rnd.choice(SW)
        ms = [m for m in re.finditer(pat, u) if lo <= t.count('\n', 0, m.start()) + 1 <= hi]
        if not ms:
            continue
        m = rnd.choice(ms)
        rep = rnd.choice(reps)
        if '%d' in rep:
            rep = rep % max(0, int(m.group(1)) + rnd.choice([-1, 1]))
        if rep == 'F':
            rep = repr(float(m.group(1)) * rnd.choice([0.98, 1.05]) + (0.01 if float(m.group(1)) == 0 else 0))
        if rep == m.group():
            continue
        n = t[:m.start()] + rep + t[m.end():]
        ln = t.count('\n', 0, m.start())
        return n, '%4d: %s\n   => %s' % (ln + 1, t.split('\n')[ln].strip(), n.split('\n')[ln].strip())


seen, todo = set(), []
while len(todo) < A.n:
    n, d = pick()
    if d in seen:
        continue
    seen.add(d)
    if A.file.endswith('.c'):
        x = '/tmp/w/mutlib-%d.c' % os.getpid()
        open(x, 'w', errors='surrogateescape', newline='').write(n)
        if subprocess.run(['gcc', '-w', '-fsyntax-only', *inc, '-I/repo/ta-lib-rt/c/src/' + os.path.dirname(A.file), x], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode:
            continue
    todo.append((n, d))
q = queue.Queue()
for w in range(A.w):
    q.put(A.base + w)


def one(x):
    n, d = x
    w = q.get()
    try:
        dd = S.worker(w)
        open('%s/repo/%s' % (dd, P), 'w', errors='surrogateescape', newline='').write(n)
        for p in A.props.split(','):
            r = S.ns(dd, 'cd /verif && VERIF_SHARDS=%d python3 check.py %s' % (max(2, 8 // A.w), p), verif=True)
            if r.returncode == 1 and 'VIOLATION' in r.stdout:
                print('caught by', p, d.replace('\n', ' ')[:150], flush=True)
                return True
            if r.returncode:
                print('caught? by', p, 'rc', r.returncode, r.stdout[-200:].replace('\n', ' | '), d.replace('\n', ' ')[:150], flush=True)
                return True
        print('MISSED', d, flush=True)
        return False
    finally:
        q.put(w)


with cf.ThreadPoolExecutor(A.w) as ex:
    res = list(ex.map(one, todo))
print('TOTAL %d/%d' % (sum(res), len(res)))
