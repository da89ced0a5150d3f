#!/usr/bin/env python3
"""How much of the library a check is sensitive to: one random mutation in each function file at once, in a
scratch copy; functions whose mutant is rejected are set aside until nothing more is rejected.
  mutate.py PROP[,PROP] [-n ROUNDS] [-f REGEX of functions] [-r batch|single|state|chunk|io|stream|lookback|all] [-s SEED] [-t TRIALS] [-k token|name|both]
Prints the mutations that were not noticed (many of them change nothing)."""
import os, re, random, shutil, subprocess, sys, argparse, difflib
ap = argparse.ArgumentParser()
ap.add_argument('prop'); ap.add_argument('-n', type=int, default=1); ap.add_argument('-f', default='.')
ap.add_argument('-r', default='batch'); ap.add_argument('-s', type=int, default=1); ap.add_argument('-t', type=int, default=0)
ap.add_argument('-k', default='token', help='token: operators and constants; name: identifiers and statements; both')
A = ap.parse_args()
sys.argv = ['check.py']
SC = '/tmp/w/mut-%s-%d' % (A.prop, os.getpid())
os.environ['VERIF_REPO'] = SC + '/repo'
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT); sys.path.insert(0, ROOT + '/lib')
import check
sys.modules['__main__'].__dict__.update(log=lambda *a: None)
import plan, gen
check.log = lambda *a: None
check.BUILD = SC + '/build'
os.makedirs(SC + '/build')
shutil.copytree(ROOT + '/build/classes', SC + '/build/classes')
os.makedirs(SC + '/repo/ta-lib-rt')
subprocess.check_call('cp -a /repo/ta-lib-rt/c %s/repo/ta-lib-rt/' % SC, shell=True)
C = SC + '/repo/ta-lib-rt/c'
rnd = random.Random(A.s)
SW = [(r'(?<![<>=\-])<(?![<=])', ['<=', '>']), (r'<=', ['<']), (r'(?<![\->])>(?![>=])', ['>=', '<']), (r'>=', ['>']), (r'==', ['!=']),
      (r'(?<=[\w\])]) ?\+ ?(?=[\w(])', ['-']), (r'(?<=[\w\])]) ?-(?![->=]) ?(?=[\w(])', ['+']), (r'\*(?=[ \w(])(?!/)', ['/']),
      (r'\+=', ['-=']), (r'-=', ['+=']), (r'&&', ['||']), (r'\|\|', ['&&']), (r'\bmax\b', ['min']), (r'\bmin\b', ['max']),
      (r'BodyLong\b', ['BodyShort', 'BodyDoji']), (r'\bNear\b', ['Far', 'Equal']), (r'\bEqual\b', ['Near']), (r'ShadowVeryShort\b', ['ShadowLong', 'ShadowShort']),
      (r'BodyShort\b', ['BodyLong']), (r'BodyDoji\b', ['BodyShort']), (r'ShadowLong\b', ['ShadowVeryLong', 'ShadowShort']),
      (r'i-(\d)\b', ['i-%d']), (r'\b([0-9])\b', ['%d']), (r'\b(\d+\.\d+)\b', ['F']), (r'\b1\b', ['0', '2']), (r'GAPUP', ['GAPDOWN']), (r'UPPERSHADOW', ['LOWERSHADOW']),
      (r'inOpen\b', ['inClose']), (r'inClose\b', ['inOpen']), (r'inHigh\b', ['inLow', 'inClose']), (r'inLow\b', ['inHigh', 'inClose']),
      (r'(?<=\n)[^\n;{}]*[^\n;{}= ] *[-+]?=[^\n;{}]*;', ['/*gone*/'])]


def span(t):
    """part of the file to change"""
    s5 = t.find('START GENCODE SECTION 5 ')
    s15 = t.find('START GENCODE SECTION 15')
    tops = [m.start() for m in re.finditer(r'START GENCODE SECTION (9|11) ', t)] + [s15, s15]
    return {'state': (s5, tops[0]), 'chunk': (tops[0], tops[1]), 'io': (tops[1], s15), 'batch': (t.find('END GENCODE SECTION 3'), s5), 'stream': (s5, s15), 'single': (s15, len(t)), 'lookback': (0, t.find('END GENCODE SECTION 3')),
            'all': (0, len(t))}[A.r]


def strip(t):
    """blank out comments, preprocessor and hidden sections, keeping positions"""
    u = re.sub(r'/\*.*?\*/', lambda m: re.sub(r'[^\n]', ' ', m.group()), t, flags=re.S)
    u = re.sub(r'//[^\n]*', lambda m: ' ' * len(m.group()), u)
    u = re.sub(r'#if[^\n]*(TA_LIB_PRO|_MANAGED|_JAVA)[^\n]*\n.*?#(else|endif)', lambda m: re.sub(r'[^\n]', ' ', m.group()), u, flags=re.S)
    u = re.sub(r'(?m)^#[^\n]*', lambda m: ' ' * len(m.group()), u)
    return u


KEYWORDS = set('if else while for return int double const unsigned size_t sizeof void struct static switch case break default do float char long short goto continue'.split())


def rename(t, u, sp):
    """another name, swapped arguments or operands, moved or repeated statements: (start, end, text)"""
    kind = rnd.choice(['id', 'id', 'id', 'arg', 'swap', 'twice'])
    if kind == 'id':
        ids = [m for m in re.finditer(r'(?<![\w.>])[a-z_]\w*(?:(?:\.|->)\w+)?\b(?! *\()|STATE\w*\.\w+', u[sp[0]:sp[1]]) if m.group() not in KEYWORDS]
        if len(ids) < 2:
            return None
        a, b = rnd.sample(ids, 2)
        if a.group() == b.group():
            return None
        return sp[0] + a.start(), sp[0] + a.end(), b.group()
    if kind == 'arg':
        ms = [m for m in re.finditer(r'\(([^()]*,[^()]*)\)', u) if sp[0] < m.start() < sp[1]]
        if not ms:
            return None
        m = rnd.choice(ms)
        a = m.group(1).split(',')
        i, j = rnd.sample(range(len(a)), 2)
        a[i], a[j] = a[j], a[i]
        return m.start(1), m.end(1), ','.join(a)
    ms = [m for m in re.finditer(r'(?m)^[^\n;{}]*[^\n;{} ][^\n;{}]*;[ \t]*$', u) if sp[0] < m.start() < sp[1]]
    if len(ms) < 2:
        return None
    i = rnd.randrange(len(ms) - 1)
    a, b = ms[i], ms[i + 1]
    if kind == 'twice':
        return a.start(), a.end(), a.group() + ' ' + a.group().strip()
    if u[a.end():b.start()].strip():
        return None
    return a.start(), b.end(), b.group() + u[a.end():b.start()] + a.group()


def tries(path, n):
    open(path, 'w', errors='surrogateescape', newline='').write(n)
    inc = ['-I' + os.path.join(C, x) for x in ('include', 'src/ta_common', 'src/ta_func', 'src/ta_abstract')]
    return subprocess.run(['gcc', '-w', '-fsyntax-only', *inc, path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT).returncode == 0


def told(t, n, at):
    ln = t[:at].count('\n')
    return '%4d: %s\n    => %s' % (ln + 1, t.split('\n')[ln].strip(), ' | '.join(x.strip() for x in n.split('\n')[ln:ln + 2]))


def mutate(path):
    t = open(path, errors='surrogateescape', newline='').read()
    sp = span(t)
    if not sp:
        return None
    u = strip(t)
    for _ in range(60):
        if A.k == 'name' or A.k == 'both' and rnd.random() < 0.5:
            x = rename(t, u, sp)
            if not x or x[2] == t[x[0]:x[1]]:
                continue
            n = t[:x[0]] + x[2] + t[x[1]:]
            if tries(path, n):
                return told(t, n, x[0])
            open(path, 'w', errors='surrogateescape', newline='').write(t)
            continue
        pat, reps = rnd.choice(SW)
        ms = [m for m in re.finditer(pat, u) if sp[0] < m.start() < sp[1]]
        if not ms:
            continue
        m = rnd.choice(ms)
        rep = rnd.choice(reps)
        if '%d' in rep:
            k = int(m.group(1))
            rep = rep % max(0, k + rnd.choice([-1, 1]))
        if rep == 'F':
            rep = repr(float(m.group(1)) * rnd.choice([0.98, 1.05]) + (0.01 if float(m.group(1)) == 0 else 0))
        if rep == m.group():
            continue
        n = t[:m.start()] + rep + t[m.end():]
        if tries(path, n):
            return told(t, n, m.start())
        open(path, 'w', errors='surrogateescape', newline='').write(t)
    return None


def fn_of(group):
    for ln in group:
        for w in ln.split():
            if w in gen.FN and not w.isdigit():
                yield w


names = [f for f in gen.NAMES if re.search(A.f, f)]
tot = caught = 0
for rd in range(A.n):
    muts = {}
    for f in names:
        p = C + '/src/ta_func/ta_%s.c' % f
        shutil.copy('/repo/ta-lib-rt/c/src/ta_func/ta_%s.c' % f, p)
        m = mutate(p)
        if m:
            muts[f] = m
    drv = check.build()
    run = check.Run(A.prop, drv)
    alive, dead = dict(muts), []
    crash = 0
    for P, (label, g, q, th, tol, module) in [(P, x) for P in A.prop.split(',') for x in plan.PLAN[P]]:
        run.prop = P
        groups = [x for x in g(A.s + rd, A.t or q) if set(fn_of(x)) & set(alive)]
        while groups:
            try:
                bad = run.validate(groups, tol, module, label)
            except check.CheckError as e:
                print('ERROR', str(e)[:300]); bad = []
            hit = set()
            for gs, txt, *_ in bad:
                m = re.search(r'"f":"([A-Z0-9_]+)"', txt)
                s = {m.group(1)} if m else set(fn_of(gs[-1]))
                hit |= s
            if not hit:
                break
            groups = [x for x in groups if not set(fn_of(x)) & hit] if len(next(iter(groups))) and label not in ('candle', 'value') else [[l for l in x if not set(l.split()) & hit] for x in groups]
            for f in hit:
                alive.pop(f, None)
    tot += len(muts); caught += len(muts) - len(alive)
    print('=== round %d: %d mutants, %d noticed' % (rd, len(muts), len(muts) - len(alive)), flush=True)
    for f, m in sorted(alive.items()):
        print(f, m, flush=True)
print('TOTAL %d/%d' % (caught, tot))
shutil.rmtree(SC)
