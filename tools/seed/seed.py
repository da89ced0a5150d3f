#!/usr/bin/env python3
"""Planted bugs.
  seed.py new FILE...     create seeded/<id> from descriptions and confirm them (build, tests, demo)
  seed.py try ID... [-p P] run the check of the seed's property (or P) against each
A description is a python file defining S, a list of dicts: id, prop, needs, breaks, edits [(file, old, new)],
demo (C text of main's file).  Everything runs in copies below /tmp, in a private mount namespace where the
copy stands for /repo."""
import json, os, subprocess, sys, shutil, concurrent.futures as cf
ROOT = '/verif'
SEED = os.path.join(ROOT, 'seeded')
HERE = os.path.dirname(os.path.abspath(__file__))
F = 'ta-lib-rt/c/src/ta_func/'
BASE = set(json.load(open('/opt/vp/BASELINE.json')).get('passed', json.load(open('/opt/vp/BASELINE.json')).get('stable', [])))


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)


def worker(w):
    d = '/tmp/w/sw%d' % w
    if not os.path.exists(d + '/repo/.git'):
        os.makedirs(d, exist_ok=True)
        sh('cp -a /repo %s/repo' % d)
        sh('mkdir -p %s/verif' % d)
    head = sh('git -C /repo rev-parse HEAD').stdout.strip()
    sh('cd %s/repo && git checkout -q -f . && git fetch -q /repo && git checkout -q -f %s' % (d, head))
    return d


def ns(d, cmd, verif=False, timeout=1200):
    pre = 'mount --bind %s/repo /repo && ' % d
    if verif:
        sh('mkdir -p %s/verif && rsync -a --delete --exclude seeded --exclude build --exclude evidence --exclude .git /verif/ %s/verif/ && mkdir -p %s/verif/build && cp -a /verif/build/classes %s/verif/build/' % (d, d, d, d))
        pre += 'mount --bind %s/verif /verif && ' % d
    open(d + '/cmd.sh', 'w').write(pre + cmd)
    return sh('timeout %d unshare -Urm bash %s/cmd.sh' % (timeout, d))


def tests_ok(d):
    r = ns(d, 'bash /opt/vp/test.sh %s/out.json' % d)
    try:
        got = set(json.load(open(d + '/out.json'))['passed'])
    except Exception as e:
        return False, r.stdout[-800:]
    return BASE <= got, '' if BASE <= got else 'broken tests: %d e.g. %s' % (len(BASE - got), sorted(BASE - got)[:3])


def confirm(a):
    w, i = a
    d = worker(w)
    s = os.path.join(SEED, i)
    demo = d + '/demo'
    shutil.rmtree(demo, ignore_errors=True)
    shutil.copytree(s, demo)
    r = ns(d, 'bash /opt/vp/build.sh >/dev/null 2>&1; cd /repo && bash %s/demo.sh' % demo)
    if r.returncode:
        return i, 'demo fails on the unchanged tree: ' + r.stdout[-500:]
    r = sh('git -C %s/repo apply %s/patch.diff' % (d, s))
    if r.returncode:
        return i, 'patch does not apply ' + r.stdout
    ok, why = tests_ok(d)
    if not ok:
        sh('git -C %s/repo checkout -q -f .' % d)
        return i, 'tests: ' + why
    r = ns(d, 'cd /repo && bash %s/demo.sh' % demo)
    sh('git -C %s/repo checkout -q -f .' % d)
    if not r.returncode or r.returncode == 3:
        return i, 'demo does not notice: %d %s' % (r.returncode, r.stdout[-300:])
    return i, ''


def new(files):
    ids = []
    for f in files:
        g = {'F': F}
        exec(open(f).read(), g)
        d = worker(0)
        for s in g['S']:
            o = os.path.join(SEED, s['id'])
            os.makedirs(o, exist_ok=True)
            sh('git -C %s/repo checkout -q -f .' % d)
            good = True
            for e in s['edits']:
                fn, old, nw = e[:3]
                p = '%s/repo/%s' % (d, fn)
                t = open(p, errors='surrogateescape', newline='').read()
                crlf = '\r\n' in t
                if crlf:
                    old, nw = old.replace('\n', '\r\n'), nw.replace('\n', '\r\n')
                c = t.count(old)
                want = e[3] if len(e) > 3 else 'only'
                if c < 1 or (want == 'only' and c != 1):
                    print(s['id'], 'edit matches', c, 'times:', old[:80])
                    good = False
                    continue
                if want == 'only':
                    t = t.replace(old, nw)
                elif want == 'all':
                    t = t.replace(old, nw)
                else:                       # ('n', k): k-th occurrence only (1-based)
                    k = 1 if want == 'first' else want
                    q = -1
                    for _ in range(abs(k) if k > 0 else 1):
                        q = t.find(old, q + 1)
                    if k == -1:
                        q = t.rfind(old)
                    t = t[:q] + nw + t[q + len(old):]
                open(p, 'w', errors='surrogateescape', newline='').write(t)
            sh('git -C %s/repo diff > %s/patch.diff' % (d, o))
            sh('git -C %s/repo checkout -q -f .' % d)
            open(o + '/demo.c', 'w').write('#include "demo.h"\n' + s['demo'])
            shutil.copy(HERE + '/demo.h', o)
            shutil.copy(HERE + '/demo.sh', o)
            json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(o + '/meta.json', 'w'), indent=1)
            if good:
                ids.append(s['id'])
            else:
                shutil.rmtree(o)
    res = par(confirm, ids)
    for i, e in res:
        print(i, 'ok' if not e else 'BAD ' + e)


def par(fn, ids, nw=2):
    import queue
    q = queue.Queue()
    for w in range(nw):
        q.put(w)

    def one(i):
        w = q.get()
        try:
            return fn((w, i))
        finally:
            q.put(w)
    with cf.ThreadPoolExecutor(nw) as ex:
        return list(ex.map(one, ids))


def attempt(a, prop=None):
    w, i = a
    d = worker(w)
    s = os.path.join(SEED, i)
    p = prop or json.load(open(s + '/meta.json'))['property']
    r = sh('git -C %s/repo apply %s/patch.diff' % (d, s))
    r = ns(d, 'cd /verif && VERIF_SHARDS=%s python3 check.py %s' % (os.environ.get('SH', '8'), p), verif=True)
    sh('git -C %s/repo checkout -q -f .' % d)
    v = [x for x in r.stdout.split('\n') if 'VIOLATION' in x or 'rejected' in x]
    return i, '%s %s' % (p, 'caught: ' + v[0][:160] if r.returncode == 1 and v else 'MISSED rc %d %s' % (r.returncode, r.stdout[-300:]))


if __name__ == '__main__':
    if sys.argv[1] == 'new':
        new(sys.argv[2:])
    else:
        args = sys.argv[2:]
        prop = None
        if '-p' in args:
            k = args.index('-p')
            prop = args[k + 1]
            del args[k:k + 2]
        ids = args or sorted(os.listdir(SEED))
        for i, e in par(lambda a: attempt(a, prop), ids):
            print(i, e)
