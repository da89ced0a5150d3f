#!/usr/bin/env python3
"""check.py PROPERTY : decide one property of /repo's working tree.

Builds the library from /repo, lets the conformance driver execute scripts against it, and has TLC
check the recorded traces against the TLA+ specification in spec/ (and, where a property has one, the
exhaustive model of it).  Exit 0: accepted; 1: a VIOLATION line was printed; 2: the check itself failed.
"""
import glob, hashlib, json, os, re, shutil, subprocess, sys, time, traceback
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, 'lib'))
REPO = os.environ.get('VERIF_REPO', '/repo')
C = os.path.join(REPO, 'ta-lib-rt', 'c')
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
BUILD = os.path.join(ROOT, 'build')
JAR = '/opt/veriftools/tla/tla2tools.jar'
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NSH = int(os.environ.get('VERIF_SHARDS', '8'))
T0 = time.time()


def log(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, flush=True)


class CheckError(Exception):
    pass


# ---------------------------------------------------------------- building
def sources():
    r = []
    for d in ('ta_func', 'ta_common', 'ta_abstract'):
        for p, dd, ff in os.walk(os.path.join(C, 'src', d)):
            if any(x in p for x in ('excel', 'ta_java', 'templates')):
                continue
            r += [os.path.join(p, f) for f in ff if f.endswith('.c')]
    # excel glue, java glue and the generated XML text are not part of what is specified
    return sorted(f for f in r if not re.search(r'(excel_glue|ta_java|ta_func_api)', f))


def build(tag='std', flags=('-O1', '-g')):
    """library + driver from the working tree"""
    out = os.path.join(BUILD, tag)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(os.path.join(out, 'o'))
    inc = ['-I' + os.path.join(C, x) for x in ('include', 'src/ta_common', 'src/ta_func', 'src/ta_abstract', 'src/ta_abstract/frames')]
    jobs = []
    for s in sources():
        jobs.append((s, os.path.join(out, 'o', hashlib.md5(s.encode()).hexdigest()[:12] + '.o'), inc))
    for s in ('main.c', 'glue.c'):
        jobs.append((os.path.join(ROOT, 'driver', s), os.path.join(out, 'o', 'drv_' + s + '.o'), inc + ['-I' + os.path.join(ROOT, 'driver')]))
    stub = os.path.join(out, 'stub.c')
    open(stub, 'w').write('const char *TA_FunctionDescriptionXML(void) { return ""; }\n')
    jobs.append((stub, os.path.join(out, 'o', 'stub.o'), []))
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    run, i = [], 0
    while i < len(jobs) or run:
        while len(run) < 8 and i < len(jobs):
            s, o, inc_ = jobs[i]
            i += 1
            run.append((s, subprocess.Popen(['gcc', '-w', *flags, *inc_, '-c', s, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        s, p = run.pop(0)
        t = p.communicate()[0]
        if p.returncode:
            raise CheckError('cannot compile %s:\n%s' % (s, t.decode()[-2000:]))
    drv = os.path.join(out, 'driver')
    r = subprocess.run(['gcc', *flags, *[j[1] for j in jobs], '-lm', '-o', drv] + ['-Wl,--wrap=%s' % x for x in ('malloc', 'calloc', 'realloc', 'free')],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise CheckError('cannot link:\n' + r.stdout.decode()[-2000:])
    return drv


def classes():
    d = os.path.join(BUILD, 'classes')
    src = os.path.join(ROOT, 'spec', 'Flt.java')
    f = os.path.join(d, 'Flt.class')
    if not os.path.exists(f) or os.path.getmtime(f) < os.path.getmtime(src):
        os.makedirs(d, exist_ok=True)
        r = subprocess.run(['javac', '-cp', JAR, '-d', d, src], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise CheckError('javac: ' + r.stdout.decode())
    return d


# ---------------------------------------------------------------- TLC
def tlc(module, cfg=None, env=(), workers=1, extra=(), mem='3g', timeout=800):
    d = os.path.join(BUILD, 'tlc', '%s-%d-%d' % (module, os.getpid(), tlc.n))
    tlc.n += 1
    os.makedirs(d, exist_ok=True)
    e = dict(os.environ, **dict(env))
    cmd = ['timeout', str(timeout), 'java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-Xss32m', '-Xmx' + mem,
           '-cp', classes() + ':' + os.path.join(ROOT, 'spec') + ':' + CP,
           '-DTLA-Library=' + os.path.join(ROOT, 'spec'), 'tlc2.TLC', '-nowarning', '-noGenerateSpecTE', '-workers', str(workers),
           '-metadir', d, *extra, '-config', os.path.join(ROOT, 'spec', (cfg or module) + '.cfg'), os.path.join(ROOT, 'spec', module + '.tla')]
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=d)
    p.dir = d
    return p


tlc.n = 0


def finish(p):
    """-> dict(ok, rejected line or None, states, transitions, text)"""
    txt = p.communicate()[0].decode(errors='replace')
    shutil.rmtree(p.dir, ignore_errors=True)
    r = dict(ok='No error has been found' in txt, line=None, text=txt, states=0, transitions=0, err=False)
    m = re.search(r'(\d+) states generated, (\d+) distinct states', txt)
    if m:
        r['transitions'], r['states'] = int(m.group(1)), int(m.group(2))
    m = re.search(r'"REJECTED", (\d+), (\d+)', txt)
    if m:
        r['line'] = int(m.group(1))
    elif not r['ok']:
        st = re.findall(r'^State (\d+):', txt, re.M)
        if st:
            r['line'] = max(map(int, st))     # the line being consumed when an invariant or evaluation failed
            r['err'] = 'is violated' not in txt
    return r


# ---------------------------------------------------------------- traces
class Run:
    def __init__(self, prop, drv):
        self.prop, self.drv = prop, drv
        self.dir = os.path.join(BUILD, 'run-' + prop)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.stats = dict(states=0, transitions=0, groups=0, calls=0, events={}, functions=set())
        self.samples = []
        self.said = ''

    def drive(self, name, groups, timeout=240):
        """write and execute a script; returns the trace file"""
        s, t = os.path.join(self.dir, name + '.txt'), os.path.join(self.dir, name + '.ndjson')
        with open(s, 'w') as f:
            for g in groups:
                f.write('\n'.join(g) + '\n')
        return s, t, subprocess.Popen([self.drv, s, t, str(timeout)], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)

    def validate(self, groups, tol=6, module='Trace', label='t'):
        """run all groups; returns the list of rejected groups [(group, line text, err)]"""
        shards = [groups[k::NSH] for k in range(NSH)]
        shards = [s for s in shards if s]
        files, procs = [], []
        for k, s in enumerate(shards):
            files.append(self.drive('%s%d' % (label, k), s))
        for s, t, p in files:
            e = p.communicate()[1]
            if p.returncode:
                raise CheckError('driver failed on %s: %s' % (s, e.decode()[-500:]))
        log('%s: %d groups executed' % (label, len(groups)))
        for s, t, p in files:
            procs.append(tlc(module, env=dict(TRACE=t, TOL=str(tol), PROP=self.prop).items()))
        bad = []
        for (s, t, _), p, sh in zip(files, procs, shards):
            r = finish(p)
            self.stats['states'] += r['states']
            self.stats['transitions'] += r['transitions']
            lines = 0
            for ln in open(t, errors='replace'):
                m = re.match(r'\{"e":"(\w+)"', ln)
                lines += 1
                if m:
                    self.stats['events'][m.group(1)] = self.stats['events'].get(m.group(1), 0) + 1
                m = re.search(r'"f":"([A-Z0-9_]+)"', ln[:200])
                if m:
                    self.stats['functions'].add(m.group(1))
            self.stats['calls'] += lines
            if r['ok']:
                self.stats['groups'] += len(sh)
            elif r['line'] is None:
                raise CheckError('TLC: ' + r['text'][-3000:])
            else:
                gi, txt = self.locate(t, r['line'])
                self.stats['groups'] += gi
                bad.append((sh[:gi + 1], txt, r, sh[gi + 1:]))
            os.unlink(t)
        return bad

    @staticmethod
    def locate(trace, line):
        gi, txt = -1, ''
        for i, ln in enumerate(open(trace, errors='replace'), 1):
            if i > line:
                break
            if ln.startswith('{"e":"Forget"'):
                gi += 1
            txt = ln
        return max(gi, 0), txt.strip()[:1500]

    def confirm(self, group, tol, module):
        """run one group alone; (rejected?, line)"""
        s, t, p = self.drive('confirm', [group])
        e = p.communicate()[1]
        self.said = e.decode(errors='replace')
        if p.returncode:
            raise CheckError('driver failed: ' + e.decode()[-500:])
        r = finish(tlc(module, env=dict(TRACE=t, TOL=str(tol), PROP=self.prop).items()))
        if r['ok']:
            return False, '', r
        if r['line'] is None:
            raise CheckError('TLC: ' + r['text'][-3000:])
        return True, self.locate(t, r['line'])[1], r

    # these compare two calculations of one value; where its definition hangs on rounding both may be right
    SHOWING = ('C01', 'C07', 'C10', 'C11', 'C12')

    @staticmethod
    def showing(group):
        """the group with its series on display, so that the definitions of the outputs can be consulted"""
        out = []
        for ln in group:
            out.append(ln)
            w = ln.split(None, 3)
            if w and w[0] in ('D', 'E'):
                size = int(w[2])
            if w and w[0] in ('D', 'E', 'P') and size <= 3000:
                out.append('Y ' + w[1])
        return out

    def report(self, bad, tol, module, n=0, shown=False):
        """print a VIOLATION line for every rejected group; number of violations"""
        n0, later = n, []
        for groups, txt0, r0, rest in bad:
            # the shortest run of groups up to the rejected one that repeats the rejection (usually that
            # group alone; more when something was carried over from earlier calls)
            k = 1
            while True:
                again, txt, r = self.confirm(sum(groups[-k:], []), tol, module)
                if again or k >= len(groups):
                    break
                k = min(k * 8, len(groups))
            if again and not shown and self.prop in self.SHOWING and not self.confirm(self.showing(sum(groups[-k:], [])), tol, module)[0]:
                log('left open by the definition:', txt[:200])
                later += rest
                continue
            d = os.path.join(ROOT, 'evidence', 'violations')
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, '%s-%d.txt' % (self.prop, n))
            if not again:
                r, txt = r0, txt0
                log('the rejection was seen once and did not repeat')
            with open(path, 'w') as f:
                f.write('# replay: python3 check.py %s --replay %s\n' % (self.prop, path))
                f.write('# tolerance %s module %s\n' % (tol, module))
                for ln in txt.split('\n'):
                    f.write('# rejected call: ' + ln + '\n')
                if r['err']:
                    f.write('# ' + ' '.join(r['text'].split('\n'))[-600:] + '\n')
                f.write('\n'.join(sum(groups[-k:], [])) + '\n')
            log('rejected:', txt[:400])
            if self.said:
                with open(path, 'a') as f:
                    f.write('\n'.join('# ' + x for x in self.said.split('\n')[:40]) + '\n')
            print('VIOLATION property=%s replay=%s' % (self.prop, path), flush=True)
            n += 1
        if later:
            n += self.report(self.validate([self.showing(g) for g in later], tol, module, 'shown'), tol, module, n, True)
        return n - n0


def evidence(prop, run, extra, level='model_checking'):
    cov = dict(states=run.stats['states'], transitions=run.stats['transitions'],
               traces_validated_against_impl=run.stats['groups'], samples=run.samples[:6],
               library_calls=run.stats['calls'], calls_by_kind=run.stats['events'],
               functions_exercised=len(run.stats['functions']))
    cov.update(extra)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
        json.dump(dict(property=prop, tier=TIER, seed=SEED, level=level, coverage=cov, wall_s=round(time.time() - T0, 1)), f, indent=1)
        f.write('\n')


def main():
    import plan
    prop = sys.argv[1]
    if prop == '--setup':
        classes()
        return 0
    if prop not in plan.PLAN:
        print('unknown property', prop)
        return 2
    if prop in plan.TEXTS:                     # about what the library says, not what its calls do
        return plan.TEXTS[prop](Run(prop, None))
    drv = build(*plan.BUILDS.get(prop, ()))
    log('built', drv)
    run = Run(prop, drv)
    if len(sys.argv) > 3 and sys.argv[2] == '--replay':
        txt = open(sys.argv[3]).read().split('\n')
        m = re.search(r'tolerance (\d+) module (\w+)', '\n'.join(txt))
        again, line, r = run.confirm([x for x in txt if x and x[0] != '#'], m.group(1), m.group(2))
        print('rejected: ' + line if again else 'accepted')
        return 1 if again else 0
    return plan.run_property(prop, run, SEED, TIER)


if __name__ == '__main__':
    try:
        sys.exit(main())
    except CheckError as e:
        print('CHECK ERROR:', e)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
