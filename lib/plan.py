"""What each check runs: scripts (lib/scripts.py), trace module, tolerance, exhaustive models, known findings."""
import json, os, re, sys, time
import describe, scripts, walks
from gen import ROOT

def _c():
    import __main__
    return __main__


class World:
    """an exhaustively explored model: spec/<module>-<cfg>.cfg"""
    def __init__(self, module, cfg):
        self.module, self.cfg, self.model = module, cfg, None

    def __call__(self):
        if self.model is None:
            c = _c()
            r = c.finish(c.tlc(self.module, '%s-%s' % (self.module, self.cfg), workers=4, timeout=400))
            if not r['ok']:
                raise c.CheckError('the model %s does not hold: %s' % (self.cfg, r['text'][-3000:]))
            self.model = walks.Model(r['text'])
            self.stats = dict(model=self.module, config=self.cfg, states=r['states'], transitions=r['transitions'],
                              distinct_transitions=len(self.model.edges))
            c.log('model %s-%s: %d states, %d transitions' % (self.module, self.cfg, r['states'], r['transitions']))
        return self.model


# the walks of a check: (label, generator of a world, world for quick, world for thorough, rounds quick, rounds thorough)
def S(units, length=60, paths=False):
    return lambda w: walks.streams(w, units, length, paths)


def H(units, length=60, whole=False):
    return lambda w: walks.holders(w, units, length, whole)


WALKS = {
    'C02': [(S(3), ('MCStreams', 'C02'), 1, 3), (S(4, 100), ('MCStreams', 'C02t'), 0, 1)],
    'C03': [(S(5, paths=True), ('MCStreams', 'C03'), 6, 150), (S(6, 100), ('MCStreams', 'C03t'), 0, 2)],
    'C04': [(S(2), ('MCStreams', 'C04'), 1, 5), (S(3, 150), ('MCStreams', 'C04t'), 0, 1)],
    'C05': [(S(3), ('MCStreams', 'C05'), 1, 5), (S(2, 100), ('MCStreams', 'C05t'), 0, 1)],
    'C09': [(H(2), ('MCHolders', 'C09'), 1, 10), (H(1, whole=True), ('MCHolders', 'C09f'), 1, 10), (H(2), ('MCHolders', 'C09m'), 1, 5),
            (H(2, 100, True), ('MCHolders', 'C09t'), 0, 1)],
    'C13': [(lambda w: walks.stores(w, 60), ('MCSettings', 'C13'), 1, 10), (lambda w: walks.stores(w, 100), ('MCSettings', 'C13t'), 0, 3)],
}

# models that are only explored: (module, configuration, what TLC is to find, quick or thorough)
OK, BAD = 'No error has been found', 'Invariant Answered is violated'
MODELS = {
    'C01': [('MCRings', 'C01', OK, True), ('MCRings', 'short', BAD, True), ('MCRings', 'tie', BAD, True), ('MCRings', 'late', BAD, True), ('MCRings', 'C01t', OK, False)],
    'C02': [('MCRings', 'C02', OK, True), ('MCRings', 'idx', BAD, True), ('MCRings', 'place', BAD, True), ('MCRings', 'C02t', OK, False)],
    'C03': [('MCRings', 'C03', OK, True), ('MCRings', 'chunk', BAD, True), ('MCRings', 'C01t', OK, False)],
    'C17': [('MCThreads', 'C17', 'No error has been found', True), ('MCThreads', 'scratch', 'Invariant Alone is violated', True),
            ('MCThreads', 'C17t', 'No error has been found', False)],
}

# property -> list of (label, generator, quick arguments, thorough arguments, tolerance digits, trace module)
PLAN = {
    'C01': [('stream', scripts.c01, 250, 4000, 9, 'Trace'), ('windows', scripts.c01w, 1, 20, 9, 'Trace'), ('far', scripts.c01far, 4, 200, 6, 'Trace')],
    'C02': [('saveload', scripts.c02, 100, 3000, 10, 'Trace'), ('far', scripts.c02far, 4, 200, 10, 'Trace')],
    'C03': [('chunk', scripts.c03, 100, 3000, 10, 'Trace'), ('far', scripts.c02far, 4, 200, 10, 'Trace')],
    'C04': [('concurrent', scripts.c04, 120, 3000, 10, 'Trace')],
    'C05': [('faults', scripts.c05, 40, 1000, 10, 'Trace')],
    'C06': [('range', scripts.c06, 200, 3000, 10, 'Trace')],
    'C07': [('local', scripts.c07, 200, 3000, 10, 'Trace')],
    'C08': [('params', scripts.c08, 30, 300, 10, 'Trace')],
    'C09': [('abstract', scripts.c09, 60, 2000, 10, 'Trace')],
    'C10': [('alias', scripts.c10, 100, 2000, 10, 'Trace')],
    'C11': [('single', scripts.c11, 200, 3000, 5, 'Trace'), ('singlef', scripts.c11f, 1500, 9000, 3, 'Trace')],
    'C12': [('unstable', scripts.c12, 100, 3000, 9, 'Trace')],
    'C13': [('settings', scripts.c13, 4000, 100000, 10, 'Trace')],
    'C14': [('windows', scripts.c14w, 1, 20, 10, 'Trace'), ('candle', scripts.c14, 300, 10000, 10, 'Trace')],
    'C15': [('value', scripts.c15, 4000, 60000, 8, 'Trace'), ('windows', scripts.c15w, 1, 30, 8, 'Trace')],
    'C16': [('info', scripts.c16, 60, 600, 6, 'Trace')],
    'C17': [('threads', scripts.c17, 8, 200, 10, 'Trace')],
    'C18': [],
}
# checked by reading texts: property -> function of the run
TEXTS = {'C18': lambda run: describe.check(_c(), run)}
# checks whose driver is built with a sanitizer: what it reports ends the trace with an event no action allows
ASAN = ('asan', ('-O1', '-g', '-fsanitize=address'))
BUILDS = dict.fromkeys(['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C08', 'C09', 'C10', 'C13', 'C16'], ASAN)
BUILDS['C17'] = ('tsan', ('-O1', '-g', '-fsanitize=thread'))
ROUND = 60000          # groups executed at once (about)


def known_findings(prop):
    """[(text, probe)] : committed list; a probe is a script group whose rejection is the known finding"""
    r = []
    p = os.path.join(ROOT, 'KNOWN_FINDINGS.json')
    if os.path.exists(p):
        for k in json.load(open(p))['known']:
            if k['property'] == prop:
                r.append(k)
    return r


def run_property(prop, run, seed, tier):
    c = _c()
    n = 0
    extra = {}
    for label, gen, q, t, tol, module in PLAN[prop]:
        trials, rnd = (q if tier == 'quick' else t), 0
        trials = int(os.environ.get('VERIF_TRIALS', trials))
        per = max(1, ROUND // max(1, len(gen(seed, 1))))        # trials of a round
        while trials > 0:
            groups = gen(seed * 1000 + rnd, min(trials, per))
            if rnd == 0:
                run.samples += [' ; '.join(g)[:600] for g in (groups[len(groups) // 3], groups[2 * len(groups) // 3])]
            bad = run.validate(groups, tol, module, label)
            n += run.report(bad, tol, module, n)
            c.log('%s: round %d done, %d violation(s)' % (label, rnd, n))
            trials -= per
            rnd += 1
            if n:
                break
    models = []
    for module, cfg, want, quick in MODELS.get(prop, []):
        if not quick and tier == 'quick':
            continue
        r = c.finish(c.tlc(module, '%s-%s' % (module, cfg), workers=8, timeout=700))
        if want not in r['text']:
            raise c.CheckError('model %s-%s: expected "%s": %s' % (module, cfg, want, r['text'][-2000:]))
        models.append(dict(model=module, config=cfg, found=want, states=r['states'], transitions=r['transitions']))
        run.stats['states'] += r['states']
        run.stats['transitions'] += r['transitions']
        c.log('model %s-%s: %d states, %d transitions: %s' % (module, cfg, r['states'], r['transitions'], want))
    for k, (make, (module, cfg), q, t) in enumerate(WALKS.get(prop, [])):
        rounds = q if tier == 'quick' else t
        if 'VERIF_TRIALS' in os.environ:
            rounds = min(rounds, 1)
        w = World(module, cfg)
        done = 0
        per, rnd = 1, 0
        while rnd < rounds and not n:
            groups = make(w)(seed * 1000 + rnd, per)
            rnd += per
            if done == 0:
                run.samples.append(' ; '.join(groups[len(groups) // 2])[:600])
            bad = run.validate(groups, 10, 'Trace', 'walk%d' % k)
            done += len(groups)
            n += run.report(bad, 10, 'Trace', n)
            per = max(1, min(rounds - rnd, 20000 * per // max(1, len(groups))))
        if w.model is not None:
            models.append(dict(w.stats, walks_executed=done))
            run.stats['states'] += w.stats['states']
            run.stats['transitions'] += w.stats['transitions']
        c.log('walks %s: %d executed, %d violation(s)' % (cfg, done, n))
    if models:
        extra['models'] = models
    for k in known_findings(prop):
        again, line, r = run.confirm(k['probe'], k.get('tol', 6), k.get('module', 'Trace'))
        if again:
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']), flush=True)
    extra['known_findings_checked'] = len(known_findings(prop))
    c.evidence(prop, run, extra)
    return 1 if n else 0
