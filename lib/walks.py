"""Executing the models in spec/MC*.tla: TLC enumerates every transition of a model, walks through the graph
that cover all of them are turned into scripts for functions of the library."""
import collections, random, re
from gen import *
import scripts


class Model:
    """the state graph TLC reports: states are numbered, an edge is (command, successor)"""
    def __init__(self, text):
        ids, self.edges = {}, []
        rows = sorted(set(re.findall(r'^"(.*) ==> (.*) ==> (.*)"$', text, re.M)))
        ids_of = lambda s: ids.setdefault(s, len(ids))
        for a, c, b in rows:
            cmd = tuple(x.strip('"') for x in c.replace('\\', '').strip('<>').split(', '))
            self.edges.append((ids_of(a), tuple(int(x) if re.fullmatch(r'-?\d+', x) else x for x in cmd), ids_of(b)))
        self.names = {v: k for k, v in ids.items()}
        self.out = collections.defaultdict(list)
        for i, (a, c, b) in enumerate(self.edges):
            self.out[a].append(i)
        self.starts = sorted({ids_of(x) for x in re.findall(r'^"initial: (.*)"$', text, re.M)})

    def tours(self, rng, length):
        """walks from the initial state, of about the given length, that cover every edge"""
        todo = {s: list(e) for s, e in self.out.items()}
        for e in todo.values():
            rng.shuffle(e)
        left, way = len(self.edges), None
        into = collections.defaultdict(list)
        for i, (a, c, b) in enumerate(self.edges):
            into[b].append(i)

        def ways():
            """edge to take from every state towards the nearest one with edges left"""
            w = {s: None for s, e in todo.items() if e}
            q = collections.deque(sorted(w))
            while q:
                for i in into[q.popleft()]:
                    a = self.edges[i][0]
                    if a not in w:
                        w[a] = i
                        q.append(a)
            return w
        while left:
            ok = lambda x: todo.get(x) or (way is not None and way.get(x) is not None)
            if not any(ok(x) for x in self.starts):
                way = ways()
            s, walk = next((x for x in self.starts if ok(x)), None), []
            if s is None:
                break
            while left and (len(walk) < length or not todo.get(s)) and len(walk) < 2 * length:
                if todo.get(s):
                    i = todo[s].pop()
                    left -= 1
                else:
                    if way is None or way.get(s) is None:
                        way = ways()
                    if s not in way:
                        break
                    i = way[s]
                walk.append(i)
                s = self.edges[i][2]
            if not walk:
                break
            yield [self.edges[i][1] for i in walk], s

    def paths(self, final):
        """all walks without repetition of a state from the initial state to commands for which final holds"""
        res = []

        def go(s, walk, seen):
            for i in self.out[s]:
                a, c, b = self.edges[i]
                if final(c):
                    if walk:
                        res.append((walk + [c], b))
                elif b not in seen:
                    go(b, walk + [c], seen | {b})
        go(self.starts[0], [], {self.starts[0]})
        return res


# ------------------------------------------------------------------ streams
def refused_opts(G, f):
    """parameters outside the documented range"""
    o = G.opts(f, sentinels=False)
    ks = [(k, v) for k in range(len(o)) for v in scripts.opt_values(f, k)[1]]
    if not ks:
        return None
    k, v = G.r.choice(ks)
    o[k] = v
    return o


class Concrete:
    """a model function made concrete"""
    def __init__(self, G, f, d, units, L):
        r = G.r
        self.f, self.d = f, d
        G.bars = None
        self.o = G.opts(f)
        self.lb = lb = G.lb(f, self.o)
        b = [0, max(1, r.randint(1, lb - 1) if lb > 1 else 1)]
        b.append(max(b[1] + 1, lb + r.choice([0, 0, 0, 1, 1, -1, 2])))
        while len(b) <= units:
            b.append(b[-1] + r.choice([1, 1, 2, 3, r.randint(1, 12)]))
        self.b = b
        self.n = b[units] + 3
        L += scripts.data(f, G, d, self.n) + scripts.lone(f, self.o, d, self.n)
        self.bad = refused_opts(G, f)


def instantiate(G, walk, names, units):
    r = G.r
    L = ['G']
    special = r.random() < 0.4
    if special:
        L += G.settings()
    F = {}

    def fn(m):
        if m not in F:
            F[m] = Concrete(G, names[len(F) % len(names)], len(F), units, pre)
        return F[m]
    pre, body = [], []
    known, kinds, slots = set(), {}, set()
    for c in walk:
        op, h = c[0], c[1]
        if op in ('newfile', 'rewind'):
            k = h
            body.append(('FN %d' if op == 'newfile' else 'FR %d') % k)
            slots.add(k)
            continue
        x = fn(c[3] if op in ('load', 'loadend', 'loadused') else c[2]) if op not in ('free', 'freenull', 'save', 'truncate', 'writefail') else None
        if op in ('save', 'load', 'loadend', 'loadused', 'truncate', 'writefail') and c[2] not in slots:
            body.append('FN %d' % c[2])
            slots.add(c[2])
        if x is not None:
            kinds[h] = x
        known.add(h)
        if op == 'open':
            body.append('SI %d %s %s' % (h, x.f, toks(x.o)))
        elif op == 'openbad':
            if x.bad is not None:
                body.append('SI %d %s %s' % (h, x.f, toks(x.bad)))
            else:
                body.append('SY %d %s' % (h, x.f))
        elif op == 'null':
            body.append('SY %d %s' % (h, x.f))
        elif op == 'feed':
            i, j = x.b[c[3]], x.b[c[3] + c[4]]
            body.append('SF %d %d %d %d' % (h, x.d, i, j - i))
        elif op == 'chunk':
            i, j = x.b[c[3]], x.b[c[3] + c[4]]
            off = r.choice([0, 0, i, max(0, i - 1)])
            body.append('SB %d %d %d %d %d %s -' % (h, x.d, off, i - off, j - 1 - off, scripts.alias_spec(x.f, r) if r.random() < 0.2 else '-'))
        elif op == 'empty':
            body.append('SB %d %d 0 %d %d - -' % (h, x.d, r.randint(1, 5), 0))
        elif op == 'free':
            body.append('SX %d' % h)
        elif op == 'freenull':
            body.append('SX %d n' % h)
        elif op == 'save':
            body.append('SV %d %d' % (h, c[2]))
        elif op == 'load' or op == 'loadend':
            body.append('SL %d %d %s' % (h, c[2], x.f))
        elif op == 'loadused':
            body += ['SL %d %d %s' % (h, c[2], x.f), 'FR %d' % c[2]]
        elif op == 'feednone':
            body.append('SF %d %d 0 %d' % (h, x.d, r.randint(1, 3)))
        elif op == 'chunknone':
            body.append('SB %d %d 0 0 %d - -' % (h, x.d, r.randint(0, 3)))
        elif op == 'nullchunk':
            what = r.choice([r.randrange(scripts.nin(x.f)), 100 + r.randrange(scripts.nout(x.f))])
            body.append('SB %d %d 0 0 %d - %d' % (h, x.d, r.randint(0, 2), what))
        elif op == 'nullout':
            i, j = x.b[c[3]], x.b[c[3] + 1]
            body.append('SF %d %d %d %d %d' % (h, x.d, i, j - i, 100 + r.randrange(scripts.nout(x.f))))
        elif op in ('truncate', 'writefail'):
            lb = max([y.lb for y in F.values()] or [0])
            step = 1 if lb < 12 else r.choice([7, 11, 13]) if lb < 60 else r.choice([61, 97])
            body += ['%s %d %d %d' % ('TR' if op == 'truncate' else 'WR', h, c[2], step), 'FN %d' % c[2]]
        else:
            raise ValueError(c)
    L += pre + body + ['SX %d' % h for h in sorted(known)]
    if special:
        L += G.reset()
    return L


def streams(model, units, length, paths=False):
    """every transition of the model (or every path to a free), trials times, with random functions"""
    def gen(seed, trials, names=NAMES):
        G = Gen(seed)
        groups = []
        for t in range(trials):
            order = list(names)
            G.r.shuffle(order)
            walks = model().paths(lambda c: c[0] == 'free') if paths else model().tours(G.r, length)
            for i, (walk, _) in enumerate(walks):
                groups.append(instantiate(G, walk, [order[(2 * i) % len(order)], order[(2 * i + 1) % len(order)]], units))
        return groups
    return gen


# ------------------------------------------------------------------ parameter holders
SHAPES = ["BOP", "ADOSC", "AROON", "ACCBANDS", "ACOS", "SMA", "HT_PHASOR", "MINMAX", "BBANDS", "ADD", "BETA"]


def shape(f):
    return (tuple(k for k, m in scripts.absin(f)), scripts.nout(f), bool(FN[f]['opts']))


def holder(G, walk, f, units, whole=False):
    """commands of MCHolders for function f"""
    r = G.r
    L = ['G']
    special = r.random() < 0.3
    if special:
        L += G.settings()
    G.bars = None
    nP = len(FN[f]['opts'])
    q = r.randrange(nP) if nP else 0                     # the parameter the model talks about
    kd = 'r' if nP and FN[f]['optl'][q][1] == 'r' else 'i'
    vals = {}
    for name in ('default', 'other'):
        o = G.opts(f)
        o = [-4e37 if FN[f]['optl'][i][1] == 'r' else INT_DEF for i in range(nP)]
        if nP and name == 'other':
            for _ in range(30):
                o[q] = G.opts(f, sentinels=False)[q]
                if scripts.metastock_ok(f, o, G) == o:
                    break
        vals[name] = scripts.metastock_ok(f, o, G) if name == 'default' else o
    bad = list(vals['default'])
    if nP:
        bad[q] = r.choice(scripts.opt_values(f, q)[1])
    vals['refused'] = bad
    if f == 'MACDEXT' and G.g.compat == 1:               # see KNOWN_FINDINGS
        L.append('C 0')
        G.g.compat = 0
        vals['default'] = [INT_DEF] * nP
        vals['other'] = list(vals['default'])
        vals['other'][q] = 5
        bad = [INT_DEF] * nP
        bad[q] = r.choice(scripts.opt_values(f, q)[1])
        vals['refused'] = bad
    if f == 'MAVP':                                      # periods at or above the maximum: see KNOWN_FINDINGS
        q = 2
        kd = 'i'
        vals = dict(default=[INT_DEF] * 3, other=[INT_DEF, INT_DEF, 1], refused=[INT_DEF, INT_DEF, -1])
    lbs = [G.lb(f, vals[x]) for x in ('default', 'other')]
    b = [0, max(1, r.randint(1, lbs[0] - 1) if lbs[0] > 1 else 1)]
    while len(b) <= units:
        b.append(max(b[-1] + 1, max(lbs) + r.choice([0, 1, 2, 5])))
    if units == 1:
        b[1] = r.choice([max(1, min(lbs)), max(lbs) + 1, max(lbs) + 3])
    n = max(b[units], max(lbs)) + r.randint(3, 12)
    L += scripts.data(f, G, 0, n, o=vals['default'])
    for x in ('default', 'other') if nP else ('default',):
        L += scripts.lone(f, vals[x], 0, n)
    cur, off, slots, alive = {}, {}, set(), set()
    kinds = scripts.absin(f)
    for c in walk:
        op, a = c[0], c[1]
        if op == 'alloc':
            L.append('AP %d %s' % (a, f))
            if f == 'MAVP' or (f == 'MACDEXT' and vals['default'] != [INT_DEF] * nP):
                L += scripts.setopts(a, f, vals['default'])
            cur[a], off[a] = 'default', 0
            alive.add(a)
        elif op == 'unknown':
            L += ['AP %d %s' % (a, r.choice(['NOTHING', f + 'X', f.lower()])), 'AF %d' % a]
        elif op == 'freeholder':
            L.append('AF %d' % a)
            alive.discard(a)
        elif op == 'in':
            L += scripts.setins(a, f, 0, 0, None if whole else [c[2]])
            off[a] = 0
        elif op == 'inindex':
            L.append('AI %d %d %s 0 0 31' % (a, len(kinds) + r.choice([0, 1, 5]), kinds[0][0]))
        elif op == 'inkind':
            L.append('AI %d 0 %s 0 0 31' % (a, r.choice([x for x in 'pri' if x != kinds[0][0]])))
        elif op == 'innull':
            L.append('AI %d 0 r 0 0 0' % a)
        elif op == 'inmissing':
            bits = [m for m in (1, 2, 4, 8, 16) if kinds[0][1] & m]
            L.append('AI %d 0 p 0 0 %d' % (a, 31 & ~r.choice(bits) if r.random() < 0.8 else 0))
        elif op == 'out':
            L += scripts.setouts(a, f, None if whole else [c[2]])
        elif op == 'outindex':
            L.append('AU %d %d %s 1' % (a, scripts.nout(f) + r.choice([0, 2]), FN[f]['outs'][0][1]))
        elif op == 'outkind':
            L.append('AU %d 0 %s 1' % (a, 'i' if FN[f]['outs'][0][1] == 'r' else 'r'))
        elif op == 'outnull':
            L.append('AU %d 0 %s 0' % (a, FN[f]['outs'][0][1]))
        elif op == 'opt':
            L.append('AO %d %d %s %s' % (a, q, kd, tok(vals[c[2]][q])))
            cur[a] = c[2]
        elif op == 'optindex':
            L.append('AO %d %d %s 3' % (a, nP + r.choice([0, 1, 9]), r.choice('i')))
        elif op == 'optkind':
            L.append('AO %d %d %s %s' % (a, q, 'i' if kd == 'r' else 'r', '5' if kd == 'r' else tok(5.0)))
        elif op == 'lookback':
            L.append('AL %d' % a)
        elif op == 'call':
            e = n - 1 - off[a]
            s = r.choice([0, 0, r.randint(0, e)])
            e = r.choice([e, e, r.randint(s, e)])
            L += [scripts.batch(f, vals[cur[a]], 0, off[a], s, e, 'ref'), 'AC %d %d %d' % (a, s, e)]
        elif op == 'open':
            L.append('AN %d' % a)
        elif op == 'feed':
            L.append('AS %d 0 %d %d' % (a, b[c[2]], b[c[2] + 1] - b[c[2]]))
            off[a] = b[c[2] + 1] - 1
        elif op == 'chunk':
            L.append('AB %d %d %d' % (a, b[c[2]], b[c[2] + 1] - 1))
        elif op == 'close':
            L.append('AX %d' % a)
        elif op in ('save', 'load', 'loadend', 'loadused'):
            if 1 not in slots:
                L.append('FN 1')
                slots.add(1)
            L.append('%s %d 1' % ('AV' if op == 'save' else 'AW', a))
            if op == 'loadused':
                L.append('FR 1')
        elif op in ('rewind', 'newfile'):
            L.append('FR 1' if op == 'rewind' else 'FN 1')
        elif op == 'move':
            L.append('AM %d %d' % (a, c[2]))
        else:
            raise ValueError(c)
    for a in sorted(alive):
        L += ['AX %d' % a, 'AF %d' % a]
    if special:
        L += G.reset()
    return L


def holders(model, units, length, whole=False):
    """whole: inputs and outputs are set all at once, so that any function will do"""
    def gen(seed, trials, names=NAMES):
        G = Gen(seed)
        groups = []
        by = collections.defaultdict(list)
        for f in names:
            by[shape(f)].append(f)
        for fs in by.values():
            G.r.shuffle(fs)
        for t in range(trials):
            for i, (walk, end) in enumerate(model().tours(G.r, length)):
                if whole:
                    groups.append(holder(G, walk, names[(7 * i + t) % len(names)], units, True))
                    continue
                m = re.search(r'"(\w+)\\?"', model().names[end].replace('\\', ''))
                fs = by.get(shape(m.group(1)))
                if fs:
                    groups.append(holder(G, walk, fs[i % len(fs)], units))
        return groups
    return gen


# ------------------------------------------------------------------ settings
PROBES = ['CDLDOJI', 'CDLLONGLINE', 'CDLHAMMER', 'CDLSPINNINGTOP', 'CDLRICKSHAWMAN', 'CDLMATCHINGLOW', 'CDLBELTHOLD', 'CDLHIGHWAVE',
          'CDLCLOSINGMARUBOZU', 'CDLMARUBOZU', 'CDLSHORTLINE', 'CDLLONGLEGGEDDOJI', 'CDLTAKURI', 'CDLTHRUSTING', 'CDLADVANCEBLOCK', 'CDLSTALLEDPATTERN',
          'CDLDRAGONFLYDOJI', 'CDLGRAVESTONEDOJI', 'CDLINNECK', 'CDLHARAMI', 'CDLSEPARATINGLINES', 'CDLSTICKSANDWICH', 'CDLTASUKIGAP', 'CDL3WHITESOLDIERS']


def probe(G, n):
    """candlestick functions judged under the settings of the moment (series 0 on display)"""
    return [scripts.batch(f, [], 0, 0, 0, n - 1, 'candle') for f in G.r.sample(PROBES, 4)]


def store(G, walk):
    r = G.r
    n = 60
    L = ['G', 'I', scripts.explicit(0, scripts.grid_bars(r, n, r.choice([2, 3, 6])), 1)]
    u = r.sample(range(len(UNST)), 8)
    k = [0, r.choice([1, 2, 3, 7, 30])]
    cs = r.sample(range(len(CS)), 8)
    other = {i: '%d %d %s' % (r.randint(0, 2), r.choice([0, 1, 2, 4, 8]), tok(r.choice([0.25, 0.5, 1.0, 2.0]))) for i in range(len(CS))}
    on = True
    for c in walk:
        op = c[0]
        L.append({'unst': lambda: 'U %d %d' % (u[c[1]], k[c[2]]), 'unstall': lambda: 'U %d %d' % (len(UNST), k[c[1]]),
                  'unstbad': lambda: 'U %d %d' % (len(UNST) + r.choice([1, 2, 50]), r.choice(k)), 'compat': lambda: 'C %d' % c[1],
                  'candle': lambda: 'K %d %s' % (cs[c[1]], other[c[1]]), 'candlebad': lambda: 'K %d %s' % (len(CS) + r.choice([0, 1, 9]), other[0]),
                  'restore': lambda: 'k %d' % cs[c[1]], 'restoreall': lambda: 'k %d' % len(CS), 'restorebad': lambda: 'k %d' % (len(CS) + r.choice([1, 2, 9])),
                  'init': lambda: 'I', 'shutdown': lambda: 'Z'}[op]())
        on = op != 'shutdown' and (on or op == 'init')
        if on:
            L += ['u %d' % r.choice([u[0], u[1], u[2], r.randrange(len(UNST))]), 'c']
            if r.random() < 0.2:
                L.append('LA')
            if r.random() < 0.15:
                L += ['u %d' % x for x in range(len(UNST))]
            if r.random() < 0.12:
                L += probe(G, n)
    L += ['I', 'LA'] + G.reset()
    return L


def stores(model, length):
    def gen(seed, trials):
        G = Gen(seed)
        return [store(G, walk) for t in range(trials) for walk, _ in model().tours(G.r, length)]
    return gen
