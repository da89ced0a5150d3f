"""Driver scripts of the checks.  Each function returns a list of groups; a group is a list of script
lines that is independent of the other groups (so that a rejected one can be replayed alone)."""
from gen import *

def nin(f):
    return len(FN[f]['kinds'])


def nout(f):
    return len(FN[f]['outs'])


def nfor(r, lb, extra=60):
    if r.random() < 0.006:
        extra = r.choice([300, 1000, 2500])
    if lb > 400:
        return lb + 40 + r.randint(0, 40)
    return lb + extra + r.randint(0, 40) + (lb if r.random() < 0.5 else 0)


def pattern(f, G):
    """for candlestick functions: (settings, parameters) of some known windows (see c14w); G.bars is a series of them"""
    G.bars = None
    r = G.r
    if f not in CDL or r.random() < 0.35:
        return None
    keys = [k for k in sorted(windows()) if k[0] == f]
    if not keys:
        return None
    k = r.choice(keys)
    ws = windows()[k]
    bars = []
    while len(bars) < 70:
        b, flips = r.choice(ws)
        bars += nudged(b, r.choice(flips)) if flips and r.random() < 0.4 else b
    G.bars = bars
    return profile(k[1], G), [k[2] / 4.0] if FN[f]['opts'] else []


def large(t, G, f):
    """how large the periods may be"""
    if G.r.random() < 0.008 and f not in ('T3', 'TRIX', 'TEMA', 'ADXR'):
        return 3
    return 2 if t % 5 == 4 else 1


def size(G, n):
    return max(n, len(G.bars)) if G.bars else n


def shown(f, G, d, n):
    """the windows of pattern() as series d"""
    b = (G.bars * (n // len(G.bars) + 1))[:n]
    return [explicit(d, b, 0)]


def data(f, G, d, n, kind=None, o=None):
    """series d with n bars; MAVP gets periods its stream is specified for"""
    if f in CDL and d == 0 and kind is None and getattr(G, 'bars', None):
        return shown(f, G, d, n)
    out = ['D %d %d %d %d 0' % (d, n, G.kind(f) if kind is None else kind, G.seed())]
    if f == 'MAVP' and o is not None:
        m = max(resolve(f, o)[:2])
        out.append('P %d %d %d %d' % (d, m, m + 3, G.seed()))
    return out


def metastock_ok(f, o, G):
    """MACDEXT streams under Metastock compatibility: see KNOWN_FINDINGS"""
    if f == 'MACDEXT' and G.g.compat == 1:
        good = (0, 2, 5)
        o = list(o)
        for i in (1, 3, 5):
            if resolve(f, o)[i] not in good:
                o[i] = G.r.choice(good)
    return o


def quiet(f, o):
    """kinds of series for (f, o) on which its result does not hang on rounding noise; None: all.
    An adaptive average (KAMA, MAMA) of a computed series divides by that series' movement: where the
    computed series stands still, both numbers are rounding noise and the quotient is arbitrary."""
    k = {'STOCH': 4, 'STOCHF': 2, 'STOCHRSI': 3, 'MACDEXT': 5}.get(f)
    return [3, 9, 13] if k is not None and resolve(f, o)[k] in (6, 7) else None


def c01(seed, trials, names=NAMES):
    """stream = batch"""
    groups = []
    G = Gen(seed)
    for t in range(trials):
        for f in names:
            L = ['G']
            special = G.r.random() < 0.5
            q = pattern(f, G)
            if q:
                special = True
                L += q[0]
                o = q[1]
            else:
                if special:
                    L += G.settings()
                o = metastock_ok(f, G.opts(f, big=large(t, G, f)), G)
            lb = G.lb(f, o)
            n = size(G, nfor(G.r, lb))
            off = G.r.choice([0, 0, 0, 1, 5])
            qk = quiet(f, o)
            L += data(f, G, 0, n + off, o=o, kind=G.r.choice(qk) if qk else None)
            L.append('B %s %s 0 %d 0 %d D - - oracle' % (f, toks(o), off, n - 1))
            L.append('SI 0 %s %s' % (f, toks(o)))
            if G.r.random() < 0.8:
                L.append('SF 0 0 %d %d' % (off, n))
            else:
                k = G.r.randint(1, n - 1)
                L += ['SF 0 0 %d %d' % (off, k), 'SF 0 0 %d %d' % (off + k, n - k)]
            L.append('SX 0')
            if special:
                L += G.reset()
            groups.append(L)
    return groups


# ------------------------------------------------------------------ C02, C03, C04, C05
class Stream:
    """a stream the script talks about: (function, parameters) and the position it has reached"""
    def __init__(self, h, f, o, d, n, org=0):
        self.h, self.f, self.o, self.d, self.n, self.pos = h, f, o, d, n, org

    def open(self):
        return 'SI %d %s %s' % (self.h, self.f, toks(self.o))

    def feed(self, k):
        k = min(k, self.n - self.pos)
        self.pos += k
        return 'SF %d %d %d %d' % (self.h, self.d, self.pos - k, k) if k else '#'

    def chunk(self, k, r, alias=False):
        """a chunk of k bars, read from some offset"""
        k = min(k, self.n - self.pos)
        if k == 0:
            return '#'
        off = r.choice([0, self.pos, max(0, self.pos - r.randint(0, 3))])
        s = self.pos - off
        self.pos += k
        return 'SB %d %d %d %d %d %s -' % (self.h, self.d, off, s, s + k - 1, alias_spec(self.f, r) if alias else '-')

    def free(self):
        return 'SX %d' % self.h


def alias_spec(f, r):
    """some real output in the memory of some real input"""
    outs = [k for k, (n, c) in enumerate(FN[f]['outs']) if c == 'r']
    if not outs:
        return '-'
    k = r.choice(outs)
    return '%d:%d' % (k, r.randrange(nin(f)))


def lone(f, o, d, n, h=50, org=0):
    """a stream alone: the oracle"""
    return ['SI %d %s %s' % (h, f, toks(o)), 'SF %d %d %d %d' % (h, d, org, n - org), 'SX %d' % h]


def pick(G, f, t, metastock=True):
    """settings, parameters and lookback for one group"""
    L = ['G']
    q = pattern(f, G)
    if q:
        return L + q[0], True, q[1], G.lb(f, q[1])
    special = G.r.random() < 0.4
    if special:
        L += G.settings()
    o = G.opts(f, big=large(t, G, f))
    return L, special, o, G.lb(f, o)


def cutpoint(G, lb, n):
    r = G.r
    return max(0, min(n, r.choice([0, 1, lb - 1, lb, lb + 1, lb + 2, r.randint(0, n), r.randint(0, n), r.randint(lb, n)])))


EXACT = [0, 1, 2, 4, 5, 6, 7, 8, 12]         # kinds of series whose sums have no rounding errors


def far(G, f, show=150):
    """a very long history: (lines, parameters, bars, where the recorded part begins)"""
    r = G.r
    o = metastock_ok(f, G.opts(f, sentinels=False), G)
    if f == 'MAVP':
        o[:2] = [2, 9]
    lb = G.lb(f, o)
    n = max(r.choice([300, 600, 3000, 9000, 33000, 70000]), 2 * lb + show)
    return data(f, G, 0, n, kind=13 if quiet(f, o) or f == 'BETA' else r.choice(EXACT), o=o), o, n, n - show


def c01far(seed, trials, names=NAMES):
    """stream = batch after very many bars"""
    groups, G = [], Gen(seed)
    r = G.r
    for t in range(trials):
        for f in names:
            L = ['G']
            special = r.random() < 0.3
            if special:
                L += G.settings()
            D, o, n, m = far(G, f)
            lb = G.lb(f, o)
            L += D + ['Q %d' % (m - lb), 'B %s %s 0 0 0 %d D - - oracle' % (f, toks(o), n - 1), 'SI 0 %s %s' % (f, toks(o)),
                      'Q %d' % m, 'SF 0 0 0 %d' % n, 'SX 0']
            if special:
                L += G.reset()
            groups.append(L)
    return groups


def c02far(seed, trials, names=NAMES):
    """saving, loading and feeding in chunks after very many bars"""
    groups, G = [], Gen(seed)
    r = G.r
    for t in range(trials):
        for f in names:
            L = ['G']
            D, o, n, m = far(G, f)
            L += D + ['SI 50 %s %s' % (f, toks(o)), 'Q %d' % m, 'SF 50 0 0 %d' % n, 'SX 50', 'SI 1 %s %s' % (f, toks(o)), 'Q %d' % m]
            k = m + r.randint(1, 30)
            x = r.randint(0, m)
            if r.random() < 0.5:
                L.append('SF 1 0 0 %d' % k)
            else:
                L += ['SF 1 0 0 %d' % x if x else '#', 'Q %d' % (m - x), 'SB 1 0 0 %d %d - -' % (x, k - 1)]
            q = k + r.randint(1, 60)
            L += ['FN 1', 'SV 1 1', 'SB 1 0 0 %d %d - -' % (k, q - 1), 'SF 1 0 %d %d' % (q, n - q), 'SX 1', 'FR 1', 'SL 2 1 %s' % f,
                  'SF 2 0 %d %d' % (k, q - k), 'SB 2 0 %d 0 %d - -' % (q, n - q - 1), 'SX 2']
            groups.append(L)
    return groups


def c02(seed, trials, names=NAMES):
    """saving and loading is invisible"""
    groups, G = [], Gen(seed)
    r = G.r
    for t in range(trials):
        for f in names:
            L, special, o, lb = pick(G, f, t)
            n = size(G, lb + r.randint(25, 70))
            L += data(f, G, 0, n)
            L += lone(f, o, 0, n)
            s = Stream(1, f, o, 0, n)
            shape = r.choice(['move', 'copy', 'twice', 'many'])
            L += [s.open(), s.feed(cutpoint(G, lb, n)), 'FN 1']
            if shape in ('move', 'copy'):
                L.append('SV 1 1')
                s2 = Stream(2, f, o, 0, n, s.pos)
                if shape == 'move':
                    L.append('SX 1')
                else:
                    L.append(s.feed(r.randint(0, 9)))
                L += ['FR 1', 'SL 2 1 %s' % f, s2.feed(n)]
                if shape == 'copy':
                    L += [s.feed(n), 'SX 1']
                L.append('SX 2')
            elif shape == 'twice':
                L += ['SV 1 1', 'FR 1', 'SL 2 1 %s' % f]
                s2 = Stream(2, f, o, 0, n, s.pos)
                L += [s2.feed(r.randint(0, lb + 5)), 'FN 2', 'SV 2 2', 'SX 2', 'FR 2', 'SL 3 2 %s' % f]
                s3 = Stream(3, f, o, 0, n, s2.pos)
                L += [s3.feed(n), s.feed(n), 'SX 1', 'SX 3']
            else:            # several streams one after the other in one file
                f2 = r.choice(names)
                o2 = G.opts(f2)
                lb2 = G.lb(f2, o2)
                n2 = lb2 + r.randint(10, 40)
                L += data(f2, G, 1, n2) + lone(f2, o2, 1, n2)
                q = Stream(5, f2, o2, 1, n2)
                L += [q.open(), q.feed(cutpoint(G, lb2, n2)), 'SV 1 1', 'SV 5 1']
                p1 = s.pos
                L += [s.feed(r.randint(1, 12)), 'SV 1 1', 'FR 1', 'SL 2 1 %s' % f, 'SL 6 1 %s' % f2, 'SL 3 1 %s' % f]
                L += [Stream(2, f, o, 0, n, p1).feed(n), Stream(6, f2, o2, 1, n2, q.pos).feed(n2), Stream(3, f, o, 0, n, s.pos).feed(n)]
                L += ['SX %d' % h for h in (1, 2, 3, 5, 6)]
            if special:
                L += G.reset()
            groups.append(L)
    return groups


def c03(seed, trials, names=NAMES):
    """chunks"""
    groups, G = [], Gen(seed)
    r = G.r
    for t in range(trials):
        for f in names:
            L, special, o, lb = pick(G, f, t)
            n = size(G, lb + r.randint(20, 60))
            L += data(f, G, 0, n)
            L += lone(f, o, 0, n)
            for _ in range(2):
                s = Stream(1, f, o, 0, n)
                L.append(s.open())
                mode = r.choice(['whole', 'two', 'small', 'mixed'])
                if mode == 'two':
                    L.append(s.chunk(cutpoint(G, lb, n), r))
                while s.pos < n and len(L) < 60:
                    k = n if mode in ('whole', 'two') else r.randint(1, 6) if mode == 'small' else r.choice([1, 2, 5, 13, lb])
                    if len(L) > 50:
                        k = n
                    if mode == 'mixed' and r.random() < 0.5:
                        L.append(s.feed(max(1, k)))
                    else:
                        L.append(s.chunk(max(1, k), r, alias=r.random() < 0.25))
                    if r.random() < 0.05:
                        L.append('SB 1 0 0 5 %d - -' % r.randint(2, 4))     # an empty chunk
                L.append(s.free())
            if special:
                L += G.reset()
            groups.append(L)
    return groups


def c04(seed, trials, names=NAMES):
    """several streams at once"""
    groups, G = [], Gen(seed)
    r = G.r
    for t in range(trials):
        order = list(names)
        r.shuffle(order)
        while order:
            fs = [order.pop() for _ in range(min(3, len(order)))]
            L = ['G']
            special = r.random() < 0.4
            known = None                              # a candlestick function that gets bars in which its pattern occurs
            for f in fs:
                q = pattern(f, G)
                if q:
                    known, special = f, True
                    L += q[0]
                    break
            if special and not known:
                L += G.settings()
            bars, pool = G.bars if known else None, []
            for f in fs:
                pen = f == known and FN[f]['opts']
                for v in range(2 if pen else r.choice([1, 2])):     # also the same function twice, with other parameters or the same ones
                    if v == 0:
                        o = q[1] if f == known else G.opts(f)
                    elif pen or r.random() < 0.5:
                        o = G.opts(f)
                    d = len(pool)
                    lb = G.lb(f, o)
                    if v and r.random() < 0.4:        # on the same bars
                        d = pool[-1][2]
                        n = max(pool[-1][3], lb + 15)
                        if n > pool[-1][3]:
                            d = len(pool)
                    else:
                        n = lb + r.randint(15, 40)
                        G.bars = bars if f == known else None
                        n = size(G, n)
                    if d == len(pool):
                        L += shown(f, G, d, n) if f == known and G.bars else data(f, G, d, n)
                    L += lone(f, o, d, n)
                    pool.append((f, o, d, n))
            G.bars = None
            whole = lambda p, tag: 'B %s %s %d 0 0 %d D - - %s' % (p[0], toks(p[1]), p[2], p[3] - 1, tag)
            L.append(whole(pool[0], 'ref'))         # batch calls give the same while streams live
            live, free_h = [], list(range(1, 20))
            r.shuffle(free_h)
            todo = list(pool)
            steps = 0
            slot = 1
            while (live or todo) and steps < 70:
                steps += 1
                x = r.random()
                if todo and (not live or x < 0.3):
                    f, o, d, n = todo.pop()
                    s = Stream(free_h.pop(), f, o, d, n)
                    L.append(s.open())
                    live.append(s)
                    continue
                if not live:
                    continue
                s = r.choice(live)
                if x < 0.40:
                    L.append(whole((s.f, s.o, s.d, s.n), 'range') if r.random() < 0.5 else whole(pool[0], 'alias'))
                elif x < 0.48 and slot < 18:
                    L += ['FN %d' % slot, 'SV %d %d' % (s.h, slot)]
                    h2 = free_h.pop()
                    L += ['FR %d' % slot, 'SL %d %d %s' % (h2, slot, s.f)]
                    slot += 1
                    live.append(Stream(h2, s.f, s.o, s.d, s.n, s.pos))
                elif x < 0.54:
                    L.append(s.free())
                    live.remove(s)
                    free_h.append(s.h)
                    if r.random() < 0.5:
                        todo.append((s.f, s.o, s.d, s.n))
                elif s.pos >= s.n:
                    L.append(s.free())
                    live.remove(s)
                    free_h.append(s.h)
                elif x < 0.7:
                    L.append(s.chunk(r.randint(1, 25), r))
                else:
                    L.append(s.feed(r.randint(1, 25)))
                if len(free_h) < 3:
                    s = live.pop()
                    L.append(s.free())
                    free_h.append(s.h)
            for s in live:
                L += [s.feed(s.n), s.free()]
            if special:
                L += G.reset()
            groups.append(L)
    return groups


def c17(seed, trials, names=NAMES):
    """several threads at once, each with its own streams, holders and files"""
    groups, G = [], Gen(seed)
    r = G.r
    for t in range(trials):
        order = list(names)
        r.shuffle(order)
        for f in names:
            L = ['G']
            special = r.random() < 0.3
            if special:
                L += G.settings()
            pool = []
            for d, q in enumerate([f, f, order.pop()]):
                o = metastock_ok(q, G.opts(q, big=0, sentinels=False), G)
                n = G.lb(q, o) + r.randint(10, 25)
                L += data(q, G, d, n, o=o) + lone(q, o, d, n)
                pool.append((q, o, d, n))
            whole = lambda p, tag, v='D': 'B %s %s %d 0 0 %d %s - - %s' % (p[0], toks(p[1]), p[2], p[3] - 1, v, tag)
            L.append(whole(pool[0], 'ref'))
            nth = r.choice([2, 3, 4])
            for k in range(1, nth + 1):
                for line in thread(G, k, pool, whole):
                    L.append('T%d %s' % (k, line))
            L.append('TJ')
            if special:
                L += G.reset()
            groups.append(L)
    return groups


def thread(G, k, pool, whole):
    """the calls of thread k: batch calls, and the lives of a few streams and of a holder"""
    r = G.r
    L = []
    # every thread has a stream of the first function, so that they meet in it
    todo = [pool[0], r.choice(pool), r.choice(pool[1:])]
    live, free_h, slot = [], list(range(10 * k, 10 * k + 9)), 4 * k
    for step in range(24):
        x = r.random()
        if todo and (not live or x < 0.25):
            f, o, d, n = todo.pop(0)
            s = Stream(free_h.pop(), f, o, d, n)
            L.append(s.open())
            live.append(s)
        elif not live or x < 0.5:
            p = r.choice(pool)
            L.append(r.choice([whole(pool[0], 'alias'), whole(pool[0], 'alias'), whole(p, 'range', 'S'), whole(p, 'range'),
                               'L %s %s' % (p[0], toks(p[1])), 'XF %s' % p[0], 'XN %s' % p[0], 'u %d' % r.randrange(20), 'c']))
        elif x < 0.58 and slot < 4 * k + 3 and len(free_h) > 1:
            s = r.choice(live)
            h2 = free_h.pop()
            L += ['FN %d' % slot, 'SV %d %d' % (s.h, slot), 'FR %d' % slot, 'SL %d %d %s' % (h2, slot, s.f)]
            slot += 1
            live.append(Stream(h2, s.f, s.o, s.d, s.n, s.pos))
        else:
            s = r.choice(live)
            if s.pos >= s.n:
                L.append(s.free())
                live.remove(s)
            elif x < 0.75:
                L.append(s.chunk(r.randint(1, s.n), r))
            else:
                L.append(s.feed(r.randint(1, s.n)))
    for s in live:
        L += [s.feed(s.n), s.free()]
    f, o, d, n = pool[0]
    L += ['AP %d %s' % (k, f)] + setopts(k, f, o) + setins(k, f, d, 0) + setouts(k, f) + ['AC %d 0 %d' % (k, n - 1), 'AL %d' % k]
    L += ['AN %d' % k, 'AS %d %d 0 %d' % (k, d, n), 'AX %d' % k, 'AF %d' % k, whole(pool[0], 'alias')]
    return L


def c05(seed, trials, names=NAMES):
    """misuse and faults"""
    groups, G = [], Gen(seed)
    r = G.r
    for t in range(trials):
        for f in names:
            L, special, o, lb = pick(G, f, t)
            n = lb + 12
            L += data(f, G, 0, n) + lone(f, o, 0, n)
            f2 = r.choice(names)
            o2 = G.opts(f2)
            lb2 = G.lb(f2, o2)
            n2 = lb2 + 40
            L += data(f2, G, 1, n2) + lone(f2, o2, 1, n2)
            w = Stream(9, f2, o2, 1, n2)              # an unrelated stream: it has to keep working
            L += [w.open(), w.feed(r.randint(0, n2 - 10))]
            nI, nO = nin(f), nout(f)

            def nullhandle():
                return ['SY 1 %s' % f, 'SF 1 0 0 2', 'SB 1 0 0 0 3 - -', 'SX 1', 'SX 1', 'SX 1 n', 'FN 1', 'SV 1 1', 'FR 1', 'SL 2 1 %s' % f, 'SX 2']

            def nullptr():
                return ['SI 3 %s %s n' % (f, toks(o)), 'FN 1', 'SV 1 1', 'FR 1', 'SL 1 1 %s' % f, 'FR 1', 'SL 3 1 %s' % f, 'SL 4 1 %s' % f, 'SX 3', 'SX 3', 'SX 3 n']

            def nullout():
                k = r.randrange(nO)
                return ['SF 1 0 %d %d %d' % (0, n, 100 + k)]

            def nullchunk():
                what = r.choice([r.randrange(nI), 100 + r.randrange(nO)])
                return ['SB 1 0 0 0 %d - %d' % (n - 1, what)]

            def cut():
                st = 1 if lb < 25 else r.choice([7, 11, 13])
                return ['FN 2', '%s 1 2 %d' % (r.choice(['TR', 'TR', 'WR']), st)]
            op = ['SI 1 %s %s' % (f, toks(o))]
            feed = ['SF 1 0 0 %d' % cutpoint(G, lb, n)]
            L += nullhandle()
            L.append(w.feed(2))
            L += op + r.choice([nullout, nullchunk])() + ['SX 1', 'SX 1']
            L.append(w.feed(2))
            L += op + nullptr() + ['SX 1']
            L += op + feed + cut() + ['SX 1']
            L.append(w.feed(2))
            L += [w.feed(n2), w.free()]
            if special:
                L += G.reset()
            groups.append(L)
    return groups


# ------------------------------------------------------------------ batch calls: C06, C07, C10, C11, C12
def ranges(G, lb, n, local=False):
    """a start and an end among n bars"""
    r = G.r
    s = r.choice([0, 0, lb, lb, lb + 1, max(0, lb - 1), r.randint(0, n - 1), lb + r.randint(0, 12)])
    if local:
        s = lb + r.choice([0, 0, 1, 2, r.randint(0, 15)])
    s = min(s, n - 1)
    t = r.choice([n - 1, n - 1, s, s + 1, lb, lb + 1, max(s, lb - 1), r.randint(s, n - 1)])
    return s, max(s, min(t, n - 1))


def batch(f, o, d, off, s, t, tag, v='D', al='-', nul='-'):
    return 'B %s %s %d %d %d %d %s %s %s %s' % (f, toks(o), d, off, s, t, v, al, nul, tag)


def bdata(f, G, d, n, kind=None):
    """MAVP is called with any periods here"""
    if f in CDL and d == 0 and kind is None and getattr(G, 'bars', None):
        return shown(f, G, d, n)
    out = ['D %d %d %d %d 0' % (d, n, G.kind(f) if kind is None else kind, G.seed())]
    if f == 'MAVP':
        out.append('P %d 0 14 %d' % (d, G.seed()))
    return out


def c06(seed, trials, names=NAMES):
    groups, G = [], Gen(seed)
    r = G.r
    for t in range(trials):
        for f in names:
            L, special, o, lb = pick(G, f, t)
            n = lb + r.randint(1, 40)
            if r.random() < 0.1:
                n = max(1, min(n, lb))          # not enough bars for anything
            off = r.choice([0, 0, 0, 1, 3])
            L += bdata(f, G, 0, n + off)
            for k in range(3):
                s, e = ranges(G, lb, n)
                L.append(batch(f, o, 0, off, s, e, 'range', v=r.choice('DDS')))
            if special:
                L += G.reset()
            groups.append(L)
    return groups


def c07(seed, trials, names=NAMES):
    groups, G = [], Gen(seed)
    r = G.r
    for t in range(trials):
        for f in names:
            L = ['G']
            q = pattern(f, G)
            if q:
                L += q[0]
                o = q[1]
            else:
                if r.random() < 0.4:
                    L += G.settings(compat=False)
                o = G.opts(f, big=large(t, G, f))
            lb = G.lb(f, o)
            n = size(G, lb + r.randint(5, 60))
            L += bdata(f, G, 0, n)
            s, e = ranges(G, lb, n, local=True)
            L.append('R %s %s' % (f, toks(o)))
            ds = s - lb                                       # s and e relative to the lookback the library answers
            tk = lambda x: 'l+%d' % (x - lb) if x >= lb else 'l-%d' % (lb - x)

            def B(d, off, s, e, tag):
                return 'B %s %s %d %d %s %s D - - %s' % (f, toks(o), d, off, tk(s), tk(e), tag)
            L.append(B(0, 0, s, e, 'ref'))
            e2 = r.choice([e, s, r.randint(s, e)])
            L.append(B(0, 0, s, e2, 'local'))                                       # a shorter range
            cut = r.choice([ds, ds, r.randint(0, ds)])
            if cut:
                L.append(B(0, cut, s - cut, r.choice([e, e2]) - cut, 'local'))      # without the first bars
            L.append('M 1 0 %d %s %d' % (ds, tk(e), G.seed()))
            L.append(B(1, 0, s, e, 'local'))                                        # other bars outside
            if cut:
                L.append(B(1, cut, s - cut, e - cut, 'local'))
            if r.random() < 0.5 and e2 < e:
                L.append('M 2 0 0 %s %d' % (tk(e2), G.seed()))
                L.append(B(2, 0, s, e2, 'local'))                                   # another future
            L += G.reset()
            groups.append(L)
    return groups


def c10(seed, trials, names=NAMES):
    groups, G = [], Gen(seed)
    r = G.r
    for t in range(trials):
        for f in names:
            outs = [k for k, (_, c) in enumerate(FN[f]['outs']) if c == 'r']
            if not outs:
                continue
            L, special, o, lb = pick(G, f, t)
            n = lb + r.randint(1, 60)
            off = r.choice([0, 0, 2])
            L += bdata(f, G, 0, n + off)
            for _ in range(2):
                s, e = ranges(G, lb, n)
                L.append(batch(f, o, 0, off, s, e, 'ref'))
                for k in outs:
                    for j in range(nin(f)):
                        L.append(batch(f, o, 0, off, s, e, 'alias', al='%d:%d' % (k, j)))
                if len(outs) > 1 and nin(f) > 1:
                    ins = r.sample(range(nin(f)), min(len(outs), nin(f)))
                    L.append(batch(f, o, 0, off, s, e, 'alias', al=','.join('%d:%d' % x for x in zip(r.sample(outs, len(ins)), ins))))
            if special:
                L += G.reset()
            groups.append(L)
    return groups


FLOATY = ('CCI', 'PVT', 'PVI', 'NVI')       # compute differences of inputs in single precision


def c11(seed, trials, names=None):
    groups, G = [], Gen(seed)
    r = G.r
    for t in range(trials):
        for f in names or [x for x in NAMES if x not in FLOATY]:
            L, special, o, lb = pick(G, f, t)
            n = size(G, lb + r.randint(1, 60))
            L += bdata(f, G, 0, n, kind=8 if f in FLOATY and f == 'CCI' else None)
            for _ in range(2):
                s, e = ranges(G, lb, n)
                L += [batch(f, o, 0, 0, s, e, 'ref'), batch(f, o, 0, 0, s, e, 'single', v='S')]
            if special:
                L += G.reset()
            groups.append(L)
    return groups


def c11f(seed, trials):
    return c11(seed, trials, FLOATY)


def c12(seed, trials, names=NAMES):
    groups, G = [], Gen(seed)
    r = G.r
    for t in range(trials):
        for f in names:
            L = ['G']
            if r.random() < 0.3:
                L += G.settings(unst=False, candles=False)
            o = G.opts(f)
            o = metastock_ok(f, o, G)
            lb0 = G.lb(f, o)
            n = lb0 + r.randint(30, 90)
            L += data(f, G, 0, n, o=o)
            L += [batch(f, o, 0, 0, 0, n - 1, 'ref'), 'LA']
            for _ in range(3):
                x = r.random()
                k = r.choice([1, 2, 3, 5, 8, 13, 20])
                if x < 0.4:
                    L.append('U %d %d' % (len(UNST), k))
                elif x < 0.5:
                    L.append('U %d %d' % (r.choice([len(UNST) + 1, 99, len(UNST) + 7]), k))
                else:
                    own = [i for i, u in enumerate(UNST) if u == f]
                    ids = r.sample(range(len(UNST)), 4) + own + [UNST.index('EMA'), UNST.index('KAMA'), UNST.index('T3'), UNST.index('MAMA'), UNST.index('WLMA'), UNST.index('RSI'), UNST.index('ADX')]
                    for i in r.sample(ids, min(3, len(ids))) + own:
                        L.append('U %d %d' % (i, r.choice([0, 1, 2, 4, 9])))
                L += ['u %d' % r.choice(list(range(len(UNST) + 2))), 'LA', 'L %s %s' % (f, toks(o)), batch(f, o, 0, 0, 0, n - 1, 'unstable')]
            L += [batch(f, o, 0, 0, 0, n - 1, 'oracle'), 'SI 1 %s %s' % (f, toks(o)), 'SF 1 0 0 %d' % n, 'SX 1']
            L += G.reset()
            groups.append(L)
    return groups


# ------------------------------------------------------------------ C08: parameters
import math


def opt_values(f, k):
    """interesting values of parameter k: (inside, outside)"""
    d, (n, kd) = FN[f]['opts'][k], FN[f]['optl'][k]
    if kd == 'm':
        return [0, 1, 5, 9, INT_DEF], [-1, 10, 11, 100, 2147483647, INT_DEF + 1]
    if kd == 'i':
        mn, mx, df = int(d['min']), int(d['max']), int(d['default'])
        ins = {mn, min(mn + 1, mx), df, mx, max(mn, mx - 1), INT_DEF}
        outs = {mn - 1, mx + 1, mn - 100, 2147483647, INT_DEF + 1} if mn > -1000 else {INT_DEF + 1, 2147483647} - {mn, mx}
        return sorted(ins), sorted(x for x in outs if not mn <= x <= mx and x != INT_DEF and -2147483648 < x <= 2147483647)
    mn, mx, df = float(d['min']), float(d['max']), float(d['default'])
    return ([mn, mx, df, -4e37, (mn + mx) / 2 if mx < 1e30 else 1.5],
            [math.nextafter(mn, -math.inf), math.nextafter(mx, math.inf), mx * 2 + 1 if mx < 1e30 else 3.1e37, mn - 1 if mn > -1e30 else -3.1e37, math.inf, -math.inf, -3.9e37, 1e300])


def c08(seed, trials, names=NAMES):
    groups, G = [], Gen(seed)
    r = G.r
    for t in range(trials):
        for f in names:
            L = ['G']
            nI, nO = nin(f), nout(f)
            base = G.opts(f, big=0, sentinels=False)
            lb = G.lb(f, base)
            n = lb + r.randint(3, 12)
            L += bdata(f, G, 0, n)
            # every bound of every parameter, the others random
            for k in range(len(base)):
                ins, outs = opt_values(f, k)
                for v in ins + outs:
                    o = list(G.opts(f, big=0, sentinels=False))
                    o[k] = v
                    L.append('V %s %s 0' % (f, toks(o)))
                    if v in outs and r.random() < 0.3:
                        L.append(batch(f, o, 0, 0, 0, n - 1, 'refused', v=r.choice('DS')))
                        L.append('L %s %s' % (f, toks(o)))
            if not base:
                L.append('V %s  0' % f)
            # the default marker
            if base:
                for k in range(len(base)):
                    o = G.opts(f, big=0, sentinels=False)
                    d = FN[f]['opts'][k]
                    kd = FN[f]['optl'][k][1]
                    dv = float(d['default']) if kd == 'r' else int(float(d['default']))
                    sv = -4e37 if kd == 'r' else INT_DEF
                    o1, o2 = list(o), list(o)
                    o1[k], o2[k] = dv, sv
                    lbd = G.lb(f, o1)
                    nn = lbd + 20
                    L += bdata(f, G, 1, nn)
                    L.append(batch(f, o1, 1, 0, 0, nn - 1, 'ref'))
                    L.append(batch(f, o2, 1, 0, 0, nn - 1, 'default', v='D'))
                    L += ['L %s %s' % (f, toks(o2))]
                    # a stream opened with the marker
                    L += lone(f, o1, 1, nn) + ['SI 1 %s %s' % (f, toks(o2)), 'SF 1 1 0 %d' % nn, 'SX 1']
            # ranges and null arrays
            for s, e in ((-1, n - 1), (-1, -1), (0, -1), (5, 4), (1, 0), (n - 1, 0), (-2147483648, 3), (2, -2147483648)):
                L.append(batch(f, base, 0, 0, s, e, 'refused', v=r.choice('DS')))
            for q in list(range(nI)) + [100 + k for k in range(nO)]:
                s, e = r.choice([(0, n - 1), (lb, n - 1), (0, 0), (lb, lb)])
                L.append(batch(f, base, 0, 0, s, e, 'refused', v='D', nul=str(q)))
                L.append(batch(f, base, 0, 0, s, e, 'refused', v='S', nul=str(q)))
            groups.append(L)
    return groups


# ------------------------------------------------------------------ C16: introspection
GROUPNAMES = ['Math Operators', 'Math Transform', 'Overlap Studies', 'Volatility Indicators', 'Momentum Indicators', 'Cycle Indicators',
              'Volume Indicators', 'Pattern Recognition', 'Statistic Functions', 'Price Transform']


def c16(seed, trials):
    groups, G = [], Gen(seed)
    r = G.r
    groups.append(['G', 'XG', 'XE', 'XA'])
    groups.append(['G', 'XR -3 40', 'XR 4997 5003', 'XR 5997 6003', 'XR 65533 65537', 'XV'])
    L = ['G']
    for g in GROUPNAMES + ['Nothing', 'overlap studies', 'Overlap', 'Overlap Studies ', 'Math', '']:
        L.append('XT %s' % g)
    groups.append(L)
    for f in NAMES:
        L = ['G', 'XF %s' % f, 'XN %s' % f, 'XZ %s' % f]
        for x in {f.lower(), f + 'X', f[:-1], f[1:], 'TA_' + f, f + '_', '_' + f, f[0] + 'ZZZ', f.swapcase(), f[::-1], f + f, f[0], f[:2], f[:3]}:
            L.append('XN %s' % x)
        groups.append(L)
    groups.append(['G', 'XN <empty>'] + ['XN %s' % x for x in ('A', 'Z', '_', '1', 'ZZZZZZ', '*', 'a', 'z', '{', '@', '[', '0SMA', '9', 'SMA2', 'é', '\x7f')])
    for t in range(trials):
        for f in NAMES:
            L = ['G']
            L += G.settings()
            for _ in range(3):
                o = G.opts(f)
                L.append('L %s %s' % (f, toks(o)))
            L.append('LA')
            L += G.reset()
            groups.append(L)
    return groups


# ------------------------------------------------------------------ C09: the abstract interface
MASK = dict(O=1, H=2, L=4, C=8, V=16)


def absin(f):
    """abstract inputs: list of (kind, mask)"""
    k = FN[f]['kinds']
    if k[0] == 'R':
        return [('r', 1)] * len(k)
    return [('p', sum(MASK[c] for c in k))]


def setopts(a, f, o, only=None):
    return ['AO %d %d %s %s' % (a, i, 'r' if k == 'r' else 'i', tok(o[i])) for i, (n, k) in enumerate(FN[f]['optl']) if only is None or i in only]


def setins(a, f, d, off, only=None):
    return ['AI %d %d %s %d %d %d' % (a, i, k, d, off, m) for i, (k, m) in enumerate(absin(f)) if only is None or i in only]


def setouts(a, f, only=None):
    return ['AU %d %d %s 1' % (a, i, k) for i, (_, k) in enumerate(FN[f]['outs']) if only is None or i in only]


def wrongs(a, f, G):
    """calls that are refused and change nothing"""
    r = G.r
    nI, nO, nP = len(absin(f)), nout(f), len(FN[f]['opts'])
    L = []
    kind, mask = absin(f)[0]
    L.append('AI %d %d %s 0 0 31' % (a, r.choice([nI, nI + 1, 7]), r.choice([kind, kind, 'i'])))
    L.append('AI %d 0 %s 0 0 31' % (a, r.choice([x for x in 'pri' if x != kind])))
    L.append('AI %d 0 %s 0 0 0' % (a, r.choice('r' if kind == 'r' else 'p')))
    if kind == 'p':
        bits = [b for b in (1, 2, 4, 8, 16) if mask & b]
        L.append('AI %d 0 p 0 0 %d' % (a, 31 & ~r.choice(bits)))
    k0 = FN[f]['outs'][0][1]
    L.append('AU %d %d %s 1' % (a, r.choice([nO, nO + 3]), k0))
    L.append('AU %d 0 %s 1' % (a, 'i' if k0 == 'r' else 'r'))
    L.append('AU %d 0 %s 0' % (a, k0))
    L.append('AO %d %d i 3' % (a, r.choice([nP, nP + 1, 20])))
    L.append('AO %d %d r %s' % (a, nP, tok(1.0)))
    if nP:
        i = r.randrange(nP)
        L.append('AO %d %d %s %s' % (a, i, 'i' if FN[f]['optl'][i][1] == 'r' else 'r', '7' if FN[f]['optl'][i][1] == 'r' else tok(7.0)))
    r.shuffle(L)
    return L[:r.randint(1, 4)]


def c09(seed, trials, names=NAMES):
    groups, G = [], Gen(seed)
    r = G.r
    for t in range(trials):
        for f in names:
            L = ['G']
            special = r.random() < 0.3
            if special:
                L += G.settings()
            o = metastock_ok(f, G.opts(f), G)
            lb = G.lb(f, o)
            n = lb + r.randint(8, 40)
            L += data(f, G, 0, n, o=o)
            shape = r.choice(['call', 'call', 'reuse', 'stream', 'stream', 'two', 'io'])
            nI, nO, nP = len(absin(f)), nout(f), len(FN[f]['opts'])
            L.append('AP 1 %s' % f)
            given = [i for i in range(nP) if r.random() < 0.7]
            od = [o[i] if i in given else (-4e37 if FN[f]['optl'][i][1] == 'r' else INT_DEF) for i in range(nP)]
            if FN[f]['name'] == 'MACDEXT':
                od = metastock_ok(f, od, G)
                given = list(range(nP))
            lbd = G.lb(f, od)
            nn = lbd + r.randint(8, 40)
            if nn > n:
                n = nn
                L += data(f, G, 0, n, o=od)
            else:
                if f == 'MAVP':
                    L += data(f, G, 0, n, o=od)
            steps = setopts(1, f, od, given) + setins(1, f, 0, 0) + setouts(1, f)
            r.shuffle(steps)
            # what is missing to the very end is an input or an output
            q = r.choice([i for i, x in enumerate(steps) if x[:2] != 'AO'])
            steps.append(steps.pop(q))
            # refusals on the way
            for i in sorted(r.sample(range(len(steps)), min(3, len(steps))), reverse=True):
                steps[i:i] = r.choice([['AC 1 0 %d' % (n - 1)], ['AQ 1'], wrongs(1, f, G), ['AL 1'], wrongs(1, f, G)])
            # the direct call comes first: it is what the holder is compared with
            s, e = ranges(G, lbd, n)
            if shape == 'stream':
                L += lone(f, od, 0, n)
            L.append(batch(f, od, 0, 0, 0, n - 1, 'ref'))
            L += steps
            L += ['AC 1 0 %d' % (n - 1), 'AL 1']
            if shape in ('call', 'reuse', 'two'):
                L += [batch(f, od, 0, 0, s, e, 'ref'), 'AC 1 %d %d' % (s, e)]
                for _ in range(2 if shape == 'reuse' else 0):
                    ch = [i for i in range(nP) if r.random() < 0.6]
                    o2 = G.opts(f)
                    od = [o2[i] if i in ch else od[i] for i in range(nP)]
                    if r.random() < 0.15 and nP:
                        i = r.randrange(nP)
                        od[i] = r.choice(opt_values(f, i)[1])
                        ch.append(i)
                    off = r.choice([0, 1, 2])
                    s, e = ranges(G, 0, n - off)
                    L.append(batch(f, od, 0, off, s, e, 'ref'))
                    L += setopts(1, f, od, set(ch)) + setins(1, f, 0, off) + ['AC 1 %d %d' % (s, e), 'AL 1']
                if shape == 'two':
                    f2 = r.choice([f, r.choice(names)])
                    oo = G.opts(f2)
                    lb2 = G.lb(f2, oo)
                    n2 = lb2 + r.randint(5, 30)
                    L += bdata(f2, G, 1, n2)
                    L.append('AP 2 %s' % f2)
                    L += setopts(2, f2, oo) + setins(2, f2, 1, 0) + setouts(2, f2)
                    L += [batch(f2, oo, 1, 0, 0, n2 - 1, 'ref'), 'AC 2 0 %d' % (n2 - 1)]
                    L += [batch(f, od, 0, 0, 0, n - 1, 'ref'), 'AC 1 0 %d' % (n - 1)]
                    L += [batch(f2, oo, 1, 0, 0, n2 - 1, 'ref'), 'AC 2 0 %d' % (n2 - 1), 'AF 2']
            elif shape == 'stream':
                V = r.choice(['', '', ' p'])
                L.append('AN 1' + V)
                pos, a, other, nf = 0, 1, 2, 1
                two = False
                while pos < n:
                    k = min(n - pos, r.choice([1, 3, lbd, 10, 25, n]))
                    x = r.random()
                    if k and x < 0.5:
                        L.append('AS %d 0 %d %d%s' % (a, pos, k, V))
                        pos += k
                    elif k and x < 0.8:
                        off = r.choice([0, pos])
                        L += setins(a, f, 0, off)
                        L.append('AB %d %d %d%s' % (a, pos - off, pos - off + k - 1, V))
                        pos += k
                    elif x < 0.9 and nf < 6:
                        L += ['FN %d' % nf, 'AV %d %d' % (a, nf) + V, 'FR %d' % nf]
                        if r.random() < 0.5:
                            L += ['AX %d' % a + V, 'AW %d %d' % (a, nf) + V]
                        else:
                            L += ['AW %d %d' % (a, nf) + V, 'AX %d' % a + V, 'FR %d' % nf, 'AW %d %d' % (a, nf) + V]
                        nf += 1
                    elif x < 0.96 and not two:
                        two = True
                        L += ['AP 2 %s' % f] + setouts(2, f) + ['AM 1 2']
                        a = 2
                L.append('AX %d' % a + V)
                if two:
                    L.append('AF 2')
            else:             # streams that are not open, and direct handles next to holders
                L += r.choice([[], ['AQ 1']]) + ['AS 1 0 0 2', 'AN 1', 'AX 1', 'AX 1', 'FN 1', 'AV 1 1', 'FR 1', 'AW 1 1', 'AW 1 1']
                L += ['AP 3 %s' % r.choice(['NOTHING', f + 'X', f.lower()]), 'AF 3']
            L.append('AF 1')
            if special:
                L += G.reset()
            groups.append(L)
    return groups


# ------------------------------------------------------------------ C13: settings
def candle_probe(G):
    """candlesticks under the settings as they are: no other way shows them"""
    r = G.r
    f, p, pen = r.choice(sorted(windows()))
    p = 0 if r.random() < 0.7 and (f, 0, pen) in windows() else p
    ws = windows()[f, p, pen]
    bars = []
    for b, flips in r.sample(ws, min(len(ws), 6)):
        for x in [b] + [nudged(b, q) for q in r.sample(flips, min(len(flips), 4))]:
            bars += x
    bars = bars[:150]
    L = ([] if p == 0 and r.random() < 0.5 else profile(p, G)) + [explicit(0, bars, 1)]
    for f2 in (f, r.choice(CDL)):
        o = [pen / 4.0] if f2 == f and FN[f]['opts'] else penetration(f2, r)
        L.append(batch(f2, o, 0, 0, 0, len(bars) - 1, 'candle'))
    return L


def c13(seed, trials):
    groups, G = [], Gen(seed)
    r = G.r
    nU, nC = len(UNST), len(CS)
    for t in range(trials):
        L = ['G']
        if r.random() < 0.3:
            L += ['Z', 'Z', 'I']
        L.append('I')
        for _ in range(r.randint(10, 40)):
            x = r.random()
            if x < 0.22:
                L.append('U %d %d' % (r.choice([r.randrange(nU), r.randrange(nU), nU, nU + 1, nU + 5, 1000]), r.choice([0, 1, 2, 7, 30, 1000, 70000, 2000000])))
            elif x < 0.34:
                L.append('u %d' % r.choice([r.randrange(nU), nU, nU + 1, 99]))
            elif x < 0.42:
                L.append('C %d' % r.randint(0, 1))
            elif x < 0.48:
                L.append('c')
            elif x < 0.66:
                L.append('K %d %d %d %s' % (r.choice([r.randrange(nC), r.randrange(nC), nC, nC + 1, 50]), r.randint(0, 2), r.choice([0, 1, 2, 5, 10, 25, 300, 70000]), tok(r.choice([0.0, 0.1, 0.5, 1.0, 2.0, -0.25, 1e-9, 123456.789]))))
            elif x < 0.74:
                L.append('k %d' % r.choice([r.randrange(nC), nC, nC, nC + 1, 77]))
            elif x < 0.78:
                L.append(r.choice(['I', 'Z\nI', 'Z\nZ\nI', 'I\nI', 'Z\nI\nI']))
            elif x < 0.80:                  # (no lookback while such a period is set)
                i = r.randrange(nU)
                L += ['U %d %d' % (i, r.choice([65535, 65536, 1 << 24, (1 << 24) + 1, 2147483647])), 'u %d' % i, 'u %d' % r.randrange(nU), 'U %d %d' % (i, r.choice([0, 3]))]
            elif x < 0.90:
                L.append('LA')
                for u in r.sample(range(nU), 3):
                    L.append('u %d' % u)
            else:
                f = r.choice(NAMES)
                L.append('L %s %s' % (f, toks(G.opts(f))))
        if r.random() < 0.3:                # what the candle settings then do
            G.reset()
            L += candle_settings(G) if r.random() < 0.3 else []
            L += candle_probe(G)
        L += ['LA'] + ['u %d' % u for u in range(nU + 2)] + ['c', 'I', 'LA', 'c'] + ['u %d' % u for u in range(nU)]
        if r.random() < 0.3:                # and what they do when the library started over
            L += candle_probe(G)
        groups.append('\n'.join(L).split('\n'))
    return groups


# ------------------------------------------------------------------ C14
def candle_settings(G):
    """settings of all the candle averages; half of the time such that nothing is ever rounded"""
    r, out = G.r, []
    exact = r.random() < 0.6
    for i in range(len(CS)):
        ap = r.choice([0, 1, 2, 4, 8] if exact else [0, 1, 2, 3, 5, 10, 12])
        fac = r.choice([0.125, 0.25, 0.5, 1.0, 1.5, 2.0] if exact else [0.0, 0.05, 0.1, 0.2, 0.3, 0.5, 1.0, 2.0, 3.0])
        out.append('K %d %d %d %s' % (i, r.randint(0, 2), ap, tok(fac)))
        G.g.ap[CS[i]] = ap
    return out


def grid_bars(r, n, span):
    """bars on a coarse grid, so that equal prices are common"""
    out, p = [], r.randint(20, 40)
    for _ in range(n):
        p = max(10, p + r.randint(-span, span))
        o, c = p + r.randint(-span, span), p + r.randint(-span, span)
        if r.random() < 0.2:
            c = o
        h, l = max(o, c) + r.choice([0, 0, 1, r.randint(0, span)]), min(o, c) - r.choice([0, 0, 1, r.randint(0, span)])
        out.append((o, h, l, c))
    return out


def explicit(d, bars, emit, scale=256):
    return 'E %d %d %d %d %s' % (d, len(bars), emit, scale, ' '.join('%d %d %d %d' % b for b in bars))


def penetration(f, r):
    return [r.choice([0.0, 0.25, 0.5, 0.75, 1.0, 0.3, 0.1, -4e37])] if FN[f]['opts'] else []


def hikkake_bars(r, n):
    """inside bars, breaks of them and closes beyond them one to five bars later"""
    out = []
    while len(out) < n:
        hi, lo = r.randint(70, 80), r.randint(30, 40)
        mid = lambda: r.randint(50, 60)
        def bar(h, l, c=None):
            out.append((r.randint(l, h), h, l, r.randint(l, h) if c is None else c))
        for _ in range(r.choice([1, 2, 2, 3])):
            bar(hi, lo, r.choice([None, lo, lo + 1, lo + 2, lo + 4, hi, hi - 1, hi - 2, hi - 4]))
            hi, lo = hi - r.choice([0, 1, 1, 2, 3]), lo + r.choice([0, 1, 1, 2, 3])
        h2, l2 = out[-1][1], out[-1][2]
        up = r.random() < 0.5
        d, e = r.choice([0, 1, 1, 2]), r.choice([0, 1, 1, 2])
        h3, l3 = (h2 + d, l2 + e) if up else (h2 - d, l2 - e)
        bar(h3, l3, mid())
        for _ in range(r.randint(0, 4)):
            bar(r.randint(61, max(62, h3 + 1)), r.randint(min(48, l3 - 1), 49), mid())
        for _ in range(r.choice([1, 1, 2])):
            c = r.choice([h2, h2 + 1, h2 + 2, l2, l2 - 1, l2 - 2])
            bar(max(c, 61) + r.choice([0, 1]), min(c, 49) - r.choice([0, 1]), c)
    return out[:n]


def c14(seed, trials, names=CDL):
    groups, G = [], Gen(seed)
    r = G.r
    for t in range(trials):
        L = ['G']
        if r.random() < 0.8:
            L += candle_settings(G)
        n = 120
        if t % 6 == 0:
            L.append(explicit(0, hikkake_bars(r, n), 1))
            for f in ('CDLHIKKAKE', 'CDLHIKKAKEMOD'):
                L.append(batch(f, [], 0, 0, r.choice([0, 0, 10]), n - 1, 'candle'))
        elif r.random() < 0.6:
            L.append(explicit(0, grid_bars(r, n, r.choice([1, 2, 3, 4, 6, 10])), 1))
        else:
            L.append('D 0 %d %d %d 1' % (n, G.kind(None), G.seed()))
        for f in r.sample(names, min(len(names), 20)):
            o = penetration(f, r)
            s = 0 if r.random() < 0.7 else r.randint(0, 30)
            L.append(batch(f, o, 0, 0, s, n - 1, 'candle'))
        L += G.reset()
        groups.append(L)
    return groups


# windows on which a pattern is reported, and changes of them by a tick after which it is not (found by
# tools/candles/search.c; test input only)
PROFILES = {0: None,
            1: [(0, 2, 4), (0, 2, 8), (0, 1, 6), (1, 2, 1), (0, 0, 4), (0, 0, 8), (2, 2, 4), (1, 2, 1), (1, 1, 1), (1, 2, 2), (1, 2, 1)],
            2: [(0, 1, 5), (0, 1, 9), (0, 2, 4), (1, 1, 2), (2, 1, 5), (2, 2, 6), (0, 1, 3), (2, 1, 1), (0, 2, 2), (0, 1, 3), (2, 4, 1)],
            3: [(1, 0, 2), (1, 0, 3), (1, 0, 2), (1, 0, 1), (0, 0, 4), (0, 0, 8), (2, 0, 4), (1, 0, 1), (1, 0, 1), (1, 0, 2), (1, 0, 1)]}
_windows = None


def windows():
    """{(function, profile, penetration * 4): [(bars, [(bar, field, delta)])]}"""
    global _windows
    if _windows is None:
        _windows = {}
        for ln in open(os.path.join(HERE, 'candles.txt')):
            a, b = ln.split('|')
            a, b = a.split(), list(map(int, b.split()))
            v = list(map(int, a[5:]))
            bars = [tuple(v[i:i + 4]) for i in range(0, len(v), 4)]
            flips = [tuple(b[i:i + 3]) for i in range(0, len(b), 3)]
            _windows.setdefault((a[0], int(a[1]), int(a[3])), []).append((bars, flips))
    return _windows


def nudged(bars, flip):
    b, k, d = flip
    v = list(bars[b])
    for j in (range(4) if k == 4 else (0, 3) if k == 5 else (k,)):     # 4: the whole bar, 5: its body
        v[j] += d
    v[1], v[2] = max(v[1], v[0], v[3]), min(v[2], v[0], v[3])
    return bars[:b] + [tuple(v)] + bars[b + 1:]


def profile(p, G):
    out = ['k %d' % len(CS)]
    G.g.ap = dict(zip(CS, CS_AP))
    if p:
        for i, (rt, ap, fac) in enumerate(PROFILES[p]):
            out.append('K %d %d %d %s' % (i, rt, ap, tok(fac / 4.0)))
            G.g.ap[CS[i]] = ap
    return out


def window_series(r, trials):
    """(function, profile, penetration, bars): the known windows and their one-tick changes, joined to series"""
    for t in range(trials):
        for (f, p, pen), ws in sorted(windows().items()):
            ws = list(ws)
            r.shuffle(ws)
            if p == 0 and t == 0:
                ws = ws[:24]
            bars, allbars = [], []
            mul, add = (1, 0) if t == 0 else (r.choice([1, 2, 4]), r.choice([0, 64, 128]))
            for b, flips in ws:
                for x in [b] + [nudged(b, q) for q in (flips if t == 0 else r.sample(flips, min(len(flips), 6)))]:
                    bars += [tuple(v * mul + add for v in y) for y in x]
                if len(bars) > 600:
                    allbars.append(bars)
                    bars = []
            allbars += [bars] if len(bars) else []
            for bars in allbars:
                yield f, p, [pen / 4.0] if FN[f]['opts'] else [], bars


def c14w(seed, trials, names=CDL):
    """the windows, with another function on the same bars"""
    groups, G = [], Gen(seed)
    r = G.r
    for f, p, o, bars in window_series(r, trials):
        L = ['G'] + profile(p, G) + [explicit(0, bars, 1)]
        L.append(batch(f, o, 0, 0, 0, len(bars) - 1, 'candle'))
        for f2 in r.sample(names, 1):
            o = penetration(f2, r)
            L.append(batch(f2, o, 0, 0, 0, len(bars) - 1, 'candle'))
        groups.append(L + G.reset())
    return groups


def c01w(seed, trials):
    """the windows as a stream and as a batch call"""
    groups, G = [], Gen(seed)
    for f, p, o, bars in window_series(G.r, trials):
        n = len(bars)
        groups.append(['G'] + profile(p, G) + [explicit(0, bars, 0), batch(f, o, 0, 0, 0, n - 1, 'oracle'),
                                               'SI 0 %s %s' % (f, toks(o)), 'SF 0 0 0 %d' % n, 'SX 0'] + G.reset())
    return groups


# series whose prices are multiples of a small power of two: sums and differences of them are exact
DYADIC = [0, 1, 2, 4, 5, 6, 7, 8, 9, 11, 12, 15]


def c15(seed, trials, names=IND):
    """values of the indicators over series on display"""
    groups, G = [], Gen(seed)
    r = G.r
    for t in range(trials):
        L = ['G']
        if r.random() < 0.5:
            L += G.settings(candles=False)
        elif r.random() < 0.5:
            G.g.compat = 1
            L.append('C 1')
        n = r.choice([40, 70, 70, 100, 130, 220 if t % 8 == 0 else 90])
        kind = r.choice(DYADIC + [9, 9, 3, 3, 10, 10, 0, 12])
        L.append('D 0 %d %d %d 1' % (n, kind, G.seed()))
        for f in r.sample(names, min(len(names), 10)):
            for _ in range(20):
                o = G.opts(f, big=1)
                lb = G.lb(f, o)
                if lb < n - 2 or r.random() < 0.02:
                    break
            x = r.random()
            s = 0 if x < 0.5 else min(lb, n - 1) if x < 0.6 else r.randint(0, min(n - 1, lb + 20))
            e = n - 1 if r.random() < 0.7 else r.randint(min(max(s, lb), n - 1), n - 1)
            if r.random() < 0.08:
                e = min(max(s, lb), n - 1)      # one bar
            L.append(batch(f, o, 0, 0, s, e, 'value'))
        L += G.reset()
        groups.append(L)
    return groups


def c15w(seed, trials, names=IND):
    """every window of a few values, for small parameters"""
    groups, G = [], Gen(seed)
    r = G.r
    for t in range(trials):
        for f in names:
            for u in range(2):
                for _ in range(40):
                    o = G.opts(f, big=0)
                    if G.lb(f, o) < 60 and all(v < 7 for v, k in zip(o, FN[f]['optl']) if k[1] == 'i'):
                        break
                L = ['G', 'D 0 250 15 %d 1' % G.seed()]
                if r.random() < 0.2:
                    L.append('C 1')
                groups.append(L + [batch(f, o, 0, 0, 0, 249, 'value')] + G.reset() + ['C 0'])
    return groups
