"""Random ingredients for the driver scripts: functions, parameters, settings, series.

Nothing here judges the library: lookback() only helps to choose sensible sizes, the specification
(spec/Lookback.tla) is what traces are checked against."""
import json, os, random, struct

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
CAT = json.load(open(os.path.join(ROOT, 'driver', 'catalog.json')))
FN = {f['name']: f for f in CAT}
NAMES = [f['name'] for f in CAT]
CDL = [n for n in NAMES if FN[n]['group'] == 'Pattern Recognition']
IND = [n for n in NAMES if n not in CDL]
KINDS = list(range(12)) + [13, 14, 15]
UNST = ["ADX", "ADXR", "ATR", "CMO", "DX", "EMA", "HT_DCPERIOD", "HT_DCPHASE", "HT_PHASOR", "HT_SINE",
        "HT_TRENDLINE", "HT_TRENDMODE", "IMI", "KAMA", "MAMA", "MFI", "MINUS_DI", "MINUS_DM", "NATR",
        "PLUS_DI", "PLUS_DM", "RSI", "STOCHRSI", "T3", "WLMA"]
CS_AP = [10, 10, 10, 10, 0, 0, 10, 10, 5, 5, 5]
CS = ["BodyLong", "BodyVeryLong", "BodyShort", "BodyDoji", "ShadowLong", "ShadowVeryLong", "ShadowShort",
      "ShadowVeryShort", "Near", "Far", "Equal"]


def tok(v):
    if isinstance(v, float):
        return 'x%016x' % struct.unpack('>Q', struct.pack('>d', v))[0]
    return str(v)


def toks(vs):
    return ' '.join(tok(v) for v in vs)


class G:
    """settings as the generator believes them to be (only used for sizes)"""
    def __init__(self):
        self.unst = dict.fromkeys(UNST, 0)
        self.compat = 0
        self.ap = dict(zip(CS, CS_AP))


INT_DEF = -2147483648


def resolve(f, o):
    r = []
    for d, (n, k), v in zip(FN[f]['opts'], FN[f]['optl'], o):
        if k != 'r' and v == INT_DEF:
            v = int(float(d['default']))
        if k == 'r' and v == -4e37:
            v = float(d['default'])
        r.append(v)
    return r


_cdl = None


def cdl_table():
    global _cdl
    if _cdl is None:
        import re
        _cdl = {}
        for m in re.finditer(r'(CDL\w+) \|-> \[s \|-> \{([^}]*)\}, k \|-> (\d)', open(os.path.join(ROOT, 'spec', 'Lookback.tla')).read()):
            _cdl[m.group(1)] = ([x.strip().strip('"') for x in m.group(2).split(',') if x.strip()], int(m.group(3)))
    return _cdl


def lookback(f, o, g):
    o = resolve(f, o)
    u = lambda n: g.unst[n]
    ema = lambda p: p - 1 + u('EMA')

    def ma(p, t):
        if p <= 1:
            return 0
        return [p - 1, ema(p), p - 1, 2 * ema(p), 3 * ema(p), p - 1, p + u('KAMA'), 32 + u('MAMA'),
                6 * (p - 1) + u('T3'), p - 1 + u('WLMA')][t]
    rsi = lambda p, n: p + u(n) - (1 if g.compat == 1 else 0)
    if f in CDL:
        s, k = cdl_table()[f]
        return max([g.ap[x] for x in s] + [1 if f == 'CDLHIKKAKEMOD' else 0]) + k
    if not o or f in ('SAR', 'SAREXT', 'MAMA'):
        if f in ('NVI', 'PVI', 'PVT', 'SAR', 'SAREXT', 'TRANGE'):
            return 1
        if f in ('HT_DCPERIOD', 'HT_PHASOR', 'MAMA'):
            return 32 + u(f)
        if f in ('HT_DCPHASE', 'HT_SINE', 'HT_TRENDLINE', 'HT_TRENDMODE'):
            return 63 + u(f)
        return 0
    p = o[0]
    if f in ('AROON', 'AROONOSC', 'BETA', 'MOM', 'ROC', 'ROCP', 'ROCR', 'ROCR100'):
        return p
    if f in ('ATR', 'KAMA', 'MFI', 'NATR', 'DX'):
        return p + u(f)
    if f in ('MINUS_DI', 'PLUS_DI'):
        return p + u(f) if p > 1 else 1
    if f in ('MINUS_DM', 'PLUS_DM'):
        return p + u(f) - 1 if p > 1 else 1
    if f == 'ADX':
        return 2 * p + u('ADX') - 1
    if f == 'ADXR':
        return 3 * p + u('ADX') - 2
    if f == 'IMI':
        return p + u('IMI') - 1
    if f in ('RSI', 'CMO'):
        return rsi(p, f)
    if f == 'EMA':
        return ema(p)
    if f == 'WLMA':
        return p - 1 + u('WLMA')
    if f == 'DEMA':
        return 2 * ema(p)
    if f == 'TEMA':
        return 3 * ema(p)
    if f == 'TRIX':
        return 3 * ema(p) + 1
    if f == 'T3':
        return 6 * (p - 1) + u('T3')
    if f == 'MA':
        return ma(p, o[1])
    if f == 'MAVP':
        return ma(o[1], o[2])
    if f == 'ADOSC':
        return ema(max(o[0], o[1]))
    if f in ('APO', 'PPO'):
        return ma(max(o[0], o[1]), o[2])
    if f == 'BBANDS':
        return max(ma(p, o[3]), p - 1)
    if f == 'MACD':
        return ema(max(o[0], o[1])) + ema(o[2])
    if f == 'MACDFIX':
        return ema(26) + ema(p)
    if f == 'MACDEXT':
        return max(ma(o[0], o[1]), ma(o[2], o[3])) + ma(o[4], o[5])
    if f == 'STOCH':
        return p - 1 + ma(o[1], o[2]) + ma(o[3], o[4])
    if f == 'STOCHF':
        return p - 1 + ma(o[1], o[2])
    if f == 'STOCHRSI':
        return rsi(p, 'RSI') + o[1] - 1 + ma(o[2], o[3])
    if f == 'ULTOSC':
        return max(o)
    return p - 1


class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.g = G()

    # ---- parameters
    def period(self, mn, mx, d, big):
        r = self.r
        if big == 3:
            return r.choice([r.randint(max(mn, 2), 8), r.randint(100, 300), r.randint(300, 1500)])
        x = r.random()
        if x < 0.12:
            return mn
        if x < 0.20:
            return min(mn + 1, mx)
        if x < 0.30:
            return INT_DEF if r.random() < 0.5 else d
        if x < 0.62:
            return r.randint(max(mn, 2), 8)
        if x < 0.90 or big < 1:
            return r.randint(max(mn, 2), 20)
        if x < 0.97 or big < 2:
            return r.randint(20, 70)
        return r.randint(70, 160)

    def opts(self, f, big=1, sentinels=True):
        r = self.r
        o = []
        for d, (n, k) in zip(FN[f]['opts'], FN[f]['optl']):
            if k == 'm':
                v = r.randint(0, 9) if r.random() > 0.05 or not sentinels else INT_DEF
            elif k == 'i':
                mn, mx = int(d['min']), int(d['max'])
                if mn < -1000:
                    v = r.randint(-3, 5)
                else:
                    v = self.period(mn, mx, int(d['default']), big)
                if v == INT_DEF and not sentinels:
                    v = int(d['default'])
            else:
                mn, mx, df = float(d['min']), float(d['max']), float(d['default'])
                x = r.random()
                if x < 0.35:
                    v = df
                elif x < 0.42 and sentinels:
                    v = -4e37
                elif mx < 2:
                    v = mn + (mx - mn) * r.randint(0, 64) / 64.0 if r.random() < 0.8 else r.choice([mn, mx])
                elif n == 'optInStartValue':
                    v = float(r.choice([0, 0, 90, 110, -90, -110, 40]))
                elif mn < -1e30:
                    v = r.choice([-1.5, 0.0, 0.5, 1.0, 2.0, 3.0, -4.0])
                elif 'enetration' in n:
                    v = r.choice([0.0, 0.1, 0.25, 0.3, 0.5, 0.75, 1.0])
                elif 'Offset' in n:
                    v = r.choice([0.0, 0.0, 0.01, 0.1])
                else:
                    v = r.choice([0.0, 0.01, 0.02, 0.05, 0.1, 0.2, 0.5, 1.0])
            o.append(v)
        if f == 'MAVP':
            o[0] = r.randint(2, 9)
            o[1] = r.randint(2, 12) if r.random() < 0.3 else o[0] + r.randint(0, 8)
        return o

    def kind(self, f):
        return self.r.choice(KINDS)

    def seed(self):
        return self.r.randint(1, 10 ** 9)

    # ---- settings (returns script lines; self.g follows)
    def settings(self, unst=True, compat=True, candles=True):
        r, out = self.r, []
        if unst:
            x = r.random()
            if x < 0.5:
                k = r.choice([0, 1, 2, 3, 7])
                out.append('U %d %d' % (len(UNST), k))
                for n in UNST:
                    self.g.unst[n] = k
            else:
                for i in r.sample(range(len(UNST)), 5):
                    k = r.randint(0, 9)
                    out.append('U %d %d' % (i, k))
                    self.g.unst[UNST[i]] = k
        if compat:
            self.g.compat = r.randint(0, 1)
            out.append('C %d' % self.g.compat)
        if candles:
            out.append('k %d' % len(CS))
            self.g.ap = dict(zip(CS, CS_AP))
            if r.random() < 0.7:
                for i in range(len(CS)):
                    if r.random() < 0.5:
                        ap = r.choice([0, 0, 1, 2, 3, 5, 8, 12])
                        out.append('K %d %d %d %s' % (i, r.randint(0, 2), ap, tok(r.choice([0.0, 0.05, 0.1, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0]))))
                        self.g.ap[CS[i]] = ap
        return out

    def reset(self):
        self.g = G()
        return ['U %d 0' % len(UNST), 'C 0', 'k %d' % len(CS)]

    def lb(self, f, o):
        return lookback(f, o, self.g)
