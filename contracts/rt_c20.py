import math
import warnings
import itertools
import numpy as np
from scipy.integrate import quad
from harness.rt import *
from ASAPy.data import function as F


def regions(c):
    """law of every interval i (between points i and i+1)"""
    n = len(c['x'])
    if c.get('bp') is None:
        return [2] * (n - 1)
    out, k = [], 0
    for i in range(n - 1):
        while i + 1 >= c['bp'][k]:
            k += 1
        out.append(c['it'][k])
    return out


def interp(law, x0, x1, y0, y1, x):
    if law == 1:
        return y0
    if law == 2:
        return y0 + (x - x0) / (x1 - x0) * (y1 - y0)
    if law == 3:
        return y0 + math.log(x / x0) / math.log(x1 / x0) * (y1 - y0)
    if law == 4:
        return y0 * (y1 / y0) ** ((x - x0) / (x1 - x0))
    return y0 * (y1 / y0) ** (math.log(x / x0) / math.log(x1 / x0))


def value(c, x):
    """list of acceptable values"""
    X, Y = c['x'], c['y']
    hit = [Y[i] for i in range(len(X)) if X[i] == x]
    if hit:
        return hit
    if x < X[0]:
        return [0.0] if not np.isclose(x, X[0], rtol=1e-9, atol=2e-14) else None
    if x > X[-1]:
        return [0.0] if not np.isclose(x, X[-1], rtol=1e-9, atol=2e-14) else None
    laws = regions(c)
    for i in range(len(X) - 1):
        if X[i] < x < X[i + 1]:
            return [interp(laws[i], X[i], X[i + 1], Y[i], Y[i + 1], x)]
    raise AssertionError


def area(law, x0, x1, y0, y1):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')       # round-off notice of the oracle
        return _area(law, x0, x1, y0, y1)


def _area(law, x0, x1, y0, y1):
    if x1 == x0:
        return 0.0
    if law == 1:
        return y0 * (x1 - x0)
    if law == 2:
        return .5 * (y0 + y1) * (x1 - x0)
    # substitute u = ln x for the laws in ln x, integrate numerically
    if law in (3, 5):
        return quad(lambda u: interp(law, x0, x1, y0, y1, math.exp(u)) * math.exp(u), math.log(x0), math.log(x1), epsabs=0, epsrel=1e-12, limit=200)[0]
    return quad(lambda x: interp(law, x0, x1, y0, y1, x), x0, x1, epsabs=0, epsrel=1e-12, limit=200)[0]


def mk(c):
    a = dict(breakpoints=c['bp'], interpolation=c['it']) if c.get('bp') is not None else {}
    conv = np.array if not c.get('lists') else list
    return call(need(F, 'Tabulated1D'), conv(c['x']), conv(c['y']), **a)


def run(c):
    if c['kind'] == 'sum':
        fs = [mk(t) for t in c['tabs']]
        if any(any(l != 2 for l in (t.get('it') or [2])) for t in c['tabs']):
            must_raise(need(F, 'sum_functions'), fs, _what='an error for a table that is not linear')
            return
        keep = [(np.array(f.x), np.array(f.y)) for f in fs]
        s = call(need(F, 'sum_functions'), iter(fs) if c.get('it') else fs)
        pts = sorted({x for t in c['tabs'] for x in t['x']})
        same(s.x, pts, 'points of the sum')
        for x, y in zip(s.x, s.y):
            vals = [value(t, float(x)) for t in c['tabs']]
            if any(v is None for v in vals):
                continue                      # within the end tolerance of another table
            want = sum(v[0] for v in vals)
            sc = sum(max(abs(q) for q in t['y']) for t in c['tabs'])
            close(y, want, 'sum at %r' % float(x), rtol=1e-10, atol=1e-12 * sc)
        for f, (x, y) in zip(fs, keep):
            same(f.x, x, 'x of an addend')
            same(f.y, y, 'y of an addend')
        return
    f = mk(c)
    if c['kind'] == 'integral':
        got = np.asarray(call(f.integral))
        expect(got.shape == (len(c['x']),), 'integral has shape {}', got.shape)
        expect(got[0] == 0, 'integral starts at {}', float(got[0]))
        laws = regions(c)
        tot = scale = 0.0
        for i, l in enumerate(laws):
            a = area(l, c['x'][i], c['x'][i + 1], c['y'][i], c['y'][i + 1])
            tot += a
            scale += max(abs(c['y'][i]), abs(c['y'][i + 1])) * max(abs(c['x'][i]), abs(c['x'][i + 1]))
            expect(abs(got[i + 1] - tot) <= 1e-7 * max(abs(tot), 1e-300) + 1e-11 * scale,
                   'integral up to point {} is {} instead of {} (law {})', i + 1, float(got[i + 1]), tot, l)
        return
    pts = c['pts']
    arr = np.array(pts)
    before = arr.copy()
    res = call(f, arr)
    same(arr, before, 'evaluation points')
    expect(np.shape(res) == (len(pts),), 'shape {} for {} points', np.shape(res), len(pts))
    lst = call(f, list(pts))
    same(lst, res, 'list instead of array')
    for i, p in enumerate(pts):
        want = value(c, float(p))
        if want is None:
            continue
        sc = max(1e-300, max(abs(v) for v in c['y']))
        ok = any(abs(float(res[i]) - w) <= 1e-10 * abs(w) + 1e-12 * sc for w in want)
        expect(ok, 'value at {!r} is {!r} instead of {!r}', float(p), float(res[i]), want)
        s = call(f, p)
        expect(np.ndim(s) == 0 and (s == res[i] or (np.isnan(s) and np.isnan(res[i]))), 'scalar at {!r} gives {!r}, array {!r}', p, s, float(res[i]))


def table(rng, n, laws=None, dup=True, linear=False):
    x = np.unique(np.round(rng.uniform(.1, 50, n + 3), rng.pick([1, 3, 6])))[:n]
    while len(x) < 2:
        x = np.unique(rng.uniform(.1, 50, n + 3))[:max(2, n)]
    if rng.chance(.2):
        x = x * 10.0 ** rng.int(-8, 7)
    x = [float(v) for v in x]
    if rng.chance(.15):
        x = sorted({float(int(v) + 1) for v in x})
        if len(x) < 2:
            x = [1.0, 2.0]
    if dup and len(x) > 3 and rng.chance(.3):
        i = rng.int(1, len(x) - 2)
        x[i] = x[i + 1] if i + 2 < len(x) else x[i - 1]
        x.sort()
    n = len(x)
    c = {'x': x}
    if linear or rng.chance(.2):
        c['bp'] = None
        if rng.chance(.3):
            c['bp'], c['it'] = [n], [2]
    else:
        k = rng.int(1, min(4 if n < 10 else 12, n - 1))
        bp = sorted(int(v) for v in rng.choice(np.arange(2, n + 1), size=k, replace=False))
        bp[-1] = n
        bp = sorted(set(bp))
        c['bp'] = bp
        c['it'] = [rng.int(1, 5) for _ in bp] if laws is None else [rng.pick(laws) for _ in bp]
    pos = any(l in (4, 5) for l in regions(c))
    c['y'] = [float(rng.uniform(.01, 20)) if pos or rng.chance(.5) else float(rng.uniform(-5, 5)) for _ in x]
    if rng.chance(.2):
        i = rng.int(0, n - 2)
        c['y'][i + 1] = c['y'][i]
    if rng.chance(.1):
        i = rng.int(0, n - 2)
        v = c['y'][i] * c['x'][i] / c['x'][i + 1] if c['x'][i + 1] else c['y'][i + 1]
        c['y'][i + 1] = float(v)
    c['lists'] = rng.chance(.2)
    return c


def points(rng, c):
    X = c['x']
    pts = list(X)
    for a, b in zip(X, X[1:]):
        if b > a:
            pts += [a + (b - a) * t for t in (rng.uniform(.01, .99), .5)]
            pts += [float(np.nextafter(a, b)), float(np.nextafter(b, a))]
    pts += [X[0] * .5, X[0] - 1, X[-1] * 1.5, X[-1] + 1, 0.0, -1.0, X[0] * .999, X[-1] * 1.001, X[0] * (1 - 4e-6), X[-1] * (1 + 4e-6), X[0] * (1 - 3e-8), X[-1] * (1 + 3e-8)]
    if rng.chance(.3):
        pts += [int(v) for v in (X[0], X[-1], (X[0] + X[-1]) / 2)]
    else:
        pts = [float(p) for p in pts]
    order = list(rng.permutation(len(pts)))
    pts = [pts[i] for i in order]
    return [int(p) if isinstance(p, (int, np.integer)) else float(p) for p in pts]


def gen(rng, tier):
    k = rng.pick(['eval', 'eval', 'integral', 'sum'])
    if k == 'sum':
        big = deep(rng, tier)
        tabs = [table(rng, rng.int(8, 40) if big else rng.int(2, 7), dup=False, linear=not rng.chance(.05)) for _ in range(rng.int(4, 9) if big else rng.int(1, 4))]
        return {'kind': k, 'tabs': tabs, 'it': rng.chance(.3)}
    c = table(rng, rng.int(10, 80) if deep(rng, tier) else rng.int(2, 9))
    c['kind'] = k
    if k == 'eval':
        c['pts'] = points(rng, c)
        if rng.chance(.3):
            c['pts'] = [int(round(p)) for p in c['pts'] if abs(p) < 1e9]
    return c


def fixed(tier):
    rng = Rng(20)
    for n in (15, 40, 70):
        for _ in range(6):
            c = table(rng, n)
            yield dict(c, kind='eval', pts=points(rng, c))
            yield dict(c, kind='integral')
    # every layout of up to three regions over five points, every law
    for n in (2, 3, 4, 5):
        for k in (1, 2, 3):
            for bps in itertools.combinations(range(2, n), k - 1):
                for laws in itertools.product([1, 2, 3, 4, 5], repeat=k):
                    x = [float(v) for v in np.cumsum(rng.uniform(.3, 3, n))]
                    y = [float(v) for v in rng.uniform(.2, 9, n)]
                    c = {'x': x, 'y': y, 'bp': list(bps) + [n], 'it': list(laws)}
                    yield dict(c, kind='eval', pts=points(rng, c))
                    yield dict(c, kind='integral')
