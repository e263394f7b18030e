import numpy as np
import pandas as pd
from harness.rt import *
from ASAPy import XsecSampler as XS


def run(c):
    hi = np.array(c['high'], float)
    v = np.array(c['vals'], float)
    G = len(hi)
    e = np.array(c['e'], dtype=c.get('edtype', 'float'))
    ein = list(c['e']) if c.get('aslist') else e.copy()
    idx = pd.Index(list(range(1, G + 1)), name='groups')
    hs, vs = pd.Series(hi, index=idx), pd.Series(v, index=idx)
    kw = {}
    for k in ('max_e', 'min_e', 'value_outside_of_range'):
        if c.get(k) is not None:
            kw[k] = c[k]
    got = call(need(XS, 'map_groups_to_continuous'), ein, hs, vs, **kw)
    got = np.asarray(got, float)
    lo = c['min_e'] if c.get('min_e') is not None else hi.min() / 10
    up = c['max_e'] if c.get('max_e') is not None else hi.max()
    out = c['value_outside_of_range'] if c.get('value_outside_of_range') is not None else 1
    want = np.empty(len(e))
    for i, x in enumerate(e):
        if x < lo or x > up:
            want[i] = out
        elif x > hi[0]:
            want[i] = v[0]
        else:
            g = 0
            while g + 1 < G and x <= hi[g + 1]:
                g += 1
            want[i] = v[g]
    expect(got.shape == (len(e),), 'shape {} for {} energies', got.shape, len(e))
    for i in range(len(e)):
        if not (got[i] == want[i]):
            raise Violation('energy %r (group bounds %s, min %r, max %r): value %r instead of %r' % (float(e[i]), hi.tolist(), lo, up, float(got[i]), float(want[i])))
    same(np.asarray(ein), e, 'input energies')
    same(hs.values, hi, 'group bounds')
    same(vs.values, v, 'group values')


def _case(rng, G=None):
    G = G or rng.pick([1, 2, 3, 4, 5, 8, 20])
    if rng.chance(.3):
        hi = np.arange(G, 0, -1) * rng.pick([1.0, 2.0, 10.0])
    else:
        hi = np.sort(10.0 ** rng.uniform(-3, 7, size=G))[::-1].copy()
        if len(set(hi.tolist())) < G:
            hi = np.arange(G, 0, -1) * 1.0
    c = {'kind': 'map', 'high': fl(hi), 'vals': fl(rng.normal(size=G) if rng.chance(.8) else rng.integers(0, 3, size=G))}
    lo = hi[-1] / 10
    if rng.chance(.7):
        c['min_e'] = lo = float(hi[-1] * rng.pick([.5, .9, .01, 0.0, .999999]))
    up = hi[0]
    if rng.chance(.5):
        c['max_e'] = up = float(hi[0] * rng.pick([1.0, 1.5, 10.0, 1.000001]))
    if rng.chance(.6):
        c['value_outside_of_range'] = rng.pick([0, 0.0, -1.5, 1, 7.25])
    pool = list(hi) + [lo, up] + list((hi[1:] + hi[:-1]) / 2) + list(np.nextafter(hi, 0)) + list(np.nextafter(hi, np.inf))
    pool += [np.nextafter(lo, -1), np.nextafter(up, np.inf), lo * .5, up * 2, up + 1, (lo + hi[-1]) / 2, (hi[0] + up) / 2, 0.0]
    pool += list(rng.uniform(lo, up, size=5))
    m = rng.pick([0, 1, 1, 2, 5, 20, 40])
    e = [float(rng.pick(pool)) for _ in range(m)]
    if rng.chance(.4):
        e = sorted(e)
    if rng.chance(.1):
        e = [float(int(min(x, 1e9))) for x in e]
        c['edtype'] = 'int'
        e = [int(x) for x in e]
    if m and rng.chance(.15):
        c['aslist'] = True
    c['e'] = e
    return c


def fixed(tier):
    rng = Rng(91)
    for G in (1, 2, 3, 5, 9):
        for _ in range(20):
            yield _case(rng, G)
    for G in (44, 130, 300):
        for _ in range(4):
            yield _case(rng, G)
    hi = [10.0, 5.0, 2.0]
    for mx in (None, 10.0, 20.0):
        for mn in (None, 1.0, 0.0):
            yield {'kind': 'map', 'high': hi, 'vals': [1.5, 2.5, 3.5], 'e': [10., 5., 2., 1., 0., .2, .1, 20., 15., 7., 3., 1.5, 25., 5.0001, 10.0001],
                   'max_e': mx, 'min_e': mn, 'value_outside_of_range': -9.0}


def gen(rng, tier):
    return _case(rng, rng.pick([33, 70, 252]) if deep(rng, tier) else None)
