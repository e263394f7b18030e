import os
import numpy as np
import pandas as pd
from harness.rt import *
from contracts.stores import COLS, key
from contracts import rt_c11 as B
from ASAPy import EndfToCov as EC

TINY = 1e-7


def run(c):
    f = need(EC, 'process_cov_to_h5')
    zaid, mt = c['zaid'], c['mt']
    with scratch() as d, quiet():
        name = 'covr_%s.txt_{mt}_matrix.txt' % c['temp']
        with open(os.path.join(d, name.format(mt=mt)), 'w') as fh:
            fh.write(B.text(c['file']))
        n = len(c['file']['xsec'])
        h5 = os.path.join(d, 'st_%dg.h5' % n)
        before = None
        if c.get('pre'):
            with pd.HDFStore(h5, 'a') as h:
                before = pd.DataFrame({'a': [1.0, 2.0]})
                h.put('99999/2/99999/2/corr', before)
                if c['pre'] == 2:
                    h.put(key(zaid, mt, zaid, mt, 'corr'), before)
                    h.put(key(zaid, mt, zaid, mt, 'std_dev'), before)
        if c['file'].get('marker') is not None or c['file'].get('nblocks', 4) < 4:
            try:
                f(d, zaid, mt, boxer_matrix_name=name, output_h5_format='st_{0}g.h5')
            except TimeoutError:
                raise
            except Exception:
                pass
            ks = []
            for e in os.listdir(d):
                if e.endswith('.h5'):
                    with pd.HDFStore(os.path.join(d, e), 'r') as h:
                        ks += [k for k in h.keys()]
                        for k in ks:
                            expect(c.get('pre') and h[k].equals(before), 'data stored for output that reports an error: {}', k)
            return
        call(f, d, zaid, mt, boxer_matrix_name=name, output_h5_format='st_{0}g.h5')
        stores = [e for e in os.listdir(d) if e.endswith('.h5')]
        expect(stores == ['st_%dg.h5' % n], 'stores written: {}', stores)
        with pd.HDFStore(h5, 'r') as h:
            want = {key(zaid, mt, zaid, mt, w) for w in ('corr', 'std_dev')}
            if c.get('pre'):
                want.add('99999/2/99999/2/corr')
                expect(h['99999/2/99999/2/corr'].equals(before), 'data of another key changed')
            expect({k.strip('/') for k in h.keys()} == want, 'keys {} instead of {}', h.keys(), want)
            corr = h[key(zaid, mt, zaid, mt, 'corr')]
            tab = h[key(zaid, mt, zaid, mt, 'std_dev')]
    rd = lambda v: np.array([float(B.field(t)) for t in v])
    x, rel, b = rd(c['file']['xsec']), rd(c['file']['rel']), rd(c['file']['bounds'])
    cov = rd([v for r in c['file']['cov'] for v in r]).reshape(n, n)
    labels = list(range(1, n + 1))
    expect(list(corr.index) == labels and list(corr.columns) == labels, 'correlation labels {}', list(corr.index))
    cv = corr.values.astype(float)
    expect(np.isfinite(cv).all(), 'missing values in the stored correlation')
    expect((np.abs(cv) <= 1).all(), 'stored correlation out of [-1, 1]: {}', float(np.abs(cv).max()))
    same(cv, cv.T, 'symmetry of the stored correlation')
    exp = np.eye(n)
    lim = np.ones((n, n), bool)
    with np.errstate(all='ignore'):
        for i in range(n):
            for j in range(i + 1, n):
                den = np.sqrt(abs(cov[i, i] * cov[j, j]))
                if den == 0 or not np.isfinite(den):
                    # undefined where 0/0 (zero), out of range otherwise (clipped)
                    v = 0.0 if (cov[i, j] == 0 or not np.isfinite(den)) else np.sign(cov[i, j])
                else:
                    v = np.clip(cov[i, j] / den, -1, 1)
                exp[i, j] = exp[j, i] = v
                if den != 0 and (den < 1e-290 or not np.isfinite(den)):
                    lim[i, j] = lim[j, i] = False      # range of the intermediate product
    close(np.where(lim, cv, 0), np.where(lim, exp, 0), 'stored correlation', rtol=1e-12, atol=0)
    expect(list(tab.index) == labels and list(tab.columns) == COLS, 'table labels')
    t = {k: tab[k].values.astype(float) for k in COLS}
    same(t['e high'], b[:-1], 'upper bounds')
    same(t['e low'], b[1:], 'lower bounds')
    std = rel * x
    zero = (x == 0)                     # then the deviation rel*x is zero as well
    for k in ('x-sec(1)', 'x-sec(2)'):
        close(t[k], x, k, rtol=1e-15)
    for k in ('s.d.(1)', 's.d(2)'):
        close(t[k], np.where(zero, TINY, std), k, rtol=1e-13)
    with np.errstate(all='ignore'):
        for k in ('rel.s.d.(1)', 'rel.s.d(2)'):
            close(t[k], np.where(zero, TINY, std / x), k, rtol=1e-13)


def gen(rng, tier, n=None):
    n = n or (rng.int(14, 60) if deep(rng, tier) else rng.pick([1, 2, 3, 4, 5, 8, 9, rng.int(1, 14)]))
    fc = B.gen(rng, tier, n)
    fc['xsec'] = [0.0 if rng.chance(.15) else float(rng.uniform(1e-6, 50)) for _ in range(n)]
    fc['rel'] = [0.0 if rng.chance(.15) else float(rng.uniform(1e-4, 2)) for _ in range(n)]
    # half the digits of a covariance survive the format, so exceeding one happens by itself
    m = rng.pick(['psd', 'zeros', 'negdiag', 'wild', 'scaled'])
    a = rng.normal(size=(n, n))
    cov = a @ a.T
    if m == 'zeros':
        for i in range(n):
            if rng.chance(.3):
                cov[i, :] = 0
                if rng.chance(.7):
                    cov[:, i] = 0
    elif m == 'negdiag':
        for i in range(n):
            if rng.chance(.3):
                cov[i, i] *= -1
    elif m == 'wild':
        cov = rng.normal(size=(n, n)) * 10.0 ** rng.integers(-6, 6, size=(n, n))
        cov[rng.random((n, n)) < .2] = 0
    elif m == 'scaled':
        s = 10.0 ** rng.uniform(-20, 5, n)
        cov = cov * s[:, None] * s[None, :]
    fc['cov'] = mat(cov)
    fc['bounds'] = fl(np.sort(rng.uniform(1, 9.9, n + 1))[::-1])
    while len({B.field(v) for v in fc['bounds']}) != n + 1:
        fc['bounds'] = fl(np.sort(10 ** rng.uniform(-5, 7, n + 1))[::-1])
    return {'kind': m if fc['kind'] == 'ok' else fc['kind'], 'file': fc, 'zaid': rng.pick([92235, 1001, 94239]),
            'mt': rng.pick([2, 18, 102, 452, 1018, 4, 16, 9999] if fc['kind'] == 'ok' else [2, 18, 102, 1018]),
            'temp': rng.pick([300, 293, 600]),
            'pre': rng.pick([0, 0, 1, 2])}


def fixed(tier):
    rng = Rng(12)
    for n in list(range(1, 13)) + [33, 56]:
        for _ in range(4 if n < 13 else 1):
            c = gen(rng, tier, n)
            yield c
