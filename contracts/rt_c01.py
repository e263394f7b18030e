import numpy as np
from harness.rt import *
from ASAPy import CovManipulation as CM


def _inputs(c):
    std = np.array(c['std'], dtype=c.get('dtype', 'float'))
    m = np.array(c['m'], dtype=c.get('mdtype', 'float')).reshape(len(std), len(std))
    if c.get('fortran'):
        m = np.asfortranarray(m)
    if c.get('readonly'):
        std.setflags(write=False)
        m.setflags(write=False)
    return std, m


def run(c):
    std, m = _inputs(c)
    std0, m0 = std.copy(), m.copy()
    n = len(std)
    k = c['kind']
    f2c, c2f = need(CM, 'correlation_to_cov'), need(CM, 'cov_to_correlation')
    sf, mf = std0.astype(float), m0.astype(float)
    if k == 'tocov':
        got = call(f2c, std, m)
        up = mf * sf[:, None] * sf[None, :]
        want = np.triu(up, 1)
        want = want + want.T + np.diag(sf ** 2)
        close(got, want, 'covariance', rtol=1e-12, atol=1e-300)
        same(got, np.asarray(got).T, 'symmetry of the covariance')
    elif k == 'tocorr':
        got = call(c2f, m)
        d = np.diag(mf)
        with np.errstate(all='ignore'):
            up = mf / np.abs(d[:, None] * d[None, :]) ** 0.5
        want = np.zeros((n, n))
        for i in range(n):
            want[i, i] = 1.0
            for j in range(i + 1, n):
                want[i, j] = want[j, i] = up[i, j]
        close(got, want, 'correlation', rtol=1e-12)
        same(got, np.asarray(got).T, 'symmetry of the correlation')
    else:
        # inverse of each other for positive deviations and unit diagonal
        sym = np.triu(mf, 1)
        sym = sym + sym.T + np.eye(n)
        sym0 = sym.copy()
        cov = call(f2c, std, sym)
        back = call(c2f, cov)
        close(back, sym0, 'correlation after round trip', rtol=1e-9, atol=1e-12)
        again = call(f2c, std, back)
        close(again, cov, 'covariance after round trip', rtol=1e-9, atol=1e-300)
        same(sym, sym0, 'input correlation')
    same(std, std0, 'input standard deviations')
    same(m, m0, 'input matrix')


def _case(rng, n, kind):
    style = rng.pick(['unit', 'wide', 'int', 'zeros', 'neg', 'equal'])
    std = np.abs(rng.normal(size=n)) + 1e-3
    m = rng.uniform(-1, 1, size=(n, n))
    c = {'kind': kind}
    if style == 'wide':
        std = 10.0 ** rng.uniform(-12, 8, size=n)
        m = m * 10.0 ** rng.uniform(-6, 6, size=(n, n))
        if kind == 'round':
            m = np.clip(m, -1, 1)
    elif style == 'int':
        std = rng.integers(1, 9, size=n)
        c['dtype'] = 'int'
        if kind == 'tocorr' and rng.chance(.5):
            m = rng.integers(-9, 9, size=(n, n))
            c['mdtype'] = 'int'
    elif style == 'zeros' and kind != 'round':
        std[rng.random(n) < .4] = 0
        m[rng.random((n, n)) < .3] = 0
    elif style == 'neg' and kind == 'tocov':
        std = std * np.sign(rng.normal(size=n))
    elif style == 'equal':
        std[:] = 2.0
        m[:] = rng.pick([0.5, 1.0, -0.25, 1.0])
    if kind == 'tocorr' and rng.chance(.6):
        m = (m + m.T) / 2
        if not m.dtype.kind == 'i':
            m[np.arange(n), np.arange(n)] = np.abs(np.diag(m))
        c.pop('mdtype', None)
    c['std'] = [v.item() for v in std]
    c['m'] = [[v.item() for v in r] for r in m]
    if rng.chance(.1):
        c['fortran'] = True
    if rng.chance(.2):
        c['readonly'] = True
    return c


def fixed(tier):
    rng = Rng(99)
    for n in list(range(1, 9)) + [13, 30, 50]:
        for kind in ('tocov', 'tocorr', 'round'):
            for _ in range(6):
                yield _case(rng, n, kind)


def gen(rng, tier):
    sizes = [30, 40, 50, 60, 75] if deep(rng, tier) else [1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 11, 16, 25]
    return _case(rng, rng.pick(sizes), rng.pick(['tocov', 'tocorr', 'round']))
