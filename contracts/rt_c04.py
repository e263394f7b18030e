import itertools
import numpy as np
from contracts.sampling import *


def run(c):
    mean, std, corr = np.array(c['mean']), np.array(c['std']), np.array(c['corr'])
    n, distro = c['n'], c['distro']
    a, b, m = mean.copy(), std.copy(), corr.copy()
    if c.get('readonly'):
        for q in (a, b, m):
            q.setflags(write=False)
    f = need(CM, 'sample_with_corr')
    np.random.seed(c['npseed'])
    kw = {} if c.get('mt') is None else {'mt': c['mt']}
    x = np.asarray(call(f, a, b, m, n, distro=distro, **kw), float)
    expect(x.shape == (n, len(mean)), 'shape {} for {} samples of {} variables', x.shape, n, len(mean))
    same(a, mean, 'input means')
    same(b, std, 'input deviations')
    same(m, corr, 'input correlation')
    pin = (std <= 1e-30) | (np.diag(corr) == 0)
    if distro == 'lognormal':
        pin |= mean == 0
    for j in np.flatnonzero(pin):
        same(x[:, j], np.full(n, mean[j]), 'pinned variable %d' % j)
    for j in np.flatnonzero(~pin):
        expect(np.isfinite(x[:, j]).all(), 'sampled variable {} not finite', int(j))
        if n > 1:
            expect(len(set(x[:, j].tolist())) > 1, 'variable {} with uncertainty is constant', int(j))
    if (~pin).any() and pin.any():
        s = ~pin
        np.random.seed(c['npseed'])
        y = np.asarray(call(f, mean[s], std[s], corr[s][:, s], n, distro=distro, **kw), float)
        close(x[:, s], y, 'values of the sampled variables with and without the pinned ones', rtol=1e-9)


CAUSES = ['', 's', 's2', 'c', 'm', 'sm', 'sc', 'cm', 'scm']


def _case(rng, causes, distro, n=None):
    d = len(causes)
    mean = rng.uniform(.5, 3, size=d)
    std = mean * rng.uniform(.02, .4, size=d)
    if distro == 'normal' and rng.chance(.2):
        mean = mean * np.sign(rng.normal(size=d))
    corr = corr_matrix(rng, d)
    for j, q in enumerate(causes):
        if 's' in q:
            std[j] = rng.pick([0.0, 1e-30, 1e-35])
        if 'c' in q:
            corr[j, j] = 0
            if rng.chance(.8):
                corr[j, :] = corr[:, j] = 0
        if 'm' in q:
            mean[j] = 0
    c = {'kind': distro, 'mean': fl(mean), 'std': fl(std), 'corr': mat(corr), 'n': n or rng.pick([1, 2, 3, 5, 9, 20]),
         'distro': distro, 'npseed': rng.int(0, 2**31 - 1), 'mt': rng.pick([None, 102, 452])}
    if rng.chance(.2):
        c['readonly'] = True
    return c


def fixed(tier):
    rng = Rng(4)
    base = ['', 's', 'c', 'm']
    for d in (1, 2, 3):
        for causes in itertools.product(base, repeat=d):
            for distro in ('normal', 'lognormal'):
                yield _case(rng, causes, distro, 5)
    for d in (11, 18):
        for p in (.1, .6, .95):
            for distro in ('normal', 'lognormal'):
                yield _case(rng, [rng.pick(CAUSES) if rng.chance(p) else '' for _ in range(d)], distro, 7)


def gen(rng, tier):
    d = rng.pick([9, 12, 16, 24] if deep(rng, tier) else [1, 2, 3, 4, 5, 6, 8])
    p = rng.pick([.2, .5, .9, 1])
    return _case(rng, [rng.pick(CAUSES) if rng.chance(p) else '' for _ in range(d)], rng.pick(['normal', 'lognormal']))
