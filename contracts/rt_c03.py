import numpy as np
from contracts.sampling import *


def run(c):
    k = c['kind']
    rs = np.random.RandomState(c['npseed'])
    n = c['n']
    if k == 'sample':
        mean, std, corr = np.array(c['mean']), np.array(c['std']), np.array(c['corr'])
        for distro in c['distros']:
            np.random.seed(c['npseed'])
            x = call(need(CM, 'sample_with_corr'), mean.copy(), std.copy(), corr.copy(), n, distro=distro)
            x = np.asarray(x, float)
            expect(x.shape == (n, len(mean)), '{}: shape {}', distro, x.shape)
            for j in range(len(mean)):
                pinned = std[j] <= 1e-30 or corr[j, j] == 0 or (distro == 'lognormal' and mean[j] == 0)
                if not pinned:
                    marginal(x[:, j], mean[j], std[j], distro, n, '%s variable %d' % (distro, j))
    elif k == 'normal_lhs':
        mean, std = np.array(c['mean']), np.array(c['std'])
        x = call(need(CM, 'lhs_normal_sample'), n, mean, std)
        expect(x.shape == (n, len(mean)), 'lhs_normal_sample: shape {}', x.shape)
        for j in range(len(mean)):
            marginal(x[:, j], mean[j], std[j], 'normal', n, 'lhs_normal_sample variable %d' % j)
    elif k == 'uniform_lhs':
        x = call(need(CM, 'lhs_uniform_sample'), c['d'], n)
        expect(x.shape == (n, c['d']), 'lhs_uniform_sample: shape {}', x.shape)
        for j in range(c['d']):
            strata(x[:, j], n, 'lhs_uniform_sample variable %d' % j, 1e-12)
    elif k == 'order':
        x = np.array(c['x'], float)
        y = np.array(c['y'], float)
        x0, y0 = x.copy(), y.copy()
        R = call(need(CM, 'rank'), x)
        R0 = np.array(R)
        for j in range(x.shape[1]):
            p = np.argsort(x0[:, j], kind='stable')
            want = np.empty(len(p), int)
            want[p] = np.arange(len(p))
            # ties may be ranked in any order, but ranks are a permutation sorting the column
            expect(sorted(R0[:, j].tolist()) == list(range(len(p))), 'rank of column {} is not a permutation', j)
            s = np.empty(len(p))
            s[R0[:, j]] = x0[:, j]
            same(s, np.sort(x0[:, j]), 'column %d sorted by its rank' % j)
        got = call(need(CM, 'order'), R, y)
        for j in range(x.shape[1]):
            same(got[:, j], np.sort(y0[:, j])[R0[:, j]], 'ordered column %d' % j)
        same(x, x0, 'input of rank')
        same(y, y0, 'input of order')
        same(R, R0, 'ranks')


def _case(rng, kind, d=None, n=None, big=False):
    d = d or rng.pick([8, 10, 13] if big and rng.chance(.6) else [1, 1, 2, 3, 4, 5, 7])
    n = n or rng.pick([100, 150, 260] if big and rng.chance(.6) else [1, 2, 3, 4, 5, 7, 10, 13, 20, 50])
    c = {'kind': kind, 'n': n, 'd': d, 'npseed': rng.int(0, 2**31 - 1)}
    if kind == 'sample':
        # tails of the log-normal shape reach far beyond the ordinary; magnitudes are free
        mean = 10.0 ** rng.uniform(-6, 4, size=d) if rng.chance(.4) else 10.0 ** rng.uniform(-28, 28, size=d) if rng.chance(.2) else rng.uniform(.5, 3, size=d)
        rel = 10.0 ** rng.uniform(-4, .5, size=d)
        std = mean * rel
        distros = ['normal', 'lognormal']
        if rng.chance(.2):
            mean = mean * np.sign(rng.normal(size=d))
            distros = ['normal'] if (mean < 0).any() else distros
        corr = corr_matrix(rng, d)
        if rng.chance(.4):
            j = rng.int(0, d - 1)
            w = rng.pick(['std', 'corr', 'mean'])
            if w == 'std':
                std[j] = rng.pick([0.0, 1e-31])
            elif w == 'corr':
                corr[j, :] = corr[:, j] = 0
            elif 'lognormal' in distros:
                mean[j] = 0
                std[j] = .1
                distros = ['lognormal'] if (mean < 0).any() else distros
        c.update(mean=fl(mean), std=fl(std), corr=mat(corr), distros=distros)
    elif kind == 'normal_lhs':
        c.update(mean=fl(rng.normal(size=d)), std=fl(10.0 ** rng.uniform(-3, 3, size=d)))
    elif kind == 'order':
        x = rng.normal(size=(n, d))
        y = rng.normal(size=(n, d))
        if rng.chance(.4):
            x = np.round(x)
        if rng.chance(.3):
            y = np.round(y * 2)
        c.update(x=mat(x), y=mat(y))
    return c


def fixed(tier):
    rng = Rng(3)
    for d in (1, 2, 3, 5):
        for n in (1, 2, 3, 8, 40):
            yield _case(rng, 'sample', d, n)
            yield _case(rng, 'order', d, n)
            yield _case(rng, 'normal_lhs', d, n)
            yield _case(rng, 'uniform_lhs', d, n)
    for _ in range(40):
        yield _case(rng, 'sample')
    for n in (101, 300):
        yield _case(rng, 'sample', 9, n)


def gen(rng, tier):
    return _case(rng, rng.pick(['sample'] * 6 + ['order', 'order', 'normal_lhs', 'uniform_lhs']), big=deep(rng, tier))
