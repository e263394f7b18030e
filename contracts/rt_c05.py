import numpy as np
from scipy.stats import rankdata
from contracts.sampling import *


def run(c):
    mean, std, corr = np.array(c['mean']), np.array(c['std']), np.array(c['corr'])
    n, distro = c['n'], c['distro']
    d = len(mean)
    target = lognormal_corr(mean, std, corr) if distro == 'lognormal' else corr
    caught = []
    real_rank = getattr(CM, 'rank', None)
    if real_rank is not None:
        def spy(arr):
            caught.append(np.array(arr))
            return real_rank(arr)
        CM.rank = spy
    np.random.seed(c['npseed'])
    try:
        x = np.asarray(call(need(CM, 'sample_with_corr'), mean.copy(), std.copy(), corr.copy(), n, distro=distro), float)
    finally:
        if real_rank is not None:
            CM.rank = real_rank
    expect(x.shape == (n, d), 'shape {}', x.shape)
    w = np.linalg.eigvalsh(target)
    definite = w[0] > 1e-6
    nearly = -1e-9 < w[0] <= 1e-6
    eff = target
    if len(caught) == 1 and caught[0].shape == (n, d):
        N = caught[0]
        S = N.T @ N / n
        if definite:
            close(S, target, 'second moment of the scores', rtol=1e-6, atol=1e-6)
        elif not nearly:
            off = ~np.eye(d, dtype=bool)
            close(S[off], target[off], 'off-diagonal second moment of the scores', rtol=1e-6, atol=1e-6)
            expect((np.diag(S) >= np.diag(target) - 1e-6).all(), 'the modified target lowers a variance')
        eff = S
        for j in range(d):
            a = rankdata(N[:, j], method='ordinal')
            b = rankdata(x[:, j], method='ordinal')
            srt = np.sort(N[:, j])
            if n > 1 and np.diff(srt).min() > 1e-9:
                same(b, a, 'order of variable %d against its scores' % j)
    elif not definite:
        raise Skip('scores not observable and the target is modified')
    # the imposed correlation shows in the ranks of the samples
    if n >= 400:
        q = np.sqrt(np.diag(eff))
        rho = eff / q[:, None] / q[None, :]
        want = 6 / np.pi * np.arcsin(np.clip(rho, -1, 1) / 2)
        got = np.corrcoef(np.apply_along_axis(rankdata, 0, x).T) if d > 1 else np.ones((1, 1))
        close(got, want, 'rank correlation of the samples', rtol=0, atol=4.5 / np.sqrt(n))


def _case(rng, n=None, style=None, d=None, distro=None):
    d = d or rng.pick([1, 2, 3, 4, 5, 6])
    distro = distro or rng.pick(['normal', 'normal', 'lognormal'])
    n = n or rng.pick([30, 60, 100, 100, 400])
    corr = corr_matrix(rng, d, style)
    mean = 10.0 ** rng.uniform(-3, 3, size=d)
    std = mean * rng.uniform(.02, .6, size=d)
    return {'kind': distro, 'mean': fl(mean), 'std': fl(std), 'corr': mat(corr), 'n': max(n, 8 * d), 'distro': distro,
            'npseed': rng.int(0, 2**31 - 1)}


def fixed(tier):
    rng = Rng(6)
    for d in (1, 2, 3, 4, 5):
        for style in ('rand', 'ident', 'pos', 'neg', 'band', 'indef'):
            for distro in ('normal', 'lognormal'):
                yield _case(rng, 400, style, d, distro)
    for _ in range(4):
        yield _case(rng, 2500, 'rand', 4, 'normal')


def gen(rng, tier):
    if deep(rng, tier):
        return _case(rng, d=rng.pick([6, 7, 8, 10]), n=rng.pick([100, 200, 600]))
    return _case(rng)
