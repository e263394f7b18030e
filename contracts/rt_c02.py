import numpy as np
from harness.rt import *
from ASAPy import CovManipulation as CM


def run(c):
    A = np.array(c['A'], dtype=c.get('dtype', 'float'))
    if c.get('readonly'):
        A.setflags(write=False)
    A0 = A.copy()
    n = len(A)
    P, L, e = call(need(CM, 'gmw_cholesky'), A)
    P, L, e = np.asarray(P, float), np.asarray(L, float), np.asarray(e, float)
    Af = A0.astype(float)
    same(A, A0, 'input matrix')
    expect(P.shape == (n, n) and L.shape == (n, n) and e.shape == (n,), 'shapes {} {} {}', P.shape, L.shape, e.shape)
    expect(np.isin(P, (0., 1.)).all() and (P.sum(0) == 1).all() and (P.sum(1) == 1).all(), 'P is not a permutation matrix')
    scale = max(1e-300, np.abs(Af).max(), np.finfo(float).eps)
    expect(np.isfinite(L).all() and np.isfinite(e).all(), 'non finite factor')
    expect((np.triu(L, 1) == 0).all(), 'L is not lower triangular')
    expect((np.diag(L) > 0).all(), 'diagonal of L is not positive')
    expect((e >= -1e-12 * scale).all(), 'negative shift {}', e.tolist())
    close(L @ L.T, P.T @ Af @ P + np.diag(e), 'P^T A P + diag(e) = L L^T', rtol=1e-10, atol=1e-11 * scale * n)
    w = np.linalg.eigvalsh(Af)
    if w[0] > 1e-5 * w[-1] and w[-1] > 1e-6:
        expect((e <= 1e-11 * scale * n).all(), 'shift {} for a positive definite matrix', e.tolist())


def _sym(rng, n, style):
    if style == 'pd':
        q = rng.normal(size=(n, n))
        A = q @ q.T + rng.pick([.1, 1, 5]) * np.eye(n)
    elif style == 'corr':
        q = rng.normal(size=(n, n + 2))
        A = q @ q.T
        d = np.sqrt(np.diag(A))
        A = A / d[:, None] / d[None, :]
    elif style == 'indef':
        A = rng.normal(size=(n, n))
    elif style == 'lowrank':
        q = rng.normal(size=(n, max(1, n // 2)))
        A = q @ q.T
    elif style == 'ties':
        A = rng.pick([-.9, .5, -.5, 0, 1.0, 2.0]) * np.ones((n, n))
        A[np.arange(n), np.arange(n)] = 1
    elif style == 'int':
        A = rng.integers(-4, 5, size=(n, n)).astype(float)
    elif style == 'zero':
        A = np.zeros((n, n))
        if rng.chance(.5):
            A[rng.int(0, n - 1), rng.int(0, n - 1)] = rng.pick([1, -1, 1e-9])
    elif style == 'negdiag':
        A = rng.normal(size=(n, n)) * .1 - np.diag(rng.uniform(0, 3, n))
    elif style == 'wide':
        d = 10.0 ** rng.uniform(-4, 4, n)
        A = _sym(rng, n, rng.pick(['corr', 'indef'])) * d[:, None] * d[None, :]
    elif style == 'diag':
        A = np.diag(rng.pick([rng.normal(size=n), np.arange(n) * 1.0, np.arange(n)[::-1] * 1.0 - 1, np.ones(n)]))
    A = np.triu(A) + np.triu(A, 1).T
    if rng.chance(.5):
        p = rng.permutation(n)
        A = A[p][:, p]
    return A


STY = ['pd', 'corr', 'indef', 'lowrank', 'ties', 'int', 'zero', 'negdiag', 'wide', 'diag']


def _case(rng, n, style):
    A = _sym(rng, n, style)
    c = {'kind': style, 'A': mat(A)}
    if style == 'int' and rng.chance(.5):
        c['dtype'] = 'int'
        c['A'] = A.astype(int).tolist()
    if rng.chance(.2):
        c['readonly'] = True
    return c


def fixed(tier):
    rng = Rng(5)
    yield {'kind': 'doc', 'A': [[4, 2, 1], [2, 6, 3], [1, 3, -0.004]]}
    for n in [1, 2, 3, 4, 5, 6, 7, 9, 12, 20]:
        for s in STY:
            for _ in range(2):
                yield _case(rng, n, s)
    for n in (27, 33, 45):
        for s in ('indef', 'pd', 'wide', 'ties'):
            yield _case(rng, n, s)


def gen(rng, tier):
    return _case(rng, rng.pick([20, 25, 30, 40, 60] if deep(rng, tier) else [1, 2, 3, 4, 5, 6, 7, 8, 10, 15]), rng.pick(STY))
