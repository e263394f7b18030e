"""C01: correlation_to_cov / cov_to_correlation, for every size and every content."""
import z3
import numpy as np
from pyvc import core as K
from pyvc.core import same, zb, dz
from pyvc.prove import Task

MOD = 'ASAPy.CovManipulation:'


def shape_is(ctx, name, a, *dims):
    ctx.prove(f'{name} has the shape of its input', z3.And(len(a.shape) == len(dims), *[dz(x) == dz(y) for x, y in zip(a.shape, dims)]))


def unchanged(ctx, name, a, fn0, n, *more):
    idx = [ctx.fresh('u', K.I_) for _ in a.shape]
    ctx.prove(f'input {name} is not modified', z3.Implies(K.in_range(idx, a.shape), same(a.fn(tuple(idx)), fn0(tuple(idx)))))


def c2c(ctx, it):
    n = ctx.in_int('n', 1, size=True)
    std = ctx.in_arr('std', (n,))
    corr = ctx.in_arr('corr', (n, n))
    s0, c0 = std.snap(), corr.snap()
    cov = it.call(it.load(MOD + 'correlation_to_cov'), (std, corr))
    shape_is(ctx, 'the covariance', cov, std.shape[0], std.shape[0])
    i, j = ctx.fresh('i', K.I_), ctx.fresh('j', K.I_)
    nn = K.zi(n)
    rng = z3.And(i >= 0, i < nn, j >= 0, j < nn)
    S = lambda k: s0((k,))
    want_u = K.mul(K.mul(c0((i, j)), S(i)), S(j))
    want_l = K.mul(K.mul(c0((j, i)), S(i)), S(j))
    ctx.prove('diagonal is the variance', z3.Implies(z3.And(rng, i == j), same(cov.fn((i, j)), K.mul(S(i), S(i)))))
    ctx.prove('upper triangle is correlation times both deviations', z3.Implies(z3.And(rng, i < j), same(cov.fn((i, j)), want_u)))
    ctx.prove('lower triangle mirrors the upper', z3.Implies(z3.And(rng, i > j), same(cov.fn((i, j)), want_l)))
    ctx.prove('symmetric', z3.Implies(rng, same(cov.fn((i, j)), cov.fn((j, i)))))
    unchanged(ctx, 'std', std, s0, n)
    unchanged(ctx, 'corr', corr, c0, n)
    ctx.result('cov', cov)


def c2r(ctx, it):
    n = ctx.in_int('n', 1, size=True)
    cov = ctx.in_arr('cov', (n, n))
    c0 = cov.snap()
    corr = it.call(it.load(MOD + 'cov_to_correlation'), (cov,))
    shape_is(ctx, 'the correlation', corr, cov.shape[0], cov.shape[0])
    i, j = ctx.fresh('i', K.I_), ctx.fresh('j', K.I_)
    nn = K.zi(n)
    rng = z3.And(i >= 0, i < nn, j >= 0, j < nn)
    v = lambda k: c0((k, k))
    root = K.sqrt(K.absv(K.mul(v(i), v(j))))
    rootji = K.sqrt(K.absv(K.mul(v(j), v(i))))
    r = corr.fn((i, j))
    nz = z3.And(K.fl(v(i))[0] != 0, K.fl(v(j))[0] != 0)
    ctx.prove('ones on the diagonal', z3.Implies(z3.And(rng, i == j), same(r, 1.0)))
    ctx.prove('upper triangle divided by the root of the product of the variances',
              z3.Implies(z3.And(rng, i < j, nz), z3.And(K.fin(r), K.fl(r)[0] * root.e == K.fl(c0((i, j)))[0])))
    ctx.prove('lower triangle mirrors the upper', z3.Implies(z3.And(rng, i > j), same(r, corr.fn((j, i)))))
    ctx.prove('missing exactly where a variance is zero', z3.Implies(z3.And(rng, i < j), K.fin(r) == nz))
    unchanged(ctx, 'cov', cov, c0, n)
    ctx.result('corr', corr)


def inverse(ctx, it):
    n = ctx.in_int('n', 1, size=True)
    std = ctx.in_arr('std', (n,))
    corr = ctx.in_arr('corr', (n, n))
    s0, c0 = std.snap(), corr.snap()
    ctx.forall(std.shape[0], lambda k: K.fl(s0((k,)))[0] > 0)
    cov = it.call(it.load(MOD + 'correlation_to_cov'), (std, corr))
    back = it.call(it.load(MOD + 'cov_to_correlation'), (cov,))
    i, j = ctx.fresh('i', K.I_), ctx.fresh('j', K.I_)
    nn = K.zi(n)
    ctx.fact(z3.And(i >= 0, i < nn, j >= 0, j < nn))
    si, sj = K.fl(s0((i,)))[0], K.fl(s0((j,)))[0]
    ctx.fact(z3.And(si > 0, sj > 0))
    r = back.fn((i, j))
    # lemma: the root of the product of squares is the product
    v = lambda k: cov.fn((k, k))
    a = K.mul(v(i), v(j))
    x = K.sqrt(K.absv(a))
    ctx.prove('lemma: the root of both variances is the product of the deviations', z3.And(K.fl(a)[0] >= 0, K.fl(x)[0] == si * sj))
    ctx.fact(K.fl(x)[0] == si * sj)
    ctx.fact(K.fl(a)[0] >= 0)
    ctx.prove('converting back gives the correlation (upper triangle)', z3.Implies(i < j, z3.And(K.fin(r), K.fl(r)[0] == K.fl(c0((i, j)))[0])))


def pins(kind):
    rng = np.random.RandomState(3)
    for n in (1, 2, 3):
        m = np.round(rng.uniform(-1, 1, (n, n)), 3)
        if kind == 'c2c':
            yield {'n': n, 'std': np.round(rng.uniform(0, 2, n), 2), 'corr': m}
        else:
            m[np.diag_indices(n)] = np.array([4.0, 9.0, 0.25])[:n]
            yield {'n': n, 'cov': m}


def real_c2c(p):
    from ASAPy import CovManipulation as cm
    return {'cov': cm.correlation_to_cov(np.array(p['std']), np.array(p['corr']))}


def real_c2r(p):
    from ASAPy import CovManipulation as cm
    return {'corr': cm.cov_to_correlation(np.array(p['cov']))}


TASKS = [
    Task('correlation_to_cov', [MOD + 'correlation_to_cov'], c2c, lambda: pins('c2c'), real_c2c,
         case=lambda m: {'kind': 'tocov', 'std': m['std'].tolist(), 'm': m['corr'].tolist()}),
    Task('cov_to_correlation', [MOD + 'cov_to_correlation'], c2r, lambda: pins('c2r'), real_c2r,
         case=lambda m: {'kind': 'tocorr', 'std': [1.0] * int(m['n']), 'm': m['cov'].tolist()}),
    Task('round trip', [MOD + 'correlation_to_cov', MOD + 'cov_to_correlation'], inverse,
         case=lambda m: {'kind': 'round', 'std': m['std'].tolist(), 'm': m['corr'].tolist()}),
]
