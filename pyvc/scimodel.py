"""models of the scipy functions the code calls"""
import z3
import numpy as np
import scipy.special
from . import core as K
from . import interp as I
from . import npmodel as N
from .core import Arr, Sym, Unsupported

_EXPREL = z3.Function('f.exprel', K.R_, K.R_)


def exprel1(v):
    x, k = K.fl(v)
    x = K.simp(x)
    s = _EXPREL(x)
    e = K.fl(K.exp(Sym('f', x)))[0]
    K.CTX.fact(z3.And(s > 0, s * x == e - 1, z3.Implies(x == 0, s == 1)))
    if k is None:
        return K.mkf(s)
    return K.mkf(z3.If(k == K.NINF, z3.RealVal(0), s), z3.If(k == K.NINF, K.FIN, k))


@I.model(scipy.special.exprel)
def m_exprel(it, x):
    if K.isnum(x):
        return exprel1(x)
    a = N.as_arr(x)
    s = a.snap()
    return Arr(a.shape, 'f', lambda idx: exprel1(s(idx)))


# ---------------------------------------------------------------- distributions
import scipy.stats                                                                   # noqa: E402

PPF = z3.Function('f.normppf', K.R_, K.R_)


def ppf_axioms():
    """the standard normal quantile function is increasing and odd about 1/2 on (0, 1)"""
    if 'ppf' in K.CTX.mats:
        return
    K.CTX.mats['ppf'] = True
    a, b = z3.Reals('ppf.a ppf.b')
    K.CTX.axioms.append(z3.ForAll([a, b], z3.Implies(z3.And(0 < a, a < b, b < 1), PPF(a) < PPF(b)),
                                  patterns=[z3.MultiPattern(PPF(a), PPF(b))]))


def ppf1(kind, p, loc, scale):
    """scipy's location-scale convention: NaN outside [0,1] or for a scale that is not positive"""
    x, kx = K.fl(p)
    s, ks = K.fl(scale)
    if kind == 'norm':
        z = PPF(K.simp(x))
        std = K.mkf(z, z3.If(x == 0, z3.IntVal(K.NINF), z3.If(x == 1, z3.IntVal(K.PINF), z3.IntVal(K.FIN))))
        if K.CTX.capture is None and not K.CTX.loop_logs and K.CTX.quick(z3.And(x > 0, x < 1)):
            std = K.mkf(z)
    else:
        std = K.mkf(x)
    r = K.add(K.mul(std, scale), loc)
    bad = z3.Or(x < 0, x > 1, s <= 0)
    if kx is not None:
        bad = z3.Or(bad, kx != K.FIN)
    if ks is not None:
        bad = z3.Or(bad, ks == K.NAN, ks == K.NINF)
    return K.ite(bad, K.mkf(z3.RealVal(0), z3.IntVal(K.NAN)), r)


def ppf_model(kind):
    def ppf(it, p, loc=0, scale=1):
        if kind == 'norm':
            ppf_axioms()
        if all(K.isnum(v) for v in (p, loc, scale)):
            return ppf1(kind, p, loc, scale)
        arrs = [N.as_arr(v) for v in (p, loc, scale) if not K.isnum(v)]
        if any(a.ndim != 1 for a in arrs):
            raise Unsupported('quantiles of a 2-d array')
        for a in arrs[1:]:
            if not K.dim_eq(a.shape[0], arrs[0].shape[0]):
                raise Unsupported('quantile broadcast')
        at = lambda v: (lambda idx: v) if K.isnum(v) else N.as_arr(v).snap()
        fp, fl, fs = at(p), at(loc), at(scale)
        return Arr(arrs[0].shape, 'f', lambda idx: ppf1(kind, fp(idx), fl(idx), fs(idx)))
    return ppf


class Frozen:
    """norm(loc, scale)"""
    def __init__(self, kind, loc, scale):
        self.kind, self.loc, self.scale = kind, loc, scale


for _o, _k in ((scipy.stats.norm, 'norm'), (scipy.stats.uniform, 'uniform')):
    I.BOUND_MODELS[(id(_o), 'ppf')] = (_o, ppf_model(_k))
    I.MODELS[id(_o)] = (_o, lambda it, loc=0, scale=1, _k=_k: Frozen(_k, loc, scale))


def frozen_attr(it, o, name):
    if name == 'ppf':
        return I.Model(lambda it, p: ppf_model(o.kind)(it, p, o.loc, o.scale))
    raise Unsupported('attribute of a frozen distribution')


I.TYPE_ATTRS.insert(0, (lambda o: isinstance(o, Frozen), frozen_attr))


@I.model(scipy.stats.rankdata)
def m_rankdata(it, a, method='average', axis=None, nan_policy='propagate'):
    """ordinal ranks: 1 + position in the stable ascending order"""
    a = N.as_arr(a)
    if method != 'ordinal' or a.ndim != 1:
        raise Unsupported('rankdata method')
    _, perm, inv = N.sort1(a, stable=True)
    return Arr(a.shape, 'i', lambda idx: K.mk(K.simp(inv(idx[0]) + 1)))


@I.model(np.random.permutation)
def m_permutation(it, a):
    a = N.as_arr(a)
    if a.ndim != 1:
        raise Unsupported('permutation')
    k = next(K.CTX.fresh_n)
    n = K.dz(a.shape[0])
    f, g = z3.Function(f'shuffle!{k}', K.I_, K.I_), z3.Function(f'unshuffle!{k}', K.I_, K.I_)
    q = z3.Int(f'q!{k}')
    rq = z3.And(q >= 0, q < n)
    K.CTX.axioms.append(z3.ForAll([q], z3.Implies(rq, z3.And(f(q) >= 0, f(q) < n, g(f(q)) == q)), patterns=[f(q)]))
    K.CTX.axioms.append(z3.ForAll([q], z3.Implies(rq, z3.And(g(q) >= 0, g(q) < n, f(g(q)) == q)), patterns=[g(q)]))
    s = a.snap()
    return Arr(a.shape, a.dtype, lambda idx: s((f(idx[0]),)))


import SALib.sample.latin                                                            # noqa: E402


def lhs_sample(it, problem, n, seed=None):
    """Latin hypercube: in every column exactly one value in each of the n strata (j/n, (j+1)/n), scaled to the bounds"""
    if not isinstance(problem, dict) or set(problem) - {'num_vars', 'bounds', 'names'}:
        raise Unsupported('sampling problem')
    d, bounds = problem['num_vars'], problem['bounds']
    k = next(K.CTX.fresh_n)
    U = z3.Function(f'lhs.u!{k}', K.I_, K.I_, K.R_)
    T = z3.Function(f'lhs.t!{k}', K.I_, K.I_, K.I_)
    q, r, v = z3.Ints(f'q!{k} r!{k} v!{k}')
    nn, dd = K.zi(n), K.zi(d)
    rng = z3.And(q >= 0, q < nn, v >= 0, v < dd)
    x = z3.ToReal(nn) * U(q, v)
    K.CTX.axioms.append(z3.ForAll([q, v], z3.Implies(rng, z3.And(
        T(q, v) >= 0, T(q, v) < nn, U(q, v) > 0, U(q, v) < 1, z3.ToReal(T(q, v)) <= x, x < z3.ToReal(T(q, v)) + 1)),
        patterns=[U(q, v)]))
    K.CTX.axioms.append(z3.ForAll([q, r, v], z3.Implies(z3.And(rng, r >= 0, r < nn, q != r), T(q, v) != T(r, v)),
                                  patterns=[z3.MultiPattern(T(q, v), T(r, v))]))
    if isinstance(bounds, list) and len(bounds) and isinstance(d, int) and len(bounds) == d:
        def bnd(j):
            lo, hi = bounds[-1]
            for m in range(d - 2, -1, -1):
                lo, hi = K.ite(j == m, bounds[m][0], lo), K.ite(j == m, bounds[m][1], hi)
            return lo, hi
    elif isinstance(bounds, (K.SList, Arr)):
        one = N.as_arr(bounds)
        if one.ndim != 2 or one.shape[1] != 2:
            raise Unsupported('bounds')
        sb = one.snap()
        bnd = lambda j: (sb((j, z3.IntVal(0))), sb((j, z3.IntVal(1))))
    else:
        raise Unsupported('bounds')

    def fn(idx):
        lo, hi = bnd(idx[1])
        u = K.mkf(U(*idx))
        if lo in (0, 0.0) and hi in (1, 1.0):
            return u
        return K.add(K.mul(u, K.sub(hi, lo)), lo)
    return Arr((n, d), 'f', fn)


I.MODELS[id(SALib.sample.latin.sample)] = (SALib.sample.latin.sample, lhs_sample)
