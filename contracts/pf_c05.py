"""C05: the scores that order a correlated sample have exactly the requested second moment, for any number of variables and samples."""
import itertools
import z3
import numpy as np
from pyvc import core as K
from pyvc.core import dz, zb, zi
from pyvc.prove import Task
from contracts.corrsample import CM, World, value, reads, ghost, split, sane, resolve, order_body, order_pins, order_real, rank_body, rank_pins, rank_real


def target(ctx, w, i, j):
    """the requested correlation, for log-normal sampling its documented transform"""
    c = w.c0((i, j))
    if w.distro != 'lognormal':
        return K.fl(c)[0]
    mi, mj, si, sj = (K.mk(K.fl(f((q,)))[0]) for f in (w.m0, w.s0) for q in (i, j))
    v = lambda s, m: K.log(K.add(K.div(K.power(s, 2), K.power(m, 2)), 1))
    e = K.exp(K.mul(c, K.sqrt(K.mul(v(si, mi), v(sj, mj)))))
    return K.fl(K.mul(K.div(K.mul(mi, mj), K.mul(si, sj)), K.sub(e, 1)))[0]


def moment(ctx, it, distro, *causes):
    from pyvc import linalg as L
    w = World(ctx, it, distro)
    split(ctx, w, *causes)
    w.run()
    if 'rank' not in w.calls:
        return
    r = w.calls['rank']
    p = L.read(K.Arr((r['n'], r['k']), 'f', r['N']))
    lost = [kw for name, kw in w.chol if name == 'cholesky' and kw['out'] is None and any(len(word) > 1 for c, word in kw['arg'])]
    i, j, s, s2 = (ctx.fresh(n, K.I_) for n in ('i', 'j', 's', 's'))
    ctx.fact(z3.And(i >= 0, i < w.D, j >= 0, j < w.D, z3.Not(w.pin(i)), z3.Not(w.pin(j)), s >= 0, s < w.S, s2 >= 0, s2 < w.S))
    v1, q1, ki, e1, x1 = value(w, s, i)
    v2, q2, _, e2, x2 = value(w, s2, i)
    n1, n2 = (K.fl(r['N']((q, ki)))[0] for q in (s, s2))
    ctx.prove('a variable is ordered like its scores', z3.Implies(n1 < n2, x1 <= x2))
    if lost:
        return          # not more samples than variables: the scores cannot have the moment exactly
    g = L.normal(L.scale(1 / z3.ToReal(w.S), L.poly_mul(L.poly_T(p), p)))
    plain = [(c, word) for c, word in g if len(word) == 1]
    rest = [(c, word) for c, word in g if len(word) != 1]
    gmw = [kw for name, kw in w.chol if name == 'gmw']
    shift = [[(L.ONE, ((q['P'], False, False), (q['diag'], False, False), (q['P'], True, False)))] for q in gmw]
    exact = len(plain) == 1 and (not rest or any([w_ for c, w_ in rest] == [w_ for c, w_ in sh] for sh in shift))
    if not exact:
        raise K.Unsupported('second moment of the scores not reduced to the factored matrices: %s' % (g,))
    one = [c for c, word in g]
    ctx.prove('the scores have the second moment that was factored', z3.And(*[c == 1 for c in one]))
    if rest:
        k = ctx.fresh('k', K.I_)
        ctx.prove('a target that is not definite is only raised on its diagonal', gmw[0]['e'](k) >= 0)
    v3, q3, kj, e3, x3 = value(w, s, j)
    e = K.simp(L.elem_of(plain[0][1], ki, kj))
    ctx.prove('columns of the scores are variables', z3.And(ki >= 0, kj >= 0, ki < dz(r['k']), kj < dz(r['k'])))
    H = []

    def step(name, g):
        if ghost(ctx, name, g).status == 'discharged':
            H.append(g)
    for t in {x.get_id(): x for rd in reads(e, {'mean', 'std', 'corr'}) for x in rd.children()}.values():
        for a in (i, j):
            if not t.eq(a) and ctx.valid(t == a, 3000):
                e = K.simp(z3.substitute(e, (t, a)))
                break
    if distro == 'lognormal':
        for q in (i, j):
            step('a sampled log-normal variable has a positive mean', K.fl(w.m0((q,)))[0] > 0)
            step('a sampled variable has a positive deviation', K.fl(w.s0((q,)))[0] > 0)
    want = K.simp(target(ctx, w, i, j))
    got = resolve(ctx, L.canon(e), H) if H else L.canon(e)
    sw = resolve(ctx, L.canon(want), H) if H else L.canon(want)
    ob = ctx.prove_by('the factored matrix holds the requested correlation of the two variables', H, got == sw) if distro == 'lognormal' else \
        ctx.prove('the factored matrix holds the requested correlation of the two variables', e == want)


def scores(ctx, it):
    n, d = ctx.in_int('n', 1, size=True), ctx.in_int('d', 1, size=True)
    from pyvc import scimodel as SM
    M = it.call(it.load(CM + 'col_independent_matrix'), (n, d), {})
    ctx.prove('one row per sample and one column per variable', z3.And(len(M.shape) == 2, dz(M.shape[0]) == zi(n), dz(M.shape[1]) == zi(d)))
    SM.ppf_axioms()
    s, s2, a, b = (ctx.fresh(q, K.I_) for q in ('s', 's', 'a', 'b'))
    ctx.fact(z3.And(s >= 0, s < zi(n), s2 >= 0, s2 < zi(n), s != s2, a >= 0, a < zi(d), b >= 0, b < zi(d)))
    v = M.fn((s, a))
    ctx.prove('scores are numbers', K.fin(v))


def case(m, d):
    c = dict(sane(m, d), kind=d)
    c['n'] = max(100, 8 * len(c['mean']))
    pin = [k for k in range(len(c['mean'])) if c['std'][k] == 0 or c['corr'][k][k] == 0 or (d == 'lognormal' and c['mean'][k] == 0)]
    keep = [k for k in range(len(c['mean'])) if k not in pin]
    if not keep:
        return None
    c['mean'], c['std'] = [c['mean'][k] or 1.0 for k in keep], [c['std'][k] for k in keep]
    c['corr'] = [[c['corr'][a][b] for b in keep] for a in keep]
    return c


ASSUMED = ['scipy cholesky: U upper with U\'U equal to the symmetric matrix of the upper triangle, or LinAlgError', 'numpy inv is the inverse', 'reals for floats',
           'gmw_cholesky by contract (C02): P\'AP + diag(e) = LL\'', 'more samples than variables (otherwise the scores cannot reach the moment)',
           'matrix products of symbolic size by the algebra of pyvc/linalg.py', 'the correlation is symmetric', 'log-normal means are not negative']
TASKS = []
for d in ('normal', 'lognormal'):
    for c in itertools.product((False, True), repeat=3):
        if d == 'normal' and c[1]:
            continue
        c = (c[0], None, c[2]) if d == 'normal' else c
        TASKS.append(Task('sample_with_corr, %s, pinned by%s' % (d, ''.join(' ' + n for n, x in zip(('deviation', 'mean', 'correlation'), c) if x) or ' nothing'),
                          [CM + 'sample_with_corr'], lambda ctx, it, d=d, c=c: moment(ctx, it, d, *c), case=lambda m, d=d: case(m, d), assumptions=ASSUMED))
TASKS += [Task('order', [CM + 'order'], order_body, order_pins, order_real, lambda m: None), Task('rank', [CM + 'rank'], rank_body, rank_pins, rank_real, lambda m: None)]
