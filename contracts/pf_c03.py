"""C03: marginals of a correlated sample, for any number of variables and samples and every random state."""
import itertools
import z3
import numpy as np
from pyvc import core as K
from pyvc.core import dz, zb, zi
from pyvc.prove import Task
from contracts.corrsample import CM, World, value, reads, ghost, split, resolve, PREFIX, sane, order_body, order_pins, order_real, rank_body, rank_pins, rank_real


def stratum(U):
    """the stratum the Latin hypercube contract gives a draw"""
    d = U.decl()
    return z3.Function(d.name().replace('lhs.u', 'lhs.t'), *[d.domain(k) for k in range(d.arity())], K.I_)(*U.children())


def marginal(ctx, it, distro, *causes):
    from pyvc import scimodel as SM
    w = World(ctx, it, distro)
    split(ctx, w, *causes)
    w.run()
    if 'order' not in w.calls:
        return
    SM.ppf_axioms()
    i, s, s2 = (ctx.fresh(n, K.I_) for n in ('i', 's', 's'))
    ctx.fact(z3.And(i >= 0, i < w.D, s >= 0, s < w.S, s2 >= 0, s2 < w.S, s != s2))
    ctx.fact(z3.Not(w.pin(i)))
    m, sd = K.fl(w.m0((i,)))[0], K.fl(w.s0((i,)))[0]
    n = z3.ToReal(w.S)
    H = []

    def know(e):
        ctx.fact(e)
        H.append(e)

    def step(name, e, by=True):
        if ghost(ctx, name, e, H if by else None).status == 'discharged':
            H.append(e)
    step('a sampled variable has a positive deviation', sd > 0, False)
    ts, rows = [], []
    if distro == 'lognormal':
        step('a sampled log-normal variable has a positive mean', m > 0, False)
        f0 = len(ctx.facts)
        one = K.add(K.div(K.power(K.mk(sd), 2), K.power(K.mk(m), 2)), 1)
        step('a positive relative variance', K.fl(one)[0] > 1)
        root = K.power(one, 0.5)
        H.extend(ctx.facts[f0:])
        step('a positive root', K.fl(root)[0] > 1)
        med = K.div(K.mk(m), root)
        step('a positive median', K.fl(med)[0] > 0)
        f0 = len(ctx.facts)
        mu = K.log(med)
        L = K.log(one)
        H.extend(ctx.facts[f0:])
        step('a positive logarithm', K.fl(L)[0] > 0)
        f0 = len(ctx.facts)
        sig = K.power(L, 0.5)
        H.extend(ctx.facts[f0:])
        step('the shape of the log-normal is positive', K.fl(sig)[0] > 0)
        f0 = len(ctx.facts)
        emu, es = K.exp(mu), K.exp(K.mul(sig, sig))
        H.extend(ctx.facts[f0:])
        ctx.prove_by('the log-normal has the requested mean', H, zb(K.cmp('==', K.mul(K.mul(emu, emu), es), K.mul(K.mk(m), K.mk(m)))))
        ctx.prove_by('the log-normal has the requested deviation', H, zb(K.cmp('==', K.mul(K.sub(es, 1), K.mk(m * m)), K.mk(sd * sd))))
        mu, sig = K.fl(mu)[0], K.fl(sig)[0]
    for q in (s, s2):
        v, row, col, e, x = value(w, q, i)
        u, t = ctx.fresh('u', K.R_), ctx.fresh('t', K.I_)
        ctx.prove('sampled values are finite', K.fin(v))
        U = reads(e, PREFIX('lhs.u'))
        if len(U) != 1:
            raise K.Unsupported('value not made from one draw')
        U = U[0]
        step('the draw is a probability', z3.And(U > 0, U < 1), False)
        h = H + [x == e]
        z = SM.PPF(u)
        if distro == 'lognormal':
            for g in reads(e, {'f.exp'}):
                h.append(g > 0)
                ctx.fact(g > 0)
            e1 = resolve(ctx, e, H)
            ghost(ctx, 'the value is the exponential of a normal one', x == e1, h)
            if not z3.is_app(e1) or e1.decl().name() != 'f.exp':
                raise K.Unsupported('log-normal value is not an exponential')
            ex = K.exp(K.mk(e1.arg(0)))
            ctx.prove_by('log-normal values are positive', [x == e1] + [f for f in ctx.facts[-4:]], x > 0)
            y = mu + sig * z
            ctx.fact(x == K.fl(K.exp(K.mk(y)))[0])
            ghost(ctx, 'logarithm of the value', e1.arg(0) == y)
            h = H + [e1.arg(0) == y]
        else:
            ctx.fact(x == m + sd * z)
            h.append(x == m + sd * z)
            e1 = resolve(ctx, e, H)
            ghost(ctx, 'the value is a quantile of the normal distribution', x == e1, h)
            h.append(x == e1)
        # the quantile function maps (0, 1) onto all values of the distribution: u is the probability below x
        ctx.fact(z3.And(u > 0, u < 1))
        ctx.fact(z3.And(z3.ToReal(t) <= n * u, n * u < z3.ToReal(t) + 1))
        ghost(ctx, 'the standardised value is the quantile of the draw', z == SM.PPF(U), h)
        ghost(ctx, 'the probability of the value is the drawn one', u == U)
        ghost(ctx, 'the stratum of the value is the drawn one', t == stratum(U))
        ctx.prove('the value lies in one of the n strata', z3.And(t >= 0, t < w.S))
        ts.append(t)
        rows.append(row)
    ghost(ctx, 'two samples take different draws', rows[0] != rows[1])
    ctx.prove('two samples never share a stratum', ts[0] != ts[1])


def sample_case(m, d):
    return dict(sane(m, d), kind='sample', n=int(m['S']) if m['S'] > 1 else 5, distros=[d])


ASSUMED = ['scipy norm.ppf is loc + scale * PPF(p) with PPF increasing from (0,1) onto the reals', 'SALib latin.sample: one draw per stratum of (0,1) and column, never exactly 0',
           'reals for floats', 'rank and order by contract (their bodies are proved in the tasks rank and order)',
           'gmw_cholesky by contract (C02)', 'scipy cholesky raises LinAlgError or returns a factor']


TASKS = []
for d in ('normal', 'lognormal'):
    for c in itertools.product((False, True), repeat=3):
        if d == 'normal' and c[1]:
            continue
        c = (c[0], None, c[2]) if d == 'normal' else c
        TASKS.append(Task('sample_with_corr, %s, pinned by%s' % (d, ''.join(' ' + n for n, x in zip(('deviation', 'mean', 'correlation'), c) if x) or ' nothing'),
                          [CM + 'sample_with_corr', CM + 'lhs_uniform_sample'], lambda ctx, it, d=d, c=c: marginal(ctx, it, d, *c), case=lambda m, d=d: sample_case(m, d),
                          assumptions=ASSUMED))


def uniform_body(ctx, it, normal):
    from pyvc import scimodel as SM
    d, n = ctx.in_int('d', 1, size=True), ctx.in_int('n', 1, size=True)
    if normal:
        mean, std = ctx.in_arr('mean', (d,)), ctx.in_arr('std', (d,))
        m0, s0 = mean.snap(), std.snap()
        ctx.forall(std.shape[0], lambda i: zb(K.cmp('>', std.fn((i,)), 0)))
        out = it.call(it.load(CM + 'lhs_normal_sample'), (n, mean, std), {})
    else:
        out = it.call(it.load(CM + 'lhs_uniform_sample'), (d, n), {})
    ctx.prove('one row per sample and one column per variable', z3.And(len(out.shape) == 2, dz(out.shape[0]) == zi(n), dz(out.shape[1]) == zi(d)))
    SM.ppf_axioms()
    i, s, s2 = (ctx.fresh(q, K.I_) for q in ('i', 's', 's'))
    ctx.fact(z3.And(i >= 0, i < zi(d), s >= 0, s < zi(n), s2 >= 0, s2 < zi(n), s != s2))
    N = z3.ToReal(zi(n))
    ts = []
    for q in (s, s2):
        v = out.fn((q, i))
        ctx.prove('values are finite', K.fin(v))
        x = K.simp(K.fl(v)[0])
        u, t = ctx.fresh('u', K.R_), ctx.fresh('t', K.I_)
        y = K.fl(m0((i,)))[0] + K.fl(s0((i,)))[0] * SM.PPF(u) if normal else u
        ctx.fact(z3.And(u > 0, u < 1, x == y, z3.ToReal(t) <= N * u, N * u < z3.ToReal(t) + 1))
        U = reads(x, PREFIX('lhs.u'))
        if len(U) == 1 and normal:
            ghost(ctx, 'the standardised value is the quantile of the draw', SM.PPF(u) == SM.PPF(U[0]))
            ghost(ctx, 'the probability of the value is the drawn one', u == U[0])
        if len(U) == 1:
            ghost(ctx, 'the stratum of the value is the drawn one', t == stratum(U[0]))
        ctx.prove('the value lies in one of the n strata', z3.And(t >= 0, t < zi(n)))
        ts.append(t)
    ctx.prove('two samples never share a stratum', ts[0] != ts[1])


def order_case(m):
    """the failing ranks or values: as scores and as values"""
    x = np.array(m['X'], float)
    return {'kind': 'order', 'n': len(x), 'npseed': 7, 'x': x.tolist(), 'y': x.tolist()}


def lhs_case(m, normal):
    c = {'kind': 'normal_lhs' if normal else 'uniform_lhs', 'n': int(m['n']), 'd': int(m['d']), 'npseed': 7}
    if normal:
        c.update(mean=np.array(m['mean'], float).tolist(), std=np.array(m['std'], float).tolist())
    return c


TASKS += [Task('order', [CM + 'order'], order_body, order_pins, order_real, order_case),
          Task('rank', [CM + 'rank'], rank_body, rank_pins, rank_real, order_case),
          Task('lhs_uniform_sample', [CM + 'lhs_uniform_sample'], lambda ctx, it: uniform_body(ctx, it, False), case=lambda m: lhs_case(m, False), assumptions=ASSUMED[1:3]),
          Task('lhs_normal_sample', [CM + 'lhs_normal_sample'], lambda ctx, it: uniform_body(ctx, it, True), case=lambda m: lhs_case(m, True), assumptions=ASSUMED[:3])]
