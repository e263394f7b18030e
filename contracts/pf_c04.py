"""C04: variables without usable uncertainty are pinned, for any number of variables and samples."""
import itertools
import z3
import numpy as np
from pyvc import core as K
from pyvc.core import dz, zb, zi
from pyvc.prove import Task
from contracts.corrsample import CM, World, value, reads, ghost, split, sane


def pinned(ctx, it, distro, *causes):
    from pyvc import linalg as L
    w = World(ctx, it, distro)
    split(ctx, w, *causes)
    x = w.run()
    i, j, s = (ctx.fresh(n, K.I_) for n in ('i', 'j', 's'))
    ri, rs = z3.And(i >= 0, i < w.D), z3.And(s >= 0, s < w.S)
    ctx.prove('one row per sample and one column per variable', z3.And(len(x.shape) == 2, dz(x.shape[0]) == w.S, dz(x.shape[1]) == w.D))
    ctx.prove('a variable without usable uncertainty keeps its mean', z3.Implies(z3.And(ri, rs, w.pin(i)), K.same(x.fn((s, i)), w.m0((i,)))))
    for name, a, f in (('means', w.mean, w.m0), ('deviations', w.std, w.s0)):
        ctx.prove(f'the given {name} are not modified', z3.Implies(ri, K.same(a.fn((i,)), f((i,)))))
    ctx.prove('the given correlation is not modified', z3.Implies(z3.And(ri, j >= 0, j < w.D), K.same(w.corr.fn((i, j)), w.c0((i, j)))))
    if ctx.pinned is not None:
        ctx.result('shape', [K.mk(x.shape[0] if isinstance(x.shape[0], z3.ExprRef) else dz(x.shape[0])), K.mk(dz(x.shape[1]))])
        for k in ctx.pinned['check']:
            ctx.result('column %d' % k, x.fn((z3.IntVal(0), z3.IntVal(k))))
        return
    if 'order' not in w.calls:
        ctx.prove('nothing is sampled only when every variable is pinned', z3.Implies(ri, w.pin(i)))
        return
    # the values of the other variables: everything read on the way belongs to variables that are not pinned
    ctx.fact(z3.And(ri, rs, z3.Not(w.pin(i))))
    value(w, s, i)
    n = w.calls['rank']['k']
    a, b = ctx.fresh('a', K.I_), ctx.fresh('b', K.I_)
    ctx.fact(z3.And(a >= 0, a < dz(n), b >= 0, b < dz(n)))
    seen = set()
    for _, kw in w.chol:
        for c, word in kw['arg']:
            for l in word:
                e = L.reg().atoms[l[0]][1]
                if e is None:
                    continue
                e = K.simp(z3.substitute(e, (L.I0, a), (L.J0, b)))
                for r in reads(e, {'mean', 'std', 'corr'}):
                    for t in r.children():
                        if t.get_id() not in seen:
                            seen.add(t.get_id())
                            ctx.prove('only variables that are sampled enter the correlation', z3.And(t >= 0, t < w.D, z3.Not(w.pin(t))))


def pins(d, causes):
    want = {0: [(0, 0, 0)], 1: [(0, 1, 0), (1, 1, 1)], 2: [(1, 1, 0), (1, 1, 1)], 3: [(1, 1, 1)]}[sum(bool(c) for c in causes)]
    for bits in want[:1 if d == 'lognormal' else 2]:
        mean, std = np.array([1.5, 2.0, 0.5]), np.array([.2, .1, .1])
        corr = np.array([[1, .3, .1], [.3, 1, .2], [.1, .2, 1]])
        chk = []
        for k, b in enumerate(bits):
            if b:
                chk.append(k)
                if causes[0] and (k == 0 or not (causes[1] or causes[2])):
                    std[k] = 0
                elif causes[1] and (k == 1 or not causes[2]):
                    mean[k] = 0
                elif causes[2]:
                    corr[k, :] = corr[:, k] = 0
                else:
                    chk.pop()
        has = (bool((std <= 1e-30).any()), bool((mean == 0).any()), bool((np.diag(corr) == 0).any()))
        if all(c is None or c == h for c, h in zip(causes, has)):
            yield {'D': 3, 'S': 4, 'mean': mean, 'std': std, 'corr': corr, 'check': chk, 'distro': d}


def real(p):
    from ASAPy import CovManipulation as cm
    np.random.seed(3)
    x = cm.sample_with_corr(np.array(p['mean']), np.array(p['std']), np.array(p['corr']), p['S'], distro=p['distro'])
    return dict({'shape': list(x.shape)}, **{'column %d' % k: x[0, k] for k in p['check']})


def case(m, d):
    return dict(sane(m, d), kind=d, n=max(1, min(int(m['S']), 20)))


ASSUMED = ['scipy norm.ppf is loc + scale * PPF(p)', 'reals for floats', 'rank and order by contract (proved in C03)', 'gmw_cholesky by contract (C02)',
           'scipy cholesky raises LinAlgError or returns a factor', 'log-normal means are not negative', 'the correlation is symmetric']
TASKS = []
for d in ('normal', 'lognormal'):
    for c in itertools.product((False, True), repeat=3):
        if d == 'normal' and c[1]:
            continue
        c = (c[0], None, c[2]) if d == 'normal' else c
        TASKS.append(Task('sample_with_corr, %s, pinned by%s' % (d, ''.join(' ' + n for n, x in zip(('deviation', 'mean', 'correlation'), c) if x) or ' nothing'),
                          [CM + 'sample_with_corr'], lambda ctx, it, d=d, c=c: pinned(ctx, it, d, *c), lambda d=d, c=c: pins(d, c), real,
                          lambda m, d=d: case(m, d), ASSUMED))
