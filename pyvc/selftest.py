"""Self test of the verifier: python -m pyvc.selftest (PYTHONPATH=/repo:/verif).

1. programs with known answers: true claims are discharged, false claims are not; a claim about code outside the reach gives no answer
2. the rewriting of linalg.py against numpy on random matrices"""
import sys
import z3
from pyvc import prove

core, I = prove._setup()
K = core
from pyvc import linalg as L
from pyvc import npmodel as N

MOD = 'pyvc.selftest_programs:'
bad = []


def claims(name, setup, *goals):
    """goals: (label, fn(ctx, result, inputs) -> z3 Bool, is it true); setup(ctx) -> args"""
    for label, goal, truth in goals:
        seen = {}

        def body(ctx, it):
            args = setup(ctx)
            try:
                r = it.call(it.load(MOD + name), args)
            except K.PyRaise as e:
                r = e
            g = goal(ctx, r, args)
            ok = ctx.strong(g) if hasattr(ctx, 'strong') else ctx.valid(g)
            seen.setdefault('all', []).append(bool(ok))
        ctx, why = prove.run_body(prove.Task(name, [], body), core, I)
        proved = not why and bool(seen.get('all')) and all(seen['all'])
        if truth is None:
            ok = not proved
        else:
            ok = proved == truth
        print('%-18s %-55s %s %s' % (name, label, 'proved' if proved else why or 'not proved', '' if ok else '<== WRONG'))
        if not ok:
            bad.append((name, label))


def arr(ctx, n='n', name='a', lo=2):
    return ctx.in_arr(name, (ctx.in_int(n, lo, size=True),))


def at(a, *i):
    v = a.fn(tuple(z3.IntVal(k) if isinstance(k, int) else k for k in i))
    return K.fl(v)[0] if K.sort_of(v) == 'f' else K.zi(v)


def programs():
    claims('absolute', lambda c: [c.in_float('x')], ('not negative', lambda c, r, a: K.fl(r)[0] >= 0, True), ('positive', lambda c, r, a: K.fl(r)[0] > 0, False))

    def every(c, n, f):
        i = c.fresh('i', K.I_)
        return z3.Implies(z3.And(i >= 0, i < K.zi(n)), f(i))
    size = lambda c: [c.in_int('n', 1)]
    claims('fill', size, ('2 i', lambda c, r, a: every(c, a[0], lambda i: at(r, i) == 2 * z3.ToReal(i)), True), ('i', lambda c, r, a: every(c, a[0], lambda i: at(r, i) == z3.ToReal(i)), False),
           ('length', lambda c, r, a: K.dz(r.shape[0]) == K.zi(a[0]), True))
    claims('late', size, ('squares', lambda c, r, a: every(c, a[0], lambda i: at(r, i) == i * i), True), ('not squares', lambda c, r, a: every(c, a[0], lambda i: at(r, i) == i), False))

    def one(f):
        def g(c, r, a):
            return f(c, r, c.old)
        return g

    def given(c):
        a = arr(c)
        c.old = a.snap()
        return [a]
    old = lambda c, i: K.fl(c.old((z3.IntVal(i) if isinstance(i, int) else i,)))[0]
    claims('shifted', given, ('first is second', lambda c, r, a: at(r, 0) == old(c, 1), True), ('last kept', lambda c, r, a: at(r, K.dz(a[0].shape[0]) - 1) == old(c, K.dz(a[0].shape[0]) - 1), True),
           ('last shifted', lambda c, r, a: at(r, K.dz(a[0].shape[0]) - 1) == old(c, 0), False), ('input kept', lambda c, r, a: at(a[0], 0) == old(c, 0), True))
    claims('alias', given, ('input changed', lambda c, r, a: at(a[0], 0) == 7, True), ('input kept', lambda c, r, a: at(a[0], 0) == old(c, 0), False))
    claims('view', given, ('changes through the view', lambda c, r, a: at(a[0], 1) == 7, True), ('first kept', lambda c, r, a: at(r, 0) == old(c, 0), True), ('second kept', lambda c, r, a: at(r, 1) == old(c, 1), False))
    claims('copied', given, ('not through a copy', lambda c, r, a: at(r, 1) == old(c, 1), True))
    claims('fancy', given, ('not through a selection', lambda c, r, a: at(r, 0) == old(c, 0), True), ('changed', lambda c, r, a: at(r, 0) == 7, False))
    claims('masked', given, ('not negative', lambda c, r, a: every(c, a[0].shape[0], lambda i: at(r, i) >= 0), True), ('others kept', lambda c, r, a: every(c, a[0].shape[0], lambda i: z3.Implies(old(c, i) >= 0, at(r, i) == old(c, i))), True),
           ('all kept', lambda c, r, a: every(c, a[0].shape[0], lambda i: at(r, i) == old(c, i)), False))
    claims('swap', given, ('exchanged', lambda c, r, a: z3.And(at(r, 0) == old(c, 1), at(r, 1) == old(c, 0)), True))

    def two(c):
        n = c.in_int('n', 1, size=True)
        return [c.in_arr('a', (n,)), c.in_arr('b', (n,))]
    claims('quotient', two, ('finite where the divisor is not zero', lambda c, r, a: every(c, a[0].shape[0], lambda i: z3.Implies(at(a[1], i) != 0, K.fin(r.fn((i,))))), True),
           ('always finite', lambda c, r, a: every(c, a[0].shape[0], lambda i: K.fin(r.fn((i,)))), False))

    def matrix(c):
        n = c.in_int('n', 2, size=True)
        a = c.in_arr('a', (n, n))
        c.old = a.snap()
        return [a]
    o2 = lambda c, i, j: K.fl(c.old((z3.IntVal(i), z3.IntVal(j))))[0]
    claims('rows_swapped', matrix, ('exchanged', lambda c, r, a: z3.And(at(r, 0, 1) == o2(c, 1, 1), at(r, 1, 1) == o2(c, 0, 1)), True))
    claims('rows_lost', matrix, ('exchanged (rows are views)', lambda c, r, a: z3.And(at(r, 0, 1) == o2(c, 1, 1), at(r, 1, 1) == o2(c, 0, 1)), False), ('both the second', lambda c, r, a: z3.And(at(r, 0, 1) == o2(c, 1, 1), at(r, 1, 1) == o2(c, 1, 1)), True))
    claims('prefix', given, ('starts with the first', lambda c, r, a: at(r, 0) == old(c, 0), True), ('steps', lambda c, r, a: every(c, K.sub(a[0].shape[0], 1), lambda i: at(r, i + 1) == at(r, i) + old(c, i + 1)), True),
           ('is the array', lambda c, r, a: at(r, 1) == old(c, 1), False))
    claims('closure', size, ('late binding', lambda c, r, a: K.zi(r) == 2, True), ('early binding', lambda c, r, a: K.zi(r) == 0, False))
    claims('floor', lambda c: [c.in_int('x')], ('rounds down', lambda c, r, a: z3.And(2 * K.zi(r) <= K.zi(a[0]), K.zi(a[0]) < 2 * K.zi(r) + 2), True), ('rounds to zero', lambda c, r, a: z3.Implies(K.zi(a[0]) == -1, K.zi(r) == 0), False))
    claims('rounded', lambda c: [c.in_float('x')], ('towards zero', lambda c, r, a: z3.Implies(K.fl(a[0])[0] == z3.RealVal('-3/2'), K.zi(r) == -1), True), ('down', lambda c, r, a: z3.Implies(K.fl(a[0])[0] == z3.RealVal('-3/2'), K.zi(r) == -2), False))
    claims('finish', lambda c: [c.in_int('n', 0)], ('wrong sum', lambda c, r, a: K.zi(r) == K.zi(a[0]), None))
    claims('early', given, ('wrongly false', lambda c, r, a: z3.Not(K.zb(r)) if not isinstance(r, K.PyRaise) else z3.BoolVal(False), None))


def ring():
    """products, transposes, sums, scalings and inverses: what the polynomials denote, on random matrices"""
    import numpy as np
    rng = np.random.default_rng(3)
    ctx = K.Ctx('ring', 2000, 60)
    K.CTX = ctx
    n = ctx.in_int('n', 1, size=True)
    mats = [ctx.in_arr('m%d' % k, (n, n)) for k in range(3)]
    num = [rng.standard_normal((4, 4)) for _ in range(3)]
    polys = [(L.read(a), v) for a, v in zip(mats, num)]
    atoms = {p[0][1][0][0]: v for p, v in polys}
    inverse = {}

    def value(p):
        out = np.zeros((4, 4))
        for c, w in p:
            m = np.eye(4)
            for a, t, i in w:
                x = atoms[a]
                x = x.T if t else x
                m = m @ (np.linalg.inv(x) if i else x)
            f = z3.simplify(c).as_fraction()
            out += float(f) * m
        return out
    worst = 0.0
    pool = list(polys)
    for k in range(400):
        op = rng.integers(0, 5)
        (p, v), (q, u) = pool[rng.integers(len(pool))], pool[rng.integers(len(pool))]
        if len(p) * len(q) > 40 or max(len(w) for _, w in p) > 6 or max(len(w) for _, w in q) > 6 or abs(v).max() > 1e3 or abs(u).max() > 1e3:
            continue
        if op == 0:
            r = (L.poly_mul(p, q), v @ u)
        elif op == 1:
            r = (L.poly_add(p, q), v + u)
        elif op == 2:
            r = (L.poly_T(p), v.T)
        elif op == 3:
            r = (L.scale(z3.Q(3, 2), p), 1.5 * v)
        else:
            a = p[0][1]
            if len(p) != 1 or len(a) != 1 or a[0][2] or p[0][0].as_fraction() != 1:
                continue
            r = ([(L.ONE, ((a[0][0], a[0][1], True),))], np.linalg.inv(v))
        if not r[0] or not any(w for _, w in r[0]):
            continue
        worst = max(worst, abs(value(r[0]) - r[1]).max() / (1 + abs(r[1]).max()))
        pool.append(r)
    print('ring: %d terms, largest difference %.1e' % (len(pool), worst))
    if not (worst < 1e-6 and len(pool) > 100):
        bad.append(('ring', worst))


if __name__ == '__main__':
    programs()
    ring()
    print('self test:', 'WRONG %s' % bad if bad else 'as expected')
    sys.exit(bool(bad))
