"""C02: the modified Cholesky factorisation for every size and every symmetric matrix, by loop invariants on the real loops."""
import z3
import numpy as np
from pyvc import core as K
from pyvc.core import same, zb, dz
from pyvc.prove import Task

MOD = 'ASAPy.CovManipulation:'
R_, I_ = K.R_, K.I_


def invariants(ctx, A, n):
    """A(u, v): the input; the elimination works on A permuted by pi.  Ghosts: pi and its inverse rho; R(l, u): row l of the factor by
    variable; S(j, u, v): the sum of R(l, u) R(l, v) over l < j"""
    from pyvc import loops as H
    inr = lambda *v: z3.And(*[z3.And(x >= 0, x < n) for x in v])

    def define(name, m, srt, val):
        f = ctx.fresh_fn(name, *[I_] * m, srt)
        vs = [z3.Int(f'd!{next(ctx.fresh_n)}') for _ in range(m)]
        ctx.axioms.append(z3.ForAll(vs, f(*vs) == val(*vs), patterns=[f(*vs)]))
        return f

    def lemma(name, m, fm, pat):
        ctx.prove('lemma: ' + name, fm(*[ctx.fresh('v', I_) for _ in range(m)]), kind='invariant')
        vs = [z3.Int(f'd!{next(ctx.fresh_n)}') for _ in range(m)]
        ctx.axioms.append(z3.ForAll(vs, fm(*vs), patterns=pat(*vs)))

    def main_inv(v, g, j):
        a, r, e, P = v['a'], v['r'], v['e'], v['P']
        pi, rho, R, S = g['pi'], g['rho'], g['R'], g['S']
        return [
            ('pi is a permutation', 1, lambda k: z3.Implies(inr(k), z3.And(inr(pi(k)), rho(pi(k)) == k)), lambda k: [pi(k)]),
            ('pi is onto', 1, lambda u: z3.Implies(inr(u), z3.And(inr(rho(u)), pi(rho(u)) == u)), lambda u: [rho(u)]),
            ('P is the matrix of pi', 2, lambda u, k: z3.Implies(inr(u, k), P(u, k) == z3.If(u == pi(k), z3.RealVal(1), z3.RealVal(0))), lambda u, k: [P(u, k)]),
            ('rows done so far', 2, lambda l, k: z3.Implies(z3.And(inr(l, k), l < j), r(l, k) == R(l, pi(k))), lambda l, k: [r(l, k), (R(l, pi(k)),)]),
            ('rows to come are zero', 2, lambda l, k: z3.Implies(z3.And(inr(l, k), l >= j), r(l, k) == 0), lambda l, k: [r(l, k)]),
            ('upper triangular', 2, lambda l, k: z3.Implies(z3.And(inr(l, k), k < l), r(l, k) == 0), lambda l, k: [r(l, k)]),
            ('positive diagonal', 1, lambda l: z3.Implies(z3.And(l >= 0, l < j), r(l, l) > 0), lambda l: [r(l, l)]),
            ('S starts at zero', 2, lambda u, w: S(z3.IntVal(0), u, w) == 0, lambda u, w: [S(z3.IntVal(0), u, w)]),
            ('S sums the products', 3, lambda l, u, w: z3.Implies(z3.And(inr(u, w), l >= 0, l < j), S(l + 1, u, w) == S(l, u, w) + R(l, u) * R(l, w)),
             lambda l, u, w: [S(l + 1, u, w), (S(l, u, w), R(l, u), R(l, w))]),
            ('S is symmetric', 3, lambda l, u, w: z3.Implies(z3.And(inr(u, w), l >= 0, l <= j), S(l, u, w) == S(l, w, u)), lambda l, u, w: [S(l, u, w)]),
            ('the rest is what remains to be factored', 2, lambda i, k: z3.Implies(z3.And(inr(i, k), i >= j, k >= j), a(i, k) == A(pi(i), pi(k)) - S(j, pi(i), pi(k))),
             lambda i, k: [a(i, k)]),
            ('the rows done reproduce the input', 2, lambda l, k: z3.Implies(z3.And(inr(l, k), l < j, k >= l),
                                                                            S(l + 1, pi(l), pi(k)) == A(pi(l), pi(k)) + z3.If(k == l, e(l), z3.RealVal(0))),
             lambda l, k: [S(l + 1, pi(l), pi(k)), (pi(l), pi(k))]),
            ('no negative shift', 1, lambda l: z3.Implies(z3.And(l >= 0, l < j), e(l) >= 0), lambda l: [e(l)]),
            ('no shift yet', 1, lambda l: z3.Implies(z3.And(inr(l), l >= j), e(l) == 0), lambda l: [e(l)]),
        ]
    zero = lambda *x: z3.RealVal(0)
    main_init = {'pi': lambda k: k, 'rho': lambda u: u, 'R': zero, 'S': zero}
    q_now = {}

    def main_step(g, v, w, j):
        q = q_now['q']
        tau = lambda x: z3.If(x == j, q, z3.If(x == q, j, x))
        pi = define('pi', 1, I_, lambda k: g['pi'](tau(k)))
        rho = define('rho', 1, I_, lambda u: tau(g['rho'](u)))
        R = define('R', 2, R_, lambda l, u: z3.If(l == j, w['r'](j, rho(u)), g['R'](l, u)))
        S = define('S', 3, R_, lambda l, x, y: z3.If(l == j + 1, g['S'](j, x, y) + R(j, x) * R(j, y), g['S'](l, x, y)))
        lemma('the exchanged permutation', 1, lambda k: z3.Implies(inr(k), z3.And(inr(pi(k)), rho(pi(k)) == k)), lambda k: [pi(k)])
        lemma('row j by variable', 1, lambda k: z3.Implies(inr(k), R(j, pi(k)) == w['r'](j, k)), lambda k: [pi(k)])
        lemma('the sum after row j', 2, lambda x, y: z3.Implies(inr(x, y), S(j + 1, pi(x), pi(y)) == g['S'](j, pi(x), pi(y)) + w['r'](j, x) * w['r'](j, y)),
              lambda x, y: [S(j + 1, pi(x), pi(y))])
        return {'pi': pi, 'rho': rho, 'R': R, 'S': S}

    def hold(env, snap, f, name):
        # the same array, its elements named by f (equal to them by definition, where they are finite)
        x, y = ctx.fresh('x', I_), ctx.fresh('y', I_)
        ctx.prove(f'{name} is finite', z3.Implies(inr(x, y), K.fin(snap((x, y)))), kind='invariant')
        arr = env[name]
        arr._fn = lambda idx: K.mkf(f(*idx))

    def hook(it, fr, s, k, spec):
        env = fr.env
        if k == 0:
            H.hoare(it, fr, s, spec, 'largest elements', {'gamma': 'f', 'xi': 'f'}, lambda v, g, i: [
                ('not negative', 0, lambda: z3.And(v['gamma'] >= 0, v['xi'] >= 0))])
        elif k == 1:
            H.hoare(it, fr, s, spec, 'largest off-diagonal element', {'xi': 'f'}, lambda v, g, i: [('not negative', 0, lambda: v['xi'] >= 0)])
        elif k == 2:
            env_beta = K.fl(env['beta'])[0]
            env_delta = K.fl(env['delta'])[0]
            ctx.prove('beta and delta are positive', z3.And(K.fin(env['beta']), K.fin(env['delta']), env_beta > 0, env_delta > 0), kind='invariant')
            ctx.fact(z3.And(env_beta > 0, env_delta > 0))
            v, g = H.hoare(it, fr, s, spec, 'elimination', {'a': (n, n), 'r': (n, n), 'e': (n,), 'P': (n, n)}, main_inv,
                           {'pi': (1, I_), 'rho': (1, I_), 'R': (2, R_), 'S': (3, R_)}, main_init, main_step)
            ctx.final = g
        elif k == 3:
            j = K.zi(env['j'])
            H.hoare(it, fr, s, spec, 'pivot', {'q': 'i'}, lambda v, g, i: [('a row not done yet', 0, lambda: z3.And(v['q'] >= j, v['q'] < n))])
            q_now['q'] = K.zi(env['q'])
        elif k == 4:
            H.hoare(it, fr, s, spec, 'theta', {'theta_j': 'f'}, lambda v, g, i: [('not negative', 0, lambda: v['theta_j'] >= 0)])
        elif k == 5:
            j = K.zi(env['j'])
            a0, r0 = env['a'].snap(), env['r'].snap()
            A0, R0 = define('a0', 2, R_, lambda x, y: K.fl(a0((x, y)))[0]), define('r0', 2, R_, lambda x, y: K.fl(r0((x, y)))[0])
            hold(env, a0, A0, 'a')
            hold(env, r0, R0, 'r')
            rj = define('rj', 1, R_, lambda x: A0(j, x) / R0(j, j))

            def inv(v, g, t):
                i = j + 1 + t
                a, r = v['a'], v['r']
                return [('row j of the factor', 2, lambda l, x: z3.Implies(inr(l, x), r(l, x) == z3.If(z3.And(l == j, x > j, x < i), rj(x), R0(l, x))), lambda l, x: [r(l, x)]),
                        ('the rest reduced by the products', 2, lambda x, y: z3.Implies(inr(x, y), a(x, y) == z3.If(
                            z3.And(x > j, y > j, x < i, y < i), z3.If(x < y, A0(x, y), A0(y, x)) - rj(x) * rj(y), A0(x, y))), lambda x, y: [a(x, y)])]
            H.hoare(it, fr, s, spec, 'row', {'a': (n, n), 'r': (n, n)}, inv)
        elif k == 6:
            j, i = K.zi(env['j']), K.zi(env['i'])
            a0, r0 = env['a'].snap(), env['r'].snap()
            A0, R0 = define('a0', 2, R_, lambda x, y: K.fl(a0((x, y)))[0]), define('r0', 2, R_, lambda x, y: K.fl(r0((x, y)))[0])
            hold(env, a0, A0, 'a')
            hold(env, r0, R0, 'r')

            def inv2(v, g, t):
                k_ = j + 1 + t
                a = v['a']
                return [('row and column i reduced', 2, lambda x, y: z3.Implies(inr(x, y), a(x, y) == z3.If(
                    z3.And(x == i, y > j, y < k_), A0(y, i) - R0(j, i) * R0(j, y), z3.If(
                        z3.And(y == i, x > j, x < k_), A0(x, i) - R0(j, i) * R0(j, x), A0(x, y)))), lambda x, y: [a(x, y)])]
            H.hoare(it, fr, s, spec, 'column', {'a': (n, n)}, inv2)
        else:
            return False
        return True
    return hook


LOOPS = {'largest elements', 'largest off-diagonal element', 'elimination', 'pivot', 'theta', 'row', 'column'}
# which loop bodies a task explores, and after which loops its paths end: together every loop body and the end of the function
PARTS = {
    'result': ({'largest elements', 'largest off-diagonal element'}, ()),
    'elimination': ({'elimination', 'theta'}, ('elimination',)),
    'pivot': ({'elimination', 'pivot'}, ('elimination', 'pivot')),
    'row': ({'elimination', 'row'}, ('elimination', 'row')),
    'column': ({'elimination', 'row', 'column'}, ('elimination', 'row', 'column')),
}
assert set.union(*[p[0] for p in PARTS.values()]) == LOOPS


def body(ctx, it, part):
    ctx.bodies, ctx.stop = PARTS[part]
    from pyvc import interp as I
    n = K.zi(ctx.in_int('n', 1, size=True))
    A = ctx.in_arr('A', (n, n))
    A0 = A.snap()
    a = lambda u, v: K.fl(A0((u, v)))[0]
    u, v = z3.Ints('sy!u sy!v')
    ctx.axioms.append(z3.ForAll([u, v], z3.Implies(z3.And(u >= 0, u < n, v >= 0, v < n), a(u, v) == a(v, u)), patterns=[a(u, v)]))
    I.INVARIANTS['ASAPy.CovManipulation:gmw_cholesky'] = invariants(ctx, a, n)
    P, L, e = it.call(it.load(MOD + 'gmw_cholesky'), (A,))
    g = getattr(ctx, 'final', None)
    if g is None:
        raise K.Unsupported('no elimination loop')
    pi, rho, S, R = g['pi'], g['rho'], g['S'], g['R']
    inr = lambda *x: z3.And(*[z3.And(t >= 0, t < n) for t in x])
    i, k, m = ctx.fresh('i', I_), ctx.fresh('k', I_), ctx.fresh('m', I_)
    f = lambda arr, *ix: K.fl(arr.fn(ix))[0]
    for nm, arr, shp in (('P', P, 2), ('L', L, 2), ('e', e, 1)):
        ix = (i, k)[:shp]
        ctx.prove(f'{nm} has the size of the input and finite elements', z3.And(len(arr.shape) == shp, *[dz(d) == n for d in arr.shape], z3.Implies(inr(*ix), K.fin(arr.fn(ix)))))
    ctx.prove('P is a permutation matrix: one 1 per column', z3.Implies(inr(i, k), z3.And(inr(pi(k)), f(P, i, k) == z3.If(i == pi(k), 1.0, 0.0))))
    ctx.prove('P is a permutation matrix: one 1 per row', z3.Implies(inr(i, k), z3.And(inr(rho(i)), f(P, i, k) == z3.If(k == rho(i), 1.0, 0.0))))
    ctx.prove('L is lower triangular', z3.Implies(z3.And(inr(i, k), k > i), f(L, i, k) == 0))
    ctx.prove('the diagonal of L is positive', z3.Implies(inr(i), f(L, i, i) > 0))
    ctx.prove('the shift is not negative', z3.Implies(inr(i), f(e, i) >= 0))
    # (L L')[i, k] as the value at n of the partial sums T
    T = ctx.fresh_fn('T', I_, R_)
    ctx.fact(inr(i, k))
    ctx.fact(T(z3.IntVal(0)) == 0)
    ctx.fact(z3.Implies(inr(m), T(m + 1) == T(m) + f(L, i, m) * f(L, k, m)))
    x, y = pi(i), pi(k)
    ctx.prove('sums of products of rows of L, start', T(z3.IntVal(0)) == S(z3.IntVal(0), x, y))
    ctx.prove('sums of products of rows of L, step', z3.Implies(z3.And(inr(m), T(m) == S(m, x, y)), T(m + 1) == S(m + 1, x, y)))
    ctx.fact(T(n) == S(n, x, y))                       # by induction, start and step above
    lo = z3.If(i <= k, i, k)
    ctx.prove('nothing is added after the diagonal, step', z3.Implies(z3.And(inr(m), m > lo, S(m, x, y) == S(lo + 1, x, y)), S(m + 1, x, y) == S(lo + 1, x, y)))
    ctx.fact(S(n, x, y) == S(lo + 1, x, y))            # by induction from lo + 1, step above
    ctx.prove("L L' is the permuted input plus the shift on the diagonal", T(n) == a(x, y) + z3.If(i == k, f(e, i), z3.RealVal(0)))
    ctx.prove('the input is unchanged', z3.And(K.fin(A.fn((i, k))), f(A, i, k) == a(i, k)))


def case(m):
    a = np.array(m['A'], float)
    a = np.triu(a) + np.triu(a, 1).T
    return {'kind': 'model', 'A': a.tolist()}


AS = ['the last clause (no shift for a sufficiently positive definite matrix) is bounded', 'permuting by P: (P\'AP)[i,k] = A[pi(i),pi(k)] for the permutation pi of which P is the matrix']
TASKS = [Task('gmw_cholesky: ' + p, [MOD + 'gmw_cholesky'], lambda ctx, it, p=p: body(ctx, it, p), None, None, case, AS, budget=220) for p in PARTS]
