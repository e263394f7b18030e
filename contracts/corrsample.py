"""contracts of the sampling functions, shared by the proofs of C03, C04 and C05"""
import z3
import numpy as np
from pyvc import core as K
from pyvc.core import dz, zb, zi

CM = 'ASAPy.CovManipulation:'
CDF = z3.Function('f.normcdf', K.R_, K.R_)


def mat(ctx, name, n, m):
    f = ctx.fresh_fn(name, K.I_, K.I_, K.R_)
    return K.Arr((n, m), 'f', lambda idx: K.mkf(f(*idx)))


class World:
    """sample_with_corr for D variables and S samples, its callees by contract"""
    def __init__(self, ctx, it, distro, symmetric=True):
        from pyvc import interp as I
        from pyvc import linalg as L
        self.ctx, self.it, self.distro = ctx, it, distro
        D, S = ctx.in_int('D', 1, size=True), ctx.in_int('S', 1, size=True)
        self.D, self.S = zi(D), zi(S)
        self.mean, self.std = ctx.in_arr('mean', (D,)), ctx.in_arr('std', (D,))
        self.corr = ctx.in_arr('corr', (D, D))
        self.m0, self.s0, self.c0 = self.mean.snap(), self.std.snap(), self.corr.snap()
        if distro == 'lognormal':
            ctx.forall(self.mean.shape[0], lambda i: zb(K.cmp('>=', self.mean.fn((i,)), 0)))
        if symmetric:
            i, j = z3.Ints('sy!i sy!j')
            C = lambda a, b: K.fl(self.c0((a, b)))[0]
            # entries outside the matrix mean nothing: symmetry may be assumed of them too
            ctx.axioms.append(z3.ForAll([i, j], C(i, j) == C(j, i), patterns=[C(i, j)]))
            ctx.mats['symf'] = {'corr'}
        self.chol = []
        L.LOG[:] = [lambda name, kw: self.chol.append((name, kw))]
        self.calls = {}
        for f in ('rank', 'order', 'col_independent_matrix', 'gmw_cholesky'):
            I.CONTRACTS[CM + f] = lambda it, args, kw, f=f: getattr(self, f)(*args, **kw)

    # callee contracts -------------------------------------------------------------------------------------------------
    def col_independent_matrix(self, n, d):
        """(n, d) scores (proved in C05: every column is a permutation of the same increasing scores)"""
        return mat(self.ctx, 'score', n, d)

    def gmw_cholesky(self, A):
        """C02: P a permutation matrix, L lower triangular with P'AP + diag(e) = LL', e >= 0; A must be symmetric"""
        from pyvc import linalg as L
        ctx = self.ctx
        n = A.shape[0]
        a = L.read(A)
        i, j = ctx.fresh('i', K.I_), ctx.fresh('j', K.I_)
        if not L.poly_T(a) == a:
            ctx.prove('gmw_cholesky is given a symmetric matrix', z3.Implies(z3.And(i >= 0, j >= 0, i < dz(n), j < dz(n)),
                      K.same(A.fn((i, j)), A.fn((j, i)))))
        e = ctx.fresh_fn('e', K.I_, K.R_)
        q = z3.Int('e!q')
        ctx.axioms.append(z3.ForAll([q], e(q) >= 0, patterns=[e(q)]))
        L.reg().side = []
        p, l = L.new_atom((n, n), None, 'P'), L.new_atom((n, n), None, 'L')
        d = L.new_atom((n, n), K.simp(z3.If(L.I0 == L.J0, e(L.I0), z3.RealVal(0))), 'E', True)
        P, PT, LL, LT = (p, False, False), (p, True, False), (l, False, False), (l, True, False)
        L.rule((P, PT), [(L.ONE, ())])
        L.rule((PT, P), [(L.ONE, ())])
        L.rule((LL, LT), L.poly_add(L.poly_mul(L.poly_mul(L.letter(p, True), a), L.letter(p)), L.letter(d)))
        self.chol.append(('gmw', dict(arg=a, P=p, L=l, e=e, diag=d)))
        return L.build(L.letter(p), (n, n)), L.build(L.letter(l), (n, n)), K.Arr((n,), 'f', lambda idx: K.mkf(e(idx[0])))

    def rank(self, N):
        """column ranks: a bijection of the rows that follows the values (proved in C05)"""
        ctx = self.ctx
        n, k = N.shape
        R, Ri = ctx.fresh_fn('R', K.I_, K.I_, K.I_), ctx.fresh_fn('Rinv', K.I_, K.I_, K.I_)
        i, j, v = z3.Ints('rk!i rk!j rk!v')
        ok = z3.And(i >= 0, i < dz(n), v >= 0, v < dz(k))
        ctx.axioms.append(z3.ForAll([i, v], z3.Implies(ok, z3.And(R(i, v) >= 0, R(i, v) < dz(n), Ri(R(i, v), v) == i)), patterns=[R(i, v)]))
        ctx.axioms.append(z3.ForAll([i, v], z3.Implies(ok, z3.And(Ri(i, v) >= 0, Ri(i, v) < dz(n), R(Ri(i, v), v) == i)), patterns=[Ri(i, v)]))
        sn = N.snap()
        x = lambda i, v: K.fl(sn((i, v)))[0]
        ctx.axioms.append(z3.ForAll([i, j, v], z3.Implies(z3.And(ok, j >= 0, j < dz(n), x(i, v) < x(j, v)), R(i, v) < R(j, v)),
                                    patterns=[z3.MultiPattern(R(i, v), R(j, v))]))
        self.calls['rank'] = dict(N=sn, arr=N, R=R, n=n, k=k)
        return K.Arr((n, k), 'i', lambda idx: K.mk(R(*idx)))

    def order(self, R, X):
        """every column ascending, then arranged by rank (proved in C03)"""
        ctx = self.ctx
        n, k = X.shape
        i, v = ctx.fresh('i', K.I_), ctx.fresh('v', K.I_)
        ok = z3.And(i >= 0, i < dz(n), v >= 0, v < dz(k))
        r = zi(R.fn((i, v)))
        ctx.prove('order is given one rank per value, inside the range', z3.And(dz(R.shape[0]) == dz(n), dz(R.shape[1]) == dz(k),
                  z3.Implies(ok, z3.And(r >= 0, r < dz(n)))))
        sx, sr = X.snap(), R.snap()
        ctx.prove('the values to arrange are numbers', z3.Implies(ok, K.fin(sx((i, v)))))
        p, pi = ctx.fresh_fn('rho', K.I_, K.I_, K.I_), ctx.fresh_fn('rhoinv', K.I_, K.I_, K.I_)
        a, b, c = z3.Ints('or!a or!b or!c')
        g = z3.And(a >= 0, a < dz(n), c >= 0, c < dz(k))
        ctx.axioms.append(z3.ForAll([a, c], z3.Implies(g, z3.And(p(a, c) >= 0, p(a, c) < dz(n), pi(p(a, c), c) == a)), patterns=[p(a, c)]))
        ctx.axioms.append(z3.ForAll([a, c], z3.Implies(g, z3.And(pi(a, c) >= 0, pi(a, c) < dz(n), p(pi(a, c), c) == a)), patterns=[pi(a, c)]))
        x = ctx.fresh_fn('X', K.I_, K.I_, K.R_)          # the values, finite
        ctx.axioms.append(z3.ForAll([a, b, c], z3.Implies(z3.And(g, b >= a, b < dz(n)), x(p(a, c), c) <= x(p(b, c), c)),
                                    patterns=[z3.MultiPattern(p(a, c), p(b, c))]))
        self.calls['order'] = dict(X=sx, R=sr, rho=p, n=n, k=k, x=x)
        return K.Arr((n, k), 'f', lambda idx: K.mkf(x(p(zi(sr(idx)), idx[1]), idx[1])))

    def link(self, q, k, i):
        """the value x(q, k) handed to order, which belongs to the variable i: only its own mean and deviation enter"""
        c, ctx = self.calls['order'], self.ctx
        e = K.simp(K.fl(c['X']((q, k)))[0])
        ghost(ctx, 'the arranged value is one of the sampled values', z3.And(q >= 0, q < dz(c['n']), k >= 0, k < dz(c['k'])))
        at = []
        for r in reads(e, {'mean', 'std'}):
            if not any(r.arg(0).eq(t) for t in at) and not r.arg(0).eq(i):
                at.append(r.arg(0))
        for t in at:
            ob = ghost(ctx, 'a value is made from the mean and deviation of its own variable', t == i)
            if ob.status == 'discharged':
                e = K.simp(z3.substitute(e, (t, i)))
        ctx.fact(c['x'](q, k) == e)
        return e

    # ------------------------------------------------------------------------------------------------------------------
    def run(self):
        self.x = self.it.call(self.it.load(CM + 'sample_with_corr'), (self.mean, self.std, self.corr, K.mk(self.S)), {'distro': self.distro})
        return self.x

    def pin(self, i):
        c = [zb(K.cmp('<=', self.s0((i,)), 1e-30)), zb(K.cmp('==', self.c0((i, i)), 0))]
        if self.distro == 'lognormal':
            c.append(zb(K.cmp('==', self.m0((i,)), 0)))
        return z3.Or(*c)

    def column(self):
        """(i, k): a sampled variable at position i whose values are column k of what was ordered"""
        ctx = self.ctx
        i, k = ctx.fresh('i', K.I_), ctx.fresh('k', K.I_)
        return i, k


def reads(e, decls):
    """applications of the given functions in an expression"""
    out, seen, todo = [], set(), [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().name() in decls:
            out.append(x)
        todo.extend(x.children())
    return out


class PREFIX:
    def __init__(self, p):
        self.p = p

    def __contains__(self, n):
        return n.startswith(self.p)


def ghost(ctx, name, e, by=None):
    """an assertion: proved, then available"""
    ob = ctx.prove(name, e) if by is None else ctx.prove_by(name, by, e)
    if ob.status == 'discharged':
        ctx.fact(e)
    return ob


def resolve(ctx, e, hyps):
    """e with the conditionals decided by the hypotheses (known facts)"""
    memo = {}

    def holds(c):
        s = z3.Solver()
        s.set('timeout', 500)
        s.add(*hyps)
        s.add(z3.Not(c))
        return s.check() == z3.unsat

    def walk(x):
        k = x.get_id()
        if k in memo:
            return memo[k][1]
        if not z3.is_app(x) or not x.num_args():
            r = x
        elif x.decl().kind() == z3.Z3_OP_ITE:
            c = walk(x.arg(0))
            if holds(c):
                r = walk(x.arg(1))
            elif holds(z3.Not(c)):
                r = walk(x.arg(2))
            else:
                r = z3.If(c, walk(x.arg(1)), walk(x.arg(2)))
        else:
            ch = [walk(c) for c in x.children()]
            o = {z3.Z3_OP_AND: z3.And, z3.Z3_OP_OR: z3.Or, z3.Z3_OP_ADD: z3.Sum, z3.Z3_OP_MUL: z3.Product}.get(x.decl().kind(), x.decl())
            r = o(*ch)
        memo[k] = (x, r)
        return r
    return K.simp(walk(e))


def value(w, s, i):
    """the sampled value of variable i in sample s, and (row, column, expression) of the value handed to order"""
    v = w.x.fn((s, i))
    e = K.simp(K.fl(v)[0])
    ts = reads(e, {w.calls['order']['x'].name()})
    if len(ts) != 1:
        raise K.Unsupported('sampled value is not one of the arranged values')
    q, k = ts[0].arg(0), ts[0].arg(1)
    ghost(w.ctx, 'the sampled value is one of the arranged values', e == ts[0])
    return v, q, k, w.link(q, k, i), ts[0]


def split(ctx, w, std, mean, corr):
    """which causes of pinning occur (together the cases cover every input)"""
    for name, some, cond in (('std', std, lambda i: zb(K.cmp('<=', w.s0((i,)), 1e-30))), ('mean', mean, lambda i: zb(K.cmp('==', w.m0((i,)), 0))),
                             ('corr', corr, lambda i: zb(K.cmp('==', w.c0((i, i)), 0)))):
        if some is None:
            continue
        if some:
            i = ctx.fresh('some_' + name, K.I_)
            ctx.fact(z3.And(i >= 0, i < w.D, cond(i)))
        else:
            ctx.forall(w.mean.shape[0], lambda i: z3.Not(cond(i)))


# ---------------------------------------------------------------- bodies of the callee contracts
def order_body(ctx, it):
    from pyvc import npmodel as N
    n, k = ctx.in_int('n', 1, size=True), ctx.in_int('k', 1, size=True)
    R, X = ctx.in_arr('R', (n, k), 'i'), ctx.in_arr('X', (n, k))
    r0, x0 = R.snap(), X.snap()
    i, j = z3.Ints('r!i r!j')
    rr = zi(r0((i, j)))
    ctx.axioms.append(z3.ForAll([i, j], z3.And(rr >= 0, rr < zi(n)), patterns=[rr]))        # entries outside the array mean nothing
    out = it.call(it.load(CM + 'order'), (R, X), {})
    ctx.prove('one value per rank', z3.And(len(out.shape) == 2, dz(out.shape[0]) == zi(n), dz(out.shape[1]) == zi(k)))
    a, v = ctx.fresh('a', K.I_), ctx.fresh('v', K.I_)
    ctx.fact(z3.And(a >= 0, a < zi(n), v >= 0, v < zi(k)))
    col = K.Arr((n,), 'f', lambda idx: x0((idx[0], v)))
    srt, perm, inv = N.sort1(col)
    t = zi(r0((a, v)))
    got = K.fl(out.fn((a, v)))[0]
    ctx.prove('the value of rank t of a column is its t-th smallest', got == K.fl(x0((perm(t), v)))[0])
    for name, arr, f in (('ranks', R, r0), ('values', X, x0)):
        ctx.prove(f'the given {name} are not modified', K.same(arr.fn((a, v)), f((a, v))))
    ctx.result('out', out)


def rank_body(ctx, it):
    n, k = ctx.in_int('n', 1, size=True), ctx.in_int('k', 1, size=True)
    X = ctx.in_arr('X', (n, k))
    x0 = X.snap()
    R = it.call(it.load(CM + 'rank'), (X,), {})
    ctx.prove('one rank per value', z3.And(len(R.shape) == 2, dz(R.shape[0]) == zi(n), dz(R.shape[1]) == zi(k), R.dtype == 'i'))
    a, b, v = ctx.fresh('a', K.I_), ctx.fresh('b', K.I_), ctx.fresh('v', K.I_)
    ctx.fact(z3.And(a >= 0, a < zi(n), b >= 0, b < zi(n), v >= 0, v < zi(k)))
    ra, rb = zi(R.fn((a, v))), zi(R.fn((b, v)))
    ctx.prove('ranks count from zero', z3.And(ra >= 0, ra < zi(n)))
    ctx.prove('no two values of a column share a rank', z3.Implies(a != b, ra != rb))
    ctx.prove('ranks follow the values', z3.Implies(zb(K.cmp('<', x0((a, v)), x0((b, v)))), ra < rb))
    ctx.prove('the given values are not modified', K.same(X.fn((a, v)), x0((a, v))))
    ctx.result('R', R)


def rank_pins():
    for x in ([[3., 1], [1, 1], [2, 0]], [[1., 5.]], [[2., 2, 1], [2, 1, 3]]):
        x = np.array(x)
        yield {'n': x.shape[0], 'k': x.shape[1], 'X': x}


def rank_real(p):
    from ASAPy import CovManipulation as cm
    return {'R': cm.rank(np.array(p['X']))}


def order_pins():
    from ASAPy import CovManipulation as cm
    for p in rank_pins():
        p['R'] = np.array(p['X']).argsort(axis=0)
        yield p


def order_real(p):
    from ASAPy import CovManipulation as cm
    return {'out': cm.order(np.array(p['R']), np.array(p['X']))}


def sane(m, distro):
    """a sample_with_corr input for replay with the pattern of pinned variables of a counterexample"""
    mean, std, corr = (np.array(m[k], float) for k in ('mean', 'std', 'corr'))
    d = len(mean)
    pin_s, pin_m, pin_c = std <= 1e-30, mean == 0, np.diag(corr) == 0
    a = np.arange(d)
    mean = np.where(pin_m, 0, 1 + a / 3.0)
    std = np.where(pin_s, 0, .1 + .05 * a / max(d, 1))
    corr = .4 ** np.abs(a[:, None] - a[None, :])
    corr[pin_c] = 0
    corr[:, pin_c] = 0
    return {'mean': mean.tolist(), 'std': std.tolist(), 'corr': corr.tolist(), 'distro': distro, 'npseed': 7}
