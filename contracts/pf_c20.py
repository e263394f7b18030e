"""C20: tabulated functions, for every number of points and regions' break points, all values, all evaluation points; one to three
interpolation regions with every law."""
import z3
import numpy as np
from pyvc import core as K
from pyvc.core import same, zb, dz
from pyvc.prove import Task

MOD = 'ASAPy.data.function:'


class Tab:
    def __init__(self, ctx, laws, name='', default=False):
        from pyvc import interp as I
        import importlib
        self.fun = importlib.import_module('ASAPy.data.function')
        self.ctx, self.laws = ctx, laws
        self.n = ctx.in_int('n' + name, 2, size=True)
        n = K.zi(self.n)
        self.x, self.y = ctx.in_arr('x' + name, (self.n,)), ctx.in_arr('y' + name, (self.n,))
        self.x0, self.y0 = self.x.snap(), self.y.snap()
        k, l = z3.Ints('tb!k tb!l')
        X, Y = self.X, self.Y
        ctx.axioms.append(z3.ForAll([k, l], z3.Implies(z3.And(k >= 0, k <= l, l < n), X(k) <= X(l)), patterns=[z3.MultiPattern(X(k), X(l))]))
        if any(q in (3, 5) for q in laws):
            ctx.axioms.append(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), X(k) > 0), patterns=[X(k)]))
        if any(q in (4, 5) for q in laws):
            ctx.axioms.append(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), Y(k) > 0), patterns=[Y(k)]))
        self.bp = [ctx.in_int(f'bp{name}{j}', 2) for j in range(len(laws) - 1)] + [self.n]
        for a, b in zip(self.bp, self.bp[1:]):
            ctx.fact(K.zi(a) < K.zi(b))
        bps = K.Arr((len(laws),), 'i', lambda idx: self.pick(idx[0]))
        self.bps = bps
        self.obj = I.SObj(self.fun.Tabulated1D, _x=self.x, _y=self.y, _breakpoints=bps, _interpolation=np.array(laws))

    def X(self, k):
        return K.fl(self.x0((k,)))[0]

    def Y(self, k):
        return K.fl(self.y0((k,)))[0]

    def pick(self, i):
        r = self.bp[-1]
        for j in range(len(self.bp) - 1):
            r = K.ite(i == j, self.bp[j], r) if not (z3.is_int_value(i)) else (self.bp[j] if i.as_long() == j else r)
        return r

    def law(self, i):
        """[(condition that interval i lies in region r, law)]"""
        out, lo = [], z3.IntVal(0)
        for b, q in zip(self.bp, self.laws):
            out.append((z3.And(i >= lo, i < K.zi(b) - 1), q))
            lo = K.zi(b) - 1
        return out

    def unchanged(self):
        i = self.ctx.fresh('i', K.I_)
        n = K.zi(self.n)
        a = self.obj.attrs
        x, y, b = a.get('_x'), a.get('_y'), a.get('_breakpoints')
        self.ctx.prove('the table is unchanged', z3.And(dz(x.shape[0]) == n, dz(y.shape[0]) == n, z3.Implies(z3.And(i >= 0, i < n), z3.And(
            same(x.fn((i,)), self.x0((i,))), same(y.fn((i,)), self.y0((i,))))), *[K.zi(b.fn((z3.IntVal(j),))) == K.zi(self.bp[j]) for j in range(len(self.bp))],
            list(a['_interpolation']) == list(self.laws)))


def formula(law, x0, x1, y0, y1, x):
    f = lambda e: K.Sym('f', e)
    x0, x1, y0, y1, x = map(f, (x0, x1, y0, y1, x))
    log, exp = K.log, K.exp
    frac = K.div(K.sub(x, x0), K.sub(x1, x0)) if law in (2, 4) else (K.div(log(K.div(x, x0)), log(K.div(x1, x0))) if law in (3, 5) else None)
    if law == 1:
        return y0
    if law in (2, 3):
        return K.add(y0, K.mul(frac, K.sub(y1, y0)))
    return K.mul(y0, exp(K.mul(frac, log(K.div(y1, y0)))))


def call(ctx, it, laws, scalar):
    t = Tab(ctx, laws)
    n = K.zi(t.n)
    if scalar:
        p = ctx.in_float('p')
        got = it.call(t.obj, (p,))
        ctx.prove('a scalar gives a scalar', z3.BoolVal(K.isnum(got)))
        px, r = K.fl(p)[0], got
        ctx.result('got', got)
    else:
        m = ctx.in_int('m', 0, size=True)
        pts = ctx.in_arr('pts', (m,))
        p0 = pts.snap()
        got = it.call(t.obj, (pts,))
        ctx.prove('one value per point', z3.And(len(got.shape) == 1, dz(got.shape[0]) == K.zi(m)))
        q = ctx.fresh('q', K.I_)
        ctx.fact(z3.And(q >= 0, q < K.zi(m)))
        px, r = K.fl(p0((q,)))[0], got.fn((q,))
        ctx.prove('the evaluation points are unchanged', same(pts.fn((q,)), p0((q,))))
        ctx.result('got', got)
    i = ctx.fresh('i', K.I_)
    ctx.fact(z3.And(i >= 0, i < n - 1))
    X, Y = t.X, t.Y
    for c, law in t.law(i):
        v = formula(law, X(i), X(i + 1), Y(i), Y(i + 1), px)
        ctx.prove(f'inside an interval of a region with law {law}', z3.Implies(z3.And(c, px > X(i), px < X(i + 1)), z3.And(K.fin(r), K.fl(r)[0] == K.fl(v)[0])))
    ctx.prove('the tabulated value at a tabulated point', z3.Implies(z3.And(px == X(i), X(i) < X(i + 1), z3.Or(i == 0, X(i - 1) < X(i))), z3.And(K.fin(r), K.fl(r)[0] == Y(i))))
    ctx.prove('the last value at the last point', z3.Implies(z3.And(px == X(n - 1)), z3.And(K.fin(r), K.fl(r)[0] == Y(n - 1))))
    tol = lambda v: z3.If(v >= 0, v, -v) * z3.RealVal('1e-9') + z3.RealVal('1e-13')
    ctx.prove('zero below the range', z3.Implies(px < X(z3.IntVal(0)) - tol(X(z3.IntVal(0))), z3.And(K.fin(r), K.fl(r)[0] == 0)))
    ctx.prove('zero above the range', z3.Implies(px > X(n - 1) + tol(X(n - 1)), z3.And(K.fin(r), K.fl(r)[0] == 0)))
    t.unchanged()


def integral(ctx, it, laws):
    t = Tab(ctx, laws)
    n = K.zi(t.n)
    got = it.call(it.load(MOD + 'Tabulated1D.integral'), (t.obj,))
    ctx.result('got', got)
    ctx.prove('one partial integral per tabulated point', z3.And(len(got.shape) == 1, dz(got.shape[0]) == n))
    g = lambda k: got.fn((k,))
    ctx.prove('starts at zero', z3.And(K.fin(g(z3.IntVal(0))), K.fl(g(z3.IntVal(0)))[0] == 0))
    i = ctx.fresh('i', K.I_)
    ctx.fact(z3.And(i >= 0, i < n - 1))
    x0, x1, y0, y1 = t.X(i), t.X(i + 1), t.Y(i), t.Y(i + 1)
    lo, hi = g(i), g(i + 1)
    inc = K.fl(hi)[0] - K.fl(lo)[0]
    from pyvc import scimodel as S
    E, L = K._EXP, K._LOG
    lx, ly = L(x1 / x0), L(y1 / y0)
    for c, law in t.law(i):
        if law == 1:
            w = inc == y0 * (x1 - x0)
        elif law == 2:
            w = inc * 2 == (y0 + y1) * (x1 - x0)
        else:
            # the logarithms and exponentials of this interval
            ctx.fact(z3.Implies(x1 >= x0, z3.And(E(lx) * x0 == x1) if law in (3, 5) else z3.BoolVal(True)))
            if law == 3:
                ctx.fact(z3.Implies(x1 > x0, z3.And(lx > 0, S._EXPREL(lx) * lx * x0 == x1 - x0)))
            if law in (4, 5):
                ctx.fact(E(ly) * y0 == y1)
            if law == 3:
                w = inc * lx == y0 * (x1 - x0) * lx + (y1 - y0) * (x1 * lx - (x1 - x0))
            elif law == 4:
                w = z3.If(y0 == y1, inc == y0 * (x1 - x0), inc * ly == (y1 - y0) * (x1 - x0))
            else:
                ctx.fact(E(lx + ly) == E(lx) * E(ly))
                w = z3.If(lx + ly == 0, inc == y0 * x0 * lx, inc * (lx + ly) == lx * (x1 * y1 - x0 * y0))
        ctx.prove(f'increment over an interval with law {law} is the area under it', z3.Implies(z3.And(c, x1 > x0), z3.And(K.fin(lo), K.fin(hi), w)))
    ctx.prove('a step of x adds nothing', z3.Implies(x0 == x1, z3.And(K.fin(lo), K.fin(hi), inc == 0)))
    t.unchanged()


def integral_case(laws):
    def f(m):
        return {'kind': 'integral', 'x': m['x'].tolist(), 'y': m['y'].tolist(), 'bp': [m[f'bp{j}'] for j in range(len(laws) - 1)] + [m['n']], 'it': list(laws)}
    return f


def integral_real(laws):
    def f(p):
        from ASAPy.data.function import Tabulated1D
        return {'got': Tabulated1D(p['x'], p['y'], [p[f'bp{j}'] for j in range(len(laws) - 1)] + [p['n']], list(laws)).integral()}
    return f


def integral_pins(laws):
    for p in call_pins(laws, False):
        yield {k: v for k, v in p.items() if k not in ('m', 'pts')}


def total(ctx, it, count):
    """the sum of functions: each addend's __call__ by contract (its value at a point is a function of the point)"""
    from pyvc import interp as I
    ts = [Tab(ctx, (2,), name=f'_{j}') for j in range(count)]
    vals = [z3.Function(f'value{j}', K.R_, K.R_) for j in range(count)]

    def value(it, args, kw):
        me, x = args
        j = [q for q, t in enumerate(ts) if t.obj is me]
        if not j or not isinstance(x, K.Arr):
            raise K.Unsupported('evaluation of another function')
        s = x.snap()
        return K.Arr(x.shape, 'f', lambda idx: K.Sym('f', vals[j[0]](K.fl(s(idx))[0])))
    I.CONTRACTS[MOD + 'Tabulated1D.__call__'] = value
    r = it.call(it.load(MOD + 'sum_functions'), ([t.obj for t in ts],))
    x, y = it.getattr(r, 'x'), it.getattr(r, 'y')
    n = dz(x.shape[0])
    ctx.prove('one value per point', z3.And(len(x.shape) == 1, len(y.shape) == 1, dz(y.shape[0]) == n))
    i = ctx.fresh('i', K.I_)
    ctx.fact(z3.And(i >= 0, i < n))
    xi = K.fl(x.fn((i,)))[0]
    ctx.prove('the value is the sum of the values of the addends', z3.And(K.fin(y.fn((i,))), K.fl(y.fn((i,)))[0] == z3.Sum([v(xi) for v in vals])))
    ctx.prove('the points increase', z3.Implies(i + 1 < n, (xi < K.fl(x.fn((i + 1,)))[0]) if count > 1 else (xi <= K.fl(x.fn((i + 1,)))[0])))
    k = z3.Int('some')
    ctx.prove('no other points', z3.Or(*[z3.Exists([k], z3.And(k >= 0, k < K.zi(t.n), t.X(k) == xi)) for t in ts]))
    for j, t in enumerate(ts):
        a = ctx.fresh('a', K.I_)
        ctx.fact(z3.And(a >= 0, a < K.zi(t.n)))
        ctx.prove('every point of an addend', z3.Exists([k], z3.And(k >= 0, k < n, K.fl(x.fn((k,)))[0] == t.X(a))))
        t.unchanged()
    b, law = it.getattr(r, 'breakpoints'), it.getattr(r, 'interpolation')
    first = lambda v: v.fn((z3.IntVal(0),)) if isinstance(v, K.Arr) else v[0]
    ctx.prove('one linear region', z3.And(len(b) == 1 if not isinstance(b, K.Arr) else dz(b.shape[0]) == 1, K.zi(first(b)) == n, K.zi(first(law)) == 2,
              len(law) == 1 if not isinstance(law, K.Arr) else dz(law.shape[0]) == 1))


def refused(ctx, it, laws):
    ts = [Tab(ctx, q, name=f'_{j}') for j, q in enumerate(laws)]
    try:
        it.call(it.load(MOD + 'sum_functions'), ([t.obj for t in ts],))
        ctx.prove('a table that is not linear is refused', z3.BoolVal(False))
    except K.PyRaise as ex:
        if not issubclass(ex.cls, ValueError):
            raise
        ctx.prove('a table that is not linear is refused', z3.BoolVal(True))


def sum_case(laws):
    def f(m):
        return {'kind': 'sum', 'tabs': [{'x': m[f'x_{j}'].tolist(), 'y': m[f'y_{j}'].tolist(),
                'bp': [m[f'bp_{j}{i}'] for i in range(len(q) - 1)] + [m[f'n_{j}']], 'it': list(q)} for j, q in enumerate(laws)]}
    return f


def call_case(laws, scalar):
    def f(m):
        return {'kind': 'eval', 'x': m['x'].tolist(), 'y': m['y'].tolist(), 'bp': [m[f'bp{j}'] for j in range(len(laws) - 1)] + [m['n']], 'it': list(laws),
                'pts': [m['p']] if scalar else m['pts'].tolist()}
    return f


def call_pins(laws, scalar):
    n = 2 * len(laws) + 1
    x = np.array([1., 2., 4., 5., 8., 16., 32.])[:n]
    y = np.array([1., 4., 2., 8., 8., 1., 3.])[:n]
    p = {'n': n, 'x': x, 'y': y}
    for j in range(len(laws) - 1):
        p[f'bp{j}'] = 2 * j + 2
    if any(l > 2 for l in laws):
        return
    pts = np.array([.5, 1., 1.5, 2., 3., 4., 4.5, 6., 16., 20., 40., x[-1]])
    if scalar:
        for v in pts:
            yield dict(p, p=float(v))
    else:
        yield dict(p, m=len(pts), pts=pts)


def call_real(laws, scalar):
    def f(p):
        from ASAPy.data.function import Tabulated1D
        t = Tabulated1D(p['x'], p['y'], [p[f'bp{j}'] for j in range(len(laws) - 1)] + [p['n']], list(laws))
        return {'got': t(p['p']) if scalar else t(np.array(p['pts']))}
    return f


FUN = [MOD + 'Tabulated1D.__call__']
AS = ['x does not decrease; x > 0 for the laws logarithmic in x, y > 0 for those logarithmic in y', 'log and exp are functions with log(1) = 0, exp(0) = 1, monotone; one to three regions']
TASKS = []


def add(laws, scalar, **k):
    TASKS.append(Task('Tabulated1D.__call__ laws %s %s' % (list(laws), 'scalar' if scalar else 'array'), FUN, lambda ctx, it: call(ctx, it, laws, scalar),
                      lambda: call_pins(laws, scalar), call_real(laws, scalar), case=call_case(laws, scalar), assumptions=AS, **k))


for a in range(1, 6):
    add((a,), False)
    add((a,), True)
for a in range(1, 6):
    for b in range(1, 6):
        add((a, b), True)
        add((a, b), False, tiers=('thorough',))
for q in ((2, 1, 2), (5, 2, 5), (1, 3, 4)):
    add(q, True)

for a in range(1, 6):
    TASKS.append(Task(f'Tabulated1D.integral laws {[a]}', [MOD + 'Tabulated1D.integral'], lambda ctx, it, q=(a,): integral(ctx, it, q), lambda q=(a,): integral_pins(q),
                      integral_real((a,)), case=integral_case((a,)), assumptions=AS))
    for b in range(1, 6):
        TASKS.append(Task(f'Tabulated1D.integral laws {[a, b]}', [MOD + 'Tabulated1D.integral'], lambda ctx, it, q=(a, b): integral(ctx, it, q),
                          lambda q=(a, b): integral_pins(q), integral_real((a, b)), case=integral_case((a, b)), assumptions=AS))
for c in (1, 2, 3):
    TASKS.append(Task(f'sum_functions of {c}', [MOD + 'sum_functions', MOD + 'Tabulated1D.__init__'], lambda ctx, it, c=c: total(ctx, it, c), case=sum_case([(2,)] * c),
                      assumptions=['numpy.union1d is the ascending list of the different values', 'sums of one to three functions']))
for laws in (((1,),), ((2,), (3,)), ((2, 4), (2,)), ((2,), (5, 2))):
    TASKS.append(Task(f'sum_functions refuses {laws}', [MOD + 'sum_functions'], lambda ctx, it, laws=laws: refused(ctx, it, laws), case=sum_case(laws)))
