import re
"""Terms, scalars, arrays, the proof context."""
import time, fractions, math, itertools
import z3
import numpy as np

z3.set_param('smt.random_seed', 1)


class Unsupported(Exception):
    """A construct outside the verifier's reach: never a verdict, the caller falls back to the bounded stand-in."""


class PyRaise(Exception):
    """An exception raised by the interpreted program."""
    def __init__(self, cls, args=(), where=''):
        self.cls, self.eargs, self.where = cls, args, where
        super().__init__(cls.__name__, args, where)


class Infeasible(Exception):
    pass


class Undef:
    """value of a variable that may be unbound"""


UNDEF = Undef()
FIN, NAN, PINF, NINF = 0, 1, 2, 3
I_, R_, B_ = z3.IntSort(), z3.RealSort(), z3.BoolSort()


# ---------------------------------------------------------------- scalars
class Sym:
    __slots__ = ('s', 'e', 'k')

    def __init__(self, s, e, k=None):
        self.s, self.e, self.k = s, e, k   # sort 'i','b','f','s'; z3 expr; kind (floats): None = finite

    def __repr__(self):
        return f'<{self.s}:{z3.simplify(self.e) if hasattr(self.e, "sexpr") else self.e}>'

    def __bool__(self):
        raise Unsupported('python truth of a symbolic value')

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return id(self)


class NpSym(Sym):
    """a numpy scalar: it has the reductions of an array"""
    __slots__ = ()


def isnum(v):
    return isinstance(v, (int, float, np.integer, np.floating, np.bool_)) or isinstance(v, Sym)


def simp(e):
    return z3.simplify(e)


def RV(x):
    return z3.RealVal(fractions.Fraction(x))


def mk(e):
    """wrap a z3 expr"""
    s = e.sort()
    if s == I_:
        if z3.is_int_value(e):
            return e.as_long()
        return Sym('i', e)
    if s == B_:
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        return Sym('b', e)
    return Sym('f', e)


def sort_of(v):
    if isinstance(v, Sym):
        return v.s
    if isinstance(v, (bool, np.bool_)):
        return 'b'
    if isinstance(v, (int, np.integer)):
        return 'i'
    if isinstance(v, (float, np.floating)):
        return 'f'
    raise Unsupported(f'scalar of type {type(v).__name__}')


def zi(v):
    """as z3 Int"""
    if isinstance(v, Sym):
        if v.s == 'i':
            return v.e
        if v.s == 'b':
            return z3.If(v.e, z3.IntVal(1), z3.IntVal(0))
        raise Unsupported('float where an int is needed')
    if isinstance(v, z3.ExprRef):
        return v
    if isinstance(v, (bool, np.bool_)):
        return z3.IntVal(int(v))
    if isinstance(v, (int, np.integer)):
        return z3.IntVal(int(v))
    if isinstance(v, (float, np.floating)) and float(v).is_integer():
        return z3.IntVal(int(v))
    raise Unsupported(f'int from {type(v).__name__}')


def zb(v):
    """as z3 Bool (truth of a scalar)"""
    if isinstance(v, z3.BoolRef):
        return v
    if isinstance(v, Sym):
        if v.s == 'b':
            return v.e
        if v.s == 'i':
            return v.e != 0
        if v.s == 'f':
            if v.k is None:
                return v.e != 0
            return z3.Or(v.k != FIN, v.e != 0)
        raise Unsupported('truth of string')
    if v is None:
        return z3.BoolVal(False)
    return z3.BoolVal(bool(v))


def fl(v):
    """as (real expr, kind or None)"""
    if isinstance(v, Sym):
        if v.s == 'f':
            return v.e, v.k
        if v.s == 'i':
            return z3.ToReal(v.e), None
        if v.s == 'b':
            return z3.If(v.e, z3.RealVal(1), z3.RealVal(0)), None
        raise Unsupported('float of string')
    if isinstance(v, z3.ExprRef):
        return (z3.ToReal(v) if v.sort() == I_ else v), None
    v = float(v) if isinstance(v, (np.floating,)) else v
    if isinstance(v, float):
        if math.isnan(v):
            return z3.RealVal(0), z3.IntVal(NAN)
        if math.isinf(v):
            return z3.RealVal(0), z3.IntVal(PINF if v > 0 else NINF)
    if isinstance(v, (bool, np.bool_)):
        v = int(v)
    if not isinstance(v, (int, float, np.integer)):
        raise Unsupported(f'float from {type(v).__name__}')
    return RV(int(v) if isinstance(v, np.integer) else v), None


def kz(k):
    return z3.IntVal(FIN) if k is None else k


def mkf(e, k=None):
    if k is not None:
        k = simp(k)
        if z3.is_int_value(k) and k.as_long() == FIN:
            k = None
    return Sym('f', e, k)


def fin(v):
    """z3 Bool: v is finite"""
    _, k = fl(v)
    return z3.BoolVal(True) if k is None else k == FIN


def ite(c, a, b):
    c = c if isinstance(c, z3.BoolRef) else zb(c)
    c = simp(c)
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a is b:
        return a
    if isinstance(a, Str) or isinstance(b, Str) or isinstance(a, str):
        if isinstance(a, str) and isinstance(b, str) and a == b:
            return a
        return Str()
    sa, sb = sort_of(a), sort_of(b)
    if sa == sb == 'b':
        return mk(z3.If(c, zb(a), zb(b)))
    if sa in 'ib' and sb in 'ib':
        return mk(z3.If(c, zi(a), zi(b)))
    (x, kx), (y, ky) = fl(a), fl(b)
    k = None if kx is None and ky is None else z3.If(c, kz(kx), kz(ky))
    return mkf(z3.If(c, x, y) if not x.eq(y) else x, k)


class Str:
    """an opaque string"""
    def __init__(self, tag='?'):
        self.tag = tag

    def __repr__(self):
        return f'Str({self.tag})'


# ---------------------------------------------------------------- arithmetic
def both_int(a, b):
    return sort_of(a) in 'ib' and sort_of(b) in 'ib'


def concrete(*vs):
    return not any(isinstance(v, (Sym, Arr)) for v in vs)


def add(a, b):
    if concrete(a, b):
        return a + b
    if sort_of(a) == 'b' and sort_of(b) == 'b':
        return mk(simp(z3.Or(zb(a), zb(b))))      # numpy booleans: + is logical or
    if both_int(a, b):
        return mk(zi(a) + zi(b))
    (x, kx), (y, ky) = fl(a), fl(b)
    if kx is None and ky is None:
        return mkf(x + y)
    kx, ky = kz(kx), kz(ky)
    k = z3.If(z3.Or(kx == NAN, ky == NAN), NAN, z3.If(kx == FIN, ky, z3.If(ky == FIN, kx, z3.If(kx == ky, kx, NAN))))
    return mkf(x + y, k)


def neg(a):
    if concrete(a):
        return -a
    if sort_of(a) in 'ib':
        return mk(-zi(a))
    x, k = fl(a)
    if k is None:
        return mkf(-x)
    return mkf(-x, z3.If(k == PINF, NINF, z3.If(k == NINF, PINF, k)))


def sub(a, b):
    if concrete(a, b):
        return a - b
    if both_int(a, b):
        return mk(zi(a) - zi(b))
    (x, kx), (y, ky) = fl(a), fl(b)
    if kx is None and ky is None:
        return mkf(x - y)
    return add(a, neg(b if sort_of(b) == 'f' else mkf(y)))


def _sgnk(x, k):
    """(positive, negative, zero) of an extended real"""
    if k is None:
        return x > 0, x < 0, x == 0
    return (z3.Or(k == PINF, z3.And(k == FIN, x > 0)), z3.Or(k == NINF, z3.And(k == FIN, x < 0)),
            z3.And(k == FIN, x == 0))


def mul(a, b):
    if concrete(a, b):
        return a * b
    if both_int(a, b):
        return mk(zi(a) * zi(b))
    (x, kx), (y, ky) = fl(a), fl(b)
    if kx is None and ky is None:
        if z3.is_rational_value(x) and x.as_fraction() == 1:
            return mkf(y)
        if z3.is_rational_value(y) and y.as_fraction() == 1:
            return mkf(x)
        return mkf(x * y)
    px, nx, zx = _sgnk(x, kx)
    py, ny, zy = _sgnk(y, ky)
    kx, ky = kz(kx), kz(ky)
    anyinf = z3.Or(kx >= PINF, ky >= PINF)
    k = z3.If(z3.Or(kx == NAN, ky == NAN), NAN, z3.If(anyinf, z3.If(z3.Or(zx, zy), NAN,
              z3.If(z3.Or(z3.And(px, py), z3.And(nx, ny)), PINF, NINF)), FIN))
    return mkf(x * y, k)


def div(a, b):
    """numpy / pandas semantics: x/0 is inf or nan (python floats raise; callers of interest use arrays)"""
    if concrete(a, b):
        with np.errstate(all='ignore'):
            return float(np.float64(a) / np.float64(b))
    (x, kx), (y, ky) = fl(a), fl(b)
    if z3.is_rational_value(y) and ky is None and y.as_fraction() != 0:
        if kx is None:
            return mkf(x / y)
        return mul(a, mkf(RV(1 / y.as_fraction())))
    px, nx, zx = _sgnk(x, kx)
    if ky is None and kx is None:
        # note: the sign of a zero divisor is not modelled (+0 assumed), only finiteness matters to the contracts
        k = z3.If(y == 0, z3.If(zx, NAN, z3.If(px, PINF, NINF)), FIN)
        return mkf(x / y, k)
    py, ny, zy = _sgnk(y, ky)
    kx, ky = kz(kx), kz(ky)
    k = z3.If(z3.Or(kx == NAN, ky == NAN, z3.And(kx >= PINF, ky >= PINF)), NAN,
        z3.If(ky >= PINF, FIN,
        z3.If(zy, z3.If(zx, NAN, z3.If(px, PINF, NINF)),
        z3.If(kx >= PINF, z3.If(z3.Or(z3.And(px, py), z3.And(nx, ny)), PINF, NINF), FIN))))
    return mkf(z3.If(ky >= PINF, z3.RealVal(0), x / y), k)


def floordiv(a, b):
    if concrete(a, b):
        return a // b
    if both_int(a, b):
        if not (isinstance(b, int) and b > 0):
            raise Unsupported('floor division by a non-literal')
        return mk(zi(a) / zi(b))
    raise Unsupported('float floor division')


def mod(a, b):
    if concrete(a, b):
        return a % b
    if both_int(a, b):
        if isinstance(b, int) and b > 0:
            return mk(zi(a) % zi(b))
        CTX.oblige_safe('modulo by a positive number', zi(b) > 0)
        return mk(zi(a) % zi(b))
    raise Unsupported('float modulo')


_SQRT = z3.Function('f.sqrt', R_, R_)
_EXP = z3.Function('f.exp', R_, R_)
_LOG = z3.Function('f.log', R_, R_)
_POW = z3.Function('f.pow', R_, R_, R_)


def sqrt(a):
    if concrete(a):
        with np.errstate(all='ignore'):
            r = float(np.sqrt(a))
        if r.is_integer() or r != r:
            return r
    x, k = fl(a)
    x = simp(x)
    s = _SQRT(x)
    CTX.fact(z3.Implies(x >= 0, z3.And(s >= 0, s * s == x)))
    kk = z3.If(x < 0, NAN, FIN) if k is None else z3.If(k == FIN, z3.If(x < 0, NAN, FIN), z3.If(k == NINF, NAN, k))
    if k is None and CTX.quick(x >= 0):
        kk = None
    return mkf(s, kk)


def exp(a):
    if concrete(a):
        if a == 0:
            return 1.0
    x, k = fl(a)
    x = simp(x)
    s = _EXP(x)
    CTX.fact(s > 0)
    CTX.fact(z3.And((s > 1) == (x > 0), (s == 1) == (x == 0)))
    CTX.fact(_LOG(s) == x)
    if k is None:
        return mkf(s)
    return mkf(z3.If(k == NINF, z3.RealVal(0), s), z3.If(k == NINF, FIN, k))


def log(a):
    if concrete(a) and a == 1:
        return 0.0
    x, k = fl(a)
    x = simp(x)
    s = _LOG(x)
    CTX.fact(z3.Implies(x > 0, z3.And((s > 0) == (x > 1), (s == 0) == (x == 1), _EXP(s) == x)))
    kk = z3.If(x < 0, NAN, z3.If(x == 0, NINF, FIN))
    if k is None:
        return mkf(s, None if CTX.quick(x > 0) else kk)
    return mkf(s, z3.If(k == FIN, kk, z3.If(k == NINF, NAN, k)))


def power(a, b):
    if concrete(a, b):
        if isinstance(b, float) and b == 0.5:
            return sqrt(a)
        return a ** b
    if isinstance(b, (int, float)) and not isinstance(b, bool):
        if b == 0.5:
            return sqrt(a)
        if float(b).is_integer() and 0 <= b <= 4:
            n = int(b)
            r = a if sort_of(a) != 'b' else ite(zb(a), 1, 0)
            if n == 0:
                return 1 if sort_of(a) in 'ib' else 1.0
            for _ in range(n - 1):
                r = mul(r, a)
            return r
        if float(b).is_integer() and -4 <= b < 0:
            return div(1.0, power(a, -int(b)))
    (x, kx), (y, ky) = fl(a), fl(b)
    x, y = simp(x), simp(y)
    s = _POW(x, y)
    CTX.fact(z3.Implies(x > 0, s > 0))
    return mkf(s, kx if ky is None else z3.If(ky == FIN, kz(kx), NAN))


def absv(a):
    if concrete(a):
        return abs(a)
    if sort_of(a) in 'ib':
        e = zi(a)
        return mk(z3.If(e >= 0, e, -e))
    x, k = fl(a)
    r = z3.If(x >= 0, x, -x)
    return mkf(r, None if k is None else z3.If(k == NINF, PINF, k))


def cmp(op, a, b):
    if a is None or b is None:
        if op == '==':
            return a is b
        if op == '!=':
            return a is not b
        raise PyRaise(TypeError, ('comparison with None',))
    if concrete(a, b):
        return {'<': lambda: a < b, '<=': lambda: a <= b, '>': lambda: a > b, '>=': lambda: a >= b,
                '==': lambda: a == b, '!=': lambda: a != b}[op]()
    if sort_of(a) == 'b' and sort_of(b) == 'b' and op in ('==', '!='):
        e = zb(a) == zb(b)
        return mk(e if op == '==' else z3.Not(e))
    if both_int(a, b):
        x, y = zi(a), zi(b)
        return mk({'<': lambda: x < y, '<=': lambda: x <= y, '>': lambda: x > y, '>=': lambda: x >= y,
                   '==': lambda: x == y, '!=': lambda: x != y}[op]())
    (x, kx), (y, ky) = fl(a), fl(b)
    if kx is None and ky is None:
        return mk({'<': lambda: x < y, '<=': lambda: x <= y, '>': lambda: x > y, '>=': lambda: x >= y,
                   '==': lambda: x == y, '!=': lambda: x != y}[op]())
    kx, ky = kz(kx), kz(ky)
    nan = z3.Or(kx == NAN, ky == NAN)
    lt = z3.Or(z3.And(kx == FIN, ky == FIN, x < y), z3.And(kx == NINF, ky != NINF), z3.And(ky == PINF, kx != PINF))
    eq = z3.And(kx == ky, z3.Implies(kx == FIN, x == y))
    if op == '==':
        return mk(z3.And(z3.Not(nan), eq))
    if op == '!=':
        return mk(z3.Or(nan, z3.Not(eq)))
    if op == '<':
        return mk(z3.And(z3.Not(nan), lt))
    if op == '<=':
        return mk(z3.And(z3.Not(nan), z3.Or(lt, eq)))
    if op == '>':
        return mk(z3.And(z3.Not(nan), z3.Not(lt), z3.Not(eq)))
    return mk(z3.And(z3.Not(nan), z3.Not(lt)))


def same(a, b):
    """identical value, NaN equal to NaN (for contracts)"""
    if sort_of(a) == 'f' or sort_of(b) == 'f':
        (x, kx), (y, ky) = fl(a), fl(b)
        if kx is None and ky is None:
            return x == y
        kx, ky = kz(kx), kz(ky)
        return z3.And(kx == ky, z3.Implies(kx == FIN, x == y))
    if sort_of(a) == 'b' and sort_of(b) == 'b':
        return zb(a) == zb(b)
    return zi(a) == zi(b)


def not_(a):
    return mk(z3.Not(zb(a)))


def isnan(a):
    if concrete(a):
        return a != a
    _, k = fl(a)
    return False if k is None else mk(k == NAN)


def isinf(a):
    if concrete(a):
        return math.isinf(a)
    _, k = fl(a)
    return False if k is None else mk(k >= PINF)


def maxv(a, b):
    if concrete(a, b):
        return max(a, b)
    return ite(zb(cmp('>', b, a)), b, a)


def minv(a, b):
    if concrete(a, b):
        return min(a, b)
    return ite(zb(cmp('<', b, a)), b, a)


# ---------------------------------------------------------------- arrays
def dim(n):
    """normalise a dimension to int or z3 Int"""
    if isinstance(n, Sym):
        e = simp(n.e)
        return e.as_long() if z3.is_int_value(e) else e
    if isinstance(n, z3.ExprRef):
        e = simp(n)
        return e.as_long() if z3.is_int_value(e) else e
    return int(n)


def dz(d):
    return d if isinstance(d, z3.ExprRef) else z3.IntVal(d)


def dv(d):
    return mk(d) if isinstance(d, z3.ExprRef) else d


def dim_eq(a, b):
    """are two dimensions equal? decided by the context"""
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    e = simp(dz(a) == dz(b))
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return CTX.valid(e)


class Arr:
    """an ndarray / numeric list of symbolic shape. fn: tuple of z3 Int -> scalar. Views share `base`."""
    def __init__(self, shape, dtype, fn, islist=False, tag=None):
        self.shape = tuple(dim(d) for d in shape)
        self.dtype = dtype            # 'f','i','b'
        self._fn = fn
        self.base = None              # for views
        self.vmap = None
        self.islist = islist
        self.tag = tag or {}
        self.ident = next(_ids)
        self.writes = 0

    @property
    def ndim(self):
        return len(self.shape)

    def root(self):
        a = self
        while a.base is not None:
            a = a.base
        return a

    # vmap: list over base dims of ('fix', z3) | ('dim', d, off, step)   with step in (1,-1)
    def _tobase(self, idx):
        out = []
        for m in self.vmap:
            if m[0] == 'fix':
                out.append(m[1])
            else:
                _, d, off, step = m
                out.append(simp(off + idx[d]) if step == 1 else simp(off - idx[d]))
        return tuple(out)

    def fn(self, idx):
        if self.base is not None:
            return self.base.fn(self._tobase(idx))
        CTX.log_read(self, idx)
        return self._fn(idx)

    def at(self, *idx):
        return self.fn(tuple(dz(dim(i)) if not isinstance(i, z3.ExprRef) else i for i in idx))

    def snap(self):
        """current contents as a closure that later writes do not affect"""
        if self.base is not None:
            b = self.base.snap()
            return lambda idx: b(self._tobase(idx))
        f = self._fn
        if CTX.loop_logs:
            me = self
            log = CTX.loop_logs

            def g(idx):
                CTX.log_read(me, idx)
                return f(idx)
            return g
        return f

    def view(self, shape, vmap):
        v = Arr(shape, self.dtype, None)
        v.base, v.vmap = self, vmap
        return v

    def copy(self):
        return Arr(self.shape, self.dtype, self.snap(), self.islist, dict(self.tag))

    def write(self, guard, val):
        """for all idx with guard(idx): self[idx] := val(idx)"""
        if self.base is not None:
            vm = self.vmap
            nd = self.ndim
            shape = self.shape

            def inv(bidx):
                conds, vi = [], [None] * nd
                for m, b in zip(vm, bidx):
                    if m[0] == 'fix':
                        conds.append(b == m[1])
                    else:
                        _, d, off, step = m
                        e = simp(b - off) if step == 1 else simp(off - b)
                        vi[d] = e
                        if not (z3.is_int_value(off) and off.as_long() == 0 and step == 1):
                            conds.append(e >= 0)
                        conds.append(e < dz(shape[d]))
                return conds, tuple(vi)

            def g(bidx):
                c, vi = inv(bidx)
                return z3.And(*c, guard(vi))

            def v(bidx):
                return val(inv(bidx)[1])
            self.base.write(g, v)
            return
        if CTX.loop_logs:
            CTX.loop_logs[-1].write(self, guard, val)
        extra = CTX.guard()
        old = self._fn
        dt = self.dtype

        def new(idx):
            g = guard(idx)
            if extra is not None:
                g = z3.And(extra, g)
            g = simp(g)
            if z3.is_true(g):
                return cast(val(idx), dt)
            if z3.is_false(g):
                return old(idx)
            return ite(g, cast(val(idx), dt), old(idx))
        self._fn = new
        self.writes += 1
        self.tag = {}


_ids = itertools.count()


def cast(v, dt):
    s = sort_of(v)
    if dt == s:
        return v
    if dt == 'f':
        e, k = fl(v)
        return mkf(e, k)
    if dt == 'i':
        if s == 'b':
            return mk(zi(v))
        if isinstance(v, (float, np.floating)):
            return int(v)
        e, k = fl(v)
        if z3.is_app_of(e, z3.Z3_OP_TO_REAL):
            return mk(e.arg(0))
        # truncation toward zero
        return mk(z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e)))
    if dt == 'b':
        return mk(zb(v))
    raise Unsupported('cast ' + dt)


def in_range(idx, shape):
    c = []
    for i, d in zip(idx, shape):
        c += [i >= 0, i < dz(d)]
    return z3.And(*c) if c else z3.BoolVal(True)


class SList:
    """a python list of symbolic length holding arbitrary values"""
    def __init__(self, n, fn):
        self.n, self.fn = dim(n), fn


# ---------------------------------------------------------------- proof context
class Obligation:
    def __init__(self, name, func, kind='post'):
        self.name, self.func, self.kind = name, func, kind
        self.status, self.time, self.backend, self.model, self.path, self.reason = None, 0.0, None, None, '', ''

    def to_json(self):
        return dict(name=self.name, function=self.func, kind=self.kind, status=self.status,
                    seconds=round(self.time, 3), backend=self.backend, path=self.path, reason=self.reason)


class Counter:
    """numbers of fresh symbols; a symbol's name ends in its number"""
    def __init__(self):
        self.n = 0

    def __next__(self):
        self.n += 1
        return self.n - 1


NUM = re.compile(r'!(\d+)\^*$')


class Generic:
    """the symbols made while a loop body ran for a generic index i (numbers k0..k1-1) stand for one value per iteration:
    before i is replaced by an index they become functions of i"""
    def __init__(self, i, k0):
        self.i, self.k0, self.k1 = i, k0, None
        self.made, self.memo, self.keep, self.lifted = {}, {}, [], set()

    def close(self):
        self.k1 = CTX.fresh_n.n

    def local(self, d):
        if d.kind() != z3.Z3_OP_UNINTERPRETED:
            return False
        n = d.name()
        if n in self.lifted:
            return False
        m = NUM.search(n)
        return m is not None and self.k0 <= int(m.group(1)) < self.k1

    def lift(self, e):
        if self.k1 is None or self.k1 == self.k0:
            return e
        key = e.get_id()
        r = self.memo.get(key)
        if r is None:
            r = self._lift(e)
            self.memo[key] = r
            self.keep.append(e)
        return r

    def _lift(self, e):
        if z3.is_quantifier(e):
            vs = [z3.Const(f'{e.var_name(j)}~{next(CTX.fresh_n)}', e.var_sort(j)) for j in range(e.num_vars())]
            rv = list(reversed(vs))
            b0 = z3.substitute_vars(e.body(), *rv)
            b = self.lift(b0)
            if b.eq(b0):
                return e
            pats = []
            for j in range(e.num_patterns()):
                pt = e.pattern(j)
                ts = [self.lift(z3.substitute_vars(c, *rv)) for c in pt.children()]
                pats.append(z3.MultiPattern(*ts) if len(ts) > 1 else ts[0])
            return (z3.ForAll if e.is_forall() else z3.Exists)(vs, b, patterns=pats)
        if not z3.is_app(e):
            return e
        ch = [self.lift(c) for c in e.children()]
        d = e.decl()
        if self.local(d):
            f = self.made.get(d.name())
            if f is None:
                nm = d.name() + '^'
                f = z3.Function(nm, I_, *[d.domain(j) for j in range(d.arity())], d.range())
                self.made[d.name()] = f
                self.lifted.add(nm)
            return f(self.i, *ch)
        if not ch or all(x.eq(y) for x, y in zip(ch, e.children())):
            return e
        return d(*ch)


_MAXNUM = {}


def maxnum(e):
    """the largest number of a fresh symbol in e (-1 if there is none)"""
    k = e.get_id()
    r = _MAXNUM.get(k)
    if r is not None and r[1].eq(e):
        return r[0]
    if z3.is_quantifier(e):
        m = maxnum(e.body())
    elif z3.is_app(e):
        m = max([maxnum(c) for c in e.children()], default=-1)
        d = e.decl()
        if d.kind() == z3.Z3_OP_UNINTERPRETED:
            q = NUM.search(d.name())
            if q is not None:
                m = max(m, int(q.group(1)))
    else:
        m = -1
    _MAXNUM[k] = (m, e)
    return m


def exprs_of(v):
    if isinstance(v, Sym):
        return [v.e] + ([v.k] if v.k is not None else [])
    if isinstance(v, z3.ExprRef):
        return [v]
    if isinstance(v, (list, tuple)):
        return [x for y in v for x in exprs_of(y)]
    return []


def bound(thunk):
    """(value, facts) of an evaluation at constants that are going to be bound by a quantifier; symbols made inside would have to
    depend on them, which is not supported"""
    k0, a0 = CTX.fresh_n.n, len(CTX.axioms)
    cap, CTX.capture = CTX.capture, []
    try:
        v = thunk()
        extra = CTX.capture
    finally:
        CTX.capture = cap
    if CTX.fresh_n.n > k0 and (len(CTX.axioms) > a0 or any(maxnum(e) >= k0 for e in exprs_of(v) + extra)):
        raise Unsupported('a symbol that depends on a bound index %s' % ([e for e in exprs_of(v) + extra + CTX.axioms[a0:] if maxnum(e) >= k0][:1],))
    return v, extra


class LoopLog:
    def __init__(self, depth):
        self.reads, self.writes, self.depth = [], [], depth

    def write(self, arr, guard, val):
        self.writes.append((arr, guard, val, CTX.guard()))


class Ctx:
    """one verification task (a function under contract); explores all paths by re-execution"""
    def __init__(self, func, timeout_ms=8000, budget_s=300):
        self.func = func
        self.timeout_ms = timeout_ms
        self.t0 = time.time()
        self.budget_s = budget_s
        self.obligations = []
        self.trusted = set()
        self.inlined = set()
        self.solver_time = 0.0
        self.queries = 0
        self.reset([])
        self.paths = 0
        self.notes = []
        self.max_paths = 400
        self.pinned = None
        self.covered = 0

    # ---- path management
    def reset(self, script):
        self.script = list(script)
        self.pos = 0
        self.pc = []
        self.facts = []
        self._factset = set()
        self.axioms = []
        self.guards = []
        self.loop_logs = []
        self.fresh_n = Counter()
        self.generic = {}
        self.inputs = {}
        self.capture = None
        self.pending = []
        self._vcache = {}
        self.sels = []
        self.mats = {}
        self.outputs = {}
        self.recurrences = []
        self._sizes = []

    def explore(self, run):
        """run() once per feasible path"""
        global CTX
        old = CTX
        CTX = self
        _set(self)
        try:
            work = [[]]
            while work:
                script = work.pop()
                self.reset(script)
                try:
                    self.paths += 1
                    if self.paths > self.max_paths:
                        raise Unsupported('too many paths')
                    run()
                except Infeasible:
                    pass
                work.extend(self.pending)
        finally:
            CTX = old
            _set(old)

    def decide(self, cond, label=''):
        """fork on a z3 Bool"""
        cond = simp(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.guards or self.loop_logs or self.capture is not None:
            if self.valid(cond):
                return True
            if self.valid(z3.Not(cond)):
                return False
            raise Unsupported('data-dependent branch on a symbolic element ' + label)
        if self.pos < len(self.script):
            v = self.script[self.pos]
            self.pos += 1
            self.pc.append(cond if v else z3.Not(cond))
            return v
        # cheap first: one side refuted without the quantified facts
        if self._ground_unsat(z3.Not(cond)):
            t, f = True, False
        elif self._ground_unsat(cond):
            t, f = False, True
        else:
            t = self.sat(cond)
            f = self.sat(z3.Not(cond))
        if not t and not f:
            raise Infeasible()
        if t and f:
            self.pending.append(self.script[:self.pos] + [False])
            v = True
        else:
            v = t
        self.script = self.script[:self.pos] + [v]
        self.pos += 1
        self.pc.append(cond if v else z3.Not(cond))
        return v

    def _ground_unsat(self, e):
        s = z3.Solver()
        s.set('timeout', 400)
        for h in self.pc + self.facts + self.guards:
            if not has_quant(h):
                s.add(h)
        s.add(e)
        t = time.time()
        r = s.check()
        self.solver_time += time.time() - t
        return r == z3.unsat

    def fork(self, label=''):
        """both ways, nondeterministically"""
        b = z3.Bool(f'choice!{label}!{next(self.fresh_n)}')
        if self.guards or self.loop_logs or self.capture is not None:
            raise Unsupported('nondeterministic outcome in a symbolic body ' + label)
        if self.pos < len(self.script):
            v = self.script[self.pos]
        else:
            self.pending.append(self.script[:self.pos] + [False])
            v = True
            self.script = self.script[:self.pos] + [v]
        self.pos += 1
        self.pc.append(b if v else z3.Not(b))
        return v

    def choose(self, n, label=''):
        """fork n ways nondeterministically"""
        for i in range(n - 1):
            if self.fork(label):
                return i
        return n - 1

    def path_name(self):
        return ''.join('T' if b else 'F' for b in self.script[:self.pos])

    # ---- names
    def fresh(self, name, sort):
        return z3.Const(f'{name}!{next(self.fresh_n)}', sort)

    def fresh_fn(self, name, *sorts):
        return z3.Function(f'{name}!{next(self.fresh_n)}', *sorts)

    # ---- facts
    def fact(self, e):
        if self.capture is not None:
            self.capture.append(e)
            return
        i = e.get_id()
        if i not in self._factset:
            self._factset.add(i)
            self.facts.append(e)

    def assume(self, e):
        """assumption of a contract / modelled library guarantee on this path"""
        self.fact(zb(e))

    def guard(self):
        if not self.guards:
            return None
        return z3.And(*self.guards) if len(self.guards) > 1 else self.guards[0]

    def forall(self, n, body, hint=None, name='q'):
        """quantified fact: for all 0<=i<n body(i)"""
        i = z3.Int(f'{name}!{next(self.fresh_n)}')
        b, extra = bound(lambda: body(i))
        q = z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < dz(n)), z3.And(b, *extra) if extra else b))
        if self.capture is not None:
            self.capture.append(q)
        else:
            self.axioms.append(q)

    def log_read(self, arr, idx):
        for lg in self.loop_logs:
            lg.reads.append((arr, idx))

    # ---- solving
    def hyps(self):
        return self.pc + self.facts + self.axioms + self.guards

    def _solve(self, extra, timeout):
        s = z3.Solver()
        s.set('timeout', timeout)
        for h in self.hyps():
            s.add(h)
        for h in extra:
            s.add(h)
        t = time.time()
        r = s.check()
        self.solver_time += time.time() - t
        self.queries += 1
        if time.time() - self.t0 > self.budget_s:
            raise Unsupported('verification time budget exhausted')
        return r, s

    def sat(self, e):
        r, _ = self._solve([e], 3000)
        return r != z3.unsat

    def valid(self, e, timeout=2000):
        e = simp(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        key = (e.get_id(), len(self.pc), len(self.facts), len(self.guards))
        if key in self._vcache:
            return self._vcache[key][0]
        r, _ = self._solve([z3.Not(e)], timeout)
        self._vcache[key] = (r == z3.unsat, e)
        return r == z3.unsat

    def strong(self, e, timeout=4000):
        """validity with every back end"""
        if self.valid(e, timeout):
            return True
        t = time.time()
        r, _ = second_opinion(self.hyps() + [z3.Not(e)], timeout)
        self.solver_time += time.time() - t
        return r == 'unsat'

    def quick(self, e):
        """cheap validity, used to drop NaN bookkeeping"""
        e = simp(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if self.capture is not None:
            return False
        return self.valid(e, 300)

    def oblige_safe(self, name, e):
        if self.capture is not None:
            return
        self.prove(name, e, kind='safety')

    def prove(self, name, goal, kind='post'):
        ob = Obligation(name, self.func, kind)
        ob.path = self.path_name()
        goal = simp(zb(goal) if not isinstance(goal, z3.BoolRef) else goal)
        t = time.time()
        if z3.is_true(goal):
            ob.status, ob.backend = 'discharged', 'z3-simplify'
        else:
            self._discharge(ob, goal)
        ob.time = time.time() - t
        if kind == 'safety' and ob.status == 'discharged':
            pass
        self.obligations.append(ob)
        return ob

    def prove_by(self, name, hyps, goal):
        """an obligation discharged from a few of the known facts only (each must be one)"""
        for h in hyps:
            if h.get_id() not in self._factset:
                raise Unsupported('prove_by: not a known fact')
        ob = Obligation(name, self.func, 'post')
        ob.path = self.path_name()
        t = time.time()
        s = z3.Solver()
        s.set('timeout', self.timeout_ms)
        s.add(*hyps)
        s.add(z3.Not(goal))
        r = s.check()
        self.solver_time += time.time() - t
        ob.time = time.time() - t
        if r == z3.unsat:
            ob.status, ob.backend = 'discharged', 'z3'
            self.obligations.append(ob)
            return ob
        return self.prove(name, goal)

    def _discharge(self, ob, goal):
        neg = z3.Not(goal)
        first = min(1500, self.timeout_ms)
        r, s = self._solve([neg], first)
        ob.backend = 'z3'
        if r == z3.unsat:
            ob.status = 'discharged'
            return
        if r == z3.unknown and first < self.timeout_ms:
            # before the long attempt: ground instances of the hypotheses
            t = time.time()
            be = ground_attempt(self.hyps() + [neg], 2000)
            self.solver_time += time.time() - t
            if be:
                ob.status, ob.backend = 'discharged', be
                return
            g2 = self.locate(goal)
            if g2 is not None:
                r, s = self._solve([z3.Not(g2)], 3000)
                if r == z3.unsat:
                    ob.status, ob.backend = 'discharged', 'z3-located'
                    return
                be = ground_attempt(self.hyps() + [z3.Not(g2)], 3000)
                if be:
                    ob.status, ob.backend = 'discharged', be + '-located'
                    return
            r, s = self._solve([neg], self.timeout_ms)
            if r == z3.unsat:
                ob.status = 'discharged'
                return
        if r == z3.unknown:
            # second opinion: ackermannised nonlinear query / cvc5
            r2, be = second_opinion(self.hyps() + [neg], self.timeout_ms)
            if r2 == 'unsat':
                ob.status, ob.backend = 'discharged', be
                return
            ob.status, ob.reason = 'unknown', f'z3: {s.reason_unknown()}; {be}: {r2}'
            self.candidate(ob, neg)
            return
        ob.status = 'refuted'
        m = s.model()
        # look for a small model
        small = [z3.And(v <= 3) for v in self.size_vars()]
        if small:
            r3, s3 = self._solve([neg] + small, self.timeout_ms)
            if r3 == z3.sat:
                m = s3.model()
        try:
            ob.model = {k: f(m) for k, f in self.inputs.items()}
        except Exception as ex:       # model not concretisable: the refutation stands, replay uses the generators
            ob.model = None
            ob.reason = f'model not concretised: {ex}'
        ob.reason = ob.reason or 'z3: sat'

    def locate(self, goal):
        """rewrite a goal `premise -> B` with index terms T of B that provably equal a named index (T == s + d) under the premise"""
        if not (z3.is_or(goal) and any(z3.is_not(c) for c in goal.children())):
            return None
        pre = [c.children()[0] for c in goal.children() if z3.is_not(c)]
        post = [c for c in goal.children() if not z3.is_not(c)]
        terms, consts, seen = {}, {}, set()

        def walk(e):
            if e.get_id() in seen or z3.is_quantifier(e):
                return
            seen.add(e.get_id())
            if z3.is_app(e):
                if e.sort() == I_ and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.num_args() > 0:
                    terms[e.get_id()] = e
                for c in e.children():
                    walk(c)
        for e in post:
            walk(e)
        seen.clear()

        def cw(e):
            if e.get_id() in seen:
                return
            seen.add(e.get_id())
            if z3.is_const(e) and e.sort() == I_ and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and '!' in e.decl().name():
                consts[e.get_id()] = e
            for c in e.children():
                cw(c)
        for e in pre:
            cw(e)
        if not terms or not consts:
            return None
        sub = []
        for t in list(terms.values())[:4]:
            for c in list(consts.values())[:3]:
                hit = None
                for d in (0, 1, -1):
                    r, _ = self._solve(pre + [t != c + d], 1000)
                    if r == z3.unsat:
                        hit = c + d
                        break
                if hit is not None:
                    sub.append((t, hit))
                    break
        if not sub:
            return None
        return z3.simplify(z3.Implies(z3.And(*pre), z3.Or(*[z3.substitute(e, *sub) for e in post]) if post else z3.BoolVal(False)))

    def candidate(self, ob, neg):
        """undecided obligation: a candidate failing input from finitely many instances of the quantified hypotheses (for replay only)"""
        if self.pinned is not None:
            return
        ground = []
        for h in self.hyps() + [neg]:
            ground += instances(h, 4)
        for bound in (2, 3):
            s = z3.Solver()
            s.set('timeout', 4000)
            s.add(*ground)
            s.add(*[v <= bound for v in self.size_vars()])
            t = time.time()
            r = s.check()
            self.solver_time += time.time() - t
            if r == z3.sat:
                m = s.model()
                try:
                    ob.model = {k: f(m) for k, f in self.inputs.items()}
                    ob.reason += '; candidate input from a finite instance'
                except Exception as ex:
                    ob.reason += f'; candidate not concretised: {ex}'
                return

    def size_vars(self):
        return getattr(self, '_sizes', [])

    # ---- inputs of the contract
    def in_int(self, name, lo=None, hi=None, size=False):
        v = z3.Int(name)
        self.pin_fact(name, lambda c: v == int(c))
        if lo is not None:
            self.fact(v >= lo)
        if hi is not None:
            self.fact(v <= hi)
        if size:
            self._sizes = [x for x in getattr(self, '_sizes', []) if not x.eq(v)] + [v]
        self.inputs[name] = lambda m: m.eval(v, model_completion=True).as_long()
        return mk(v)

    def in_float(self, name, nonfinite=False):
        v = z3.Real(name)
        k = None
        if nonfinite:
            k = z3.Int(name + '.kind')
            self.fact(z3.And(k >= 0, k <= 3))
        self.pin_fact(name, lambda c: self.pin_scalar(Sym('f', v, k), c))
        self.inputs[name] = lambda m: conc_f(m, Sym('f', v, k))
        return Sym('f', v, k)

    def in_bool(self, name):
        v = z3.Bool(name)
        self.pin_fact(name, lambda c: v == bool(c))
        self.inputs[name] = lambda m: z3.is_true(m.eval(v, model_completion=True))
        return mk(v)

    def in_arr(self, name, shape, dtype='f', nonfinite=False, islist=False):
        shape = tuple(dim(d) for d in shape)
        sorts = [I_] * len(shape)
        f = z3.Function(name, *sorts, {'f': R_, 'i': I_, 'b': B_}[dtype])
        kf = z3.Function(name + '.kind', *sorts, I_) if nonfinite else None

        def fn(idx):
            if dtype == 'f':
                if kf is not None:
                    kk = kf(*idx)
                    self.fact(z3.And(kk >= 0, kk <= 3))
                    return Sym('f', f(*idx), kk)
                return Sym('f', f(*idx))
            return mk(f(*idx))
        a = Arr(shape, dtype, fn, islist)

        def conc(m):
            sh = [m.eval(dz(d), model_completion=True).as_long() for d in shape]
            if any(s > 60 for s in sh):
                raise ValueError('model too large')
            out = np.zeros(sh, dtype={'f': float, 'i': int, 'b': bool}[dtype])
            for ix in itertools.product(*[range(s) for s in sh]):
                v = fn(tuple(z3.IntVal(i) for i in ix))
                out[ix] = conc_scalar(m, v)
            return out
        self.inputs[name] = conc
        a.tag['input'] = name
        if self.pinned is not None and name in self.pinned:
            arr = np.asarray(self.pinned[name])
            for ix in np.ndindex(*arr.shape):
                self.fact(self.pin_scalar(fn(tuple(z3.IntVal(i) for i in ix)), arr[ix].item()))
        return a

    def pin_fact(self, name, f):
        if self.pinned is not None and name in self.pinned:
            self.fact(f(self.pinned[name]))

    def pin_scalar(self, v, c):
        x, k = fl(c) if isinstance(c, float) else (None, None)
        if isinstance(c, float):
            if k is not None:
                return kz(v.k) == k if v.k is not None else z3.BoolVal(False)
            return z3.And(v.e == x, v.k == FIN) if v.k is not None else v.e == x
        return same(v, c)

    def result(self, name, v):
        """expose an output for the CPython cross-check"""
        self.outputs[name] = v


def instances(h, n):
    """ground instances (indices -1..n) of the universally quantified integer variables of a hypothesis"""
    if z3.is_and(h):
        return [x for c in h.children() for x in instances(c, n)]
    if not (z3.is_quantifier(h) and h.is_forall()):
        return [] if has_quant(h) else [h]
    nv = h.num_vars()
    if any(h.var_sort(i) != I_ for i in range(nv)) or nv > 3:
        return []
    out = []
    for vals in itertools.product(range(-1, n + 1), repeat=nv):
        b = z3.substitute_vars(h.body(), *[z3.IntVal(v) for v in reversed(vals)])
        b = z3.simplify(b)
        if z3.is_true(b):
            continue
        out += instances(b, n)
    return out


def index_terms(e):
    out, seen, st = {}, set(), [e]
    while st:
        x = st.pop()
        if x.get_id() in seen or z3.is_quantifier(x):
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            for c in x.children():
                if c.sort() == I_:
                    out[c.get_id()] = c
        st.extend(x.children())
    return list(out.values())


def ground_at(assertions):
    terms = index_terms(assertions[-1])
    if not terms or len(terms) > 12:
        return None
    if not any(z3.is_quantifier(a) for a in assertions):
        return None
    out = []
    for h in assertions:
        st = [h]
        while st:
            a = st.pop()
            if z3.is_and(a):
                st.extend(a.children())
            elif z3.is_quantifier(a) and a.is_forall():
                nv = a.num_vars()
                if any(a.var_sort(i) != I_ for i in range(nv)) or len(terms) ** nv > 40:
                    continue
                for vals in itertools.product(terms, repeat=nv):
                    b = z3.simplify(z3.substitute_vars(a.body(), *vals))
                    if not has_quant(b) and not z3.is_true(b):
                        out.append(b)
            elif not has_quant(a):
                out.append(a)
    return out


def has_quant(e):
    st, seen = [e], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        st.extend(x.children())
    return False


def conc_f(m, v):
    if v.k is not None:
        k = m.eval(v.k, model_completion=True).as_long()
        if k == NAN:
            return float('nan')
        if k == PINF:
            return float('inf')
        if k == NINF:
            return float('-inf')
    x = m.eval(v.e, model_completion=True)
    if z3.is_rational_value(x):
        return float(x.as_fraction())
    if z3.is_algebraic_value(x):
        return float(x.approx(20).as_fraction())
    raise ValueError('not a value: %s' % x)


def conc_scalar(m, v):
    if not isinstance(v, Sym):
        return v
    if v.s == 'f':
        return conc_f(m, v)
    if v.s == 'i':
        return m.eval(v.e, model_completion=True).as_long()
    return z3.is_true(m.eval(v.e, model_completion=True))


def ground_attempt(assertions, timeout_ms):
    """instances of the hypotheses at the index terms of the goal (a subset of what they say: sound for unsat)"""
    try:
        g = ground_at(assertions)
        if g is not None:
            t = z3.Solver()
            t.set('timeout', timeout_ms // 2)
            t.add(*g)
            if t.check() == z3.unsat:
                return 'z3-ground'
            if _nlsat(g, timeout_ms // 2) == 'unsat':
                return 'z3-ground-nlsat'
    except z3.Z3Exception:
        pass
    return None


def second_opinion(assertions, timeout_ms):
    import subprocess, tempfile, os
    s = z3.Solver()
    for a in assertions:
        s.add(a)
    # 0) ground instances at the index terms of the goal
    be = ground_attempt(assertions, timeout_ms)
    if be:
        return 'unsat', be
    # 1) z3 nlsat on the quantifier-free part, uninterpreted applications abstracted by constants (sound for unsat)
    try:
        qf = [a for a in assertions if not z3.is_quantifier(a)]
        r = _nlsat(qf, timeout_ms)
        if r == 'unsat':
            return 'unsat', 'z3-nlsat'
    except z3.Z3Exception as ex:
        r = str(ex)
    try:
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write('(set-logic ALL)\n' + s.sexpr() + '\n(check-sat)\n')
        p = subprocess.run(['cvc5', f'--tlimit={timeout_ms}', '--nl-ext-tplanes', f.name], capture_output=True,
                           text=True, timeout=timeout_ms / 1000 + 5)
        os.unlink(f.name)
        o = p.stdout.strip().splitlines()
        return (o[-1] if o else 'error'), 'cvc5'
    except Exception as ex:
        return f'error {type(ex).__name__}', 'cvc5'


def _nlsat(assertions, timeout_ms):
    """replace uninterpreted applications by constants with pairwise congruence, then nlsat"""
    table = {}
    cache = {}

    def walk(e):
        i = e.get_id()
        if i in cache:
            return cache[i][1]
        if z3.is_quantifier(e):
            raise z3.Z3Exception('quantifier')
        ch = [walk(c) for c in e.children()]
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.num_args() > 0:
            key = (e.decl().name(), tuple(c.get_id() for c in ch))
            if key not in table:
                table[key] = (z3.Const(f'ack!{len(table)}', e.sort()), e.decl().name(), ch)
            r = table[key][0]
        elif ch:
            r = e.decl()(*ch) if e.decl().kind() not in (z3.Z3_OP_AND, z3.Z3_OP_OR) else \
                (z3.And(*ch) if e.decl().kind() == z3.Z3_OP_AND else z3.Or(*ch))
        else:
            r = e
        cache[i] = (e, r)
        return r
    out = [walk(a) for a in assertions]
    items = list(table.values())
    for (c1, d1, a1), (c2, d2, a2) in itertools.combinations(items, 2):
        if d1 == d2 and len(a1) == len(a2):
            out.append(z3.Implies(z3.And(*[x == y for x, y in zip(a1, a2)]), c1 == c2))
    t = z3.Then('simplify', 'purify-arith', 'propagate-values', 'solve-eqs', 'smt')
    s = t.solver()
    s.set('timeout', timeout_ms)
    s.add(*out)
    r = s.check()
    return str(r)


class _NoCtx:
    loop_logs = ()
    capture = None

    def log_read(self, *a):
        pass


CTX = _NoCtx()
_users = []


def _set(c):
    for u in _users:
        u.CTX = c


def register(mod):
    _users.append(mod)
