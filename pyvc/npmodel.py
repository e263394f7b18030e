"""Trusted models of the numpy / builtin operations the repository uses, over symbolic arrays."""
import ast, builtins, math, warnings
import z3
import numpy as np
from . import core as K, interp as I
from .core import Arr, Sym, SList, Str, Unsupported, PyRaise, mk, zi, zb, dz, dim, dv, simp
from .interp import model, Model, IterSpec, SObj, Opaque, is_symbolic

CTX = K.CTX
K.register(__import__('sys').modules[__name__])
K.register(I)
K.register(K)

TRUE = z3.BoolVal(True)
IV = z3.IntVal


# ---------------------------------------------------------------- conversions
def lift(x):
    """concrete ndarray -> Arr"""
    a = np.asarray(x)
    if a.dtype.kind not in 'biuf':
        raise Unsupported(f'array of dtype {a.dtype}')
    dt = {'b': 'b', 'i': 'i', 'u': 'i', 'f': 'f'}[a.dtype.kind]

    def fn(idx):
        ix = []
        for e in idx:
            e = simp(e)
            ix.append(e.as_long() if z3.is_int_value(e) else e)
        if all(isinstance(i, int) for i in ix):
            if any(i < 0 or i >= s for i, s in zip(ix, a.shape)):
                return K.cast(0, dt) if dt != 'b' else False
            return a[tuple(ix)].item()
        if a.size > 80:
            raise Unsupported('symbolic index into a large concrete array')
        r = None
        for pos in np.ndindex(*a.shape):
            c = z3.And(*[dz(i) == IV(p) for i, p in zip(ix, pos)])
            v = a[pos].item()
            r = v if r is None else K.ite(c, v, r)
        if r is None:
            return {'f': 0.0, 'i': 0, 'b': False}[dt]
        return r
    out = Arr(a.shape, dt, fn)
    if a.size == 1 or (a.size and (a == a.flat[0]).all()):
        out.tag['const'] = a.flat[0].item()
        c = a.flat[0].item()
        out._fn = lambda idx: c
    return out


def dtjoin(*ds):
    if 'f' in ds:
        return 'f'
    if 'i' in ds:
        return 'i'
    return 'b'


def as_arr(x):
    if isinstance(x, Arr):
        return x
    if hasattr(x, 'as_arr_'):
        return x.as_arr_()
    if isinstance(x, np.ndarray):
        return lift(x)
    if isinstance(x, (range,)):
        return lift(np.array(x))
    if isinstance(x, SList):
        return stack_slist(x)
    if isinstance(x, (list, tuple)):
        xs = list(x)
        if not xs:
            return Arr((0,), 'f', lambda idx: 0.0)
        if all(K.isnum(v) for v in xs):
            dt = dtjoin(*[K.sort_of(v) for v in xs])

            def fn(idx):
                e = simp(idx[0])
                if z3.is_int_value(e):
                    i = e.as_long()
                    return K.cast(xs[i], dt) if 0 <= i < len(xs) else K.cast(0, dt)
                r = K.cast(xs[-1], dt)
                for k in range(len(xs) - 1):
                    r = K.ite(idx[0] == k, K.cast(xs[k], dt), r)
                return r
            return Arr((len(xs),), dt, fn)
        rows = [as_arr(v) for v in xs]
        sh = rows[0].shape
        for r in rows[1:]:
            if len(r.shape) != len(sh) or not all(K.dim_eq(a, b) for a, b in zip(sh, r.shape)):
                raise Unsupported('ragged array')
        dt = dtjoin(*[r.dtype for r in rows])
        fs = [r.snap() for r in rows]

        def fn2(idx):
            e = simp(idx[0])
            if z3.is_int_value(e):
                i = e.as_long()
                return K.cast(fs[i](idx[1:]), dt) if 0 <= i < len(fs) else K.cast(0, dt)
            r = K.cast(fs[-1](idx[1:]), dt)
            for k in range(len(fs) - 1):
                r = K.ite(idx[0] == k, K.cast(fs[k](idx[1:]), dt), r)
            return r
        return Arr((len(rows),) + tuple(sh), dt, fn2)
    raise Unsupported(f'array from {type(x).__name__}')


def stack_slist(x):
    i = CTX.fresh('probe', K.I_)
    CTX.pc.append(z3.And(i >= 0, i < dz(x.n)))
    try:
        s = as_arr(x.fn(i))
    finally:
        CTX.pc.pop()
    for d in s.shape:
        if not isinstance(d, int) and I.mentions(d, i):
            raise Unsupported('ragged list of arrays')
    return Arr((x.n,) + s.shape, s.dtype, lambda idx: as_arr(x.fn(idx[0])).fn(tuple(idx[1:])))


# ---------------------------------------------------------------- broadcasting, elementwise
def bdim(a, b):
    """(result dim, a broadcasts, b broadcasts)"""
    if isinstance(a, int) and a == 1:
        return b, not (isinstance(b, int) and b == 1), False
    if isinstance(b, int) and b == 1:
        return a, False, True
    if K.dim_eq(a, b):
        return (a if isinstance(a, int) else b), False, False
    if isinstance(a, int) and isinstance(b, int):
        raise PyRaise(ValueError, ('operands could not be broadcast',))
    e = simp(dz(a) == dz(b))
    if CTX.decide(e, 'broadcast'):
        return b, False, False
    if not isinstance(a, int) and CTX.decide(dz(a) == 1, 'broadcast'):
        return b, True, False
    if not isinstance(b, int) and CTX.decide(dz(b) == 1, 'broadcast'):
        return a, False, True
    raise PyRaise(ValueError, ('operands could not be broadcast',))


def broadcast(arrs):
    nd = max(a.ndim for a in arrs)
    shape, flags = [], [[] for _ in arrs]
    for ax in range(nd):
        cur, fl_ = None, [False] * len(arrs)
        for k, a in enumerate(arrs):
            off = nd - a.ndim
            if ax < off:
                fl_[k] = None
                continue
            d = a.shape[ax - off]
            if cur is None:
                cur = d
            else:
                cur, ba, bb = bdim(cur, d)
                if ba:
                    for m in range(k):
                        if fl_[m] is not None:
                            fl_[m] = True
                if bb:
                    fl_[k] = True
        shape.append(cur)
        for k in range(len(arrs)):
            flags[k].append(fl_[k])
    gets = []
    for a, f in zip(arrs, flags):
        s = a.snap()

        def get(idx, s=s, f=f):
            return s(tuple(IV(0) if x else i for i, x in zip(idx, f) if x is not None))
        gets.append(get)
    return tuple(shape), gets


def broadcast_to(val, shape):
    if not isinstance(val, Arr):
        return shape, lambda idx: val
    v = val
    nd = len(shape)
    if v.ndim > nd:
        if all(isinstance(d, int) and d == 1 for d in v.shape[:v.ndim - nd]):
            raise Unsupported('broadcast of extra dimensions')
        raise PyRaise(ValueError, ('could not broadcast',))
    f = []
    off = nd - v.ndim
    for ax in range(nd):
        if ax < off:
            f.append(None)
            continue
        d = v.shape[ax - off]
        if isinstance(d, int) and d == 1 and not (isinstance(shape[ax], int) and shape[ax] == 1):
            f.append(True)
        elif K.dim_eq(d, shape[ax]):
            f.append(False)
        elif isinstance(d, int) and isinstance(shape[ax], int):
            raise PyRaise(ValueError, ('could not broadcast',))
        elif CTX.decide(dz(d) == dz(shape[ax]), 'broadcast'):
            f.append(False)
        elif CTX.decide(dz(d) == 1, 'broadcast'):
            f.append(True)
        else:
            raise PyRaise(ValueError, ('could not broadcast',))
    s = v.snap()
    return shape, lambda idx: s(tuple(IV(0) if x else i for i, x in zip(idx, f) if x is not None))


def elementwise1(f, v, dtype=None):
    if not isinstance(v, Arr):
        if isinstance(v, (list, tuple, np.ndarray)):
            v = as_arr(v)
        else:
            return f(v)
    s = v.snap()
    return Arr(v.shape, dtype or v.dtype, lambda idx: f(s(idx)))


def elementwise2(f, a, b, dtype):
    aa = a if isinstance(a, Arr) else None
    bb = b if isinstance(b, Arr) else None
    if aa is None and isinstance(a, (np.ndarray, list, tuple)):
        aa = as_arr(a)
    if bb is None and isinstance(b, (np.ndarray, list, tuple)):
        bb = as_arr(b)
    if aa is not None and bb is not None:
        shape, (ga, gb) = broadcast([aa, bb])
        return Arr(shape, dtype, lambda idx: f(ga(idx), gb(idx)))
    if aa is not None:
        if not K.isnum(b):
            raise Unsupported(f'array op with {type(b).__name__}')
        s = aa.snap()
        return Arr(aa.shape, dtype, lambda idx: f(s(idx), b))
    if not K.isnum(a):
        raise Unsupported(f'array op with {type(a).__name__}')
    s = bb.snap()
    return Arr(bb.shape, dtype, lambda idx: f(a, s(idx)))


def invert(v):
    v = as_arr(v)
    if v.dtype == 'b':
        return elementwise1(lambda x: K.not_(x) if isinstance(x, Sym) else not x, v)
    if v.dtype == 'i':
        return elementwise1(lambda x: K.sub(K.neg(x), 1), v)
    raise PyRaise(TypeError, ('invert',))


def sort_dt(v):
    if isinstance(v, Arr):
        return v.dtype
    if isinstance(v, np.ndarray):
        return {'b': 'b', 'i': 'i', 'u': 'i', 'f': 'f'}.get(v.dtype.kind, 'o')
    if isinstance(v, (list, tuple)):
        return as_arr(v).dtype
    return K.sort_of(v)


def binop(interp, op, a, b):
    t = type(op)
    if isinstance(a, Arr) and a.islist or isinstance(b, Arr) and b.islist:
        return list_binop(interp, op, a, b)
    if t is ast.MatMult:
        return dot(interp, a, b)
    da, db = sort_dt(a), sort_dt(b)
    if t in (ast.BitAnd, ast.BitOr, ast.BitXor):
        if da == db == 'b':
            f = {ast.BitAnd: lambda x, y: mk(simp(z3.And(zb(x), zb(y)))),
                 ast.BitOr: lambda x, y: mk(simp(z3.Or(zb(x), zb(y)))),
                 ast.BitXor: lambda x, y: mk(simp(z3.Xor(zb(x), zb(y))))}[t]
            return elementwise2(f, a, b, 'b')
        raise Unsupported('bit operation on numbers')
    if t is ast.Add and da == db == 'b':
        return elementwise2(lambda x, y: mk(simp(z3.Or(zb(x), zb(y)))), a, b, 'b')
    if t is ast.Mult and da == db == 'b':
        return elementwise2(lambda x, y: mk(simp(z3.And(zb(x), zb(y)))), a, b, 'b')
    if t is ast.Sub and da == db == 'b':
        raise PyRaise(TypeError, ('numpy boolean subtract',))
    f = {ast.Add: K.add, ast.Sub: K.sub, ast.Mult: K.mul, ast.Div: K.div, ast.FloorDiv: K.floordiv,
         ast.Mod: K.mod, ast.Pow: K.power}.get(t)
    if f is None:
        raise Unsupported('array operator')
    dt = dtjoin(da, db)
    if t is ast.Div:
        dt = 'f'
    if dt == 'b':
        dt = 'i'
    if t is ast.Pow and dt == 'i' and not (isinstance(b, int) and b >= 0):
        raise Unsupported('integer power')
    r = elementwise2(f, a, b, dt)
    for h in BINOP_TAGS:
        h(t, a, b, r)
    return r


BINOP_TAGS = []


def list_binop(interp, op, a, b):
    """python list semantics, unless the other side is an ndarray"""
    al = (isinstance(a, Arr) and a.islist) or isinstance(a, list)
    bl = (isinstance(b, Arr) and b.islist) or isinstance(b, list)
    if al and bl:
        if isinstance(op, ast.Add):
            return concat([as_arr(a), as_arr(b)], islist=True)
        raise PyRaise(TypeError, ('list operands',))
    if (isinstance(a, Arr) and not a.islist) or (isinstance(b, Arr) and not b.islist) or \
            isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        x = nolist(a)
        y = nolist(b)
        return binop(interp, op, x, y)
    if isinstance(op, ast.Mult):
        raise Unsupported('list repetition')
    raise PyRaise(TypeError, ('list operand',))


def nolist(a):
    if isinstance(a, Arr) and a.islist:
        return Arr(a.shape, a.dtype, a.snap(), False, dict(a.tag))
    return a


def concat(arrs, islist=False):
    arrs = [as_arr(a) for a in arrs]
    nd = arrs[0].ndim
    if any(a.ndim != nd for a in arrs):
        raise Unsupported('concatenate of different ranks')
    dt = dtjoin(*[a.dtype for a in arrs])
    fs = [a.snap() for a in arrs]
    offs = [IV(0)]
    for a in arrs:
        offs.append(simp(offs[-1] + dz(a.shape[0])))

    def fn(idx):
        r = None
        for k in range(len(fs) - 1, -1, -1):
            here = lambda k=k: K.cast(fs[k]((simp(idx[0] - offs[k]),) + tuple(idx[1:])), dt)
            if r is None:
                r = here()
            else:
                c = simp(idx[0] < offs[k + 1])
                if z3.is_true(c):
                    r = here()
                elif not z3.is_false(c):
                    r = K.ite(c, here(), r)
        return r
    return Arr((offs[-1],) + arrs[0].shape[1:], dt, fn, islist)


# ---------------------------------------------------------------- selection by mask
class Sel:
    def __init__(self, m, sel, pos, mask):
        self.m, self.sel0, self.pos, self.mask = m, sel, pos, mask

    def sel(self, q):
        # sel(pos(i)) = i; outside the mask pos(i) may be read as -1-i and sel(-1-i) as i, no axiom constrains either there
        if z3.is_app(q) and q.num_args() == 1 and q.decl().eq(self.pos):
            return q.arg(0)
        return self.sel0(q)


def patterns(e, i):
    """uninterpreted applications in e that have i itself as an argument"""
    out, seen = [], set()
    st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen or z3.is_quantifier(x) or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0 and any(c.eq(i) for c in x.children()):
            out.append(x)
        st.extend(x.children())
    return out


def canon_mask(mask):
    """(expr, canonical index) of a 1-d boolean array"""
    c = z3.Int('canon!i')
    e, _ = K.bound(lambda: simp(zb(mask.fn((c,)))))
    return e, c


def selection(mask):
    mask = as_arr(mask)
    if mask.ndim != 1 or mask.dtype != 'b':
        raise Unsupported('mask')
    e, c = canon_mask(mask)
    if CTX.loop_logs and I.mentions(e, CTX.loop_logs[-1].__dict__.get('var', z3.Int('none!'))):
        raise Unsupported('iteration dependent mask')
    n = dz(mask.shape[0])
    for (e0, n0, s) in CTX.sels:
        if e0.eq(e) and simp(n0).eq(simp(n)):
            return s
    k = next(CTX.fresh_n)
    sel = z3.Function(f'sel!{k}', K.I_, K.I_)
    pos = z3.Function(f'pos!{k}', K.I_, K.I_)
    m = z3.Int(f'selm!{k}')
    snap = mask.snap()

    def mk_at(x):
        return simp(z3.substitute(e, (c, x)))
    CTX.fact(z3.And(m >= 0, m <= n))
    q, r = z3.Ints(f'q!{k} r!{k}')
    CTX.axioms.append(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < m), z3.And(
        sel(q) >= 0, sel(q) < n, mk_at(sel(q)), pos(sel(q)) == q)), patterns=[sel(q)]))
    body = z3.Implies(z3.And(q >= 0, q < n, mk_at(q)), z3.And(pos(q) >= 0, pos(q) < m, sel(pos(q)) == q))
    pats = [pos(q)] + [p for p in patterns(mk_at(q), q)][:3]
    CTX.axioms.append(z3.ForAll([q], body, patterns=pats))
    CTX.axioms.append(z3.ForAll([q, r], z3.Implies(z3.And(q >= 0, q < r, r < m), sel(q) < sel(r)),
                                patterns=[z3.MultiPattern(sel(q), sel(r))]))
    s = Sel(m, sel, pos, mk_at)
    # the increasing enumeration of a set of indices is unique: equal masks select alike (trusted schema)
    for (e0, n0, s0) in CTX.sels:
        if not simp(n0).eq(simp(n)) and not CTX.valid(n0 == n, 500):
            continue
        d = CTX.fresh('differ', K.I_)
        diff = z3.And(d >= 0, d < n, s0.mask(d) != mk_at(d))
        CTX.fact(z3.Or(diff, s0.m == m))
        CTX.axioms.append(z3.ForAll([q], z3.Or(diff, s0.sel(q) == sel(q)), patterns=[s0.sel(q), sel(q)]))
        CTX.axioms.append(z3.ForAll([q], z3.Or(diff, s0.pos(q) == pos(q)), patterns=[s0.pos(q), pos(q)]))
    CTX.sels.append((e, n, s))
    return s


# ---------------------------------------------------------------- indexing
def norm_index(k, n, what='index'):
    """z3 index in [0,n), raising IndexError on the path where it is out of range"""
    n = dz(n)
    if isinstance(k, (bool, np.bool_)):
        raise Unsupported('boolean scalar index')
    if isinstance(k, (int, np.integer)):
        e = IV(int(k)) if k >= 0 else simp(n + int(k))
    elif isinstance(k, (float, np.floating)):
        raise PyRaise(IndexError, ('only integers are valid indices',))
    else:
        if not isinstance(k, Sym) or k.s != 'i':
            raise Unsupported('index type')
        e = k.e
        if CTX.capture is None and not CTX.valid(e >= 0):
            if CTX.valid(e < 0):
                e = simp(e + n)
            else:
                e = z3.If(e < 0, e + n, e)
    ok = simp(z3.And(e >= 0, e < n))
    if CTX.capture is not None or z3.is_true(ok):
        return e
    if CTX.loop_logs or CTX.guards:
        if not CTX.valid(ok):
            raise Unsupported('index not provably in range inside a loop')
        return e
    if not CTX.decide(ok, what):
        raise PyRaise(IndexError, ('index out of range',))
    return e


def slice_bounds(s, n):
    """(offset, length, step) of a slice over n elements"""
    n = dz(n)
    step = 1 if s.step is None else s.step
    if not isinstance(step, int) or step not in (1, -1):
        if isinstance(step, int) and step > 0:
            off, ln, _ = slice_bounds(slice(s.start, s.stop, None), n)
            return off, simp((ln + (step - 1)) / step), step
        raise Unsupported('slice step')

    def clip(v, default, lo, hi):
        if v is None:
            return default
        e = zi(v)
        if isinstance(v, int):
            if v < 0:
                e = n + v
        elif CTX.capture is None:
            if not CTX.valid(e >= 0):
                e = z3.If(e < 0, e + n, e)
        e = simp(e)
        if CTX.capture is None and CTX.valid(z3.And(e >= lo, e <= hi)):
            return e
        return z3.If(e < lo, lo, z3.If(e > hi, hi, e))
    if step == 1:
        a = clip(s.start, IV(0), IV(0), n)
        b = clip(s.stop, n, IV(0), n)
        ln = simp(b - a)
        if not (CTX.capture is None and CTX.valid(ln >= 0)):
            ln = z3.If(ln >= 0, ln, IV(0))
        return a, simp(ln), 1
    a = clip(s.start, simp(n - 1), IV(-1), simp(n - 1))
    b = clip(s.stop, IV(-1), IV(-1), simp(n - 1)) if s.stop is not None else IV(-1)
    ln = simp(a - b)
    if not CTX.valid(ln >= 0):
        ln = z3.If(ln >= 0, ln, IV(0))
    return a, simp(ln), -1


def is_mask(k):
    if isinstance(k, Arr):
        return k.dtype == 'b'
    if isinstance(k, np.ndarray):
        return k.dtype.kind == 'b'
    if isinstance(k, list):
        return len(k) > 0 and all(isinstance(x, (bool, np.bool_)) or (isinstance(x, Sym) and x.s == 'b') for x in k)
    return False


def is_fancy(k):
    return isinstance(k, (Arr, np.ndarray, list, SList)) or hasattr(k, 'as_arr_')


def expand(a, k):
    ks = list(k) if isinstance(k, tuple) else [k]
    if any(x is Ellipsis for x in ks):
        p = [i for i, x in enumerate(ks) if x is Ellipsis][0]
        ks[p:p + 1] = [slice(None)] * (a.ndim - (len(ks) - 1))
    used = sum(1 for x in ks if x is not None)
    if len(ks) == 1 and is_mask(ks[0]) and as_arr(ks[0]).ndim == a.ndim and a.ndim > 1:
        return ks
    while used < a.ndim:
        ks.append(slice(None))
        used += 1
    if used > a.ndim:
        raise PyRaise(IndexError, ('too many indices',))
    return ks


def basic_view(a, ks):
    """view for int/slice keys; other keys are treated as full slices. Returns (view, positions of non-basic keys)"""
    vmap, shape, fancy = [], [], []
    strided = []
    for ax, x in enumerate(ks):
        if isinstance(x, slice):
            if x.start is None and x.stop is None and x.step is None:
                vmap.append(('dim', len(shape), IV(0), 1))
                shape.append(a.shape[ax])
            else:
                off, ln, st = slice_bounds(x, a.shape[ax])
                if st not in (1, -1):
                    raise Unsupported('strided slice')
                vmap.append(('dim', len(shape), off, st))
                shape.append(ln)
        elif is_fancy(x):
            fancy.append((len(shape), x))
            vmap.append(('dim', len(shape), IV(0), 1))
            shape.append(a.shape[ax])
        else:
            vmap.append(('fix', norm_index(x, a.shape[ax])))
    return a.view(shape, vmap), fancy


def arr_get(interp, a, k):
    if isinstance(k, (str, Str)):
        raise PyRaise(IndexError, ('only integers',))
    if a.islist:
        if isinstance(k, slice):
            v, _ = strided(a, k)
            return Arr(v.shape, a.dtype, v.snap(), True)
        if isinstance(k, (Arr, tuple)):
            raise PyRaise(TypeError, ('list indices must be integers or slices',))
    ks = expand(a, k)
    if any(x is None for x in ks):
        return newaxis(interp, a, ks)
    if len(ks) == 1 and is_mask(ks[0]) and a.ndim > 1:
        raise Unsupported('reading through a matrix mask')
    if any(isinstance(x, slice) and x.step not in (None, 1, -1) for x in ks):
        if a.ndim == 1:
            v, _ = strided(a, ks[0])
            return v
        raise Unsupported('strided slice')
    v, fancy = basic_view(a, ks)
    if not fancy:
        if v.ndim == 0:
            return a.fn(v._tobase(()))
        return v
    if len(fancy) > 1:
        return multi_gather(v, fancy)
    ax, key = fancy[0]
    return gather(v, ax, key)


def strided(a, s):
    off, ln, st = slice_bounds(s, a.shape[0])
    if st in (1, -1):
        return a.view((ln,), [('dim', 0, off, st)]), None
    f = a.snap()
    return Arr((ln,), a.dtype, lambda idx: f((simp(off + st * idx[0]),))), None


def newaxis(interp, a, ks):
    inner = arr_get(interp, a, tuple(x for x in ks if x is not None))
    keep, pos = [], []
    for x in ks:
        if x is None:
            keep.append(None)
        elif isinstance(x, slice) or is_fancy(x):
            keep.append(len([p for p in keep if p is not None]))
    s = inner.snap()
    shape = [1 if p is None else inner.shape[p] for p in keep]
    return Arr(shape, inner.dtype, lambda idx: s(tuple(i for i, p in zip(idx, keep) if p is not None)))


def gather_map(n, key):
    """(length, index function, Sel or None) for a 1-d fancy key over an axis of length n"""
    key = as_arr(key)
    if key.dtype == 'b':
        if not K.dim_eq(key.shape[0], n):
            raise PyRaise(IndexError, ('boolean index did not match',))
        s = selection(key)
        return s.m, (lambda i: s.sel(i)), s
    if key.dtype == 'f':
        raise PyRaise(IndexError, ('arrays used as indices must be of integer type',))
    if key.ndim != 1:
        raise Unsupported('fancy index rank')
    f = key.snap()
    w = key.tag.get('where')
    if CTX.capture is None and w is None:
        # every index must be in range: proved, not assumed
        i = CTX.fresh('gi', K.I_)
        CTX.pc.append(z3.And(i >= 0, i < dz(key.shape[0])))
        try:
            e = zi(f((i,)))
            ok = CTX.valid(z3.And(e >= 0, e < dz(n)), 4000)
            okneg = ok or CTX.valid(z3.And(e >= -dz(n), e < dz(n)), 4000)
        finally:
            CTX.pc.pop()
        if not ok:
            if okneg:
                nn = dz(n)
                return key.shape[0], (lambda i: (lambda e: z3.If(e < 0, e + nn, e))(zi(f((i,))))), None
            raise Unsupported('fancy index not provably in range')
    return key.shape[0], (lambda i: zi(f((i,)))), w


def gather(v, ax, key):
    kk = as_arr(key)
    if kk.ndim == 2 and kk.dtype == 'i' and v.ndim == 1:
        f, s = kk.snap(), v.snap()
        return Arr(kk.shape, v.dtype, lambda idx: s((zi(f(idx)),)))
    ln, f, _ = gather_map(v.shape[ax], key)
    s = v.snap()
    shape = list(v.shape)
    shape[ax] = dim(ln)
    return Arr(shape, v.dtype, lambda idx: s(tuple(f(i) if d == ax else i for d, i in enumerate(idx))))


def multi_gather(v, fancy):
    if all(getattr(x, 'tag', {}).get('ix') is not None for _, x in fancy if isinstance(x, Arr)) and \
            all(isinstance(x, Arr) for _, x in fancy):
        for ax, x in fancy:
            v = gather(v, ax, x.tag['ix'])
        return v
    keys = [as_arr(x) for _, x in fancy]
    if all(k.dtype == 'i' and k.ndim == 1 for k in keys) and v.ndim == len(keys):
        fs = [k.snap() for k in keys]
        s = v.snap()
        n = keys[0].shape[0]
        if not all(K.dim_eq(k.shape[0], n) for k in keys):
            raise Unsupported('fancy index lengths')
        return Arr((n,), v.dtype, lambda idx: s(tuple(zi(f(idx)) for f in fs)))
    raise Unsupported('several fancy indices')


def arr_set(interp, a, k, val):
    if hasattr(val, 'as_arr_'):
        val = val.as_arr_()
    if isinstance(val, (list, tuple, np.ndarray, SList)):
        val = as_arr(val)
    if val is None or isinstance(val, (str, Str)):
        raise Unsupported('non numeric store')
    if a.islist:
        if isinstance(k, slice) or is_fancy(k):
            raise Unsupported('list slice assignment')
        if not K.isnum(val):
            raise Unsupported('storing a non number in a numeric list')
        if a.dtype != K.sort_of(val):
            # lists are heterogeneous; widen
            if {a.dtype, K.sort_of(val)} <= {'i', 'f'}:
                old = a._fn
                a._fn = lambda idx: K.cast(old(idx), 'f')
                a.dtype = 'f'
                val = K.cast(val, 'f')
            else:
                raise Unsupported('heterogeneous list')
        e = norm_index(k, a.shape[0])
        a.write(lambda idx: idx[0] == e, lambda idx: val)
        return
    ks = expand(a, k)
    if any(x is None for x in ks):
        raise Unsupported('newaxis assignment')
    if len(ks) == 1 and is_mask(ks[0]) and a.ndim > 1:
        m = as_arr(ks[0])
        if not all(K.dim_eq(x, y) for x, y in zip(m.shape, a.shape)):
            raise PyRaise(IndexError, ('mask shape',))
        if isinstance(val, Arr):
            raise Unsupported('matrix mask assignment of an array')
        f = m.snap()
        a.write(lambda idx: zb(f(idx)), lambda idx: val)
        return
    if any(isinstance(x, slice) and x.step not in (None, 1, -1) for x in ks):
        raise Unsupported('strided assignment')
    v, fancy = basic_view(a, ks)
    if not fancy:
        if v.ndim == 0:
            if isinstance(val, Arr):
                if val.ndim == 0:
                    val = val.at()
                elif val.ndim == 1 and val.shape[0] == 1:
                    val = val.at(0)
                else:
                    raise PyRaise(ValueError, ('setting an array element with a sequence',))
            fix = [m[1] for m in v.vmap]
            a.write(lambda idx: z3.And(*[i == f for i, f in zip(idx, fix)]), lambda idx: val)
            return
        sh, get = broadcast_to(val, v.shape)
        v.write(lambda idx: TRUE, get)
        return
    if len(fancy) > 1:
        if all(isinstance(x, Arr) and x.tag.get('ix') is not None for _, x in fancy):
            maps = [(ax, gather_map(v.shape[ax], x.tag['ix'])) for ax, x in fancy]
        else:
            raise Unsupported('assignment through several fancy indices')
    else:
        ax, key = fancy[0]
        maps = [(ax, gather_map(v.shape[ax], key))]
    tshape = list(v.shape)
    for ax, (ln, f, s) in maps:
        tshape[ax] = dim(ln)
    sh, get = broadcast_to(val, tuple(tshape))
    invs = {}
    for ax, (ln, f, s) in maps:
        if s is not None:
            invs[ax] = (lambda i, s=s: s.mask(i), lambda i, s=s: s.pos(i))
        else:
            invs[ax] = scatter_inverse(dim(ln), f)

    def guard(idx):
        c = [invs[ax][0](idx[ax]) for ax, _ in maps]
        return z3.And(*c) if len(c) > 1 else c[0]

    def value(idx):
        return get(tuple(invs[d][1](i) if d in invs else i for d, i in enumerate(idx)))
    v.write(guard, value)


def scatter_inverse(n, f):
    """last writer of a[f(k)] = v[k]"""
    k = next(CTX.fresh_n)
    hit = z3.Function(f'hit!{k}', K.I_, K.B_)
    who = z3.Function(f'who!{k}', K.I_, K.I_)
    q = z3.Int(f'q!{k}')
    x = z3.Int(f'x!{k}')
    CTX.axioms.append(z3.ForAll([x], z3.Implies(hit(x), z3.And(who(x) >= 0, who(x) < dz(n), f(who(x)) == x)),
                                patterns=[hit(x)]))
    CTX.axioms.append(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < dz(n)), z3.And(hit(f(q)), who(f(q)) >= q))))
    return (lambda i: hit(i)), (lambda i: who(i))


I.TYPE_INDEX.append((Arr, arr_get, arr_set))


# ---------------------------------------------------------------- reductions
def probe1(a):
    """element expression at a canonical index (1-d)"""
    c = z3.Int('canon!i')
    v, extra = K.bound(lambda: a.fn((c,)))
    return v, c, extra


def extremum(a, sign, what):
    """min (sign=-1) / max (+1) of a 1-d array"""
    a = as_arr(a)
    if a.ndim == 2:
        a = ravel(a)
    n = dz(a.shape[0])
    if not CTX.decide(n >= 1, what):
        raise PyRaise(ValueError, (f'{what} of an empty sequence',))
    v, c, extra = probe1(a)
    key = ('ext', sign, v.e.get_id() if isinstance(v, Sym) else v, str(simp(n)))
    if key in CTX.mats:
        return CTX.mats[key][0]
    w = CTX.fresh('w' + what, K.I_)
    CTX.fact(z3.And(w >= 0, w < n))
    r = a.fn((w,))
    if isinstance(r, Sym) and r.s == 'f' and r.k is not None:
        # python min/max with NaN are order dependent: only handled when absent
        i = CTX.fresh('i', K.I_)
        CTX.pc.append(z3.And(i >= 0, i < n))
        x = a.fn((i,))
        ok = CTX.valid(x.k == K.FIN) if isinstance(x, Sym) and x.k is not None else True
        CTX.pc.pop()
        if not ok:
            raise Unsupported('extremum of an array that may hold NaN')
        r = K.mkf(r.e)
    CTX.forall(n, lambda i: zb(K.cmp('>=' if sign > 0 else '<=', r, a.fn((i,)))) if True else None)
    CTX.mats[key] = (r, v)
    return r


def ravel(a):
    if a.ndim == 1:
        return a
    if a.ndim == 2:
        s = a.snap()
        m = dz(a.shape[1])
        n = simp(dz(a.shape[0]) * m)
        return Arr((n,), a.dtype, lambda idx: s((idx[0] / m, idx[0] % m)))
    raise Unsupported('ravel')


def any_(a):
    a = as_arr(a)
    if a.ndim == 2:
        return mk(quant2(a, False))
    if a.ndim == 0:
        return a.at()
    return mk(quant(a, False))


def all_(a):
    a = as_arr(a)
    if a.ndim == 2:
        return mk(quant2(a, True))
    if a.ndim == 0:
        return a.at()
    return mk(quant(a, True))


def _bool_elem(v):
    return zb(v)


def quant(a, univ):
    n = dz(a.shape[0])
    if isinstance(a.shape[0], int) and a.shape[0] <= 80:
        xs = [zb(a.fn((IV(i),))) for i in range(a.shape[0])]
        return simp(z3.And(*xs) if univ else z3.Or(*xs)) if xs else z3.BoolVal(univ)
    b = CTX.fresh('all' if univ else 'any', K.B_)
    w = CTX.fresh('w', K.I_)
    x = zb(a.fn((w,)))
    if univ:
        CTX.fact(z3.Implies(z3.Not(b), z3.And(w >= 0, w < n, z3.Not(x))))
        CTX.forall(n, lambda i: z3.Implies(b, zb(a.fn((i,)))))
    else:
        CTX.fact(z3.Implies(b, z3.And(w >= 0, w < n, x)))
        CTX.forall(n, lambda i: z3.Implies(zb(a.fn((i,))), b))
    return b


def quant2(a, univ):
    n, m = dz(a.shape[0]), dz(a.shape[1])
    b = CTX.fresh('all' if univ else 'any', K.B_)
    w, u = CTX.fresh('w', K.I_), CTX.fresh('u', K.I_)
    rng = z3.And(w >= 0, w < n, u >= 0, u < m)
    x = zb(a.fn((w, u)))
    q, r = z3.Int(f'q!{next(CTX.fresh_n)}'), z3.Int(f'r!{next(CTX.fresh_n)}')
    y, extra = K.bound(lambda: zb(a.fn((q, r))))
    qr = z3.And(q >= 0, q < n, r >= 0, r < m)
    if univ:
        CTX.fact(z3.Implies(z3.Not(b), z3.And(rng, z3.Not(x))))
        CTX.axioms.append(z3.ForAll([q, r], z3.Implies(qr, z3.And(z3.Implies(b, y), *extra))))
    else:
        CTX.fact(z3.Implies(b, z3.And(rng, x)))
        CTX.axioms.append(z3.ForAll([q, r], z3.Implies(qr, z3.And(z3.Implies(y, b), *extra))))
    return b


def fold_sum(a):
    """partial sums S(k) = sum_{i<k} a[i] as an uninterpreted function with its recurrence; structurally equal
    summands share one S"""
    n = dz(a.shape[0])
    v, c, extra = probe1(a)
    integral = a.dtype in 'ib'
    if isinstance(v, Sym) and v.s == 'f' and v.k is not None:
        i = CTX.fresh('i', K.I_)
        if CTX.capture is not None or not CTX.valid(z3.Implies(z3.And(i >= 0, i < n), K.fin(a.fn((i,)))), 6000):
            return nonfinite_sum(a)
    e = zi(v) if integral else K.fl(v)[0]
    e = simp(e)
    for (e0, f0) in CTX.mats.setdefault('sums', []):
        if e0.eq(e):
            return f0
    k = next(CTX.fresh_n)
    S = z3.Function(f'sum!{k}', K.I_, K.I_ if integral else K.R_)
    q = z3.Int(f'q!{k}')
    CTX.fact(S(IV(0)) == 0)
    CTX.axioms.append(z3.ForAll([q], z3.Implies(q >= 0, z3.And(
        S(q + 1) == S(q) + z3.substitute(e, (c, q)), *[z3.substitute(x, (c, q)) for x in extra])), patterns=[S(q + 1)]))
    CTX.axioms.append(z3.ForAll([q], z3.Implies(q >= 1, S(q) == S(q - 1) + z3.substitute(e, (c, q - 1))),
                                patterns=[S(q)]) if False else z3.BoolVal(True))
    # extensionality against the other sums: equal summands below m give equal sums (induction, trusted schema)
    for (e0, S0) in CTX.mats['sums']:
        if S0.range() != S.range():
            continue
        w = z3.Function(f'ext!{next(CTX.fresh_n)}', K.I_, K.I_)
        m = z3.Int(f'm!{k}')
        CTX.axioms.append(z3.ForAll([m], z3.Implies(m >= 0, z3.Or(
            S(m) == S0(m), z3.And(w(m) >= 0, w(m) < m, z3.substitute(e, (c, w(m))) != z3.substitute(e0, (c, w(m)))))),
            patterns=[z3.MultiPattern(S(m), S0(m))]))
    # sign: all summands non-negative below m gives a non-negative sum
    w = z3.Function(f'sgn!{k}', K.I_, K.I_)
    m = z3.Int(f'm2!{k}')
    CTX.axioms.append(z3.ForAll([m], z3.Implies(m >= 0, z3.Or(S(m) >= 0, z3.And(
        w(m) >= 0, w(m) < m, z3.substitute(e, (c, w(m))) < 0))), patterns=[S(m)]))
    if integral:
        # zero only if all summands zero (non-negative case), and monotone
        w2 = z3.Function(f'pos!{k}', K.I_, K.I_)
        CTX.axioms.append(z3.ForAll([m], z3.Implies(z3.And(m >= 0, S(m) > 0), z3.And(
            w2(m) >= 0, w2(m) < m, z3.substitute(e, (c, w2(m))) > 0)), patterns=[S(m)]))
        if a.dtype == 'b':
            CTX.axioms.append(z3.ForAll([m, q], z3.Implies(z3.And(0 <= q, q < m, z3.substitute(e, (c, q)) > 0), S(m) > 0)))
    CTX.mats['sums'].append((e, S))
    return S


def nonfinite_sum(a):
    raise Unsupported('sum of values that may be infinite or NaN')


def sum_(a, axis=None):
    a = as_arr(a)
    if a.ndim == 1:
        if isinstance(a.shape[0], int) and a.shape[0] <= 80:
            r = 0 if a.dtype in 'ib' else 0.0
            for i in range(a.shape[0]):
                x = a.fn((IV(i),))
                r = K.add(r, x)
            return r
        S = fold_sum(a)
        return mk(S(dz(a.shape[0])))
    if axis is None:
        # opaque total
        return K.NpSym('f', CTX.fresh('total', K.R_), CTX.fresh('totalk', K.I_))
    if a.ndim == 2 and axis in (0, 1):
        sn = a.snap()
        n = a.shape[axis]
        if isinstance(n, int) and n <= 800:
            def fn(idx):
                r = 0 if a.dtype in 'ib' else 0.0
                for i in range(n):
                    r = K.add(r, sn((IV(i), idx[0]) if axis == 0 else (idx[0], IV(i))))
                return r
            return Arr((a.shape[1 - axis],), 'i' if a.dtype == 'b' else a.dtype, fn)
        return axis_sum(a, axis)
    raise Unsupported('sum axis')


def axis_sum(a, axis):
    """column sums of a boolean/int matrix: S(j,k) recurrences are not needed; positivity facts only for booleans"""
    sn = a.snap()
    n, m = dz(a.shape[axis]), dz(a.shape[1 - axis])
    k = next(CTX.fresh_n)
    if a.dtype != 'b':
        raise Unsupported('axis sum of numbers')
    S = z3.Function(f'asum!{k}', K.I_, K.I_)
    w = z3.Function(f'aw!{k}', K.I_, K.I_)
    c, d = z3.Int('canon!i'), z3.Int('canon!j')
    e, extra = K.bound(lambda: zb(sn((c, d) if axis == 0 else (d, c))))     # c runs over the summed axis, d the kept one
    q, j = z3.Int(f'q!{k}'), z3.Int(f'j!{k}')
    at = lambda x, y: z3.substitute(e, (c, x), (d, y))
    CTX.axioms.append(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < m), z3.And(
        S(j) >= 0, S(j) <= n, z3.Implies(S(j) > 0, z3.And(w(j) >= 0, w(j) < n, at(w(j), j))))), patterns=[S(j)]))
    CTX.axioms.append(z3.ForAll([q, j], z3.Implies(z3.And(q >= 0, q < n, j >= 0, j < m, at(q, j)), S(j) > 0)))
    return Arr((a.shape[1 - axis],), 'i', lambda idx: mk(S(idx[0])))


def cumsum(a):
    a = as_arr(a)
    if a.ndim != 1:
        raise Unsupported('cumsum')
    S = fold_sum(a)
    return Arr(a.shape, 'i' if a.dtype == 'b' else a.dtype, lambda idx: mk(S(simp(idx[0] + 1))))


# ---------------------------------------------------------------- sorting
def int_consts(e):
    """the integer constants of an expression, in order of occurrence"""
    out, seen = [], set()

    def walk(x):
        if x.get_id() in seen:
            return
        seen.add(x.get_id())
        if z3.is_const(x) and x.sort() == K.I_ and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(x)
        if z3.is_quantifier(x):
            walk(x.body())
        for y in x.children():
            walk(y)
    walk(e)
    return out


def sort_perm(v, c, n, sn, stable):
    """permutation functions sorting the array with element v at index c. Arrays that differ only in the integers they
    mention (columns of one matrix) share one function with these as parameters."""
    key = ('sort', stable, v.e.get_id() if isinstance(v, Sym) else repr(v), str(simp(n)))
    logs = bool(CTX.loop_logs)
    if key in CTX.mats and not logs:
        return CTX.mats[key][:2]
    e = simp(v.e) if isinstance(v, Sym) else None
    low = min([g.k0 for g in CTX.generic.values() if g.k1 is None], default=None)
    if e is None or (low is not None and any(K.maxnum(x) >= low for x in [e] if not only_ints(x, low))):
        k = next(CTX.fresh_n)
        perm = z3.Function(f'perm!{k}', K.I_, K.I_)
        inv = z3.Function(f'inv!{k}', K.I_, K.I_)
    else:
        ps = [x for x in int_consts(z3.And(e == e, n == n)) if not x.eq(c)]
        slots = [z3.Int(f'slot{k}') for k in range(len(ps))]
        pat = simp(z3.substitute(e, *zip(ps, slots))) if ps else e
        npat = simp(z3.substitute(n, *zip(ps, slots))) if ps else simp(n)
        tab = CTX.mats.setdefault('sorts', [])
        for (p0, n0, s0, k0, f, g) in tab:
            if p0.eq(pat) and n0.eq(npat) and s0 == stable and k0 == len(ps):
                break
        else:
            f = z3.Function(f'perm@{len(tab)}', *[K.I_] * (len(ps) + 1), K.I_)
            g = z3.Function(f'inv@{len(tab)}', *[K.I_] * (len(ps) + 1), K.I_)
            tab.append((pat, npat, stable, len(ps), f, g))
        perm = lambda q, f=f: f(*ps, q)
        inv = lambda q, g=g: g(*ps, q)
    k = next(CTX.fresh_n)
    q, r = z3.Ints(f'q!{k} r!{k}')
    rq = z3.And(q >= 0, q < n)
    CTX.axioms.append(z3.ForAll([q], z3.Implies(rq, z3.And(perm(q) >= 0, perm(q) < n, inv(perm(q)) == q)),
                                patterns=[perm(q)]))
    CTX.axioms.append(z3.ForAll([q], z3.Implies(rq, z3.And(inv(q) >= 0, inv(q) < n, perm(inv(q)) == q)),
                                patterns=[inv(q)]))
    le, ex = K.bound(lambda: zb(K.cmp('<=', sn((perm(q),)), sn((perm(r),)))))
    CTX.axioms.append(z3.ForAll([q, r], z3.Implies(z3.And(q >= 0, q <= r, r < n), z3.And(le, *ex)),
                                patterns=[z3.MultiPattern(perm(q), perm(r))]))
    if stable:
        tie, ex = K.bound(lambda: zb(K.cmp('==', sn((perm(q),)), sn((perm(r),)))))
        CTX.axioms.append(z3.ForAll([q, r], z3.Implies(z3.And(q >= 0, q < r, r < n, tie, *ex), perm(q) < perm(r)),
                                    patterns=[z3.MultiPattern(perm(q), perm(r))]))
    if not logs and CTX.capture is None:
        CTX.mats[key] = (perm, inv, v)
    return perm, inv


def only_ints(e, low):
    """every symbol of e made since `low` is an integer constant (a loop index)"""
    seen, todo = set(), [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return False
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            m = K.NUM.search(x.decl().name())
            if m and int(m.group(1)) >= low and not (x.num_args() == 0 and x.sort() == K.I_):
                return False
        todo.extend(x.children())
    return True


def sort1(a, stable=False):
    """(sorted array, permutation function): out[k] = a[perm(k)] ascending"""
    a = as_arr(a)
    if a.ndim != 1:
        raise Unsupported('sort')
    sn = a.snap()
    n = dz(a.shape[0])
    i, j = CTX.fresh('i', K.I_), CTX.fresh('j', K.I_)
    rng = z3.And(i >= 0, i < j, j < n)
    if CTX.capture is None:
        # the sorted arrangement is unique: an ascending array is its own, a descending one is reversed
        for op, f in (('<=', lambda q: q), ('>', lambda q: simp(n - 1 - q))):
            if CTX.valid(z3.Implies(rng, zb(K.cmp(op, sn((i,)), sn((j,))))), 3000):
                out = Arr(a.shape, a.dtype, lambda idx, f=f: sn((f(idx[0]),)))
                out.tag['sorted'] = True
                return out, f, f
    v, c, extra = probe1(a)
    perm, inv = sort_perm(v, c, n, sn, stable)
    out = Arr(a.shape, a.dtype, lambda idx: sn((perm(idx[0]),)))
    out.tag['sorted'] = True
    return out, perm, inv


def searchsorted(a, v, side='left'):
    a = as_arr(a)
    sn = a.snap()
    n = dz(a.shape[0])
    # requires ascending order: proved
    if not a.tag.get('sorted'):
        i = CTX.fresh('i', K.I_)
        j = CTX.fresh('j', K.I_)
        CTX.prove('searchsorted on an ascending array', z3.Implies(z3.And(i >= 0, i < j, j < n),
                  zb(K.cmp('<=', sn((i,)), sn((j,))))), kind='call')
    k = next(CTX.fresh_n)
    lt = ('<', '>=') if side == 'left' else ('<=', '>')
    q = z3.Int(f'q!{k}')

    def one(x):
        P = CTX.fresh_fn('ss', K.R_, K.I_) if False else None
        xe = K.fl(x)[0]
        p = F(xe)
        CTX.fact(z3.And(p >= 0, p <= n))
        (below, above), ex = K.bound(lambda: (zb(K.cmp(lt[0], sn((q,)), x)), zb(K.cmp(lt[1], sn((q,)), x))))
        pats = patterns(z3.And(below, above), q)
        CTX.fact(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), z3.And(z3.Implies(q < p, below),
                 z3.Implies(q >= p, above)))))
        # instances next to the insertion point
        CTX.fact(z3.Implies(p < n, zb(K.cmp(lt[1], sn((p,)), x))))
        CTX.fact(z3.Implies(p > 0, zb(K.cmp(lt[0], sn((simp(p - 1),)), x))))
        return mk(p)
    F = z3.Function(f'ss!{k}', K.R_, K.I_)
    if isinstance(v, Arr):
        s = v.snap()
        return Arr(v.shape, 'i', lambda idx: one(s(idx)))
    return one(v)


# ---------------------------------------------------------------- attributes of arrays
def transpose(a):
    if a.ndim < 2:
        return a
    if a.ndim == 2:
        v = a.view((a.shape[1], a.shape[0]), [('dim', 1, IV(0), 1), ('dim', 0, IV(0), 1)])
        return v
    raise Unsupported('transpose')


def arr_attr(interp, a, name):
    if name == 'shape':
        return tuple(dv(d) for d in a.shape)
    if name == 'ndim':
        return a.ndim
    if name == 'size':
        r = dz(a.shape[0]) if a.shape else IV(1)
        for d in a.shape[1:]:
            r = r * dz(d)
        return mk(simp(r))
    if name == 'T':
        return transpose(a)
    if name == 'dtype':
        return np.dtype({'f': float, 'i': int, 'b': bool}[a.dtype])
    if name == 'values' and a.tag.get('values'):
        return a
    m = METHODS.get(name)
    if m is not None:
        if a.islist and name not in LIST_METHODS:
            raise PyRaise(AttributeError, (name,))
        return Model(lambda it, *args, **kw: m(it, a, *args, **kw), name)
    if hasattr(list if a.islist else np.ndarray, name):
        raise Unsupported(f'array method {name}')
    raise PyRaise(AttributeError, (name,))


I.TYPE_ATTRS.append((lambda o: isinstance(o, Arr), arr_attr))


def m_copy(it, a, *x, **k):
    return a.copy()


def m_astype(it, a, t, **k):
    dt = dtype_of(t)
    s = a.snap()
    return Arr(a.shape, dt, lambda idx: K.cast(s(idx), dt))


def dtype_of(t):
    if t in (int, np.int64, np.int32, 'int', 'int64', 'i8', 'i4'):
        return 'i'
    if t in (float, np.float64, 'float', 'float64', 'f8'):
        return 'f'
    if t in (bool, np.bool_, 'bool'):
        return 'b'
    if isinstance(t, np.dtype):
        return {'b': 'b', 'i': 'i', 'u': 'i', 'f': 'f'}[t.kind]
    raise Unsupported(f'dtype {t}')


def m_append(it, a, v):
    if not a.islist:
        raise PyRaise(AttributeError, ('append',))
    if CTX.loop_logs or CTX.guards:
        raise Unsupported('append in a symbolic loop')
    if not K.isnum(v):
        raise Unsupported('append of a non number to a numeric list')
    f = a.snap()
    n = dz(a.shape[0])
    dt = a.dtype if a.dtype == K.sort_of(v) else 'f'
    a._fn = lambda idx: K.ite(idx[0] < n, K.cast(f(idx), dt), K.cast(v, dt))
    a.shape = (dim(simp(n + 1)),)
    a.dtype = dt
    a.tag = {}
    a.base = a.vmap = None


def m_insert(it, a, pos, v):
    if not a.islist or CTX.loop_logs or CTX.guards or pos != 0:
        raise Unsupported('insert')
    f = a.snap()
    n = dz(a.shape[0])
    dt = a.dtype if a.dtype == K.sort_of(v) else 'f'
    a._fn = lambda idx: K.ite(idx[0] > 0, K.cast(f((simp(idx[0] - 1),)), dt), K.cast(v, dt))
    a.shape = (dim(simp(n + 1)),)
    a.dtype = dt
    a.tag = {}
    a.base = a.vmap = None


def m_extend(it, a, v):
    if not a.islist or CTX.loop_logs or CTX.guards:
        raise Unsupported('extend')
    r = concat([a.copy(), as_arr(v)])
    a._fn, a.shape, a.dtype, a.tag = r._fn, r.shape, r.dtype, {}
    a.base = a.vmap = None


def m_reshape(it, a, *sh, **k):
    if len(sh) == 1 and isinstance(sh[0], (tuple, list)):
        sh = tuple(sh[0])
    if len(sh) == 1 and sh[0] == -1:
        return ravel(a)
    if a.ndim == 1 and len(sh) == 2:
        n = dz(a.shape[0])
        r, c = sh
        if isinstance(r, int) and r == -1:
            r = mk(simp(n / zi(c)))
        if isinstance(c, int) and c == -1:
            c = mk(simp(n / zi(r)))
        if not CTX.decide(zi(r) * zi(c) == n, 'reshape'):
            raise PyRaise(ValueError, ('cannot reshape',))
        s = a.snap()
        cc = zi(c)
        return Arr((r, c), a.dtype, lambda idx: s((simp(idx[0] * cc + idx[1]),)))
    raise Unsupported('reshape')


def m_sort(it, a, *x, **k):
    r, _, _ = sort1(a.copy())
    f = r._fn
    a.write(lambda idx: TRUE, lambda idx: f(idx))


def m_mean(it, a, *x, **k):
    return K.div(sum_(a), dv(a.shape[0]))


def m_std(it, a, *x, **k):
    v = Sym('f', CTX.fresh('std', K.R_))
    CTX.fact(v.e >= 0)
    return v


METHODS = {
    'copy': m_copy, 'astype': m_astype, 'append': m_append, 'reshape': m_reshape, 'sort': m_sort,
    'insert': m_insert, 'extend': m_extend,
    'sum': lambda it, a, axis=None, **k: sum_(a, axis),
    'any': lambda it, a, *x, **k: any_(a),
    'all': lambda it, a, *x, **k: all_(a),
    'max': lambda it, a, *x, **k: extremum(a, 1, 'max'),
    'min': lambda it, a, *x, **k: extremum(a, -1, 'min'),
    'mean': m_mean, 'std': m_std,
    'cumsum': lambda it, a, *x, **k: cumsum(a),
    'tolist': lambda it, a: Arr(a.shape, a.dtype, a.snap(), True),
    'flatten': lambda it, a: ravel(a).copy(), 'ravel': lambda it, a: ravel(a),
    'transpose': lambda it, a: transpose(a), 'dot': lambda it, a, b: dot(it, a, b),
    'diagonal': lambda it, a: np_diag(it, a),
    'nonzero': lambda it, a: where1(elementwise1(lambda x: mk(zb(x)), a, 'b')),
}
LIST_METHODS = {'append', 'copy', 'sort', 'insert', 'extend'}


# ---------------------------------------------------------------- numpy functions
def shape_arg(sh):
    if isinstance(sh, (tuple, list)):
        return tuple(zi_dim(x) for x in sh)
    if isinstance(sh, Arr):
        return tuple(zi_dim(sh.at(i)) for i in range(sh.shape[0]))
    return (zi_dim(sh),)


def zi_dim(x):
    d = dim(x)
    if not isinstance(d, int) and CTX.capture is None and not (CTX.loop_logs or CTX.guards):
        if not CTX.decide(d >= 0, 'dimension'):
            raise PyRaise(ValueError, ('negative dimensions',))
    return d


def const_arr(sh, v, dt):
    a = Arr(sh, dt, lambda idx: v)
    return a


@model(np.zeros)
def np_zeros(it, sh, dtype=float, **k):
    dt = dtype_of(dtype)
    return const_arr(shape_arg(sh), {'f': 0.0, 'i': 0, 'b': False}[dt], dt)


@model(np.ones)
def np_ones(it, sh, dtype=float, **k):
    dt = dtype_of(dtype)
    return const_arr(shape_arg(sh), {'f': 1.0, 'i': 1, 'b': True}[dt], dt)


@model(np.empty)
def np_empty(it, sh, dtype=float, **k):
    dt = dtype_of(dtype)
    sh = shape_arg(sh)
    f = CTX.fresh_fn('empty', *([K.I_] * len(sh)), {'f': K.R_, 'i': K.I_, 'b': K.B_}[dt])
    return Arr(sh, dt, lambda idx: mk(f(*idx)))


@model(np.full)
def np_full(it, sh, v, dtype=None, **k):
    dt = dtype_of(dtype) if dtype is not None else K.sort_of(v)
    return const_arr(shape_arg(sh), K.cast(v, dt), dt)


@model(np.zeros_like)
def np_zeros_like(it, a, **k):
    a = as_arr(a)
    dt = dtype_of(k['dtype']) if k.get('dtype') else a.dtype
    return const_arr(a.shape, {'f': 0.0, 'i': 0, 'b': False}[dt], dt)


@model(np.ones_like)
def np_ones_like(it, a, **k):
    a = as_arr(a)
    return const_arr(a.shape, {'f': 1.0, 'i': 1, 'b': True}[a.dtype], a.dtype)


@model(np.full_like)
def np_full_like(it, a, v, **k):
    a = as_arr(a)
    return const_arr(a.shape, K.cast(v, a.dtype), a.dtype)


@model(np.empty_like)
def np_empty_like(it, a, **k):
    a = as_arr(a)
    return np_empty(it, tuple(dv(d) for d in a.shape), {'f': float, 'i': int, 'b': bool}[a.dtype])


@model(np.eye, np.identity)
def np_eye(it, n, **k):
    return Arr((zi_dim(n), zi_dim(n)), 'f', lambda idx: K.ite(idx[0] == idx[1], 1.0, 0.0))


def fresh_copy(x, dtype=None):
    if isinstance(x, Sym) or K.isnum(x):
        return Arr((), K.sort_of(x), lambda idx: x)
    a = as_arr(x)
    dt = a.dtype if dtype is None else dtype_of(dtype)
    s = a.snap()
    return Arr(a.shape, dt, (lambda idx: K.cast(s(idx), dt)) if dt != a.dtype else s, False, dict(a.tag))


@model(np.array)
def np_array(it, x, dtype=None, **k):
    if k.get('copy', True) is False:
        return np_asarray(it, x, dtype)
    if isinstance(x, IterSpec):
        raise Unsupported('array of an iterator')
    return fresh_copy(x, dtype)


@model(np.copy)
def np_copy(it, x, **k):
    return fresh_copy(x)


@model(np.asarray, np.atleast_1d)
def np_asarray(it, x, dtype=None, **k):
    if isinstance(x, Arr) and not x.islist and (dtype is None or dtype_of(dtype) == x.dtype):
        return x
    return fresh_copy(x, dtype)


@model(np.arange)
def np_arange(it, *a, **k):
    r = b_range(it, *a)
    if isinstance(r, range):
        return np.arange(*a)
    return Arr((r.n,), 'i', lambda idx: r.fn(idx[0]))


def ufunc1(f, dt=None):
    def g(it, x, *a, **k):
        if k.get('out') is not None:
            raise Unsupported('ufunc out')
        if hasattr(x, 'map_'):
            return x.map_(f, dt)
        if isinstance(x, (Arr, list, tuple, np.ndarray, SList)):
            a_ = as_arr(x)
            return elementwise1(f, nolist(a_), dt or ('f' if a_.dtype != 'f' else 'f'))
        return f(x)
    return g


for o, f, dt in [(np.sqrt, K.sqrt, 'f'), (np.exp, K.exp, 'f'), (np.log, K.log, 'f'), (np.isnan, K.isnan, 'b'),
                 (np.isinf, K.isinf, 'b'),
                 (np.isfinite, lambda x: mk(simp(K.fin(x))) if isinstance(x, Sym) else bool(np.isfinite(x)), 'b')]:
    model(o)(ufunc1(f, dt))


@model(np.abs, np.fabs)
def np_abs(it, x):
    if hasattr(x, 'map_'):
        return x.map_(K.absv, None)
    if isinstance(x, (Arr, list, tuple, np.ndarray)):
        return elementwise1(K.absv, nolist(as_arr(x)))
    return K.absv(x)


@model(np.square)
def np_square(it, x):
    return elementwise1(lambda v: K.mul(v, v), x) if isinstance(x, Arr) else K.mul(x, x)


@model(np.negative)
def np_neg(it, x):
    return elementwise1(K.neg, x) if isinstance(x, Arr) else K.neg(x)


@model(np.invert, np.logical_not)
def np_invert(it, x):
    if isinstance(x, (Sym, bool)):
        return K.not_(x)
    return invert(x)


def ufunc2(opnode):
    def g(it, a, b, *r, **k):
        a = nolist(as_arr(a)) if isinstance(a, (list, tuple, Arr, np.ndarray)) else a
        b = nolist(as_arr(b)) if isinstance(b, (list, tuple, Arr, np.ndarray)) else b
        return it.binop(opnode(), a, b)
    return g


for o, nd in [(np.add, ast.Add), (np.subtract, ast.Sub), (np.multiply, ast.Mult), (np.divide, ast.Div),
              (np.power, ast.Pow)]:
    model(o)(ufunc2(nd))


def cmpf(op):
    def g(it, a, b):
        if isinstance(a, (Arr, list, np.ndarray)) or isinstance(b, (Arr, list, np.ndarray)):
            return elementwise2(lambda x, y: K.cmp(op, x, y), a, b, 'b')
        return K.cmp(op, a, b)
    return g


for o, op in [(np.equal, '=='), (np.not_equal, '!='), (np.less, '<'), (np.less_equal, '<='), (np.greater, '>'),
              (np.greater_equal, '>=')]:
    model(o)(cmpf(op))


@model(np.logical_and)
def np_land(it, a, b):
    return elementwise2(lambda x, y: mk(simp(z3.And(zb(x), zb(y)))), a, b, 'b')


@model(np.logical_or)
def np_lor(it, a, b):
    return elementwise2(lambda x, y: mk(simp(z3.Or(zb(x), zb(y)))), a, b, 'b')


def npmax(x, y):
    """numpy maximum: NaN propagates"""
    r = K.maxv(x, y)
    return nanprop(r, x, y)


def nanprop(r, x, y):
    if K.concrete(x, y):
        return r
    if K.sort_of(x) == 'f' or K.sort_of(y) == 'f':
        (_, kx), (_, ky) = K.fl(x), K.fl(y)
        if kx is not None or ky is not None:
            e, k = K.fl(r)
            return K.mkf(e, z3.If(z3.Or(K.kz(kx) == K.NAN, K.kz(ky) == K.NAN), K.NAN, K.kz(k)))
    return r


def npmin(x, y):
    return nanprop(K.minv(x, y), x, y)


@model(np.maximum)
def np_maximum(it, a, b, **k):
    if isinstance(a, (Arr, list, np.ndarray)) or isinstance(b, (Arr, list, np.ndarray)):
        return elementwise2(npmax, a, b, dtjoin(sort_dt(a), sort_dt(b)))
    return npmax(a, b)


@model(np.minimum)
def np_minimum(it, a, b, **k):
    if isinstance(a, (Arr, list, np.ndarray)) or isinstance(b, (Arr, list, np.ndarray)):
        return elementwise2(npmin, a, b, dtjoin(sort_dt(a), sort_dt(b)))
    return npmin(a, b)


@model(np.clip)
def np_clip(it, a, lo, hi, **k):
    r = a
    if lo is not None:
        r = np_maximum(it, r, lo)
    if hi is not None:
        r = np_minimum(it, r, hi)
    return r


@model(np.nan_to_num)
def np_nan_to_num(it, a, copy=True, nan=0.0, posinf=None, neginf=None):
    if posinf is not None or neginf is not None:
        raise Unsupported('nan_to_num with infinities')
    f = lambda x: K.ite(zb(K.isnan(x)), nan, x)
    return elementwise1(f, a)


def where1(c):
    c = as_arr(c)
    if c.ndim != 1:
        raise Unsupported('where of a matrix')
    s = selection(c)
    a = Arr((s.m,), 'i', lambda idx: mk(s.sel(idx[0])))
    a.tag['where'] = s
    return (a,)


@model(np.where)
def np_where(it, c, a=None, b=None):
    if a is None:
        return where1(c)
    c = as_arr(c) if isinstance(c, (Arr, list, np.ndarray)) else c
    if not isinstance(c, Arr):
        raise Unsupported('where of a scalar')
    aa = a if isinstance(a, Arr) else (as_arr(a) if isinstance(a, (list, np.ndarray)) else Arr((), K.sort_of(a), lambda i: a))
    bb = b if isinstance(b, Arr) else (as_arr(b) if isinstance(b, (list, np.ndarray)) else Arr((), K.sort_of(b), lambda i: b))
    sh, (gc, ga, gb) = broadcast([c, aa, bb])
    dt = dtjoin(aa.dtype, bb.dtype)
    return Arr(sh, dt, lambda idx: K.ite(zb(gc(idx)), K.cast(ga(idx), dt), K.cast(gb(idx), dt)))


@model(np.nonzero, np.flatnonzero)
def np_nonzero(it, a):
    return where1(elementwise1(lambda x: mk(zb(x)), as_arr(a), 'b'))


@model(np.diag)
def np_diag(it, a, k=0):
    a = as_arr(a)
    s = a.snap()
    if k != 0:
        raise Unsupported('diag offset')
    if a.ndim == 1:
        n = a.shape[0]
        zero = {'f': 0.0, 'i': 0, 'b': False}[a.dtype]
        return Arr((n, n), a.dtype, lambda idx: K.ite(idx[0] == idx[1], s((idx[0],)), zero))
    n, m = a.shape
    if not K.dim_eq(n, m):
        raise Unsupported('diagonal of a non square matrix')
    # numpy returns a (read-only) view
    return Arr((n,), a.dtype, lambda idx: s((idx[0], idx[0])))


@model(np.fill_diagonal)
def np_fill_diagonal(it, a, v, **k):
    if isinstance(v, Arr):
        raise Unsupported('fill_diagonal with an array')
    a.write(lambda idx: idx[0] == idx[1], lambda idx: v)


def tri(lower):
    def g(it, a, k=0):
        a = as_arr(a)
        s = a.snap()
        kk = zi(k)
        zero = {'f': 0.0, 'i': 0, 'b': False}[a.dtype]
        if lower:
            return Arr(a.shape, a.dtype, lambda idx: K.ite(idx[1] - idx[0] <= kk, s(idx), zero))
        return Arr(a.shape, a.dtype, lambda idx: K.ite(idx[1] - idx[0] >= kk, s(idx), zero))
    return g


model(np.tril)(tri(True))
model(np.triu)(tri(False))


@model(np.outer)
def np_outer(it, a, b):
    a, b = as_arr(a), as_arr(b)
    sa, sb = a.snap(), b.snap()
    return Arr((a.shape[0], b.shape[0]), dtjoin(a.dtype, b.dtype), lambda idx: K.mul(sa((idx[0],)), sb((idx[1],))))


DOT = []


@model(np.dot, np.matmul)
def dot(it, a, b):
    for h in DOT:
        r = h(it, a, b)
        if r is not NotImplemented:
            return r
    raise Unsupported('matrix product')


@model(np.transpose)
def np_transpose(it, a):
    return transpose(as_arr(a))


@model(np.any)
def np_any(it, a, *x, **k):
    return any_(a)


@model(np.all)
def np_all(it, a, *x, **k):
    return all_(a)


@model(np.array_equal)
def np_array_equal(it, a, b, **k):
    a, b = as_arr(a), as_arr(b)
    if a.ndim != b.ndim:
        return False
    for x, y in zip(a.shape, b.shape):
        if not K.dim_eq(x, y) and not CTX.decide(dz(x) == dz(y), 'array_equal'):
            return False
    return all_(elementwise2(lambda x, y: K.cmp('==', x, y), a, b, 'b'))


@model(np.sum)
def np_sum(it, a, axis=None, **k):
    return sum_(a, axis)


@model(np.cumsum)
def np_cumsum(it, a, *x, **k):
    return cumsum(a)


@model(np.mean)
def np_mean(it, a):
    return m_mean(it, as_arr(a))


@model(np.max, np.amax)
def np_max(it, a, *x, **k):
    return extremum(a, 1, 'max')


@model(np.min, np.amin)
def np_min(it, a, *x, **k):
    return extremum(a, -1, 'min')


@model(np.sort)
def np_sort(it, a, *x, **k):
    return sort1(a)[0]


@model(np.argsort)
def np_argsort(it, a, *x, **k):
    r, perm, inv = sort1(a)
    return Arr(r.shape, 'i', lambda idx: mk(perm(idx[0])))


@model(np.searchsorted)
def np_searchsorted(it, a, v, side='left', **k):
    if isinstance(v, (list, np.ndarray)):
        v = as_arr(v)
    return searchsorted(a, v, side)


@model(np.diff)
def np_diff(it, a, n=1, **k):
    a = as_arr(a)
    if n != 1 or a.ndim != 1:
        raise Unsupported('diff')
    s = a.snap()
    m = dz(a.shape[0])
    ln = simp(m - 1) if CTX.valid(m >= 1) else z3.If(m >= 1, m - 1, IV(0))
    return Arr((ln,), a.dtype, lambda idx: K.sub(s((simp(idx[0] + 1),)), s(idx)))


@model(np.concatenate, np.hstack)
def np_concat(it, xs, axis=0, **k):
    if axis != 0:
        raise Unsupported('concatenate axis')
    xs = it.to_list(xs)
    arrs = [as_arr(x) for x in xs]
    return concat(arrs)


@model(np.append)
def np_append(it, a, b, **k):
    one = lambda v: as_arr(v) if not K.isnum(v) else Arr((1,), K.sort_of(v), lambda idx: v)
    return concat([one(a), one(b)])


@model(np.insert)
def np_insert(it, a, pos, v, **k):
    a = as_arr(a)
    if a.ndim != 1 or not K.isnum(v) or isinstance(pos, (Arr, list)):
        raise Unsupported('insert')
    n = dz(a.shape[0])
    p = zi(pos) if not (isinstance(pos, int) and pos < 0) else simp(n + pos)
    s = a.snap()
    dt = a.dtype
    vv = K.cast(v, dt)
    return Arr((simp(n + 1),), dt, lambda idx: K.ite(idx[0] == p, vv, K.ite(idx[0] < p, s(idx), s((simp(idx[0] - 1),)))))


@model(np.flip, np.flipud)
def np_flip(it, a, axis=None):
    a = as_arr(a)
    if a.ndim != 1:
        raise Unsupported('flip')
    return arr_get(it, nolist(a), slice(None, None, -1))


@model(np.ix_)
def np_ix(it, *keys):
    out = []
    for k in keys:
        a = Arr((1, 1), 'i', lambda idx: 0)
        a.tag['ix'] = as_arr(k)
        out.append(a)
    return tuple(out)


@model(np.isclose)
def np_isclose(it, a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    def f(x, y):
        (ex, kx), (ey, ky) = K.fl(x), K.fl(y)
        r = K.cmp('<=', K.absv(K.sub(x, y)), K.add(atol, K.mul(rtol, K.absv(y))))
        if kx is None and ky is None:
            return r
        return mk(z3.And(K.fin(x), K.fin(y), zb(r)))
    if isinstance(a, (Arr, list, np.ndarray)) or isinstance(b, (Arr, list, np.ndarray)):
        return elementwise2(f, a, b, 'b')
    return f(a, b)


@model(np.allclose)
def np_allclose(it, a, b, **k):
    r = np_isclose(it, a, b, **k)
    return all_(r) if isinstance(r, Arr) else r


@model(np.shape)
def np_shape(it, a):
    return tuple(dv(d) for d in as_arr(a).shape)


@model(np.ravel)
def np_ravel(it, a):
    return ravel(as_arr(a))


@model(np.reshape)
def np_reshape(it, a, sh):
    return m_reshape(it, as_arr(a), sh)


@model(np.split)
def np_split(it, a, n, **k):
    raise Unsupported('split')


@model(np.float64, np.double)
def np_float(it, x=0.0):
    return b_float(it, x)


@model(np.int64, np.int32)
def np_int(it, x=0):
    return b_int(it, x)


@model(np.isscalar)
def np_isscalar(it, x):
    return isinstance(x, Sym) or np.isscalar(x)


@model(np.iterable)
def np_iterable(it, x):
    return isinstance(x, (Arr, list, tuple, SList))


class _NullCtx:
    pass


@model(np.errstate)
def np_errstate(it, **k):
    return Opaque('errstate')


I.FORCE_MODEL.add(np.errstate)


# ---------------------------------------------------------------- builtins
@model(len)
def b_len(it, x):
    return it.length(x)


@model(range)
def b_range(it, *a):
    if not any(isinstance(x, Sym) for x in a):
        for x in a:
            if not isinstance(x, (int, np.integer)) or isinstance(x, bool):
                raise PyRaise(TypeError, ('range',))
        return range(*[int(x) for x in a])
    for x in a:
        if isinstance(x, Sym) and x.s == 'f' or isinstance(x, float):
            raise PyRaise(TypeError, ("'float' object cannot be interpreted as an integer",))
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
    if not isinstance(st, int) or st == 0:
        raise Unsupported('range step')
    lo, hi = zi(lo), zi(hi)
    if st > 0:
        d = simp(hi - lo)
        n = d if st == 1 else simp((d + (st - 1)) / st)
    else:
        d = simp(lo - hi)
        n = d if st == -1 else simp((d + (-st - 1)) / (-st))
    if not (CTX.capture is None and CTX.valid(n >= 0)):
        n = z3.If(n >= 0, n, IV(0))
    return IterSpec(simp(n), lambda i: mk(simp(lo + st * i)))


@model(enumerate)
def b_enumerate(it, x, start=0):
    s = it.iterate(x)
    if isinstance(s, IterSpec):
        return IterSpec(s.n, lambda i: (K.add(start, mk(i)), s.fn(i)))
    return [(start + k, v) for k, v in enumerate(s)]


@model(zip)
def b_zip(it, *xs, **k):
    its = [it.iterate(x) for x in xs]
    if not any(isinstance(s, IterSpec) for s in its):
        return [tuple(t) for t in zip(*its)]
    conv = []
    for s in its:
        if isinstance(s, IterSpec):
            conv.append(s)
        else:
            conv.append(IterSpec(len(s), lambda i, s=s: pick(it, s, i)))
    n = conv[0].n
    for c in conv[1:]:
        if K.dim_eq(n, c.n):
            continue
        if CTX.valid(dz(n) <= dz(c.n)):
            continue
        if CTX.valid(dz(c.n) <= dz(n)):
            n = c.n
            continue
        n = z3.If(dz(n) <= dz(c.n), dz(n), dz(c.n))
    if isinstance(n, int) and n <= 12:
        return [tuple(c.fn(IV(j)) for c in conv) for j in range(n)]
    return IterSpec(n, lambda i: tuple(c.fn(i) for c in conv))


def pick(it, s, i):
    i = simp(i)
    if z3.is_int_value(i):
        return s[i.as_long()]
    if all(K.isnum(v) for v in s):
        return as_arr(s).fn((i,))
    raise Unsupported('symbolic index into a python list')


@model(reversed)
def b_reversed(it, x):
    s = it.iterate(x)
    if isinstance(s, IterSpec):
        return IterSpec(s.n, lambda i: s.fn(simp(dz(s.n) - 1 - i)))
    return list(reversed(s))


@model(list)
def b_list(it, x=()):
    if isinstance(x, Arr):
        if x.ndim == 1:
            return Arr(x.shape, x.dtype, x.snap(), True)
        return SList(x.shape[0], lambda i: arr_get(it, x, mk(i)))
    if hasattr(x, 'as_list_'):
        return x.as_list_(it)
    s = it.iterate(x)
    if isinstance(s, IterSpec):
        return spec_to_list(s)
    return list(s)


def spec_to_list(s):
    i = CTX.fresh('probe', K.I_)
    CTX.pc.append(z3.And(i >= 0, i < dz(s.n)))
    cap, CTX.capture = CTX.capture, []
    try:
        v = s.fn(i)
    finally:
        CTX.capture = cap
        CTX.pc.pop()
    if K.isnum(v):
        return Arr((s.n,), K.sort_of(v), lambda idx: s.fn(idx[0]), True)
    return SList(s.n, s.fn)


@model(tuple)
def b_tuple(it, x=()):
    r = b_list(it, x)
    return tuple(r) if isinstance(r, list) else r


@model(set)
def b_set(it, x=()):
    s = it.iterate(x)
    if isinstance(s, IterSpec):
        raise Unsupported('set of symbolic length')
    if any(isinstance(v, Sym) for v in s):
        raise Unsupported('set of symbolic values')
    return set(s)


@model(sorted)
def b_sorted(it, x, key=None, reverse=False):
    if key is not None:
        raise Unsupported('sorted with key')
    s = it.iterate(x)
    if not isinstance(s, IterSpec):
        if not is_symbolic(s):
            return sorted(s, reverse=reverse)
        if not all(K.isnum(v) for v in s):
            raise Unsupported('sorting symbolic values')
        a = as_arr(s)
    else:
        a = as_arr(spec_to_list(s)) if not isinstance(x, Arr) else x
    r, _, _ = sort1(a)
    if reverse:
        r = arr_get(it, r, slice(None, None, -1)).copy()
    r.islist = True
    return r


@model(map)
def b_map(it, f, x):
    s = it.iterate(x)
    if isinstance(s, IterSpec):
        return IterSpec(s.n, lambda i: it.call(f, (s.fn(i),)))
    return [it.call(f, (v,)) for v in s]


def b_minmax(sign, name):
    def g(it, *a, **k):
        if k:
            raise Unsupported(f'{name} with keywords')
        if len(a) == 1:
            x = a[0]
            if hasattr(x, 'as_arr_'):
                x = x.as_arr_()
            if isinstance(x, Arr) and not (isinstance(x.shape[0], int) and x.shape[0] <= 8):
                return extremum(x, sign, name)
            xs = it.iterate(x)
            if isinstance(xs, IterSpec):
                return extremum(as_arr(spec_to_list(xs)), sign, name)
            if not xs:
                raise PyRaise(ValueError, (f'{name}() arg is an empty sequence',))
        else:
            xs = list(a)
        r = xs[0]
        for v in xs[1:]:
            if not (K.isnum(r) and K.isnum(v)):
                raise Unsupported(f'{name} of {type(v).__name__}')
            r = K.maxv(r, v) if sign > 0 else K.minv(r, v)
        return r
    return g


model(min)(b_minmax(-1, 'min'))
model(max)(b_minmax(1, 'max'))


@model(abs)
def b_abs(it, x):
    return np_abs(it, x)


@model(sum)
def b_sum(it, x, start=0):
    s = it.iterate(x)
    if isinstance(s, IterSpec):
        a = as_arr(spec_to_list(s)) if not isinstance(x, Arr) else x
        if a.ndim != 1:
            raise Unsupported('sum of arrays')
        return K.add(start, sum_(a))
    r = start
    for v in s:
        r = it.binop(ast.Add(), r, v)
    return r


@model(any)
def b_any(it, x):
    s = it.iterate(x)
    if isinstance(s, IterSpec):
        return any_(as_arr(spec_to_list(s)))
    xs = [zb(it.truth(v)) for v in s]
    return mk(simp(z3.Or(*xs))) if xs else False


@model(all)
def b_all(it, x):
    s = it.iterate(x)
    if isinstance(s, IterSpec):
        return all_(as_arr(spec_to_list(s)))
    xs = [zb(it.truth(v)) for v in s]
    return mk(simp(z3.And(*xs))) if xs else True


@model(int)
def b_int(it, x=0, *a):
    if isinstance(x, Sym):
        if x.s == 'f' and x.k is not None:
            if not CTX.decide(x.k == K.FIN, 'int()'):
                raise PyRaise(ValueError, ('cannot convert float to integer',))
            x = K.mkf(x.e)
        return K.cast(x, 'i')
    if isinstance(x, Arr) and x.ndim == 0:
        return K.cast(x.at(), 'i')
    if isinstance(x, Str):
        from . import text
        return text.to_int(x)
    raise PyRaise(TypeError, ('int',))


@model(float)
def b_float(it, x=0.0):
    if isinstance(x, Sym):
        return K.cast(x, 'f') if x.s != 'f' else x
    if isinstance(x, Arr) and x.ndim == 0:
        return K.cast(x.at(), 'f')
    for h in I.FLOAT:
        r = h(x)
        if r is not NotImplemented:
            return r
    if isinstance(x, Str):
        from . import text
        return text.to_float(x)
    raise PyRaise(TypeError, ('float',))


@model(bool)
def b_bool(it, x=False):
    return it.truth(x)


@model(round)
def b_round(it, x, nd=None):
    raise Unsupported('round')


@model(divmod)
def b_divmod(it, a, b):
    return K.floordiv(a, b), K.mod(a, b)


@model(isinstance)
def b_isinstance(it, x, t):
    ts = t if isinstance(t, tuple) else (t,)
    out = []
    for q in flatten_types(ts):
        out.append(one_isinstance(x, q))
    return any(out)


def flatten_types(ts):
    for t in ts:
        if isinstance(t, tuple):
            yield from flatten_types(t)
        else:
            yield t


def one_isinstance(x, q):
    import collections.abc as cabc
    import numbers
    if hasattr(x, 'isinstance_'):
        return x.isinstance_(q)
    if isinstance(x, SObj):
        return issubclass(x.cls, q)
    if isinstance(x, Arr):
        if x.islist:
            return q in (list, cabc.Iterable, cabc.Sequence, cabc.MutableSequence, cabc.Sized, object)
        return q in (np.ndarray, cabc.Iterable, cabc.Sized, object)
    if isinstance(x, SList):
        return q in (list, cabc.Iterable, cabc.Sequence, cabc.Sized, object)
    if isinstance(x, Sym):
        rep = {'i': 0, 'f': 0.0, 'b': False}[x.s]
        return isinstance(rep, q)
    if isinstance(x, Str):
        return q in (str, cabc.Iterable, cabc.Sequence, object)
    if isinstance(x, (I.PyFunc, I.Bound)):
        return q in (cabc.Callable, object)
    if isinstance(x, PyRaise):
        return issubclass(x.cls, q)
    try:
        return isinstance(x, q)
    except TypeError:
        raise Unsupported('isinstance')


@model(hasattr)
def b_hasattr(it, o, name):
    try:
        it.getattr(o, name)
        return True
    except PyRaise as ex:
        if issubclass(ex.cls, AttributeError):
            return False
        raise


@model(getattr)
def b_getattr(it, o, name, *d):
    try:
        return it.getattr(o, name)
    except PyRaise as ex:
        if d and issubclass(ex.cls, AttributeError):
            return d[0]
        raise


@model(setattr)
def b_setattr(it, o, name, v):
    it.setattr(o, name, v)


@model(callable)
def b_callable(it, o):
    return isinstance(o, (I.PyFunc, I.Bound, Model)) or callable(o)


@model(type)
def b_type(it, x):
    if isinstance(x, SObj):
        return x.cls
    if isinstance(x, Arr):
        return list if x.islist else np.ndarray
    if isinstance(x, Sym):
        return {'i': int, 'f': float, 'b': bool}[x.s]
    if isinstance(x, Str):
        return str
    raise Unsupported('type()')


@model(str, repr, format)
def b_str(it, x='', *a):
    if a:
        return I.fmt_join([I.fmt_value(x, a[0]) if isinstance(a[0], str) else None])
    return I.fmt_join([I.fmt_value(x)])


@model(print)
def b_print(it, *a, **k):
    return None


I.FORCE_MODEL.add(print)


@model(id)
def b_id(it, x):
    raise Unsupported('id')


@model(warnings.warn)
def w_warn(it, *a, **k):
    return None


I.FORCE_MODEL.add(warnings.warn)


@model(math.sqrt)
def math_sqrt(it, x):
    if isinstance(x, Sym):
        e, k = K.fl(x)
        if not CTX.decide(e >= 0, 'math.sqrt'):
            raise PyRaise(ValueError, ('math domain error',))
    return K.sqrt(x)


@model(math.log)
def math_log(it, x, *b):
    if b:
        raise Unsupported('log base')
    e, k = K.fl(x)
    if not CTX.decide(e > 0, 'math.log'):
        raise PyRaise(ValueError, ('math domain error',))
    return K.log(x)


model(math.exp)(lambda it, x: K.exp(x))
model(math.isnan)(lambda it, x: K.isnan(x))


import copy as _copy


def deep(v, memo=None):
    memo = {} if memo is None else memo
    if id(v) in memo:
        return memo[id(v)]
    if isinstance(v, Arr):
        r = Arr(v.shape, v.dtype, v.snap(), v.islist, dict(v.tag))
    elif isinstance(v, SObj):
        r = SObj(v.cls)
        memo[id(v)] = r
        r.attrs.update({k: deep(x, memo) for k, x in v.attrs.items()})
        return r
    elif isinstance(v, list):
        r = []
        memo[id(v)] = r
        r.extend(deep(x, memo) for x in v)
        return r
    elif isinstance(v, dict):
        r = {}
        memo[id(v)] = r
        r.update({k: deep(x, memo) for k, x in v.items()})
        return r
    elif isinstance(v, tuple):
        r = tuple(deep(x, memo) for x in v)
    elif isinstance(v, set):
        r = set(v)
    elif hasattr(v, 'deepcopy_'):
        r = v.deepcopy_(memo)
    elif is_symbolic(v) and not isinstance(v, (Sym, Str, I.PyFunc, I.Bound, Model, Opaque)):
        raise Unsupported(f'deepcopy of {type(v).__name__}')
    else:
        r = v
    memo[id(v)] = r
    return r


@model(_copy.deepcopy)
def c_deepcopy(it, v, *a):
    return deep(v)


@model(_copy.copy)
def c_copy(it, v):
    if isinstance(v, Arr):
        return v.copy()
    if isinstance(v, SObj):
        r = SObj(v.cls)
        r.attrs.update(v.attrs)
        return r
    if isinstance(v, (list, dict, set)):
        return v.copy()
    raise Unsupported('copy')


@model(np.union1d)
def np_union1d(it, a, b):
    """the strictly ascending enumeration of the values of two arrays of finite numbers"""
    a, b = ravel(as_arr(a)) if as_arr(a).ndim > 1 else as_arr(a), ravel(as_arr(b)) if as_arr(b).ndim > 1 else as_arr(b)
    k = next(CTX.fresh_n)
    u = z3.Function(f'union!{k}', K.I_, K.R_)
    who = z3.Function(f'unionw!{k}', K.I_, K.I_)
    L = z3.Int(f'unionn!{k}')
    sa, sb = a.snap(), b.snap()
    na, nb = dz(a.shape[0]), dz(b.shape[0])
    q, r = z3.Ints(f'q!{k} r!{k}')
    for sn, n in ((sa, na), (sb, nb)):
        i = CTX.fresh('i', K.I_)
        if not CTX.valid(z3.Implies(z3.And(i >= 0, i < n), K.fin(sn((i,)))), 3000):
            raise Unsupported('union1d of values that may not be finite')
    CTX.fact(z3.And(L >= 0, L <= na + nb))
    val = lambda sn, i: K.fl(sn((i,)))[0]
    CTX.axioms.append(z3.ForAll([q, r], z3.Implies(z3.And(q >= 0, q < r, r < L), u(q) < u(r)), patterns=[z3.MultiPattern(u(q), u(r))]))
    at = z3.Function(f'unionat!{k}', K.R_, K.I_)
    for sn, n in ((sa, na), (sb, nb)):
        v = val(sn, q)
        CTX.axioms.append(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), z3.And(at(v) >= 0, at(v) < L, u(at(v)) == v)), patterns=patterns(v, q)[:2] or []))
    CTX.axioms.append(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < L), z3.Or(
        z3.And(who(q) >= 0, who(q) < na, val(sa, who(q)) == u(q)), z3.And(who(q) < 0, -1 - who(q) < nb, val(sb, -1 - who(q)) == u(q)))), patterns=[u(q)]))
    out = Arr((dim(L),), 'f', lambda idx: K.Sym('f', u(idx[0])))
    out.tag['sorted'] = True
    return out


import functools as _functools


@model(_functools.reduce)
def f_reduce(it, f, xs, *init):
    xs = list(init) + [x for x in it.to_list(xs)]
    if not xs:
        raise PyRaise(TypeError, ('reduce() of empty iterable with no initial value',))
    r = xs[0]
    for x in xs[1:]:
        r = it.call(f, (r, x))
    return r


# arrays that are filled later are symbolic from the start
for _f in (np.zeros, np.ones, np.empty, np.identity, np.eye, np.full):
    if id(_f) in I.MODELS:
        I.FORCE_MODEL.add(_f)
