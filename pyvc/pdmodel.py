"""Trusted models of the pandas operations the repository uses (tables with named columns, labelled matrices,
series, HDF stores) over symbolic arrays."""
import ast
import z3
import numpy as np
import pandas as pd
from . import core as K, interp as I, npmodel as N
from .core import Arr, Sym, SList, Str, Unsupported, PyRaise, mk, zi, zb, dz, dim, dv, simp
from .interp import model, Model, IterSpec, is_symbolic

CTX = K.CTX
K.register(__import__('sys').modules[__name__])
IV = z3.IntVal
TRUE = z3.BoolVal(True)


# ---------------------------------------------------------------- labels
class Labels:
    """integer labels start..start+n-1, or arbitrary integer labels given by fn"""
    def __init__(self, n, start=None, fn=None, name=None):
        self.n, self.start, self._fn, self.name = dim(n), start, fn, name

    def fn(self, i):
        return mk(simp(dz(self.start) + i)) if self.start is not None else self._fn(i)

    def arr(self):
        return Arr((self.n,), 'i', lambda idx: self.fn(idx[0]))

    def pos(self, k):
        """position of label k; KeyError path when absent"""
        if self.start is None:
            raise Unsupported('lookup in arbitrary labels')
        if isinstance(k, (float, np.floating)) and float(k).is_integer():
            k = int(k)
        e = simp(zi(k) - dz(self.start))
        ok = simp(z3.And(e >= 0, e < dz(self.n)))
        if z3.is_true(ok) or CTX.capture is not None:
            return e
        if not CTX.decide(ok, 'label'):
            raise PyRaise(KeyError, ('label',))
        return e

    def same(self, o):
        if self.start is not None and o.start is not None:
            return K.dim_eq(self.n, o.n) and K.dim_eq(self.start, o.start)
        if not K.dim_eq(self.n, o.n):
            return False
        i = CTX.fresh('lab', K.I_)
        return CTX.valid(z3.Implies(z3.And(i >= 0, i < dz(self.n)), zi(self.fn(i)) == zi(o.fn(i))))

    def as_arr_(self):
        return self.arr()

    def as_list_(self, it):
        a = self.arr()
        a.islist = True
        return a


class Strs:
    """concrete column labels"""
    def __init__(self, names):
        self.names = list(names)

    @property
    def n(self):
        return len(self.names)

    def as_list_(self, it):
        return list(self.names)


def labels_of(x, n):
    if x is None:
        return Labels(n, 0)
    if isinstance(x, (Labels, Strs)):
        return x
    if isinstance(x, range) and x.step == 1:
        return Labels(len(x), x.start)
    if isinstance(x, IterSpec):
        return labels_from_arr(N.as_arr(N.spec_to_list(x)))
    if isinstance(x, Arr):
        return labels_from_arr(x)
    if isinstance(x, pd.Index):
        x = list(x)
    if isinstance(x, (list, tuple)):
        if all(isinstance(v, str) for v in x):
            return Strs(x)
        if all(isinstance(v, int) for v in x) and list(x) == list(range(x[0], x[0] + len(x))):
            return Labels(len(x), x[0])
    raise Unsupported('labels')


def labels_from_arr(a):
    s = a.snap()
    i = CTX.fresh('lab', K.I_)
    if a.dtype == 'i':
        e0 = simp(zi(s((IV(0),))))
        if CTX.valid(z3.Implies(z3.And(i >= 0, i < dz(a.shape[0])), zi(s((i,))) == e0 + i)):
            return Labels(a.shape[0], dim(e0))
        return Labels(a.shape[0], None, lambda i: s((i,)))
    raise Unsupported('non integer labels')


# ---------------------------------------------------------------- series
class Series:
    def __init__(self, vals, index=None, name=None):
        self.vals, self.index, self.name = vals, index or Labels(vals.shape[0], 0), name

    def as_arr_(self):
        return self.vals

    def as_list_(self, it):
        return Arr(self.vals.shape, self.vals.dtype, self.vals.snap(), True)

    def map_(self, f, dt=None):
        return Series(N.elementwise1(f, self.vals, dt), self.index, self.name)

    def isinstance_(self, q):
        return q in (pd.Series, object)

    def deepcopy_(self, memo):
        return Series(self.vals.copy(), self.index, self.name)


# ---------------------------------------------------------------- data frames
class Table:
    """named float columns over a common index"""
    def __init__(self, cols, index):
        self.cols, self.index = dict(cols), index

    def isinstance_(self, q):
        return q in (pd.DataFrame, object)

    def deepcopy_(self, memo=None):
        return Table({k: v.copy() for k, v in self.cols.items()}, self.index)

    def setattr_(self, it, name, v):
        if name == 'index':
            self.index = labels_of(v, self.index.n)
            return
        raise Unsupported(f'DataFrame.{name} assignment')


class Matrix:
    """a labelled 2-d block of one dtype"""
    def __init__(self, vals, index=None, columns=None):
        self.vals = vals
        self.index = index or Labels(vals.shape[0], 0)
        self.columns = columns or Labels(vals.shape[1], 0)

    def isinstance_(self, q):
        return q in (pd.DataFrame, object)

    def as_arr_(self):
        return self.vals

    def deepcopy_(self, memo=None):
        return Matrix(self.vals.copy(), self.index, self.columns)

    def map_(self, f, dt=None):
        return Matrix(N.elementwise1(f, self.vals, dt), self.index, self.columns)

    def setattr_(self, it, name, v):
        if name in ('index', 'columns'):
            setattr(self, name, labels_of(v, getattr(self, name).n))
            return
        raise Unsupported(f'DataFrame.{name} assignment')


class Loc:
    def __init__(self, df, positional=False):
        self.df, self.positional = df, positional


def aligned(a, b):
    if not (a.index.same(b.index) and (not isinstance(a, Matrix) or a.columns.same(b.columns))):
        raise Unsupported('operation on differently labelled frames')


# ---------------------------------------------------------------- operators
def pd_binop(it, op, a, b):
    if isinstance(a, Matrix) or isinstance(b, Matrix):
        m = a if isinstance(a, Matrix) else b
        if isinstance(a, Matrix) and isinstance(b, Matrix):
            aligned(a, b)
            r = N.binop(it, op, a.vals, b.vals)
        elif isinstance(a, Matrix):
            if isinstance(b, Series):
                raise Unsupported('DataFrame with Series')
            r = it.binop(op, a.vals, b)
        else:
            if isinstance(a, Series):
                raise Unsupported('Series with DataFrame')
            r = it.binop(op, a, b.vals)
        return Matrix(r, m.index, m.columns)
    if isinstance(a, Series) or isinstance(b, Series):
        s = a if isinstance(a, Series) else b
        if isinstance(a, Series) and isinstance(b, Series):
            aligned(a, b)
        x = a.vals if isinstance(a, Series) else a
        y = b.vals if isinstance(b, Series) else b
        return Series(it.binop(op, x, y), s.index)
    return NotImplemented


I.BINOPS.append(pd_binop)


def pd_compare(it, o, a, b):
    if isinstance(a, (Matrix, Series)) or isinstance(b, (Matrix, Series)):
        m = a if isinstance(a, (Matrix, Series)) else b
        if type(a) is type(b):
            aligned(a, b)
        x = a.vals if isinstance(a, (Matrix, Series)) else a
        y = b.vals if isinstance(b, (Matrix, Series)) else b
        r = N.elementwise2(lambda p, q: K.cmp(o, p, q), x, y, 'b')
        return Matrix(r, m.index, m.columns) if isinstance(m, Matrix) else Series(r, m.index)
    if isinstance(a, Labels) or isinstance(b, Labels):
        x = a.arr() if isinstance(a, Labels) else a
        y = b.arr() if isinstance(b, Labels) else b
        return N.elementwise2(lambda p, q: K.cmp(o, p, q), x, y, 'b')
    return NotImplemented


I.COMPARE.append(pd_compare)


def pd_unop(it, op, v):
    if isinstance(v, (Matrix, Series)):
        if isinstance(op, ast.Invert):
            r = N.invert(v.vals)
        elif isinstance(op, ast.USub):
            r = N.elementwise1(K.neg, v.vals)
        else:
            return v
        return Matrix(r, v.index, v.columns) if isinstance(v, Matrix) else Series(r, v.index)
    return NotImplemented


I.UNOPS.append(pd_unop)


def pd_len(it, v):
    if isinstance(v, (Matrix, Series, Table)):
        return dv(v.index.n)
    if isinstance(v, (Labels, Strs)):
        return dv(v.n)
    return NotImplemented


I.LEN.append(pd_len)


def pd_iter(it, v):
    if isinstance(v, Series):
        return it.iterate(v.vals)
    if isinstance(v, Labels):
        return it.iterate(v.arr())
    if isinstance(v, Strs):
        return list(v.names)
    if isinstance(v, Table):
        return list(v.cols)
    if isinstance(v, Matrix):
        return it.iterate(v.columns.arr())
    return NotImplemented


I.ITER.append(pd_iter)


def pd_contains(it, c, x):
    if isinstance(c, Table):
        return x in c.cols
    return NotImplemented


I.CONTAINS.append(pd_contains)


# ---------------------------------------------------------------- indexing
def series_get(it, s, k):
    if isinstance(k, Series):
        k = k.vals
    if isinstance(k, (Arr, np.ndarray, list)):
        kk = N.as_arr(k)
        if kk.dtype == 'b':
            v = N.gather(s.vals, 0, kk)
            sel = N.selection(kk)
            lab = s.index
            return Series(v, Labels(v.shape[0], None, lambda i: lab.fn(sel.sel(i))))
        if kk.dtype != 'i':
            raise Unsupported('series lookup by non integers')
        # label based lookup of several labels
        if s.index.start is None:
            raise Unsupported('lookup in arbitrary labels')
        f = kk.snap()
        st = dz(s.index.start)
        if CTX.capture is None:
            i = CTX.fresh('li', K.I_)
            CTX.pc.append(z3.And(i >= 0, i < dz(kk.shape[0])))
            try:
                e = zi(f((i,))) - st
                okk = CTX.valid(z3.And(e >= 0, e < dz(s.index.n)), 6000)
            finally:
                CTX.pc.pop()
            if not okk:
                # a missing label raises KeyError
                i = CTX.fresh('li', K.I_)
                e = zi(f((i,))) - st
                bad = z3.And(i >= 0, i < dz(kk.shape[0]), z3.Or(e < 0, e >= dz(s.index.n)))
                b = CTX.fresh('missing', K.B_)
                CTX.fact(z3.Implies(b, bad))
                CTX.forall(kk.shape[0], lambda q: z3.Implies(z3.Not(b), z3.And(zi(f((q,))) - st >= 0, zi(f((q,))) - st < dz(s.index.n))))
                if CTX.decide(b, 'labels'):
                    raise PyRaise(KeyError, ('labels not in index',))
        sn = s.vals.snap()
        v = Arr(kk.shape, s.vals.dtype, lambda idx: sn((simp(zi(f(idx)) - st),)))
        return Series(v, Labels(kk.shape[0], None, lambda i: f((i,))))
    if isinstance(k, slice):
        # integer slices of a series are positional
        v = N.arr_get(it, s.vals, k)
        off, ln, st = N.slice_bounds(k, s.vals.shape[0])
        return Series(v, Labels(ln, simp(dz(s.index.start) + off)) if s.index.start is not None and st == 1 else Labels(ln, None, lambda i: s.index.fn(off + st * i)))
    return s.vals.fn((s.index.pos(k),))


def series_set(it, s, k, v):
    if isinstance(k, Series):
        k = k.vals
    if isinstance(v, Series):
        v = v.vals
    if isinstance(k, (Arr, np.ndarray, list)):
        kk = N.as_arr(k)
        if kk.dtype == 'b':
            N.arr_set(it, s.vals, kk, v)
            return
        raise Unsupported('series assignment')
    if isinstance(k, slice):
        N.arr_set(it, s.vals, k, v)
        return
    p = s.index.pos(k)
    s.vals.write(lambda idx: idx[0] == p, lambda idx: v)


I.TYPE_INDEX.append((Series, series_get, series_set))


def table_get(it, t, k):
    if isinstance(k, str):
        if k not in t.cols:
            raise PyRaise(KeyError, (k,))
        return Series(t.cols[k], t.index, k)
    if isinstance(k, list) and all(isinstance(x, str) for x in k):
        return Table({x: t.cols[x].copy() for x in k}, t.index)
    raise Unsupported('table lookup')


def column_values(it, t, v):
    n = t.index.n
    if isinstance(v, Series):
        if not v.index.same(t.index):
            raise Unsupported('assignment of a differently labelled series')
        return v.vals.copy()
    if isinstance(v, (Arr, list, np.ndarray)):
        a = N.fresh_copy(v)
        if a.ndim != 1:
            raise Unsupported('column of rank 2')
        if not K.dim_eq(a.shape[0], n):
            if not CTX.decide(dz(a.shape[0]) == dz(n), 'column length'):
                raise PyRaise(ValueError, ('Length of values does not match length of index',))
        return Arr((n,), a.dtype, a._fn)
    if K.isnum(v):
        return Arr((n,), K.sort_of(v), lambda idx: v)
    raise Unsupported('column value')


def table_set(it, t, k, v):
    if isinstance(k, str):
        if CTX.loop_logs or CTX.guards:
            raise Unsupported('column assignment in a symbolic loop')
        t.cols[k] = column_values(it, t, v)
        return
    raise Unsupported('table assignment')


I.TYPE_INDEX.append((Table, table_get, table_set))


def matrix_get(it, m, k):
    if isinstance(k, Matrix):
        aligned(m, k)
        f, g = m.vals.snap(), k.vals.snap()
        return Matrix(Arr(m.vals.shape, 'f', lambda idx: K.ite(zb(g(idx)), K.cast(f(idx), 'f'), float('nan'))), m.index, m.columns)
    if K.isnum(k):
        p = m.columns.pos(k)
        return Series(m.vals.view((m.vals.shape[0],), [('dim', 0, IV(0), 1), ('fix', p)]), m.index, k)
    raise Unsupported('frame lookup')


def matrix_set(it, m, k, v):
    if isinstance(k, Matrix):
        aligned(m, k)
        g = k.vals.snap()
        if isinstance(v, Matrix):
            aligned(m, v)
            f = v.vals.snap()
            m.vals.write(lambda idx: zb(g(idx)), f)
            return
        if K.isnum(v):
            m.vals.write(lambda idx: zb(g(idx)), lambda idx: v)
            return
    if isinstance(k, Arr) and k.ndim == 2:
        return matrix_set(it, m, Matrix(k, m.index, m.columns), v)
    raise Unsupported('frame assignment')


I.TYPE_INDEX.append((Matrix, matrix_get, matrix_set))


def row_select(index, k, positional=False):
    """('all',) | ('slice', off, len) | ('mask', arr) | ('one', pos)"""
    if isinstance(k, Series):
        k = k.vals
    if isinstance(k, slice):
        if k.start is None and k.stop is None and k.step is None:
            return ('all',)
        if k.step not in (None, 1):
            raise Unsupported('loc step')
        if positional:
            off, ln, _ = N.slice_bounds(k, index.n)
            return ('slice', off, ln)
        if index.start is None:
            raise Unsupported('label slice of arbitrary labels')
        st, n = dz(index.start), dz(index.n)
        lo = IV(0) if k.start is None else simp(zi(k.start) - st)
        hi = n if k.stop is None else simp(zi(k.stop) - st + 1)     # inclusive
        clip = lambda e: e if CTX.valid(z3.And(e >= 0, e <= n)) else z3.If(e < 0, IV(0), z3.If(e > n, n, e))
        lo, hi = clip(lo), clip(hi)
        ln = simp(hi - lo)
        if not CTX.valid(ln >= 0):
            ln = z3.If(ln >= 0, ln, IV(0))
        return ('slice', lo, ln)
    if isinstance(k, (Arr, np.ndarray, list)) and N.is_mask(k):
        return ('mask', N.as_arr(k))
    if K.isnum(k):
        return ('one', N.norm_index(k, index.n) if positional else index.pos(k))
    raise Unsupported('loc key')


def apply_sel(index, s):
    """key for arr_get and the resulting labels"""
    if s[0] == 'all':
        return slice(None), index
    if s[0] == 'slice':
        lab = Labels(s[2], simp(dz(index.start) + s[1])) if index.start is not None else Labels(s[2], None, lambda i: index.fn(i + s[1]))
        return slice(mk(s[1]), mk(simp(s[1] + s[2]))), lab
    if s[0] == 'mask':
        sel = N.selection(s[1])
        return s[1], Labels(sel.m, None, lambda i: index.fn(sel.sel(i)))
    return mk(s[1]), None


def loc_get(it, l, k):
    d = l.df
    ks = k if isinstance(k, tuple) else (k,)
    if isinstance(d, Table):
        if len(ks) == 2 and isinstance(ks[1], str):
            if ks[1] not in d.cols:
                raise PyRaise(KeyError, (ks[1],))
            s = row_select(d.index, ks[0], l.positional)
            key, lab = apply_sel(d.index, s)
            a = d.cols[ks[1]]
            if s[0] == 'one':
                return a.fn((s[1],))
            v = N.arr_get(it, a, key)
            return Series(v if s[0] != 'all' else a, lab, ks[1])
        raise Unsupported('loc on a table')
    if isinstance(d, Series):
        s = row_select(d.index, ks[0], l.positional)
        key, lab = apply_sel(d.index, s)
        if s[0] == 'one':
            return d.vals.fn((s[1],))
        return Series(N.arr_get(it, d.vals, key), lab)
    r = row_select(d.index, ks[0], l.positional)
    c = row_select(d.columns, ks[1], l.positional) if len(ks) > 1 else ('all',)
    kr, lr = apply_sel(d.index, r)
    kc, lc = apply_sel(d.columns, c)
    v = d.vals
    if r[0] == 'one' and c[0] == 'one':
        return v.fn((r[1], c[1]))
    if r[0] == 'one':
        return Series(N.arr_get(it, N.arr_get(it, v, (kr, slice(None))), kc).copy(), lc)
    if c[0] == 'one':
        return Series(N.arr_get(it, N.arr_get(it, v, (slice(None), kc)), kr), lr)
    v = N.arr_get(it, v, (kr, slice(None)))
    v = N.arr_get(it, v, (slice(None), kc))
    return Matrix(v.copy(), lr, lc)


def loc_set(it, l, k, val):
    d = l.df
    if isinstance(val, (Series, Matrix)):
        raise Unsupported('loc assignment of a labelled object')
    ks = k if isinstance(k, tuple) else (k,)
    if isinstance(d, Table):
        if len(ks) == 2 and isinstance(ks[1], str):
            s = row_select(d.index, ks[0], l.positional)
            if ks[1] not in d.cols:
                raise Unsupported('loc creating a column')
            if s[0] == 'all':
                d.cols[ks[1]] = column_values(it, d, val)
                return
            key, _ = apply_sel(d.index, s)
            N.arr_set(it, d.cols[ks[1]], key, val)
            return
        if len(ks) == 2 and isinstance(ks[1], (list, tuple)) and ks[1] and all(isinstance(c, str) for c in ks[1]) and K.isnum(val):
            for c in ks[1]:
                loc_set(it, l, (ks[0], c), val)
            return
        raise Unsupported('loc assignment on a table')
    if isinstance(d, Series):
        s = row_select(d.index, ks[0], l.positional)
        N.arr_set(it, d.vals, apply_sel(d.index, s)[0], val)
        return
    r = row_select(d.index, ks[0], l.positional)
    c = row_select(d.columns, ks[1], l.positional) if len(ks) > 1 else ('all',)
    kr, _ = apply_sel(d.index, r)
    kc, _ = apply_sel(d.columns, c)
    if r[0] == 'mask' and c[0] == 'mask':
        ix = N.np_ix(it, kr, kc)
        N.arr_set(it, d.vals, ix, val)
        return
    N.arr_set(it, d.vals, (kr, kc), val)


I.TYPE_INDEX.append((Loc, loc_get, loc_set))
I.TYPE_INDEX.append((Labels, lambda it, l, k: l.fn(N.norm_index(k, l.n)) if K.isnum(k) else labels_of(N.arr_get(it, l.arr(), k), None), None))
I.TYPE_INDEX.append((Strs, lambda it, l, k: l.names[k], None))


# ---------------------------------------------------------------- attributes
def no_nan(a):
    """no element can be NaN (proved)"""
    idx = tuple(CTX.fresh('e', K.I_) for _ in a.shape)
    CTX.pc.append(K.in_range(idx, a.shape))
    try:
        v = a.fn(idx)
        if not isinstance(v, Sym) or v.s != 'f' or v.k is None:
            return True
        return CTX.valid(v.k != K.NAN, 4000)
    finally:
        CTX.pc.pop()


def series_attr(it, s, name):
    a = s.vals
    if name in ('values', 'array'):
        return a
    if name == 'index':
        return s.index
    if name == 'shape':
        return (dv(s.index.n),)
    if name == 'name':
        return s.name
    if name == 'size':
        return dv(s.index.n)
    if name == 'dtype':
        return N.arr_attr(it, a, 'dtype')
    if name in ('loc',):
        return Loc(s)
    if name == 'iloc':
        return Loc(s, True)
    if name == 'copy':
        return Model(lambda it, *x, **k: Series(a.copy(), s.index, s.name))
    if name in ('max', 'min'):
        if not no_nan(a):
            raise Unsupported('extremum of a series with missing values')
        return Model(lambda it, *x, **k: N.extremum(a, 1 if name == 'max' else -1, name))
    if name in ('any', 'all', 'sum', 'mean'):
        return N.arr_attr(it, a, name)
    if name in ('to_numpy',):
        return Model(lambda it, *x, **k: a)
    if name in ('tolist', 'to_list'):
        return Model(lambda it, *x, **k: Arr(a.shape, a.dtype, a.snap(), True))
    if name == 'items':
        return Model(lambda it: IterSpec(s.index.n, lambda i: (s.index.fn(i), a.fn((i,)))))
    if name in ('isna', 'isnull'):
        return Model(lambda it: s.map_(K.isnan, 'b'))
    if name in ('notna', 'notnull'):
        return Model(lambda it: s.map_(lambda x: K.not_(K.isnan(x)), 'b'))
    if name == 'fillna':
        def fna(it, v, **k):
            if k.get('inplace') or not K.isnum(v):
                raise Unsupported('fillna')
            return s.map_(lambda x: K.ite(zb(K.isnan(x)), v, x))
        return Model(fna)
    if name == 'abs':
        return Model(lambda it: s.map_(K.absv))
    if name == 'clip':
        return Model(lambda it, lower=None, upper=None, **k: Series(N.np_clip(it, a, lower, upper), s.index, s.name))
    if name in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
        o = {'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>=', 'eq': '==', 'ne': '!='}[name]
        return Model(lambda it, x, **k: pd_compare(it, o, s, x))
    if hasattr(pd.Series, name):
        raise Unsupported(f'Series.{name}')
    raise PyRaise(AttributeError, (name,))


I.TYPE_ATTRS.append((lambda o: isinstance(o, Series), series_attr))


def labels_attr(it, l, name):
    if name in ('values',):
        return l.arr() if isinstance(l, Labels) else list(l.names)
    if name in ('tolist', 'to_list'):
        return Model(lambda it: l.as_list_(it))
    if name in ('size',):
        return dv(l.n)
    if name == 'shape':
        return (dv(l.n),)
    if name == 'name':
        return getattr(l, 'name', None)
    if name == 'equals' and isinstance(l, Labels):
        return Model(lambda it, o: N.np_array_equal(it, l.arr(), o.arr()))
    raise Unsupported(f'Index.{name}')


I.TYPE_ATTRS.append((lambda o: isinstance(o, (Labels, Strs)), labels_attr))


def table_attr(it, t, name):
    if name == 'shape':
        return (dv(t.index.n), len(t.cols))
    if name == 'index':
        return t.index
    if name == 'columns':
        return Strs(t.cols)
    if name == 'loc':
        return Loc(t)
    if name == 'iloc':
        return Loc(t, True)
    if name == 'copy':
        return Model(lambda it, *a, **k: t.deepcopy_())
    if name in t.cols:
        return Series(t.cols[name], t.index, name)
    if hasattr(pd.DataFrame, name):
        raise Unsupported(f'DataFrame.{name}')
    raise PyRaise(AttributeError, (name,))


I.TYPE_ATTRS.append((lambda o: isinstance(o, Table), table_attr))


def matrix_attr(it, m, name):
    if name == 'values':
        return m.vals
    if name == 'to_numpy':
        return Model(lambda it, *a, **k: m.vals)
    if name == 'shape':
        return tuple(dv(d) for d in m.vals.shape)
    if name == 'index':
        return m.index
    if name == 'columns':
        return m.columns
    if name == 'T':
        return Matrix(N.transpose(m.vals), m.columns, m.index)
    if name == 'transpose':
        return Model(lambda it: Matrix(N.transpose(m.vals), m.columns, m.index))
    if name == 'loc':
        return Loc(m)
    if name == 'iloc':
        return Loc(m, True)
    if name == 'copy':
        return Model(lambda it, *a, **k: m.deepcopy_())
    if name == 'sum':
        return Model(lambda it, axis=0, **k: Series(N.sum_(m.vals, axis), m.columns if axis == 0 else m.index))
    if name in ('any', 'all'):
        def q(it, axis=0, **k):
            v = m.vals if axis == 0 else N.transpose(m.vals)
            lab = m.columns if axis == 0 else m.index
            x = v if name == 'any' else N.invert(v)
            s = N.sum_(x.copy(), 0)
            r = N.elementwise2(lambda a, b: K.cmp('>' if name == 'any' else '==', a, b), s, 0, 'b')
            return Series(r, lab)
        return Model(q)
    if name == 'dropna':
        def dn(it, axis=0, **k):
            if not no_nan(m.vals):
                raise Unsupported('dropna with possibly missing values')
            return m.deepcopy_()
        return Model(dn)
    if name == 'fillna':
        def fn_(it, v, **k):
            if k.get('inplace'):
                raise Unsupported('fillna inplace')
            return m.map_(lambda x: K.ite(zb(K.isnan(x)), v, x))
        return Model(fn_)
    if name in ('isna', 'isnull'):
        return Model(lambda it: m.map_(K.isnan, 'b'))
    if name == 'abs':
        return Model(lambda it: m.map_(K.absv))
    if name == 'clip':
        return Model(lambda it, lower=None, upper=None, **k: Matrix(N.np_clip(it, m.vals, lower, upper), m.index, m.columns))
    if name == 'mask':
        def msk(it, c, v):
            r = m.deepcopy_()
            matrix_set(it, r, c, v)
            return r
        return Model(msk)
    if name == 'where':
        def whr(it, c, v=float('nan')):
            r = m.deepcopy_()
            matrix_set(it, r, pd_unop(it, ast.Invert(), c), v)
            return r
        return Model(whr)
    if name == 'reset_index':
        def ri(it, drop=False, **k):
            if not drop:
                raise Unsupported('reset_index keeping the index')
            return Matrix(m.vals.copy(), Labels(m.vals.shape[0], 0), m.columns)
        return Model(ri)
    if name in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
        o = {'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>=', 'eq': '==', 'ne': '!='}[name]
        return Model(lambda it, x, **k: pd_compare(it, o, m, x))
    if name in ('div', 'divide', 'truediv', 'mul', 'multiply'):
        def dv_(it, x, axis='columns', **k):
            op = ast.Mult() if name.startswith('mul') else ast.Div()
            if K.isnum(x) or isinstance(x, Matrix):
                return pd_binop(it, op, m, x)
            a = N.as_arr(x)
            if axis in (0, 'index'):
                a2 = N.arr_get(it, N.nolist(a), (slice(None), None))
                return Matrix(N.binop(it, op, m.vals, a2), m.index, m.columns)
            return Matrix(N.binop(it, op, m.vals, N.nolist(a)), m.index, m.columns)
        return Model(dv_)
    if name == 'items':
        return Model(lambda it: IterSpec(m.columns.n, lambda i: (m.columns.fn(i), Series(N.arr_get(it, m.vals, (slice(None), mk(i))), m.index))))
    if hasattr(pd.DataFrame, name):
        raise Unsupported(f'DataFrame.{name}')
    raise PyRaise(AttributeError, (name,))


I.TYPE_ATTRS.append((lambda o: isinstance(o, Matrix), matrix_attr))


# ---------------------------------------------------------------- constructors
@model(pd.DataFrame)
def pd_DataFrame(it, data=None, index=None, columns=None, dtype=None, **k):
    if isinstance(data, (Arr, np.ndarray)):
        a = N.as_arr(data)
        if a.ndim != 2:
            raise Unsupported('DataFrame of a vector')
        idx = labels_of(index, a.shape[0])
        if not K.dim_eq(idx.n, a.shape[0]):
            if not CTX.decide(dz(idx.n) == dz(a.shape[0]), 'index length'):
                raise PyRaise(ValueError, ('Shape of passed values',))
        cols = labels_of(columns, a.shape[1])
        return Matrix(a, idx, cols)
    if isinstance(data, Matrix) and index is None and columns is None:
        return data
    if isinstance(data, Matrix) and columns is None:
        # building from a frame selects rows by label, missing labels become NaN
        idx = labels_of(index, None)
        if data.index.start is None or not isinstance(idx, Labels):
            raise Unsupported('reindexing arbitrary labels')
        f, st, n = data.vals.snap(), dz(data.index.start), dz(data.index.n)

        def row(ix):
            p = simp(zi(idx.fn(ix[0])) - st)
            v = f((p, ix[1]))
            ok = simp(z3.And(p >= 0, p < n))
            return v if CTX.quick(z3.Implies(K.in_range(ix, (idx.n, data.columns.n)), ok)) else K.ite(ok, K.cast(v, 'f'), float('nan'))
        return Matrix(Arr((idx.n, data.columns.n), data.vals.dtype, row), idx, data.columns)
    if data is None:
        idx = labels_of(index, None)
        cols = labels_of(columns, None)
        nan = float('nan')
        if isinstance(cols, Strs):
            return Table({c: Arr((idx.n,), 'f', lambda i: nan) for c in cols.names}, idx)
        return Matrix(Arr((idx.n, cols.n), 'f', lambda i: nan), idx, cols)
    raise Unsupported('DataFrame constructor')


@model(pd.Index)
def pd_Index(it, x, name=None, **k):
    if isinstance(x, (Arr, IterSpec, range, list)):
        l = labels_of(x, None)
        l.name = name
        return l
    raise Unsupported('Index')


@model(pd.Series)
def pd_Series(it, x, index=None, **k):
    a = N.as_arr(x)
    return Series(N.nolist(a), labels_of(index, a.shape[0]))


@model(pd.isnull, pd.isna)
def pd_isnull(it, x):
    if isinstance(x, (Matrix, Series)):
        return x.map_(K.isnan, 'b')
    return N.elementwise1(K.isnan, x, 'b') if isinstance(x, Arr) else K.isnan(x)


# ---------------------------------------------------------------- stores
@model(pd.HDFStore)
def pd_HDFStore(it, *args, **kw):
    if getattr(it.ctx, 'hdf', None) is None:
        raise Unsupported('opening a store')
    return it.ctx.hdf(it, args, kw)


I.FORCE_MODEL.append(pd.HDFStore) if isinstance(I.FORCE_MODEL, list) else I.FORCE_MODEL.add(pd.HDFStore)


class Store:
    """HDF store: every read builds a fresh object. `content(kind, key ints)` gives the ghost content."""
    def __init__(self, read):
        self.read = read
        self.requests = []
        self.puts = []


def store_get(it, h, k):
    parts = I.fmt_parts(k)
    if parts is None:
        raise Unsupported('store key')
    h.requests.append(parts)
    return h.read(it, parts)


def store_set(it, h, k, v):
    h.puts.append((I.fmt_parts(k), snapshot(v)))


def snapshot(v):
    return v.deepcopy_() if hasattr(v, 'deepcopy_') else v


I.TYPE_INDEX.append((Store, store_get, store_set))


def store_attr(it, h, name):
    if name == 'put':
        def put(it, key, v, **k):
            store_set(it, h, key, v)
        return Model(put)
    if name in ('get', 'select'):
        return Model(lambda it, key: store_get(it, h, key))
    raise Unsupported(f'store.{name}')


I.TYPE_ATTRS.append((lambda o: isinstance(o, Store), store_attr))
