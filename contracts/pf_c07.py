"""C07: loading a covariance from the store and deriving the covariance, for every store content, key and size."""
import z3
import numpy as np
from pyvc import core as K
from pyvc.core import same, zb, dz
from pyvc.prove import Task

MOD = 'ASAPy.XsecSampler:'
COLS = ['e low', 'e high', 'x-sec(1)', 'x-sec(2)', 'rel.s.d.(1)', 'rel.s.d(2)', 's.d.(1)', 's.d(2)']


def ghost_store(ctx, keys):
    """a store with arbitrary content under every key; keys: the tuples to put into a counterexample"""
    from pyvc import pdmodel as P
    I4 = [K.I_] * 4
    size = z3.Function('store.groups', *I4, K.I_)
    col = {c: z3.Function('store.' + c, *I4, K.I_, K.R_) for c in COLS}
    corr = z3.Function('store.corr', *I4, K.I_, K.I_, K.R_)

    def key_of(parts):
        from pyvc.core import Unsupported
        parts = list(parts)
        if isinstance(parts[0], str):
            parts[0] = parts[0].lstrip('/')
            if not parts[0]:
                parts = parts[1:]
        text, vals = '', []
        for p in parts:
            if isinstance(p, str):
                text += p
            else:
                text += '%d'
                vals.append(K.zi(p))
        if text not in ('%d/%d/%d/%d/std_dev', '%d/%d/%d/%d/corr'):
            return None, text
        return vals, text.rsplit('/', 1)[1]

    def read(it, parts):
        k, what = key_of(parts)
        if k is None:
            raise K.PyRaise(KeyError, (what,))
        n = size(*k)
        ctx.fact(n >= 1)
        lab = P.Labels(n, 1)
        if what == 'std_dev':
            return P.Table({c: K.Arr((n,), 'f', lambda idx, f=f: K.Sym('f', f(*k, idx[0]))) for c, f in col.items()}, lab)
        return P.Matrix(K.Arr((n, n), 'f', lambda idx: K.Sym('f', corr(*k, *idx))), lab, P.Labels(n, 1))
    st = P.Store(read)
    st.size, st.col, st.corr = size, col, corr

    def conc(m):
        out = []
        for k in keys:
            kk = [m.eval(v, model_completion=True).as_long() for v in k]
            if any(e['key'] == kk for e in out):
                continue
            kz = [z3.IntVal(v) for v in kk]
            g = m.eval(size(*kz), model_completion=True).as_long()
            if g > 8 or g < 1:
                if k is keys[0]:
                    raise ValueError('size')
                g = 1
            val = lambda e: K.conc_f(m, K.Sym('f', e))
            cols = {c: [val(f(*kz, z3.IntVal(i))) for i in range(g)] for c, f in col.items()}
            S = [[val(corr(*kz, z3.IntVal(i), z3.IntVal(j))) for j in range(g)] for i in range(g)]
            if k is not keys[0]:     # other content: anything distinguishable and legal
                cols['e low'] = [v for v in range(g)]
                cols['e high'] = [v + .5 for v in range(g)]
                S = [[float(i == j) * (2 + len(out)) for j in range(g)] for i in range(g)]
            out.append({'key': kk, 'cols': cols, 'xsec': cols['x-sec(1)'], 'std': cols['s.d.(1)'], 'corr': S, 'scale': 1.0})
        return out
    ctx.inputs['entries'] = conc
    for e in (ctx.pinned or {}).get('entries', ()):
        kz = [z3.IntVal(v) for v in e['key']]
        g = len(e['corr'])
        ctx.fact(size(*kz) == g)
        for c, f in col.items():
            for i, v in enumerate(e['cols'][c]):
                ctx.fact(f(*kz, i) == K.RV(v))
        for i in range(g):
            for j in range(g):
                ctx.fact(corr(*kz, i, j) == K.RV(e['corr'][i][j]))
    return st


def content(ctx, st, key, symmetric=False):
    """precondition on the entry asked for; -> (n, column accessor, correlation accessor)"""
    n = st.size(*key)
    ctx.fact(n >= 1)
    ctx._sizes = [n]
    lo = lambda i: st.col['e low'](*key, i)
    hi = lambda i: st.col['e high'](*key, i)
    c = lambda i, j: st.corr(*key, i, j)
    i, j = z3.Ints('st!i st!j')
    rev = z3.Bool('store.reversed')
    ctx.axioms.append(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.If(rev, lo(i) > hi(i), lo(i) < hi(i))), patterns=[lo(i), hi(i)]))
    ctx.axioms.append(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), c(i, i) >= 0)))
    if symmetric:
        ctx.axioms.append(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < n, j >= 0, j < n), c(i, j) == c(j, i)), patterns=[c(i, j)]))
    return n, rev, lo, hi, c


def ask(ctx, second_zaid, second_mt):
    z1, m1 = ctx.in_int('z1', 1, 200000), ctx.in_int('m1', 1, 9999)
    z2 = ctx.in_int('z2', 1, 200000) if second_zaid else None
    m2 = ctx.in_int('m2', 1, 9999) if second_mt else None
    key = [K.zi(v) for v in (z1, m1, z2 if z2 is not None else z1, m2 if m2 is not None else m1)]
    a, b, c, d = key
    others = [[x, y, u, v] for x in dict.fromkeys((a, c)) for y in (b, d) for u in (a, c) for v in (b, d)] + [[b, a, d, c]]
    return z1, m1, z2, m2, key, [key] + others


def corr_post(ctx, name, got, n, c):
    i, j, w, q = (ctx.fresh(x, K.I_) for x in 'ijwq')
    rng = z3.And(i >= 0, i < n, j >= 0, j < n, w >= 0, w < n)
    qq = z3.Int('cp!q')
    top = z3.ForAll([qq], z3.Implies(z3.And(qq >= 0, qq < n), c(qq, qq) <= c(w, w)), patterns=[c(qq, qq)])
    r = got.vals.fn((i, j))
    ctx.prove(name + ': stored correlation divided by its largest diagonal element',
              z3.Implies(z3.And(rng, top, c(w, w) > 0), z3.And(K.fin(r), K.fl(r)[0] * c(w, w) == c(i, j))))
    ctx.prove(name + ': left as stored when the whole diagonal is zero', z3.Implies(z3.And(rng, top, c(w, w) == 0), z3.And(K.fin(r), K.fl(r)[0] == c(i, j))))
    ctx.prove(name + ': group labels of the correlation', z3.And(dz(got.vals.shape[0]) == n, dz(got.vals.shape[1]) == n, *[
        z3.Implies(z3.And(i >= 0, i < n), K.zi(l.fn(i)) == i + 1) for l in (got.index, got.columns)]))


def table_post(ctx, name, sd, st, key, n, rev):
    i = ctx.fresh('i', K.I_)
    rng = z3.And(i >= 0, i < n)
    ctx.prove(name + ': the columns of the table', z3.BoolVal(list(sd.cols) == COLS))
    for c in COLS:
        src = {'e low': z3.If(rev, st.col['e high'](*key, i), st.col['e low'](*key, i)),
               'e high': z3.If(rev, st.col['e low'](*key, i), st.col['e high'](*key, i))}.get(c, st.col[c](*key, i))
        v = sd.cols[c].fn((i,))
        ctx.prove(f'{name}: column {c} is the stored one' + (' (bounds exchanged exactly when reversed)' if c[0] == 'e' else ''),
                  z3.Implies(rng, z3.And(K.fin(v), K.fl(v)[0] == src)))
    ctx.prove(name + ': lower bounds below upper bounds', z3.Implies(rng, K.fl(sd.cols['e low'].fn((i,)))[0] < K.fl(sd.cols['e high'].fn((i,)))[0]))
    ctx.prove(name + ': group labels of the table', z3.And(dz(sd.index.n) == n, z3.Implies(rng, K.zi(sd.index.fn(i)) == i + 1)))


def results(ctx, sd, corr):
    for c in COLS:
        ctx.result(c, sd.cols[c])
    ctx.result('corr', corr.vals)


def pins(a, b):
    rng = np.random.RandomState(5)
    for g, rev, scale in ((1, 0, 1000.), (2, 1, 1.), (3, 1, 4.), (2, 0, 0.0)):
        key = [92235, 18, 1001 if a else 92235, 2 if b else 18]
        b_ = np.arange(g + 1)[::-1] * 1.5
        cols = {c: np.round(rng.uniform(0, 3, g), 2).tolist() for c in COLS}
        cols['e low'], cols['e high'] = (b_[:-1].tolist(), b_[1:].tolist()) if rev else (b_[1:].tolist(), b_[:-1].tolist())
        m = np.round(rng.uniform(0, 1, (g, g)), 2)
        m = (m + m.T) * scale
        p = {'z1': 92235, 'm1': 18, 'entries': [{'key': key, 'cols': cols, 'corr': m.tolist()}]}
        if a:
            p['z2'] = 1001
        if b:
            p['m2'] = 2
        yield p


def real(p):
    from ASAPy import XsecSampler as XS
    from contracts import stores as S
    e = p['entries'][0]
    df = S.std_frame(np.arange(len(e['corr']) + 1), e['cols']['x-sec(1)'], e['cols']['s.d.(1)'])
    for c, v in e['cols'].items():
        df[c] = v
    h = S.DictStore({S.key(*e['key'], 'std_dev'): df, S.key(*e['key'], 'corr'): S.corr_frame(e['corr'])})
    o = XS.XsecSampler(h, p['z1'], p['m1'], p.get('z2'), p.get('m2'), remove_negative_eig=False)
    d = {c: o.std_dev_df[c].values for c in COLS}
    d['corr'], d['cov'] = o.corr_df.values, o.calc_cov().values
    return d


def load(ctx, it, a, b):
    z1, m1, z2, m2, key, keys = ask(ctx, a, b)
    st = ghost_store(ctx, keys)
    n, rev, lo, hi, c = content(ctx, st, key)
    kw = {k: v for k, v in (('zaid_2', z2), ('mt_2', m2)) if v is not None}
    cls = it.load(MOD + 'XsecSampler')
    sd, corr = it.call(it.getattr(cls, 'load_zaid_mt'), (st, z1, m1), kw)
    table_post(ctx, 'loading', sd, st, key, n, rev)
    corr_post(ctx, 'loading', corr, n, c)
    results(ctx, sd, corr)
    ctx.prove('loading writes nothing to the store', z3.BoolVal(not st.puts))


def derive(ctx, it, a, b):
    z1, m1, z2, m2, key, keys = ask(ctx, a, b)
    st = ghost_store(ctx, keys)
    n, rev, lo, hi, c = content(ctx, st, key, True)
    kw = {k: v for k, v in (('zaid_2', z2), ('mt_2', m2)) if v is not None}
    kw['remove_negative_eig'] = False
    obj = it.call(it.load(MOD + 'XsecSampler'), (st, z1, m1), kw)
    table_post(ctx, 'constructing', it.getattr(obj, 'std_dev_df'), st, key, n, rev)
    corr_post(ctx, 'constructing', it.getattr(obj, 'corr_df'), n, c)
    R = it.getattr(obj, 'corr_df').vals.snap()
    cov = it.call(it.getattr(obj, 'calc_cov'), ())
    i, j = ctx.fresh('i', K.I_), ctx.fresh('j', K.I_)
    rng = z3.And(i >= 0, i < n, j >= 0, j < n)
    s = lambda k: st.col['s.d.(1)'](*key, k)
    v = cov.vals.fn((i, j))
    r = K.fl(R((i, j)))[0]
    ctx.prove('covariance is correlation times both deviations', z3.Implies(z3.And(rng, z3.Or(i != j, r == 1)), z3.And(K.fin(v), K.fl(v)[0] == r * s(i) * s(j))))
    ctx.prove('group labels of the covariance', z3.And(dz(cov.vals.shape[0]) == n, dz(cov.vals.shape[1]) == n, *[
        z3.Implies(z3.And(i >= 0, i < n), K.zi(l.fn(i)) == i + 1) for l in (cov.index, cov.columns)]))
    table_post(ctx, 'after deriving', it.getattr(obj, 'std_dev_df'), st, key, n, rev)
    corr_post(ctx, 'after deriving', it.getattr(obj, 'corr_df'), n, c)
    results(ctx, it.getattr(obj, 'std_dev_df'), it.getattr(obj, 'corr_df'))
    ctx.result('cov', cov.vals)
    ctx.prove('nothing is written to the store', z3.BoolVal(not st.puts))


def case(m):
    return {'kind': 'dict', 'real': False, 'entries': m['entries'], 'ask': [m['z1'], m['m1'], m.get('z2'), m.get('m2')]}


AS = ['nuclide and reaction identifiers are integers in the proof; strings are covered by the bounded contract',
      'pd.HDFStore: reading a key returns a fresh table with the stored content (HDF5 itself is not verified)']
TASKS = []
for a, b in ((0, 0), (1, 1), (1, 0), (0, 1)):
    t = ' zaid_2' * a + ' mt_2' * b
    TASKS.append(Task('load_zaid_mt' + t, [MOD + 'XsecSampler.load_zaid_mt'], lambda ctx, it, a=a, b=b: load(ctx, it, a, b), lambda a=a, b=b: pins(a, b), real, case, AS))
for a, b in ((0, 0), (1, 1)):
    t = ' zaid_2' * a + ' mt_2' * b
    TASKS.append(Task('XsecSampler and calc_cov' + t, [MOD + 'XsecSampler.__init__', MOD + 'XsecSampler.calc_cov'], lambda ctx, it, a=a, b=b: derive(ctx, it, a, b), lambda a=a, b=b: pins(a, b), real, case, AS))
