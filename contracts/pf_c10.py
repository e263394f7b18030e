"""C10: the covariance store accepts exactly well-formed tables and writes exactly what it was given under exactly the key."""
import z3
import numpy as np
from pyvc import core as K
from pyvc.core import same, zb, dz
from pyvc.prove import Task

MOD = 'ASAPy.AsapyCovStorage:'
COLS = ['e low', 'e high', 'x-sec(1)', 'x-sec(2)', 'rel.s.d.(1)', 'rel.s.d(2)', 's.d.(1)', 's.d(2)']


def attempt(it, fn, *args):
    try:
        it.call(fn, args)
        return None
    except K.PyRaise as ex:
        return ex


def store(ctx):
    from pyvc import pdmodel as P

    def read(it, parts):
        raise K.Unsupported('reading back from the store')
    return P.Store(read)


def written(ctx, st, key, what, bad, same_as):
    if bad:
        ctx.prove('nothing is written when the table is rejected', z3.BoolVal(not st.puts))
        return
    ctx.prove('exactly one table is written', z3.BoolVal(len(st.puts) == 1))
    if len(st.puts) != 1:
        return
    parts, v = st.puts[0]
    text, vals = '', []
    for p in parts or ['?']:
        if isinstance(p, str):
            text += p
        else:
            text += '%d'
            vals.append(K.zi(p))
    ctx.prove('the key is material/reaction/material/reaction/kind', z3.And(text.lstrip('/') == '%d/%d/%d/%d/' + what, *(
        [a == K.zi(b) for a, b in zip(vals, key)] if len(vals) == 4 else [z3.BoolVal(False)])))
    same_as(v)


def keys(ctx):
    return [ctx.in_int(n, 1, 999999) for n in ('mat1', 'mt1', 'mat2', 'mt2')]


def corr(ctx, it, fname):
    from pyvc import pdmodel as P
    r, c = ctx.in_int('r', 1, size=True), ctx.in_int('c', 1, size=True)
    vals = ctx.in_arr('vals', (r, c), nonfinite=True)
    rows, cols = ctx.in_arr('rows', (r,), 'i'), ctx.in_arr('cols', (c,), 'i')
    R, C, V = rows.snap(), cols.snap(), vals.snap()
    df = P.Matrix(vals, P.Labels(vals.shape[0], None, lambda i: R((i,))), P.Labels(vals.shape[1], None, lambda i: C((i,))))
    key = keys(ctx)
    st = store(ctx)
    fn = it.load(MOD + fname)
    ex = attempt(it, fn, df) if fname.startswith('check') else attempt(it, fn, st, df, *key)
    ctx.result('raised', ex is not None)
    q = z3.Int('c10!q')
    lab = lambda k: K.zi(R((k,))) == K.zi(C((k,)))
    good = z3.And(K.zi(r) == K.zi(c), z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < K.zi(r)), lab(q))))
    i, j = ctx.fresh('i', K.I_), ctx.fresh('j', K.I_)
    if ex is None:
        ctx.prove('an accepted correlation is square', K.zi(r) == K.zi(c))
        ctx.prove('an accepted correlation has equal labels', z3.Implies(z3.And(i >= 0, i < K.zi(r)), lab(i)))
    else:
        ctx.prove('a correlation is rejected only if it is not square or labels differ', z3.Not(good))
    rng = z3.And(i >= 0, i < K.zi(r), j >= 0, j < K.zi(c))

    def frame(name, v):
        ok = isinstance(v, P.Matrix)
        ctx.prove(name + ' has the values given', z3.And(ok, dz(v.vals.shape[0]) == K.zi(r), dz(v.vals.shape[1]) == K.zi(c), z3.Implies(rng, same(v.vals.fn((i, j)), V((i, j))))))
        ctx.prove(name + ' has the labels given', z3.Implies(rng, z3.And(K.zi(v.index.fn(i)) == K.zi(R((i,))), K.zi(v.columns.fn(j)) == K.zi(C((j,))))))
    if fname.startswith('add'):
        written(ctx, st, key, 'corr', ex is not None, lambda v: frame('the stored correlation', v))
    frame('the correlation handed in', df)


def std(ctx, it, fname):
    from pyvc import pdmodel as P
    n = ctx.in_int('n', 1, size=True)
    cols = {c: ctx.in_arr(c, (n,), nonfinite=c.startswith('e ')) for c in COLS}
    old = {c: a.snap() for c, a in cols.items()}
    df = P.Table(cols, P.Labels(cols['e low'].shape[0], 1))
    key = keys(ctx)
    st = store(ctx)
    fn = it.load(MOD + fname)
    ex = attempt(it, fn, df) if fname.startswith('check') else attempt(it, fn, st, df, *key)
    ctx.result('raised', ex is not None)
    gt = lambda c, k: zb(K.cmp('>', old[c]((k,)), old[c]((k + 1,))))
    i, q = ctx.fresh('i', K.I_), z3.Int('c10!q')
    both = lambda k: z3.And(gt('e low', k), gt('e high', k))
    if ex is None:
        ctx.prove('accepted lower bounds strictly decrease', z3.Implies(z3.And(i >= 0, i < K.zi(n) - 1), gt('e low', i)))
        ctx.prove('accepted upper bounds strictly decrease', z3.Implies(z3.And(i >= 0, i < K.zi(n) - 1), gt('e high', i)))
    else:
        ctx.prove('a table is rejected only if some bound does not decrease', z3.Not(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < K.zi(n) - 1), both(q)))))

    def frame(name, v):
        ctx.prove(name + ' has the columns given', z3.And(isinstance(v, P.Table), list(v.cols) == COLS, dz(v.index.n) == K.zi(n)))
        for c in COLS:
            ctx.prove(f'{name} has column {c} as given', z3.Implies(z3.And(i >= 0, i < K.zi(n)), same(v.cols[c].fn((i,)), old[c]((i,)))))
        ctx.prove(name + ' has the groups given', z3.Implies(z3.And(i >= 0, i < K.zi(n)), K.zi(v.index.fn(i)) == i + 1))
    if fname.startswith('add'):
        written(ctx, st, key, 'std_dev', ex is not None, lambda v: frame('the stored table', v))
    frame('the table handed in', df)


def empty(ctx, it, fname):
    from pyvc import pdmodel as P
    n = ctx.in_int('n', 1, size=True)
    df = it.call(it.load(MOD + fname), (n,))
    i = ctx.fresh('i', K.I_)
    rng = z3.And(i >= 0, i < K.zi(n))
    labs = [df.index] + ([df.columns] if fname == 'create_corr_df' else [])
    ctx.prove('groups are 1..n', z3.And(*[z3.And(dz(l.n) == K.zi(n), z3.Implies(rng, K.zi(l.fn(i)) == i + 1)) for l in labs]))
    if fname == 'create_stddev_df':
        ctx.prove('the documented columns', z3.BoolVal(isinstance(df, P.Table) and list(df.cols) == COLS))


def corr_case(m):
    return {'kind': 'history', 'ops': [{'what': 'corr', 'key': [m['mat1'], m['mt1'], m['mat2'], m['mt2']], 'rows': m['rows'].tolist(), 'cols': m['cols'].tolist(),
                                        'vals': m['vals'].ravel().tolist()}]}


def std_case(m):
    return {'kind': 'history', 'ops': [{'what': 'std', 'key': [m['mat1'], m['mt1'], m['mat2'], m['mt2']], 'hi': m['e high'].tolist(), 'lo': m['e low'].tolist(), 'x': m['x-sec(1)'].tolist()}]}


def corr_pins():
    for rows, cols in (([1, 2], [1, 2]), ([1, 2], [1, 3]), ([1, 2], [1]), ([3], [3]), ([1, 2, 3], [1, 3, 2]), ([1], [1, 2])):
        yield {'r': len(rows), 'c': len(cols), 'rows': rows, 'cols': cols, 'vals': np.arange(len(rows) * len(cols)).reshape(len(rows), len(cols)) * .5,
               'mat1': 1001, 'mt1': 2, 'mat2': 1001, 'mt2': 18}


def std_pins():
    nan = float('nan')
    for lo, hi in (([2., 1.], [3., 2.]), ([2., 1.], [3., 3.]), ([1.], [2.]), ([3., 2., 2.5], [5., 4., 3.]), ([3., nan, 1.], [5., 4., 3.]), ([3., 2., 1.], [5., 4., nan])):
        p = {c: np.arange(len(lo)) * 1. for c in COLS}
        p.update({'e low': np.array(lo), 'e high': np.array(hi), 'n': len(lo), 'mat1': 1001, 'mt1': 2, 'mat2': 1001, 'mt2': 18})
        yield p


def real(p):
    import pandas as pd
    from ASAPy import AsapyCovStorage as ST
    try:
        if 'rows' in p:
            ST.check_correlation_df(pd.DataFrame(p['vals'], index=p['rows'], columns=p['cols']))
        else:
            ST.check_stddev_df(pd.DataFrame({c: p[c] for c in COLS}, index=range(1, p['n'] + 1)))
        return {'raised': False}
    except Exception:
        return {'raised': True}


AS = ['material and reaction identifiers are integers in the proof', 'pd.HDFStore.put stores the table under the key and nothing else; reading it back returns it (HDF5 itself is not verified; executed by the bounded contract)']
TASKS = [Task(f, [MOD + f], lambda ctx, it, f=f: corr(ctx, it, f), corr_pins, real, case=corr_case, assumptions=AS) for f in ('check_correlation_df', 'add_corr_to_store')] + \
        [Task(f, [MOD + f], lambda ctx, it, f=f: std(ctx, it, f), std_pins, real, case=std_case, assumptions=AS) for f in ('check_stddev_df', 'add_stddev_to_store')] + \
        [Task(f, [MOD + f], lambda ctx, it, f=f: empty(ctx, it, f), case=lambda m: {'kind': 'empty', 'n': m['n']}) for f in ('create_corr_df', 'create_stddev_df')]
