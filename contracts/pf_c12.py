"""C12: what process_cov_to_h5 stores, for every number of groups and all values read (including zeros and non-finite quotients)."""
import z3
import numpy as np
from pyvc import core as K
from pyvc.core import same, zb, dz
from pyvc.prove import Task

MOD = 'ASAPy.EndfToCov:'
COLS = ['e low', 'e high', 'x-sec(1)', 'x-sec(2)', 'rel.s.d.(1)', 'rel.s.d(2)', 's.d.(1)', 's.d(2)']
TINY = 1e-7


def key_goal(parts, zaid, mt, what):
    text, vals = '', []
    for p in parts or ['?']:
        if isinstance(p, str):
            text += p
        else:
            text += '%d'
            vals.append(K.zi(p))
    return z3.And(text.lstrip('/') == f'%d/{mt}/%d/{mt}/{what}', *([v == K.zi(zaid) for v in vals] if len(vals) == 2 else [z3.BoolVal(False)]))


def body(ctx, it, mt, outcome):
    import pandas as pd
    from pyvc import pdmodel as P, interp as I
    G = ctx.in_int('G', 1, size=True)
    zaid = ctx.in_int('zaid', 1, 999999)
    bounds = ctx.in_arr('bounds', (K.add(G, 1),))
    x, rel = ctx.in_arr('xsec', (G,)), ctx.in_arr('rel', (G,))
    flat = ctx.in_arr('cov', (K.mul(G, G),))
    b0, x0, r0, c0 = bounds.snap(), x.snap(), rel.snap(), flat.snap()
    q0 = z3.Int('q0')
    g = K.zi(G)
    ctx.axioms.append(z3.ForAll([q0], z3.Implies(z3.And(q0 >= 0, q0 < g), K.fl(b0((q0,)))[0] > K.fl(b0((q0 + 1,)))[0])))
    opened, files = [], []
    blocks = [('0', b0, bounds.shape), ('1', x0, x.shape), ('2', r0, rel.shape), ('3', c0, flat.shape)]

    def init(it, args, kw):
        files.append(args[1] if len(args) > 1 else kw['file'])
        if outcome == 'marker':
            raise K.PyRaise(RuntimeError, ('BOXR ended in error',))
        o = args[0].attrs
        o['lines'] = [''] * 50
        o['block_line_nums'] = [0, 10, 20, 30]
        return None

    def block(it, args, kw):
        lo, hi = (list(args[1:]) + [kw.get('line_num_start'), kw.get('line_num_end')])[:2]
        k = {(1, 10): 0, (11, 20): 1, (21, 30): 2, (31, 50): 3}.get((lo, hi))
        if k is None:
            raise K.Unsupported('block lines %r' % ((lo, hi),))
        _, f, sh = blocks[k]
        return K.Arr(sh, 'f', f)
    I.CONTRACTS[MOD + 'read_boxer_out_matrix.__init__'] = init
    I.CONTRACTS[MOD + 'read_boxer_out_matrix._block_lines_to_array'] = block

    def hdf(it, args, kw):
        path = args[0] if args else kw['path']
        st = P.Store(lambda it, parts: (_ for _ in ()).throw(K.Unsupported('reading back from the store')))
        opened.append((I.fmt_parts(path), args[1] if len(args) > 1 else kw.get('mode', 'a'), st))
        return st
    ctx.hdf = hdf
    it.call(it.load(MOD + 'process_cov_to_h5'), ('/out', zaid, mt), dict(boxer_matrix_name='b_{mt}.txt', output_h5_format='st_{0}g.h5'))
    ctx.prove('the file of the reaction is read', z3.BoolVal(len(files) == 1 and files[0] == f'/out/b_{mt}.txt'))
    if outcome == 'marker':
        ctx.prove('nothing is stored for output that reports an error', z3.BoolVal(not any(s.puts for _, _, s in opened) and all(m in ('a', 'r+', 'r') for _, m, _ in opened)))
        return
    ctx.prove('one store is opened, keeping what it holds', z3.BoolVal(len(opened) == 1 and opened[0][1] in ('a', 'r+')))
    if len(opened) != 1:
        return
    path, _, st = opened[0]
    ctx.prove('the store is named by the number of groups', z3.And(len(path or []) == 3 and path[0] == '/out/st_' and path[2] == 'g.h5', K.zi(path[1]) == g if path and len(path) == 3 else False))
    ctx.prove('two tables are written', z3.BoolVal(len(st.puts) == 2))
    if len(st.puts) != 2:
        return
    (kc, corr), (kt, tab) = st.puts if isinstance(st.puts[0][1], P.Matrix) else st.puts[::-1]
    ctx.prove('the correlation has the key of the reaction', key_goal(kc, zaid, mt, 'corr'))
    ctx.prove('the table has the key of the reaction', key_goal(kt, zaid, mt, 'std_dev'))
    ctx.result('corr', getattr(corr, 'vals', None))
    for c in COLS:
        ctx.result(c, tab.cols[c] if isinstance(tab, P.Table) and c in tab.cols else None)
    i, j = ctx.fresh('i', K.I_), ctx.fresh('j', K.I_)
    rng = z3.And(i >= 0, i < g, j >= 0, j < g)
    ctx.prove('the correlation is labelled 1..G', z3.And(isinstance(corr, P.Matrix), dz(corr.vals.shape[0]) == g, dz(corr.vals.shape[1]) == g, z3.Implies(rng, z3.And(
        K.zi(corr.index.fn(i)) == i + 1, K.zi(corr.columns.fn(j)) == j + 1))))
    C = lambda a, b: c0((a * g + b,))
    v = corr.vals.fn((i, j))
    ctx.prove('stored correlations are numbers between -1 and 1', z3.Implies(rng, z3.And(K.fin(v), K.fl(v)[0] <= 1, K.fl(v)[0] >= -1)))
    ctx.prove('the stored correlation is symmetric', z3.Implies(rng, K.fl(v)[0] == K.fl(corr.vals.fn((j, i)))[0]))
    ctx.prove('with a unit diagonal', z3.Implies(z3.And(rng, i == j), K.fl(v)[0] == 1))
    w = K.div(C(i, j), K.power(K.absv(K.mul(C(i, i), C(j, j))), 0.5))
    nan = zb(K.isnan(w))
    spec = K.ite(nan, 0.0, K.ite(zb(K.cmp('>', w, 1.0)), 1.0, K.ite(zb(K.cmp('<', w, -1.0)), -1.0, w)))
    ctx.prove('covariance over the deviations, clipped, zero where undefined', z3.Implies(z3.And(rng, i < j), K.fl(v)[0] == K.fl(spec)[0]))
    ctx.prove('the documented columns', z3.BoolVal(isinstance(tab, P.Table) and sorted(tab.cols) == sorted(COLS)))
    if not (isinstance(tab, P.Table) and sorted(tab.cols) == sorted(COLS)):
        return
    ri = z3.And(i >= 0, i < g)
    ctx.prove('the table is labelled 1..G', z3.And(dz(tab.index.n) == g, z3.Implies(ri, K.zi(tab.index.fn(i)) == i + 1)))
    col = lambda c: tab.cols[c].fn((i,))
    X, R = x0((i,)), r0((i,))
    sd = K.mul(R, X)
    zero = K.fl(X)[0] == 0
    num = lambda c, e: z3.And(K.fin(col(c)), K.fl(col(c))[0] == e)
    ctx.prove('upper bounds', z3.Implies(ri, num('e high', K.fl(b0((i,)))[0])))
    ctx.prove('lower bounds', z3.Implies(ri, num('e low', K.fl(b0((i + 1,)))[0])))
    for c in ('x-sec(1)', 'x-sec(2)'):
        ctx.prove(f'{c} is the value read', z3.Implies(ri, num(c, K.fl(X)[0])))
    for c in ('s.d.(1)', 's.d(2)'):
        ctx.prove(f'{c} is the relative deviation times the value', z3.Implies(ri, num(c, z3.If(zero, K.fl(TINY)[0], K.fl(sd)[0]))))
    for c in ('rel.s.d.(1)', 'rel.s.d(2)'):
        ctx.prove(f'{c} is the relative deviation read', z3.Implies(ri, num(c, z3.If(zero, K.fl(TINY)[0], K.fl(R)[0]))))


def pins():
    for n, cov in ((1, [[4.]]), (2, [[1., 2.], [3., 4.]]), (2, [[0., 2.], [0., 4.]]), (3, [[1., -3., .5], [0., -4., 9.], [0., 0., 16.]]), (2, [[0., 0.], [0., 4.]])):
        yield {'G': n, 'zaid': 1001, 'bounds': np.array([9., 7., 5., 1.])[:n + 1], 'xsec': np.array([2., 0., 4.])[:n], 'rel': np.array([.5, .25, 0.])[:n], 'cov': np.array(cov).ravel()}


def real(mt):
    def f(p):
        import os, tempfile, io, contextlib
        import pandas as pd
        from ASAPy import EndfToCov as EC
        from contracts import rt_c11 as B
        fc = case(mt, 'ok')(p)['file']
        with tempfile.TemporaryDirectory() as d:
            with open(os.path.join(d, f'b_{mt}.txt'), 'w') as fh:
                fh.write(B.text(fc))
            with contextlib.redirect_stdout(io.StringIO()):
                EC.process_cov_to_h5(d, 1001, mt, boxer_matrix_name='b_{mt}.txt', output_h5_format='st_{0}g.h5')
            with pd.HDFStore(os.path.join(d, f'st_{p["G"]}g.h5'), 'r') as h:
                out = {'corr': h[f'1001/{mt}/1001/{mt}/corr'].values.astype(float)}
                t = h[f'1001/{mt}/1001/{mt}/std_dev']
                out.update({c: t[c].values.astype(float) for c in COLS})
        return out
    return f


def case(mt, outcome):
    def f(m):
        n = m['G']
        fc = {'kind': 'ok', 'bounds': m['bounds'].tolist(), 'xsec': m['xsec'].tolist(), 'rel': m['rel'].tolist(), 'cov': np.reshape(m['cov'], (n, n)).tolist(), 'per': [6] * 4, 'gap': [0] * 4}
        if outcome == 'marker':
            fc['marker'] = 0
        return {'kind': 'proof', 'file': fc, 'zaid': m['zaid'], 'mt': mt, 'temp': 300, 'pre': 1}
    return f


AS = ['the text of the file is represented by the numbers of its four blocks (read_boxer_out_matrix is decided in C11)',
      'pd.HDFStore opened with mode a keeps its content; put stores the table under the key and nothing else']
TASKS = [Task(f'process_cov_to_h5 MT {mt} {o}', [MOD + 'process_cov_to_h5', MOD + 'read_boxer_out_matrix.get_block_data', 'ASAPy.CovManipulation:cov_to_correlation',
                                                'ASAPy.AsapyCovStorage:add_corr_to_store', 'ASAPy.AsapyCovStorage:add_stddev_to_store'],
              lambda ctx, it, mt=mt, o=o: body(ctx, it, mt, o), pins if o == 'ok' else (), real(mt) if o == 'ok' else None, case=case(mt, o), assumptions=AS)
         for mt, o in ((102, 'ok'), (452, 'ok'), (1018, 'ok'), (9999, 'ok'), (18, 'marker'), (1018, 'marker'))]
