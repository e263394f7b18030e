"""C06: the repair of a stored correlation, for every number of groups, every pattern of absent groups and every symmetric content."""
import z3
import numpy as np
from pyvc import core as K
from pyvc.core import same, zb, dz
from pyvc.prove import Task

MOD = 'ASAPy.XsecSampler:'
THR = K.RV(1e-8)
FLOOR = K.RV(1e-11)


def loaded(ctx, n, c):
    """contract of load_zaid_mt (proved in C07): a table with one row per group and the normalised symmetric correlation"""
    from pyvc import interp as I, pdmodel as P
    names = ['e low', 'e high', 'x-sec(1)', 'x-sec(2)', 'rel.s.d.(1)', 'rel.s.d(2)', 's.d.(1)', 's.d(2)']
    col = {k: z3.Function('sd.' + k, K.I_, K.R_) for k in names}

    def load(it, args, kw):
        lab = P.Labels(n, 1)
        t = P.Table({k: K.Arr((n,), 'f', lambda idx, f=f: K.Sym('f', f(idx[0]))) for k, f in col.items()}, lab)
        return (t, P.Matrix(K.Arr((n, n), 'f', lambda idx: K.Sym('f', c(*idx))), lab, P.Labels(n, 1)))
    I.CONTRACTS['ASAPy.XsecSampler:XsecSampler.load_zaid_mt'] = load


def world(ctx):
    n = K.zi(ctx.in_int('n', 1, size=True))
    c = z3.Function('corr', K.I_, K.I_, K.R_)
    i, j = z3.Ints('st!i st!j')
    inr = lambda *v: z3.And(*[z3.And(x >= 0, x < n) for x in v])
    ctx.axioms.append(z3.ForAll([i, j], z3.Implies(inr(i, j), c(i, j) == c(j, i)), patterns=[c(i, j)]))
    ctx.axioms.append(z3.ForAll([i], z3.Implies(inr(i), z3.And(c(i, i) >= 0, c(i, i) <= 1)), patterns=[c(i, i)]))
    w = z3.Int('top')
    ctx.fact(z3.And(inr(w), z3.Or(c(w, w) == 1, z3.ForAll([i], z3.Implies(inr(i), c(i, i) == 0), patterns=[c(i, i)]))))
    ctx.mats['symf'] = ('corr',)

    def conc(m):
        g = m.eval(n, model_completion=True).as_long()
        if g > 8:
            raise ValueError('size')
        a = [[K.conc_f(m, K.Sym('f', c(z3.IntVal(p), z3.IntVal(q)))) for q in range(g)] for p in range(g)]
        return [[a[min(p, q)][max(p, q)] for q in range(g)] for p in range(g)]
    ctx.inputs['corr'] = conc
    for p, row in enumerate((ctx.pinned or {}).get('corr', ())):
        for q, v in enumerate(row):
            ctx.fact(c(p, q) == K.RV(v))
    loaded(ctx, n, c)
    return n, c, inr


def repair(ctx, it):
    from pyvc import linalg as L, npmodel as N, pdmodel as P
    n, c, inr = world(ctx)
    eig = []
    hook = lambda name, kw: eig.append(kw) if name == 'eigh' else None
    L.LOG.append(hook)
    try:
        obj = it.call(it.load(MOD + 'XsecSampler'), (P.Store(lambda *a: (_ for _ in ()).throw(K.Unsupported('store'))), 92235, 18), {})
    finally:
        L.LOG.remove(hook)
    M = it.getattr(obj, 'corr_df')
    G = M.vals
    g = lambda i, j: G.fn((i, j))
    i, j = ctx.fresh('i', K.I_), ctx.fresh('j', K.I_)
    ctx.result('corr', G)
    ctx.prove('one row and column per group, labelled as before', z3.And(dz(G.shape[0]) == n, dz(G.shape[1]) == n, *[
        z3.Implies(inr(i), K.zi(l.fn(i)) == i + 1) for l in (M.index, M.columns)]))
    here = lambda k: c(k, k) > 0
    ctx.prove('entries of absent groups are untouched, at their own positions', z3.Implies(z3.And(inr(i, j), z3.Or(z3.Not(here(i)), z3.Not(here(j)))),
                                                                                      z3.And(K.fin(g(i, j)), K.fl(g(i, j))[0] == c(i, j))))
    if not eig:
        ctx.prove('left untouched only when every group is absent', z3.Implies(inr(i), z3.Not(here(i))))
        return
    sel = N.selection(K.Arr((n,), 'b', lambda idx: K.Sym('b', here(idx[0]))))
    m = sel.m
    rel = lambda *v: z3.And(*[z3.And(x >= 0, x < m) for x in v])
    # the block of present groups of the result, as a matrix
    I0, J0 = L.I0, L.J0
    known = []
    for v in (I0, J0):
        sv = sel.sel(v)
        known += [(sel.pos(sv), v), (K.simp(sel.mask(sv)), z3.BoolVal(True)), (n <= sv, z3.BoolVal(False)), (sv >= 0, z3.BoolVal(True))]

    def blk(idx):
        v = g(sel.sel(I0), sel.sel(J0))
        x, k = K.fl(v)
        x = K.simp(z3.substitute(K.simp(x), *known))
        return K.mkf(z3.substitute(x, (I0, idx[0]), (J0, idx[1])))
    F = K.Arr((m, m), 'f', blk)
    ctx.prove('the rewriting of the block', z3.Implies(rel(i, j), z3.And(K.fin(g(sel.sel(i), sel.sel(j))), K.fl(blk((i, j)))[0] == K.fl(g(sel.sel(i), sel.sel(j)))[0])))
    e = eig[-1]
    v, lam = e['vec'], e['lam']
    a = L.build(e['arg'], (m, m)).fn((i, j))
    ctx.prove('the decomposed matrix is the block of present groups', z3.Implies(rel(i, j), z3.And(dz(L.reg().atoms[v][2][0]) == m, K.fl(a)[0] == c(sel.sel(i), sel.sel(j)))))
    p = L.read(F)
    ctx.prove('the repaired block is symmetric', L.equal(p, L.poly_T(p)))
    # in the eigenvectors of the loaded block the repaired block is diagonal
    t = L.normal(L.poly_mul(L.poly_mul(L.letter(v, True), p), L.letter(v)))
    T = lambda x, y: sum((co * L.elem_of(w, x, y) for co, w in t), z3.RealVal(0))
    ctx.prove('every eigenvector of the loaded block is an eigenvector of the repaired block', z3.Implies(z3.And(rel(i, j), i != j), T(i, j) == 0))
    ctx.prove('every eigenvalue above the threshold is kept', z3.Implies(z3.And(rel(i), lam(i) > THR), T(i, i) == lam(i)))
    ctx.prove('every other eigenvalue is raised to a positive number', z3.Implies(z3.And(rel(i), lam(i) <= THR), T(i, i) >= FLOOR))
    ctx.prove('every other eigenvalue becomes a small number', z3.Implies(z3.And(rel(i), lam(i) <= THR), T(i, i) <= THR))
    k = z3.Int('all!k')
    ctx.prove('a correlation with all eigenvalues above the threshold is unchanged', z3.Implies(
        z3.And(inr(i, j), z3.ForAll([k], z3.Implies(rel(k), lam(k) > THR), patterns=[lam(k)])), K.fl(g(i, j))[0] == c(i, j)))


def untouched(ctx, it):
    n, c, inr = world(ctx)
    from pyvc import pdmodel as P
    obj = it.call(it.load(MOD + 'XsecSampler'), (P.Store(lambda *a: (_ for _ in ()).throw(K.Unsupported('store'))), 92235, 18), {'remove_negative_eig': False})
    G = it.getattr(obj, 'corr_df').vals
    i, j = ctx.fresh('i', K.I_), ctx.fresh('j', K.I_)
    ctx.result('corr', G)
    ctx.prove('without the repair the correlation is the loaded one', z3.Implies(inr(i, j), same(G.fn((i, j)), K.Sym('f', c(i, j)))))


def case(m):
    return {'kind': 'model', 'corr': m['corr'], 'scale': 1.0, 'bounds': list(np.arange(len(m['corr']) + 1.)), 'no_repair': False}


def case_no(m):
    return dict(case(m), no_repair=True)


def pins(zero):
    rng = np.random.RandomState(3)
    for g in (1, 2, 3):
        m = np.round(rng.uniform(-1, 1, (g, g)), 2)
        m = (m + m.T) / 2
        np.fill_diagonal(m, 0 if zero else 1)
        yield {'n': g, 'corr': (m if not zero else m * 0).tolist()}


def real(p, repair):
    from ASAPy import XsecSampler as XS
    from contracts import stores as S
    g = p['n']
    df = S.std_frame(np.arange(g + 1), np.ones(g), np.ones(g))
    h = S.DictStore({S.key(1001, 2, 1001, 2, 'std_dev'): df, S.key(1001, 2, 1001, 2, 'corr'): S.corr_frame(p['corr'])})
    return {'corr': XS.XsecSampler(h, 1001, 2, remove_negative_eig=repair).corr_df.values}


AS = ['load_zaid_mt by its contract (C07): the loaded correlation is symmetric with diagonal between 0 and 1, one of them 1 unless all are 0',
      'scipy.linalg.eigh returns an orthogonal V and ascending eigenvalues with A = V diag V\' and extreme eigenvalues bounding the diagonal (exact arithmetic)']
TASKS = [
    Task('XsecSampler repairs', [MOD + 'XsecSampler.__init__', MOD + 'XsecSampler._fix_non_pos_semi_def_matrix_eigen'], repair, lambda: pins(True), lambda p: real(p, True), case, AS),
    Task('XsecSampler without repair', [MOD + 'XsecSampler.__init__'], untouched, lambda: pins(False), lambda p: real(p, False), case_no, AS),
]
