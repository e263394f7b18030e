"""C08: relative and absolute samples, negative removal and clipping, for every number of groups and samples and all sampled values."""
import z3
import numpy as np
from pyvc import core as K
from pyvc.core import same, zb, dz
from pyvc.prove import Task

MOD = 'ASAPy.XsecSampler:'
COLS = ['e low', 'e high', 'x-sec(1)', 'x-sec(2)', 'rel.s.d.(1)', 'rel.s.d(2)', 's.d.(1)', 's.d(2)']
SWC = 'ASAPy.CovManipulation:sample_with_corr'


class World:
    """a sampler over arbitrary tables; the correlated sampler is replaced by its contract (C03, C04): finite values, one row per
    sample and one column per group, arguments untouched"""
    def __init__(self, ctx, it, stype):
        from pyvc import pdmodel as P, interp as I
        import importlib
        self.ctx, self.it = ctx, it
        self.G = ctx.in_int('G', 1, size=True)
        self.n = ctx.in_int('n', 1, size=True)
        self.mean = ctx.in_arr('xsec', (self.G,))
        self.A = ctx.in_arr('samples', (self.n, self.G))
        self.mean0, self.a0 = self.mean.snap(), self.A.snap()
        cols = {c: ctx.in_arr(c, (self.G,)) for c in COLS}
        cols['x-sec(1)'] = self.mean
        self.sd0 = cols['s.d.(1)'].snap()
        corr = ctx.in_arr('corr', (self.G, self.G))
        self.corr0 = corr.snap()
        XS = importlib.import_module('ASAPy.XsecSampler')
        self.lab = P.Labels(self.mean.shape[0], 1)
        self.obj = I.SObj(XS.XsecSampler, std_dev_df=P.Table(cols, self.lab), corr_df=P.Matrix(corr, self.lab, self.lab), zaid=1001, mt=102)
        self.calls = []
        I.CONTRACTS[SWC] = self.swc
        self.stype = stype

    def swc(self, it, args, kw):
        names = ['mean_values', 'std_dev', 'desired_corr', 'num_samples', 'distro', 'mt']
        a = dict(zip(names, args))
        a.update(kw)
        ctx = self.ctx
        i, j = ctx.fresh('i', K.I_), ctx.fresh('j', K.I_)
        g = K.zi(self.G)
        rng = z3.And(i >= 0, i < g, j >= 0, j < g)
        ctx.prove('the group means are sampled', z3.And(dz(a['mean_values'].shape[0]) == g, z3.Implies(rng, same(a['mean_values'].fn((i,)), self.mean0((i,))))), kind='call')
        ctx.prove('with the group deviations', z3.And(dz(a['std_dev'].shape[0]) == g, z3.Implies(rng, same(a['std_dev'].fn((i,)), self.sd0((i,))))), kind='call')
        c = a['desired_corr']
        want = self.corr0((i, j)) if 'uncorrelated' not in self.stype.lower() else K.ite(i == j, 1.0, 0.0)
        ctx.prove('with the requested correlation', z3.And(dz(c.shape[0]) == g, dz(c.shape[1]) == g, z3.Implies(rng, same(c.fn((i, j)), want))), kind='call')
        ctx.prove('as many samples as requested', K.zi(a['num_samples']) == K.zi(self.n), kind='call')
        d = {'normal': 'normal', 'lognormal': 'lognormal', 'uncorrelated': 'normal', 'uniform': 'uniform', 'loguncorrelated': 'lognormal'}[self.stype.lower()]
        ctx.prove('from the requested distribution', z3.BoolVal(a.get('distro', 'normal') == d), kind='call')
        self.calls.append(1)
        return K.Arr(self.A.shape, 'f', self.a0)

    def value(self, rel, g, s):
        v = self.a0((s, g))
        m = self.mean0((g,))
        return K.div(v, K.ite(zb(K.cmp('==', m, 0.0)), 1.0, m)) if rel else v

    def kept(self, rel):
        """specification of the samples without a negative value, as a selection"""
        from pyvc import npmodel as N
        ctx = self.ctx
        keep = z3.Function(f'spec.keep{int(rel)}', K.I_, K.B_)
        w = z3.Function(f'spec.neg{int(rel)}', K.I_, K.I_)
        s, g = z3.Ints('sp!s sp!g')
        G, n = K.zi(self.G), K.zi(self.n)
        old, ctx.capture = ctx.capture, []
        neg = lambda g, s: zb(K.cmp('<', self.value(rel, g, s), 0))
        e1, e2 = neg(g, s), neg(w(s), s)
        ex, ctx.capture = ctx.capture, old
        rs = z3.And(s >= 0, s < n)
        ctx.axioms.append(z3.ForAll([s, g], z3.Implies(z3.And(rs, g >= 0, g < G, keep(s)), z3.And(z3.Not(e1), *ex))))
        ctx.axioms.append(z3.ForAll([s], z3.Implies(z3.And(rs, z3.Not(keep(s))), z3.And(w(s) >= 0, w(s) < G, e2)), patterns=[keep(s)]))
        return N.selection(K.Arr((self.n,), 'b', lambda idx: K.mk(keep(idx[0]))))

    def check(self, name, df, rel, remove, clip=False):
        ctx = self.ctx
        g, j = ctx.fresh('g', K.I_), ctx.fresh('j', K.I_)
        G, n = K.zi(self.G), K.zi(self.n)
        if remove:
            sel = self.kept(rel)
            m, src = sel.m, sel.sel(j)
        else:
            m, src = n, j
        ctx.prove(f'{name}: one row per group labelled from 1', z3.And(dz(df.vals.shape[0]) == G, dz(df.index.n) == G, z3.Implies(z3.And(g >= 0, g < G), K.zi(df.index.fn(g)) == g + 1)))
        ctx.prove(f'{name}: one column per kept sample, numbered from 0',
                  z3.And(dz(df.vals.shape[1]) == m, dz(df.columns.n) == m, z3.Implies(z3.And(j >= 0, j < m), K.zi(df.columns.fn(j)) == j)))
        want = self.value(rel, g, src)
        if clip:
            want = K.ite(zb(K.cmp('<', want, 0)), 0.0, want)
        v = df.vals.fn((g, j))
        rng = z3.And(g >= 0, g < G, j >= 0, j < m)
        ctx.prove(f'{name}: values of the kept samples, unchanged and in order', z3.Implies(rng, z3.And(K.fin(v), K.fl(v)[0] == K.fl(want)[0])))

    def untouched(self):
        ctx = self.ctx
        i, j = ctx.fresh('i', K.I_), ctx.fresh('j', K.I_)
        g = K.zi(self.G)
        o = self.obj.attrs
        ctx.prove('the tables of the sampler are unchanged', z3.Implies(z3.And(i >= 0, i < g, j >= 0, j < g), z3.And(
            same(o['std_dev_df'].cols['x-sec(1)'].fn((i,)), self.mean0((i,))), same(o['std_dev_df'].cols['s.d.(1)'].fn((i,)), self.sd0((i,))),
            same(o['corr_df'].vals.fn((i, j)), self.corr0((i, j))))))


def sample(ctx, it, stype, rel, remove, clip):
    w = World(ctx, it, stype)
    df = it.call(it.getattr(w.obj, 'sample'), (stype, w.n), dict(return_relative=rel, remove_neg=remove, set_neg_to_zero=clip))
    ctx.prove('sampled exactly once', z3.BoolVal(len(w.calls) == 1))
    w.check('samples', df, rel, remove, clip)
    w.untouched()
    ctx.result('df', df.vals)


def bad(ctx, it):
    w = World(ctx, it, 'normal')
    try:
        df = it.call(it.getattr(w.obj, 'sample'), ('normal', w.n), dict(raise_on_bad_sample=True))
        ex = None
    except K.PyRaise as e:
        ex = e
    sel = w.kept(True)
    i = ctx.fresh('i', K.I_)
    if ex is None:
        s, g = ctx.fresh('s', K.I_), ctx.fresh('g', K.I_)
        w.check('samples', df, True, True)
        ctx.prove('accepted only when all samples are kept', sel.m == K.zi(w.n))
    else:
        ctx.prove('rejected only when a sample was removed', sel.m < K.zi(w.n))


def xsec(ctx, it, stype, remove):
    from pyvc import interp as I
    w = World(ctx, it, stype)

    def make(it_, args, kw):
        names = ['h', 'zaid_1', 'mt_1', 'zaid_2', 'mt_2', 'remove_negative_eig']
        a = dict(zip(names, args))
        a.update(kw)
        ctx.prove('the sampler is built for the given store, nuclide and reaction', z3.BoolVal(a['h'] == 'STORE' and a['zaid_1'] == 1001 and a['mt_1'] == 102 and a.get('zaid_2') in (None, 1001)
                  and a.get('mt_2') in (None, 102) and a.get('remove_negative_eig', True) is True), kind='call')
        return w.obj
    I.CONTRACTS['ASAPy.XsecSampler:XsecSampler'] = make
    rel, full = it.call(it.load(MOD + 'sample_xsec'), ('STORE', 102, 1001, w.n), dict(sample_type=stype, remove_neg=remove))
    w.check('full', full, False, remove)
    # the relative table describes exactly the samples of the full one
    g, j = ctx.fresh('g', K.I_), ctx.fresh('j', K.I_)
    G = K.zi(w.G)
    m = dz(full.vals.shape[1])
    ctx.prove('relative table: same shape and labels', z3.And(dz(rel.vals.shape[0]) == G, dz(rel.vals.shape[1]) == m, dz(rel.columns.n) == m, z3.Implies(z3.And(g >= 0, g < G), K.zi(rel.index.fn(g)) == g + 1),
                                                              z3.Implies(z3.And(j >= 0, j < m), K.zi(rel.columns.fn(j)) == j)))
    a, b = full.vals.fn((g, j)), rel.vals.fn((g, j))
    mu = K.fl(w.mean0((g,)))[0]
    ctx.prove('relative values: absolute over the mean, the absolute value itself for a zero mean, never missing',
              z3.Implies(z3.And(g >= 0, g < G, j >= 0, j < m), z3.And(K.fin(b), K.fl(b)[0] * z3.If(mu == 0, 1, mu) == K.fl(a)[0])))
    w.untouched()
    ctx.result('full', full.vals)
    ctx.result('rel', rel.vals)


def case(stype):
    return lambda m: {'kind': 'stub', 'type': stype, 'xsec': m['xsec'].tolist(), 'samples': m['samples'].tolist()}


def pins():
    A = np.array([[1.0, 2.0], [-1.0, 0.5], [0.0, 3.0]])
    for mean in ([2.0, 4.0], [0.0, 1.0], [1.0, -1.0]):
        yield {'G': 2, 'n': 3, 'xsec': np.array(mean), 'samples': A, 'corr': np.eye(2), 's.d.(1)': np.ones(2)}


def real_with(p, f):
    from ASAPy import XsecSampler as XS
    from contracts import stores as S
    g = p['G']
    h = S.DictStore({S.key(1001, 102, 1001, 102, 'std_dev'): S.std_frame(np.arange(g + 1)[::-1] + 1., p['xsec'], np.ones(g)),
                     S.key(1001, 102, 1001, 102, 'corr'): S.corr_frame(np.eye(g))})
    old = XS.CovManipulation.sample_with_corr
    XS.CovManipulation.sample_with_corr = lambda *a, **k: np.array(p['samples'])
    try:
        return f(XS, h)
    finally:
        XS.CovManipulation.sample_with_corr = old


AS = ['CovManipulation.sample_with_corr is used through its contract here (finite values, one row per sample, one column per group, arguments unchanged: C03, C04)']
TASKS = []
combos = [(st, True, False, False) for st in ('normal', 'lognormal', 'uncorrelated', 'uniform', 'loguncorrelated', 'LogNormal')]
combos += [('normal', r, n, z) for r in (True, False) for n in (True, False) for z in (True, False) if (r, n, z) != (True, False, False)]
for st, r, n, z in combos:
    TASKS.append(Task(f'sample({st}, relative={r}, remove_neg={n}, set_neg_to_zero={z})', [MOD + 'XsecSampler.sample', MOD + 'XsecSampler._sample_check'],
                      lambda ctx, it, a=(st, r, n, z): sample(ctx, it, *a), pins,
                      lambda p, a=(st, r, n, z): real_with(p, lambda XS, h: {'df': XS.XsecSampler(h, 1001, 102).sample(a[0], p['n'], return_relative=a[1], remove_neg=a[2], set_neg_to_zero=a[3]).values}),
                      case(st), AS))
TASKS.append(Task('sample raising on removed samples', [MOD + 'XsecSampler.sample'], bad, case=case('normal'), assumptions=AS))
for st, n in (('lognormal', False), ('normal', True), ('uncorrelated', False)):
    TASKS.append(Task(f'sample_xsec({st}, remove_neg={n})', [MOD + 'sample_xsec'], lambda ctx, it, a=(st, n): xsec(ctx, it, *a), pins,
                      lambda p, a=(st, n): real_with(p, lambda XS, h: dict(zip(('rel', 'full'), [d.values for d in XS.sample_xsec(h, 102, 1001, p['n'], sample_type=a[0], remove_neg=a[1])]))),
                      case(st), AS))
