"""An AceEditor over arbitrary tables for the verifier: concrete reaction numbers, symbolic grid, thresholds and values."""
import importlib
import z3
from pyvc import core as K
from pyvc.core import same, dz

ACE = 'ASAPy.AceIO:'
T = '300K'
TAB = 'ASAPy.data.function:Tabulated1D.__call__'


class Ace:
    def __init__(self, ctx, it, mts, adjusted=(), differ=None, chi=0):
        from pyvc import interp as I
        self.ctx, self.it, self.mts = ctx, it, list(mts)
        self.N = ctx.in_int('N', 1, size=True)
        self.n = K.zi(self.N)
        self.E = ctx.in_arr('E', (self.N,))
        self.e0 = self.E.snap()
        self.at = z3.Function('grid.at', K.R_, K.I_)
        k, l = z3.Ints('ag!k ag!l')
        e = lambda k: K.fl(self.e0((k,)))[0]
        self.e = e
        ctx.axioms.append(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < self.n), z3.And(self.at(e(k)) == k, e(k) > 0)), patterns=[e(k)]))
        ctx.axioms.append(z3.ForAll([k, l], z3.Implies(z3.And(k >= 0, k < l, l < self.n), e(k) < e(l)), patterns=[z3.MultiPattern(e(k), e(l))]))
        self.start, self.v0, self.o0, self.arr = {}, {}, {}, {}
        self.fun = importlib.import_module('ASAPy.data.function')
        self.rx = importlib.import_module('ASAPy.data.reaction')
        self.neu = importlib.import_module('ASAPy.data.neutron')
        AceIO = importlib.import_module('ASAPy.AceIO')
        self.calls = 0
        tables = {'v': {}, 'o': {}}
        for m in self.mts:
            s = self.start[m] = ctx.in_int(f'start{m}', 0)
            ctx.fact(K.zi(s) < self.n)
            o = ctx.in_arr(f'o{m}', (K.sub(self.N, s),))
            v = ctx.in_arr(f'v{m}', (K.sub(self.N, s),)) if m in (adjusted if differ is None else differ) else o.copy()
            self.o0[m], self.v0[m] = o.snap(), v.snap()
            for w, y in (('v', v), ('o', o)):
                tables[w][m] = I.SObj(self.rx.Reaction, mt=m, xs={T: self.tab(m, y)}, products=[], derived_products=[])
        self.chi = chi
        self.chi_now, self.chi_file = [], []
        if chi:
            self.fission(tables, adjusted if differ is None else differ)
            self.mts = self.mts + [452, 1018]
        mk = lambda w: I.SObj(self.neu.IncidentNeutron, reactions=tables[w], temperatures=[T], energy={T: self.E.copy()}, name='X1')
        self.table, self.orig = mk('v'), mk('o')
        self.ed = I.SObj(AceIO.AceEditor, table=self.table, original_table=self.orig, temperature=T, ace_path='/x.ace', all_mts=list(self.mts),
                         original_sigma={}, adjusted_mts=set(adjusted))
        I.CONTRACTS[TAB] = self.interpolate
        I.CONTRACTS['ASAPy.data.product:Product.__repr__'] = lambda it, args, kw: '<Product: {_particle}, emission={_emission_mode}, yield=tabulated>'.format(**args[0].attrs)

    def fission(self, tables, differ):
        """yield table (MT 452) and `chi` incident energies of the prompt spectrum on MT 18"""
        from pyvc import interp as I
        import numpy as np
        ctx = self.ctx
        prod = importlib.import_module('ASAPy.data.product').Product
        ede = importlib.import_module('ASAPy.data.energy_distribution')
        uni = importlib.import_module('ASAPy.data.univariate')
        uncorr = importlib.import_module('ASAPy.data.uncorrelated')
        M = self.M = ctx.in_int('nu_n', 1, size=True)
        nx = ctx.in_arr('nu_e', (M,))
        self.nux0 = nx.snap()
        no = ctx.in_arr('nu_o', (M,))
        nv = ctx.in_arr('nu_v', (M,)) if 452 in differ else no.copy()
        self.o0[452], self.v0[452] = no.snap(), nv.snap()
        self.L = [ctx.in_int(f'chi_n{j}', 2, size=True) for j in range(self.chi)]
        cx = [ctx.in_arr(f'chi_x{j}', (self.L[j],)) for j in range(self.chi)]
        cein = ctx.in_arr('chi_e', (self.chi,))
        base = {n: [ctx.in_arr(f'chi_{n}{j}', (self.L[j],)) for j in range(self.chi)] for n in ('p', 'c')}
        self.cx0 = [a.snap() for a in cx]
        for w, y in (('v', nv), ('o', no)):
            t = lambda: I.SObj(self.fun.Tabulated1D, _x=K.Arr((M,), 'f', self.nux0), _y=y, _breakpoints=[M], _interpolation=np.array([2]))
            arrs = {}
            for n in ('p', 'c'):
                now = [ctx.in_arr(f'chi_{n}now{j}', (self.L[j],)) for j in range(self.chi)] if (w == 'v' and 1018 in differ) else [a.copy() for a in base[n]]
                arrs[n] = now
            tabs = [I.SObj(uni.Tabular, _x=cx[j].copy(), _p=arrs['p'][j], c=arrs['c'][j], _interpolation='linear-linear', _ignore_negative=True) for j in range(self.chi)]
            dist = I.SObj(ede.ContinuousTabular, _breakpoints=[self.chi], _interpolation=[2], _energy=cein.copy(), _energy_out=tabs)
            ua = I.SObj(uncorr.UncorrelatedAngleEnergy, _angle=None, _energy=dist)
            r = tables[w][18].attrs
            r['products'] = [I.SObj(prod, _particle='neutron', _emission_mode='prompt', _yield=t(), _distribution=[ua], _decay_rate=0.0, _applicability=[])]
            r['derived_products'] = [I.SObj(prod, _particle='neutron', _emission_mode='total', _yield=t(), _distribution=[], _decay_rate=0.0, _applicability=[])]
            (self.chi_now if w == 'v' else self.chi_file).extend(tabs)

    def parts(self):
        """everything an editor holds, by name"""
        out = {}
        for w, t in (('now', self.table), ('file', self.orig)):
            for m, r in t.attrs['reactions'].items():
                tab = r.attrs['xs'][T].attrs
                out[w, m, 'x'], out[w, m, 'y'] = tab['_x'], tab['_y']
                if r.attrs['derived_products']:
                    tab = r.attrs['derived_products'][0].attrs['_yield'].attrs
                    out[w, 452, 'x'], out[w, 452, 'y'] = tab['_x'], tab['_y']
                if r.attrs['products']:
                    d = r.attrs['products'][0].attrs['_distribution'][0].attrs['_energy'].attrs
                    out[w, 1018, 'e'] = d['_energy']
                    out[w, 1018, 'n'] = len(d['_energy_out'])
                    for j, q in enumerate(d['_energy_out']):
                        for n in ('_x', '_p', 'c'):
                            out[w, 1018, n, j] = q.attrs[n]
        return out

    def remember(self):
        return {k: (v.snap(), v.shape) if isinstance(v, K.Arr) else v for k, v in self.parts().items()}

    def unchanged(self, old, but=()):
        """every part except the named ones is as remembered"""
        now = self.parts()
        if set(now) != set(old):
            return z3.BoolVal(False)
        i = self.ctx.fresh('i', K.I_)
        goals = []
        for k, v in now.items():
            if k in but:
                continue
            if not isinstance(v, K.Arr):
                goals.append(z3.BoolVal(not isinstance(v, (list, tuple)) and v == old[k]))
                continue
            f, sh = old[k]
            goals.append(z3.And(len(v.shape) == 1, dz(v.shape[0]) == dz(sh[0]), z3.Implies(z3.And(i >= 0, i < dz(sh[0])), same(v.fn((i,)), f((i,))))))
        return z3.And(*goals)

    def length(self, m):
        return self.n - K.zi(self.start[m])

    def tab(self, m, y):
        """a linear tabulated function over the grid from its threshold on"""
        from pyvc import interp as I
        s = K.zi(self.start[m])
        x = K.Arr((K.sub(self.N, self.start[m]),), 'f', lambda idx: self.e0((idx[0] + s,)))
        import numpy as np
        return I.SObj(self.fun.Tabulated1D, _x=x, _y=y, _breakpoints=[K.sub(self.N, self.start[m])], _interpolation=np.array([2]), mt_=m)

    def interpolate(self, it, args, kw):
        """contract of Tabulated1D.__call__ (C20) at energies of the common grid: the tabulated value, zero below the threshold"""
        o, x = args
        ctx = self.ctx
        m = o.attrs.get('mt_')
        if m is None or not isinstance(x, K.Arr):
            raise K.Unsupported('evaluation of another function')
        q = ctx.fresh('q', K.I_)
        xf = x.snap()
        xe = K.fl(xf((q,)))[0]
        ctx.prove('reactions are evaluated at energies of the grid', z3.Implies(z3.And(q >= 0, q < dz(x.shape[0])), z3.And(
            self.at(xe) >= 0, self.at(xe) < self.n, xe == self.e(self.at(xe)))), kind='call')
        y = o.attrs['_y']
        yf = y.snap()
        s = K.zi(self.start[m])
        ctx.prove('with one value per energy', dz(y.shape[0]) == self.length(m), kind='call')
        self.calls += 1

        def f(idx):
            k = self.at(K.fl(xf((idx[0],)))[0])
            return K.ite(k < s, 0.0, yf((k - s,)))
        return K.Arr(x.shape, 'f', f)

    def y(self, w, m):
        t = {'v': self.table, 'o': self.orig}[w]
        return t.attrs['reactions'][m].attrs['xs'][T].attrs['_y']

    def at_energy(self, m, f, k):
        """value of reaction m (values f) at grid index k, zero below its threshold"""
        s = K.zi(self.start[m])
        return K.ite(k < s, 0.0, f((k - s,)))

    def energies_kept(self, i):
        goals = []
        for t in (self.table, self.orig):
            for m, r in t.attrs['reactions'].items():
                x = r.attrs['xs'][T].attrs['_x']
                goals.append(z3.And(dz(x.shape[0]) == self.length(m), z3.Implies(z3.And(i >= 0, i < self.length(m)), same(x.fn((i,)), self.e0((i + K.zi(self.start[m]),))))))
        return z3.And(*goals)


def real_editor(p, mts, adjusted=(), differ=None, chi=0):
    """the same editor built from the real classes, for concrete values p (cross-check of the verifier against CPython)"""
    import numpy as np
    from ASAPy import AceIO
    from ASAPy.data import function, reaction, neutron, product, energy_distribution, univariate, uncorrelated
    differ = adjusted if differ is None else differ
    E = np.array(p['E'], float)
    tabs = []
    for w in 'vo':
        t = neutron.IncidentNeutron('X1', 1, 1, 0, 1.0, [0.0253])
        for m in mts:
            r = reaction.Reaction(m)
            s = p[f'start{m}']
            r.xs[T] = function.Tabulated1D(E[s:].copy(), np.array(p[f'v{m}'] if w == 'v' and m in differ else p[f'o{m}'], float))
            t.reactions[m] = r
        if chi:
            y = product.Product()
            y.emission_mode = 'total'
            y.yield_ = function.Tabulated1D(np.array(p['nu_e'], float), np.array(p['nu_v'] if w == 'v' and 452 in differ else p['nu_o'], float))
            t.reactions[18].derived_products.append(y)
            q = product.Product()
            out = []
            for j in range(chi):
                now = 'now' if w == 'v' and 1018 in differ else ''
                d = univariate.Tabular(np.array(p[f'chi_x{j}'], float), np.array(p[f'chi_p{now}{j}'], float), 'linear-linear', ignore_negative=True)
                d.c = np.array(p[f'chi_c{now}{j}'], float)
                out.append(d)
            ua = uncorrelated.UncorrelatedAngleEnergy()
            ua.energy = energy_distribution.ContinuousTabular([chi], [2], np.array(p['chi_e'], float), out)
            q.distribution.append(ua)
            t.reactions[18].products.append(q)
        tabs.append(t)
    ed = AceIO.AceEditor.__new__(AceIO.AceEditor)
    ed.table, ed.original_table, ed.temperature, ed.ace_path = tabs[0], tabs[1], T, '/x.ace'
    ed.all_mts = list(mts) + ([452, 1018] if chi else [])
    ed.original_sigma, ed.adjusted_mts = {}, set(adjusted)
    return ed
