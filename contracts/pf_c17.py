"""C17: writing sampled files, for any number of samples, processes, groups, energies and all values. The callees are used by their contracts:
reading and editing tables (C13, C15), the map of group values (C09), loading from the store (C07), replacing numbers in a file (C16); the sum
rules are executed in place. The loop over the samples is judged at a generic sample."""
import importlib
import z3
from pyvc import core as K
from pyvc.core import same, dz
from pyvc.prove import Task
from contracts.aceworld import Ace, ACE, T
from contracts.pf_c14 import SUMS, ORDER, expand

XM = 'ASAPy.XsecSampler:'
BASE, OUT = '/base.ace', '/out/x_{0}'
ZAID = 92235


def clone(v):
    from pyvc import interp as I
    if isinstance(v, I.SObj):
        return I.SObj(v.cls, **{k: clone(x) for k, x in v.attrs.items()})
    if isinstance(v, K.Arr):
        return v.copy()
    if isinstance(v, dict):
        return {k: clone(x) for k, x in v.items()}
    if isinstance(v, (list, tuple, set)):
        return type(v)(clone(x) for x in v)
    return v


def samples_type():
    """a table of samples: the columns put in front of it and the csv it is printed to are recorded"""
    from pyvc import interp as I, pdmodel as P
    if not hasattr(P, 'Samples17'):
        class Samples17(P.Matrix):
            log = None
        P.Samples17 = Samples17

        def attr(it, m, name):
            if name == 'insert':
                return I.Model(lambda it, loc, column, value, *a, **k: m.log.append(('insert', m, column)))
            if name == 'to_csv':
                return I.Model(lambda it, path, *a, **k: m.log.append(('csv', m, path)))
            return P.matrix_attr(it, m, name)
        I.TYPE_ATTRS.insert(0, (lambda o: isinstance(o, Samples17), attr))
    return P.Samples17


class World(Ace):
    def __init__(self, ctx, it, mts, sampled, built, chi):
        from pyvc import interp as I, pdmodel as P
        super().__init__(ctx, it, mts, chi=chi)
        self.sampled, self.built = sampled, built
        self.XS = importlib.import_module('ASAPy.XsecSampler')
        self.S = ctx.in_int('samples', 1, size=True)
        self.size = ctx.in_int('size', 1)
        self.rank = ctx.in_int('rank', 0)
        ctx.fact(K.zi(self.rank) < K.zi(self.size))
        self.XS.rank, self.XS.size = self.rank, self.size
        self.log = []
        Samples = samples_type()
        self.G, self.high, self.low, self.xs, self.rel, self.dfs = {}, {}, {}, {}, {}, []
        self.grp, self.inside = {}, {}
        k = z3.Int('c17!k')
        for m in sampled:
            G = self.G[m] = ctx.in_int(f'groups{m}', 1, size=True)
            g = K.zi(G)
            for nm in ('high', 'low', 'xs'):
                f = ctx.in_arr(f'{nm}{m}', (G,)).snap()
                getattr(self, nm)[m] = f
            r = ctx.in_arr(f'rel{m}', (G, self.S))
            self.rel[m] = r.snap()
            # the group whose interval holds an energy (contract of map_groups_to_continuous, C09)
            self.grp[m], self.inside[m] = ctx.fresh_fn(f'group of energy {m}', K.R_, K.I_), ctx.fresh_fn(f'energy in the groups {m}', K.R_, K.B_)
            x = z3.Real('c17!x')
            ctx.axioms.append(z3.ForAll([x], z3.And(self.grp[m](x) >= 0, self.grp[m](x) < g), patterns=[self.grp[m](x)]))
            d = Samples(r, P.Labels(g, 1), P.Labels(K.zi(self.S), 0))
            d.log = self.log
            self.dfs.append(d)
        self.fresh_tables = clone((self.table, self.orig))
        C = I.CONTRACTS
        C[ACE + 'AceEditor.__init__'] = self.editor
        C[ACE + 'AceEditor.set_chi_distro'] = self.set_chi
        C[XM + 'XsecSampler.load_zaid_mt'] = self.load
        C[XM + 'map_groups_to_continuous'] = self.map
        C[ACE + 'WriteAce.__init__'] = self.writer
        C[ACE + 'WriteAce.replace_array'] = self.replace
        C[ACE + 'WriteAce.write_ace'] = self.write
        I.INVARIANTS['*'] = self.loop
        self.files = []
        self.store = I.SObj(object, name='store')
        self.f0 = {m: self.o0[m] for m in self.mts if m != 1018}
        for j in range(chi):
            for n, a in (('p', '_p'), ('c', 'c')):
                self.f0[n, j] = self.chi_file[j].attrs[a].snap()
        self.len0 = {k: self.length(k) if isinstance(k, int) and k != 452 else K.zi(self.M) if k == 452 else K.zi(self.L[k[1]]) for k in self.f0}

    # ------------------------------------------------ contracts of the callees
    def path_is_base(self, what, p):
        self.ctx.prove(what, z3.BoolVal(p == BASE), kind='call')

    def editor(self, it, args, kw):
        names = ['self', 'ace_path', 'temperature']
        d = dict(zip(names, args))
        d.update(kw)
        self.path_is_base('the base file is edited', d['ace_path'])
        t, o = clone(self.fresh_tables)
        d['self'].attrs.update(table=t, original_table=o, temperature=T, ace_path=BASE, all_mts=list(self.mts), original_sigma={}, adjusted_mts=set())

    def set_chi(self, it, args, kw):
        """C15: densities of the right size are taken over, normalised; the cumulative distribution follows"""
        ed, pdf = args[0], args[1] if len(args) > 1 else kw['pdf']
        ctx = self.ctx
        d = ed.attrs['table'].attrs['reactions'][18].attrs['products'][0].attrs['_distribution'][0].attrs['_energy'].attrs['_energy_out']
        q = list(pdf)
        if len(q) != len(d):
            raise K.PyRaise(Exception, ('spectrum of wrong size',))
        for a, b in zip(q, d):
            if not isinstance(a, K.Arr):
                raise K.Unsupported('a density')
            ctx.prove('the spectrum set has one density per outgoing energy', dz(a.shape[0]) == dz(b.attrs['_x'].shape[0]), kind='call')
        self.set_pdf = [a.snap() for a in q]
        for b in d:
            for n in ('_p', 'c'):
                f = ctx.fresh_fn('chi.' + n, K.I_, K.R_)
                b.attrs[n] = K.Arr(b.attrs[n].shape, 'f', lambda idx, f=f: K.mkf(f(idx[0])))
        self.set_res = {(n, j): b.attrs[a].snap() for j, b in enumerate(d) for n, a in (('p', '_p'), ('c', 'c'))}

    def load(self, it, args, kw):
        from pyvc import pdmodel as P
        d = dict(zip(['h', 'zaid_1', 'mt_1', 'zaid_2', 'mt_2', 'fill_corr_diag'], args))
        d.update(kw)
        mt = d['mt_1']
        self.ctx.prove('the covariance loaded is that of the nuclide and a sampled reaction', z3.BoolVal(
            d['h'] is self.store and d['zaid_1'] == ZAID and mt in self.sampled and d.get('zaid_2') in (None, ZAID) and d.get('mt_2') in (None, mt)), kind='call')
        G = K.zi(self.G[mt])
        col = lambda f: K.Arr((K.mk(G),), 'f', f)
        fresh = lambda n: (lambda f: lambda idx: K.mkf(f(idx[0])))(self.ctx.fresh_fn(n, K.I_, K.R_))
        t = {'e low': col(self.low[mt]), 'e high': col(self.high[mt]), 'x-sec(1)': col(self.xs[mt])}
        for n in ('x-sec(2)', 'rel.s.d.(1)', 'rel.s.d(2)', 's.d.(1)', 's.d(2)'):
            t[n] = col(fresh(n))
        c = self.ctx.fresh_fn('corr', K.I_, K.I_, K.R_)
        return (P.Table(t, P.Labels(G, 1)), P.Matrix(K.Arr((K.mk(G), K.mk(G)), 'f', lambda idx: K.mkf(c(*idx))), P.Labels(G, 1), P.Labels(G, 1)))

    def is_array(self, a, f, n):
        """does the array provably have these values?"""
        n = K.zi(n)
        i = z3.Int(f'c17!i{next(self.ctx.fresh_n)}')
        return self.ctx.valid(z3.And(dz(a.shape[0]) == dz(n), z3.Implies(z3.And(i >= 0, i < dz(n)), same(a.fn((i,)), f((i,))))), 3000)

    def map(self, it, args, kw):
        """C09"""
        from pyvc import npmodel as N, pdmodel as P
        d = dict(zip(['e_sigma', 'high_e_bins', 'multi_group_val', 'max_e', 'min_e', 'value_outside_of_range'], args))
        d.update(kw)
        e, h, v = (N.nolist(N.as_arr(d[k])) for k in ('e_sigma', 'high_e_bins', 'multi_group_val'))
        mt = [m for m in self.sampled if self.is_array(h, self.high[m], self.G[m])]
        if not mt:
            raise K.Unsupported('a group structure that is not recognised')
        m = mt[0]
        if d.get('max_e') is not None or d.get('value_outside_of_range', 1) != 1:
            raise K.Unsupported('another range of the group structure')
        n = K.zi(self.G[m])
        lo = d['min_e']
        k = self.ctx.fresh('k', K.I_)
        low = lambda k: K.fl(self.low[m]((k,)))[0]
        # e low decreases with the group number (contract of the store, C10): its least value is the last one
        q = z3.Int('c17!q')
        self.ctx.axioms.append(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), low(q) >= low(n - 1)), patterns=[low(q)]))
        self.ctx.prove('the groups start at the lowest bound', K.fl(lo)[0] == low(n - 1))
        self.ctx.prove('one value per group is mapped', dz(v.shape[0]) == n, kind='call')
        ef, vf = e.snap(), v.snap()

        def f(idx):
            x = K.fl(ef(idx))[0]
            return K.ite(self.inside[m](x), vf((self.grp[m](x),)), 1.0)
        return K.Arr(e.shape, 'f', f)

    def writer(self, it, args, kw):
        self.path_is_base('the base file is rewritten', kw.get('ace_path', args[1] if len(args) > 1 else None))
        args[0].attrs['replaced'] = {}

    def replace(self, it, args, kw):
        """C16, for a file in which no two arrays are equal and no new one equals another of the file"""
        d = dict(zip(['self', 'array', 'replace_with', 'max_replaces'], args))
        d.update(kw)
        ctx = self.ctx
        a, b, n = d['array'], d['replace_with'], d.get('max_replaces', 1)
        if not isinstance(a, K.Arr) or not isinstance(b, K.Arr) or not isinstance(n, int):
            raise K.Unsupported('replaced arrays')
        ctx.prove('arrays of equal length are replaced', dz(a.shape[0]) == dz(b.shape[0]), kind='call')
        done = d['self'].attrs['replaced']
        for key, f in self.f0.items():
            g = (lambda idx, f=f: K.mul(f(idx), 1e6)) if isinstance(key, tuple) and key[0] == 'p' else f
            if self.is_array(a, g, self.len0[key]):
                if key in self.built:
                    raise K.PyRaise(ValueError, ('not in the file',))
                if key in done:
                    raise K.PyRaise(ValueError, ('not in the file any more',))
                ctx.prove('replacing is not switched off', z3.BoolVal(n != 0), kind='call')
                done[key] = (b.snap(), b.shape[0])
                return
        ctx.prove('the array that is searched for is one of the base file', z3.BoolVal(False))
        raise K.PyRaise(ValueError, ('not in the file',))

    def write(self, it, args, kw):
        p = args[1] if len(args) > 1 else kw['ace_path_to_write']
        self.files.append((p, dict(args[0].attrs['replaced'])))

    # ------------------------------------------------ what is expected of sample s
    def expected(self, s):
        want, adj = {}, set()
        cur = {m: self.o0[m] for m in self.mts if m not in (452, 1018)}
        for m in self.sampled:
            rel = lambda x, m=m: K.ite(self.inside[m](x), self.rel[m]((self.grp[m](x), s)), 1.0)
            gm = lambda x, m=m: K.ite(self.inside[m](x), self.xs[m]((self.grp[m](x),)), 1.0)
            if m == 1018:
                continue
            energy = (lambda k: K.fl(self.nux0((k,)))[0]) if m == 452 else (lambda k, m=m: self.e(k + K.zi(self.start[m])))

            def new(idx, m=m, rel=rel, gm=gm, energy=energy):
                x, b = energy(idx[0]), self.o0[m](idx)
                zero = z3.And(K.fl(b)[0] == 0, K.fl(gm(x))[0] == 0)
                return K.mul(rel(x), K.ite(zero, 1.0, b))
            want[m] = new
            if m != 452:
                cur[m] = new
                adj.add(m)
        present = set(cur)
        for r in ORDER:
            kids = [m for m in expand(SUMS[r], present) if m in adj] if r in present else []
            if kids:
                adj.add(r)

                def total(idx, r=r, kids=kids, cur=dict(cur)):
                    k = idx[0] + K.zi(self.start[r])
                    v = self.o0[r](idx)
                    for m in kids:
                        v = K.add(v, K.sub(self.at_energy(m, cur[m], k), self.at_energy(m, self.o0[m], k)))
                    return v
                want[r] = cur[r] = total
        return want

    def check(self, i, s, files):
        """the files written in iteration i (of sample s)"""
        from pyvc import interp as I
        ctx = self.ctx
        mine = K.zi(s) % K.zi(self.size) == K.zi(self.rank)
        if ctx.valid(z3.Not(mine)):
            ctx.prove('a sample of another process is left to it', z3.BoolVal(not files))
            return
        if not ctx.valid(mine):
            raise K.Unsupported('which process writes a sample')
        ctx.prove('one file is written for the sample', z3.BoolVal(len(files) == 1))
        if len(files) != 1:
            return
        p, got = files[0]
        parts = p.parts if isinstance(p, I.Fmt) else [p]
        pre, post = OUT.split('{0}')
        if len(parts) == 2 and parts[0] == pre and not isinstance(parts[1], str) and K.isnum(parts[1]):
            ctx.prove('the file carries the number of the sample', K.zi(parts[1]) == K.zi(s))
        else:
            ctx.prove('the file carries the number of the sample', z3.BoolVal(False))
        want = self.expected(K.zi(s))
        k = ctx.fresh('k', K.I_)
        for key in self.f0:
            if key in self.built:
                ctx.prove(f'{key} is not in the file', z3.BoolVal(key not in got))
                continue
            n = self.len0[key]
            rng = z3.And(k >= 0, k < n)
            f, sh = got.get(key, (self.f0[key], None))
            if isinstance(key, tuple) and 1018 in self.sampled:
                ctx.prove(f'spectrum {key}: replaced', z3.BoolVal(key in got))
                if key not in got:
                    continue
                scale = 1e6 if key[0] == 'p' else 1.0
                res = self.set_res[key]
                ctx.prove(f'spectrum {key} is the one that was set', z3.Implies(rng, K.fl(f((k,)))[0] == K.fl(res((k,)))[0] * K.RV(scale)))
                if key[0] == 'p':
                    x = K.fl(self.cx0[key[1]]((k,)))[0]
                    rel = K.ite(self.inside[1018](x), self.rel[1018]((self.grp[1018](x), K.zi(s))), 1.0)
                    ctx.prove(f'spectrum {key}: the density set is that of the file times the relative value', z3.Implies(rng, same(self.set_pdf[key[1]]((k,)), K.mul(rel, self.f0[key]((k,))))))
                continue
            if key in want:
                ctx.prove(f'MT {key} is sampled', z3.Implies(rng, z3.And(K.fin(f((k,))), K.fl(f((k,)))[0] == K.fl(want[key]((k,)))[0])))
            else:
                ctx.prove(f'{key} is as in the base file', z3.Implies(rng, same(f((k,)), self.f0[key]((k,)))))

    def loop(self, it, fr, s, ordinal, spec):
        from pyvc import loops
        if spec is None or not self.ctx.valid(dz(spec.n) == K.zi(self.S)):
            return False
        if self.ctx.loop_logs:
            return False

        def step(g, v, w, i):
            lab = spec.fn(i)
            lab = lab[0] if isinstance(lab, tuple) else lab
            if not (K.isnum(lab) and self.ctx.valid(K.zi(lab) == i)):
                raise K.Unsupported('the loop over the samples')
            self.check(i, lab, self.files)
            return {}
        self.files = []
        loops.hoare(it, fr, s, spec, 'samples', {}, lambda v, g, i: [], step=step)
        self.files = []
        self.looped = True
        return True


def body(ctx, it, mts, sampled, built, chi):
    from pyvc import interp as I
    w = World(ctx, it, mts, sampled, built, chi)
    w.looped = False
    it.call(it.load(XM + 'write_sampled_data'), (w.store, BASE, ZAID, list(sampled), list(w.dfs)), {'output_formatter': OUT})
    if not w.looped:
        raise K.Unsupported('the loop over the samples was not found')
    # after the loop: only tables of the samples are printed, to names of their own
    ctx.prove('no further file is written', z3.BoolVal(not w.files))
    names = [e[2] for e in w.log if e[0] == 'csv']
    ctx.prove('sample tables do not replace an ACE file', z3.BoolVal(all(isinstance(n, str) and n.endswith('.csv') and n != BASE for n in names) and len(set(names)) == len(names)))
    # every sample belongs to exactly one process
    s, n, r, q = ctx.fresh('s', K.I_), ctx.fresh('n', K.I_), ctx.fresh('r', K.I_), ctx.fresh('q', K.I_)
    ctx.prove('lemma: exactly one process writes a sample', z3.Implies(z3.And(s >= 0, n >= 1), z3.And(
        s % n >= 0, s % n < n, z3.Implies(z3.And(r >= 0, r < n, q >= 0, q < n, s % n == r, s % n == q), r == q))))


def case(mts, sampled, built, chi):
    def f(m):
        from contracts import rt_c17
        from harness.rt import Rng
        out = []
        for k in range(6):
            out.append(rt_c17._case(Rng(100 + k)))
        return out
    return f


AS = ['AceEditor, set_chi_distro, map_groups_to_continuous, load_zaid_mt and WriteAce by contract (C13, C15, C09, C07, C16)',
      'no two arrays of the base file are equal and none equals an array written over another (else: the known finding)',
      'every process of the pool runs write_sampled_data with the same arguments and its own rank in 0..size-1; columns of the sample tables are numbered from 0',
      'Tabulated1D.__call__ at energies of the table gives the tabulated value, zero below the threshold (C20)']
FUN = [XM + 'write_sampled_data', ACE + 'AceEditor.get_energy', ACE + 'AceEditor.get_sigma', ACE + 'AceEditor.set_sigma', ACE + 'AceEditor.apply_sum_rules', ACE + 'AceEditor.get_chi_distro']
WORLDS = [([2, 18, 102], [102], (), 0), ([1, 2, 3, 4, 16, 51, 91, 102], [2, 102], (), 0), ([1, 2, 4, 51, 91, 101, 102, 103, 600], [51, 600], (4, 103), 0),
          ([1, 2, 4, 51, 91, 101, 102, 103, 600], [4, 102, 103], (101,), 0), ([2, 18, 102], [452], (), 1), ([2, 18, 102], [1018], (), 1), ([2, 18, 102], [1018], (), 2),
          ([1, 2, 18, 27, 102], [102, 452, 1018, 18], (), 1), ([2, 18, 102], [18, 1018, 2], (), 2)]
TASKS = [Task('write_sampled_data of %s in a table of %s' % (s, m) + (' (built, not in the file: %s)' % (b,) if b else '') + (', %d incident energies' % c if c else ''), FUN,
              lambda ctx, it, a=(m, s, b, c): body(ctx, it, *a), case=case(m, s, b, c), assumptions=AS, budget=200) for m, s, b, c in WORLDS]
