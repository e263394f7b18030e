"""C15: set_chi_distro, for every number of outgoing energies and all densities; 1, 2 and 3 incident energies."""
import z3
from pyvc import core as K
from pyvc.core import same, dz
from pyvc.prove import Task
from contracts.aceworld import Ace, ACE

MTS = [2, 18, 102]


def setup(ctx, it, J, differ=(1018,)):
    w = Ace(ctx, it, MTS, adjusted=[], differ=list(differ), chi=J)
    w.n_given = [ctx.in_int(f'given{j}', 0, size=True) for j in range(J)]
    w.pdf = [ctx.in_arr(f'pdf{j}', (w.n_given[j],)) for j in range(J)]
    w.q0 = [a.snap() for a in w.pdf]
    q = z3.Int('c15!q')
    for j in range(J):
        # positive densities and increasing outgoing energies
        ctx.axioms.append(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < K.zi(w.n_given[j])), K.fl(w.q0[j]((q,)))[0] > 0)))
        ctx.axioms.append(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q + 1 < K.zi(w.L[j])), K.fl(w.cx0[j]((q,)))[0] < K.fl(w.cx0[j]((q + 1,)))[0])))
    return w


def body(ctx, it, J, via, extra=0):
    from pyvc import npmodel as N
    w = setup(ctx, it, J)
    old = w.remember()
    norm = []
    now = w.parts()
    for j in range(J):
        x, p, c = (old['now', 1018, n, j][0] for n in ('_x', '_p', 'c'))
        q = w.q0[j]
        # prefix sums of density change times energy step (nothing at the first point)
        d = K.Arr((K.mk(K.zi(w.L[j])),), 'f', lambda idx, x=x, p=p, q=q: K.mul(K.sub(q((idx[0],)), p((idx[0],))), K.ite(idx[0] == 0, 0.0, K.sub(x((idx[0],)), x((idx[0] - 1,))))))
        S = N.fold_sum(d)
        last = K.zi(w.L[j])
        norm.append((K.fl(c((last - 1,)))[0] + S(last), S))
        ctx.fact(norm[j][0] > 0)
    arg = list(w.pdf)
    if extra > 0:
        arg = arg + [w.pdf[0]]
    if extra < 0:
        arg = arg[:-1]
    try:
        if via:
            it.call(it.getattr(w.ed, 'set_sigma'), (1018, arg))
        else:
            it.call(it.getattr(w.ed, 'set_chi_distro'), (arg,))
        raised = False
    except K.PyRaise:
        raised = True
    fits = z3.And(extra == 0, *[K.zi(w.n_given[j]) == K.zi(w.L[j]) for j in range(J)])
    if raised:
        ctx.prove('only a density list of wrong size is rejected', z3.Not(fits))
        ctx.prove('a rejected spectrum changes nothing', w.unchanged(old))
        ctx.prove('and is not reported', z3.BoolVal(1018 not in w.ed.attrs['adjusted_mts']))
        return
    ctx.prove('a density list of wrong size is rejected', fits)
    now = w.parts()
    but = [('now', 1018, n, j) for n in ('_p', 'c') for j in range(J)]
    ctx.prove('energies, other reactions and the original table are unchanged', w.unchanged(old, but=but))
    i = ctx.fresh('i', K.I_)
    for j in range(J):
        L = K.zi(w.L[j])
        p1, c1 = now['now', 1018, '_p', j], now['now', 1018, 'c', j]
        c0 = old['now', 1018, 'c', j][0]
        ctx.result(f'p{j}', p1)
        ctx.result(f'c{j}', c1)
        ok = isinstance(p1, K.Arr) and isinstance(c1, K.Arr)
        ctx.prove(f'spectrum {j}: one value per outgoing energy', z3.And(ok, dz(p1.shape[0]) == L, dz(c1.shape[0]) == L))
        n, S = norm[j]
        rng = z3.And(i >= 0, i < L)
        P, C = K.fl(p1.fn((i,)))[0], K.fl(c1.fn((i,)))[0]
        ctx.prove(f'spectrum {j}: the density is the given one over the normalisation', z3.Implies(rng, z3.And(K.fin(p1.fn((i,))), P == K.fl(w.q0[j]((i,)))[0] / n)))
        ctx.prove(f'spectrum {j}: the cumulative distribution is the old one plus the accumulated change, normalised',
                  z3.Implies(rng, z3.And(K.fin(c1.fn((i,))), C == (K.fl(c0((i,)))[0] + S(i + 1)) / n)))
        ctx.prove(f'spectrum {j}: the cumulative distribution ends at one', K.fl(c1.fn((L - 1,)))[0] == 1)
        k = ctx.fresh('k', K.I_)
        ctx.prove(f'spectrum {j}: the densities handed in are unchanged', z3.Implies(z3.And(k >= 0, k < K.zi(w.n_given[j])), same(w.pdf[j].fn((k,)), w.q0[j]((k,)))))
    if via:
        ctx.prove('the spectrum is reported as adjusted', z3.BoolVal(1018 in w.ed.attrs['adjusted_mts']))


def read(ctx, it, un):
    w = Ace(ctx, it, MTS, adjusted=[], differ=[1018], chi=2)
    old = w.remember()
    e, x, p, c = it.call(it.getattr(w.ed, 'get_chi_distro'), (), {'unadjusted': un})
    i = ctx.fresh('i', K.I_)
    t = 'file' if un else 'now'
    f, sh = old[t, 1018, 'e']
    ctx.prove('incident energies are read', z3.And(dz(e.shape[0]) == dz(sh[0]), z3.Implies(z3.And(i >= 0, i < dz(sh[0])), same(e.fn((i,)), f((i,))))))
    for n, got in (('_x', x), ('_p', p), ('c', c)):
        ctx.prove(f'one {n} per incident energy', z3.BoolVal(isinstance(got, list) and len(got) == 2))
        for j in range(2):
            f, sh = old[t, 1018, n, j]
            ctx.prove(f'{n} of incident energy {j} is read', z3.And(dz(got[j].shape[0]) == dz(sh[0]), z3.Implies(z3.And(i >= 0, i < dz(sh[0])), same(got[j].fn((i,)), f((i,))))))
    ctx.prove('reading changes nothing', w.unchanged(old))


def pins(J):
    import numpy as np
    p = {'N': 3, 'E': np.array([1., 2., 4.]), 'nu_n': 2, 'nu_e': np.array([1., 4.]), 'nu_o': np.array([2., 3.]), 'chi_e': np.arange(J) * 1.}
    for m in MTS:
        p[f'start{m}'], p[f'o{m}'] = 0, np.array([1., .5, 2.])
    for j in range(J):
        n = 2 + j
        p[f'chi_n{j}'] = p[f'given{j}'] = n
        p[f'chi_x{j}'] = np.array([0., 1., 3., 4.])[:n]
        p[f'chi_p{j}'], p[f'chi_c{j}'] = np.array([.5, .25, .125, .5])[:n], np.array([0., .25, .5, 1.])[:n]
        p[f'chi_pnow{j}'], p[f'chi_cnow{j}'] = np.array([1., .25, .5, .25])[:n], np.array([0., .5, .75, 1.])[:n]
        p[f'pdf{j}'] = np.array([.75, .5, 1.5, .25])[:n]
    yield p


def real(J, via):
    def f(p):
        import numpy as np
        from contracts.aceworld import real_editor
        ed = real_editor(p, MTS, [], [1018], J)
        pdf = [np.array(p[f'pdf{j}']) for j in range(J)]
        ed.set_sigma(1018, pdf) if via else ed.set_chi_distro(pdf)
        e, x, q, c = ed.get_chi_distro()
        out = {}
        for j in range(J):
            out[f'p{j}'], out[f'c{j}'] = q[j], c[j]
        return out
    return f


def case(J, via, extra=0):
    def f(m):
        chi = []
        for j in range(J):
            n = m[f'chi_n{j}']
            chi.append({'x': m[f'chi_x{j}'].tolist(), 'p': m[f'chi_pnow{j}'].tolist(), 'c': m[f'chi_cnow{j}'].tolist(), 'q': m[f'pdf{j}'].tolist()})
        return {'kind': 'proof', 'chi': chi, 'via': via, 'extra': extra}
    return f


AS = ['increasing outgoing energies, positive densities and a positive normalisation', 'prefix sums are related by induction schemata of the verifier (equal summands, equal sums)',
      'the number of incident energies is 1, 2 or 3 in the proof']
FUN = [ACE + 'AceEditor.set_chi_distro', ACE + 'AceEditor.set_sigma', ACE + 'AceEditor.get_chi_distro']
TASKS = [Task(f'set_chi_distro {J} incident energies' + (' via set_sigma' if v else ''), FUN, lambda ctx, it, J=J, v=v: body(ctx, it, J, v), (lambda J=J: pins(J)) if J == 1 else (), real(J, v) if J == 1 else None, assumptions=AS, case=case(J, v))
         for J in (1, 2, 3) for v in (False, True)] + \
        [Task(f'set_chi_distro with {J + x} densities for {J} incident energies', FUN, lambda ctx, it, J=J, x=x: body(ctx, it, J, False, x), assumptions=AS, case=case(J, False, x))
         for J, x in ((1, 1), (2, 1), (2, -1))] + \
        [Task(f'get_chi_distro unadjusted={u}', FUN[2:], lambda ctx, it, u=u: read(ctx, it, u), assumptions=AS, case=lambda m: None) for u in (False, True)]
