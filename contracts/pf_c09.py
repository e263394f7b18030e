"""C09: map_groups_to_continuous, for every number of groups and energies, every grid and all values."""
import z3
import numpy as np
from pyvc import core as K
from pyvc.core import same, zb, dz
from pyvc.prove import Task

MOD = 'ASAPy.XsecSampler:'


def setup(ctx, it, given_max, given_min, given_out):
    import pandas as pd
    from pyvc import pdmodel as P
    G = ctx.in_int('G', 1, size=True)
    m = ctx.in_int('m', 0, size=True)
    high = ctx.in_arr('high', (G,))
    vals = ctx.in_arr('vals', (G,))
    e = ctx.in_arr('e', (m,))
    h0, v0, e0 = high.snap(), vals.snap(), e.snap()
    n = K.zi(G)
    H = lambda k: K.fl(h0((k,)))[0]
    i, j = z3.Ints('hi!i hi!j')
    ctx.axioms.append(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < n), H(i) > H(j))))
    ctx.axioms.append(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), H(i) > 0)))
    ctx.fact(H(n - 1) > 0)
    kw = {}
    lo, up, out = H(n - 1) / 10, H(z3.IntVal(0)), z3.RealVal(1)
    if given_max:
        x = ctx.in_float('max_e')
        ctx.fact(x.e >= H(z3.IntVal(0)))
        kw['max_e'], up = x, x.e
    if given_min:
        x = ctx.in_float('min_e')
        ctx.fact(x.e < H(n - 1))
        kw['min_e'], lo = x, x.e
    if given_out:
        x = ctx.in_float('outside')
        kw['value_outside_of_range'], out = x, x.e
    lab = lambda: P.Labels(high.shape[0], 1)
    hs, vs = P.Series(high, lab()), P.Series(vals, lab())
    got = it.call(it.load(MOD + 'map_groups_to_continuous'), (e, hs, vs), kw)
    ctx.prove('one value per energy', z3.And(len(got.shape) == 1, dz(got.shape[0]) == dz(e.shape[0])))
    q, g = ctx.fresh('q', K.I_), ctx.fresh('g', K.I_)
    ctx.fact(z3.And(q >= 0, q < dz(e.shape[0]), g >= 0, g < n))
    x = K.fl(e0((q,)))[0]
    r = got.fn((q,))
    ctx.prove('outside value beyond the range', z3.Implies(z3.Or(x < lo, x > up), same(r, K.Sym('f', out))))
    below = z3.If(g == n - 1, lo, H(g + 1))
    above = z3.If(g == 0, up, H(g))
    val = v0((g,))
    ctx.prove('value of the group whose interval holds the energy', z3.Implies(z3.And(x > below, x <= above), same(r, val)))
    ctx.prove('the lowest bound belongs to the lowest group', z3.Implies(x == lo, same(r, v0((n - 1,)))))
    for name, a, f0 in (('energies', e, e0), ('group values', vals, v0), ('group bounds', high, h0)):
        k = ctx.fresh('k', K.I_)
        ctx.prove(f'input {name} are not modified', z3.Implies(z3.And(k >= 0, k < dz(a.shape[0])), same(a.fn((k,)), f0((k,)))))
    ctx.result('got', got)


def case(m):
    return {'kind': 'map', 'high': m['high'].tolist(), 'vals': m['vals'].tolist(), 'e': m['e'].tolist(), 'max_e': m.get('max_e'), 'min_e': m.get('min_e'),
            'value_outside_of_range': m.get('outside')}


def pins(a, b, c):
    for G in (1, 3):
        high = np.array([10.0, 5.0, 2.0])[:G]
        p = {'G': G, 'high': high, 'vals': np.array([1.5, 2.5, 3.5])[:G], 'e': np.array([12., 10, 7, 5, 3, 1.0, .1, 0.6, 25])}
        p['m'] = len(p['e'])
        if a:
            p['max_e'] = 20.0
        if b:
            p['min_e'] = 0.5
        if c:
            p['outside'] = -3.0
        yield p


def real(p):
    import pandas as pd
    from ASAPy import XsecSampler as XS
    idx = range(1, p['G'] + 1)
    kw = {k: p[q] for k, q in (('max_e', 'max_e'), ('min_e', 'min_e'), ('value_outside_of_range', 'outside')) if q in p}
    return {'got': XS.map_groups_to_continuous(np.array(p['e']), pd.Series(p['high'], index=idx), pd.Series(p['vals'], index=idx), **kw)}


TASKS = []
for a, b, c in ((0, 0, 0), (1, 1, 1), (1, 0, 1), (0, 1, 1), (1, 1, 0)):
    TASKS.append(Task('map_groups_to_continuous' + ' max_e' * a + ' min_e' * b + ' outside value' * c, [MOD + 'map_groups_to_continuous'],
                      lambda ctx, it, a=a, b=b, c=c: setup(ctx, it, a, b, c), lambda a=a, b=b, c=c: pins(a, b, c), real, case))
