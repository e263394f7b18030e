"""C14: sum rules, for every grid, all thresholds and all cross section values; the reaction numbers of the table and the adjusted ones
are enumerated (every constituent of every rule, presence patterns of the redundant reactions)."""
import z3
from pyvc import core as K
from pyvc.core import same, dz
from pyvc.prove import Task
from contracts.aceworld import Ace, ACE

SUMS = {
    107: list(range(800, 850)), 106: list(range(750, 800)), 105: list(range(700, 750)), 104: list(range(650, 700)),
    103: list(range(600, 650)),
    101: list(range(102, 110)) + list(range(111, 118)) + [155, 182, 191, 192, 193, 197],
    18: [19, 20, 21, 38], 27: [18, 101], 16: list(range(875, 892)), 4: list(range(50, 92)),
    3: [4, 5, 11, 16, 17] + list(range(22, 38)) + [41, 42, 44, 45, 152, 153, 154] + list(range(156, 182)) + list(range(183, 191)) + [194, 195, 196, 198, 199, 200],
    1: [2, 3],
}
ORDER = [107, 106, 105, 104, 103, 101, 18, 27, 16, 4, 3, 1]


def expand(mts, present):
    out = []
    for m in mts:
        if m in SUMS and m not in present:
            out += expand(SUMS[m], present)
        elif m in present:
            out.append(m)
    return out


def body(ctx, it, mts, adjusted, twice=False):
    w = Ace(ctx, it, mts, adjusted)
    ed = w.ed
    for _ in range(2 if twice else 1):
        it.call(it.getattr(ed, 'apply_sum_rules'), ())
    present, adj = set(mts), set(adjusted)
    i = ctx.fresh('i', K.I_)
    spec, sums = {}, []
    for m in mts:
        spec[m] = lambda k, m=m: w.at_energy(m, w.v0[m], k)
    for s in ORDER:
        if s not in present:
            continue
        kids = [m for m in expand(SUMS[s], present) if m in adj]
        assert len(kids) == len(set(kids))
        if not kids:
            continue
        adj.add(s)
        sums.append(s)
        y = w.y('v', s)
        k = i + K.zi(w.start[s])
        new = w.o0[s]((i,))
        for m in kids:
            new = K.add(new, K.sub(spec[m](k), w.at_energy(m, w.o0[m], k)))
        rng = z3.And(i >= 0, i < w.length(s))
        if y is None or not isinstance(y, K.Arr):
            raise K.Unsupported('values of the sum')
        ctx.prove(f'MT {s} is its original plus the change of the adjusted {kids if len(kids) < 6 else len(kids)}',
                  z3.And(dz(y.shape[0]) == w.length(s), z3.Implies(rng, K.fl(y.fn((i,)))[0] == K.fl(new)[0])))
        f = y.snap()
        # from here on the (proved) new values stand for the specification
        spec[s] = lambda k, s=s, f=f: w.at_energy(s, f, k)
    keep = [m for m in mts if m not in sums]
    ctx.prove('all other reactions are unchanged', z3.And(*[z3.And(dz(w.y('v', m).shape[0]) == w.length(m), z3.Implies(
        z3.And(i >= 0, i < w.length(m)), same(w.y('v', m).fn((i,)), w.v0[m]((i,))))) for m in keep]))
    ctx.prove('the original table is unchanged', z3.And(*[z3.And(dz(w.y('o', m).shape[0]) == w.length(m), z3.Implies(
        z3.And(i >= 0, i < w.length(m)), same(w.y('o', m).fn((i,)), w.o0[m]((i,))))) for m in mts]))
    ctx.prove('energies are unchanged', w.energies_kept(i))
    for m in mts:
        ctx.result(f'mt{m}', w.y('v', m))
    a = ed.attrs['adjusted_mts']
    ctx.prove('the adjusted sums are reported', z3.BoolVal(isinstance(a, (set, list)) and adj <= set(a)))
    ctx.prove('the reactions are the same', z3.BoolVal(list(ed.attrs['all_mts']) == list(mts) and [list(t.attrs['reactions']) for t in (w.table, w.orig)] == [list(mts)] * 2))


def pins(mts, adjusted):
    import random
    import numpy as np
    r = random.Random(str((mts, adjusted)))
    n = 5
    p = {'N': n, 'E': np.array([1., 2., 4., 8., 16.])}
    for m in mts:
        s = p[f'start{m}'] = r.choice([0, 0, 2, 4])
        p[f'o{m}'], p[f'v{m}'] = np.array([r.randint(0, 32) / 8 for _ in range(n - s)]), np.array([r.randint(0, 32) / 8 for _ in range(n - s)])
    yield p


def real(mts, adjusted, twice):
    def f(p):
        from contracts.aceworld import real_editor
        ed = real_editor(p, mts, adjusted)
        for _ in range(2 if twice else 1):
            ed.apply_sum_rules()
        return {f'mt{m}': ed.get_sigma(m) for m in mts}
    return f


LEAVES = [2, 5, 19, 38, 51, 91, 102, 117, 197, 200, 600, 649, 650, 700, 750, 800, 849, 875, 891]
UPPER = [3, 4, 16, 18, 27, 101, 103, 104, 105, 106, 107]
TASKS = []
FUN = [ACE + 'AceEditor.apply_sum_rules', ACE + 'AceEditor._check_if_mts_present', ACE + 'AceEditor.get_sigma', ACE + 'AceEditor.set_sigma', ACE + 'AceEditor.get_energy']
AS = ['Tabulated1D.__call__ at energies of the table gives the tabulated value, zero below the threshold (decided in C20; energies closer to the threshold than the rounding tolerance 1e-12 excepted)',
      'reaction numbers of the table and the set of adjusted ones are enumerated, not universally quantified']


def task(name, mts, adjusted, twice=False, tiers=('quick', 'thorough'), cross=True):
    few = cross and len(mts) < 25
    TASKS.append(Task(name, FUN, lambda ctx, it: body(ctx, it, mts, adjusted, twice), (lambda: pins(mts, adjusted)) if few else (), real(mts, adjusted, twice) if few else None, assumptions=AS, tiers=tiers,
                      case=lambda m: {'kind': 'byname', 'mts': list(mts), 'adj': list(adjusted)}))


for s, kids in SUMS.items():
    # every constituent of the rule, all redundant reactions present
    task(f'every constituent of MT {s}', sorted({1} | set(UPPER) | set(kids)), list(kids))
    task(f'only MT {s} itself', sorted({1, 2} | set(UPPER)), [s])
task('no adjusted reaction', sorted({1, 2, 102} | set(UPPER)), [])
task('applied twice', sorted({1, 2, 102, 600, 51, 19} | set(UPPER)), [102, 600, 51, 19], twice=True)


def patterns():
    """presence of the redundant reactions: all 2048 combinations; the adjusted reactions vary with the pattern"""
    import random
    from itertools import combinations
    allp = [tuple(m for k, m in enumerate(UPPER) if b >> k & 1) for b in range(1 << len(UPPER))]
    few = {p for p in allp if len(p) <= 1 or len(p) >= len(UPPER) - 1}
    rnd = random.Random(14)
    quick = few | set(rnd.sample(allp, 70))
    for p in allp:
        r = random.Random(str(p))
        lv = sorted(r.sample(LEAVES, r.choice([6, 8, 12])))
        mts = sorted({1} | set(p) | set(lv)) if r.random() < .9 else sorted(set(p) | set(lv))
        adj = [m for m in mts if r.random() < r.choice([.15, .5, .9]) and m != 1] or [lv[0]]
        yield p, mts, adj, p in quick


for p, mts, adj, quick in patterns():
    task('redundant present %s, adjusted %s of %s' % (list(p), adj, mts), mts, adj, tiers=('quick', 'thorough') if quick else ('thorough',))
