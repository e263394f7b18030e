"""C13: reading and setting reactions of an AceEditor, for every grid, all thresholds, all lengths and all values; the editor is in an
arbitrary state (any reactions adjusted before), so the contracts compose to every history of edits."""
import z3
import numpy as np
from pyvc import core as K
from pyvc.core import same, dz
from pyvc.prove import Task
from contracts.aceworld import Ace, ACE, T

MTS = [1, 2, 18, 51, 102]


def sizes(w, mt):
    return K.zi(w.M) if mt == 452 else w.length(mt)


def key(mt):
    return ('now', mt, 'y')


def world(ctx, it, earlier):
    """earlier: reactions adjusted before; their original values are remembered"""
    w = Ace(ctx, it, MTS, adjusted=earlier, differ=MTS + [452, 1018], chi=2)
    w.kept = {}
    for m in earlier:
        a = ctx.in_arr(f'kept{m}', (sizes(w, m),))
        w.kept[m] = a.snap()
        w.ed.attrs['original_sigma'][m] = a
    w.earlier = set(earlier)
    return w


def editor_kept(ctx, w, adjusted):
    ed = w.ed.attrs
    ctx.prove('exactly the edited reactions are reported as adjusted', z3.BoolVal(set(ed['adjusted_mts']) == set(adjusted)))
    ctx.prove('the list of reactions is unchanged', z3.BoolVal(list(ed['all_mts']) == MTS + [452, 1018]))
    i = ctx.fresh('i', K.I_)
    goals = [z3.BoolVal(True)]
    for m, f in w.kept.items():
        a = ed['original_sigma'].get(m)
        goals.append(z3.BoolVal(False) if not isinstance(a, K.Arr) else z3.And(dz(a.shape[0]) == sizes(w, m), z3.Implies(
            z3.And(i >= 0, i < sizes(w, m)), same(a.fn((i,)), f((i,))))))
    ctx.prove('first original values stay remembered', z3.And(*goals))


def put(ctx, it, mt, earlier):
    w = world(ctx, it, earlier)
    n = ctx.in_int('given', 0, size=True)
    vals = ctx.in_arr('values', (n,))
    v0 = vals.snap()
    old = w.remember()
    try:
        it.call(it.getattr(w.ed, 'set_sigma'), (mt, vals))
        raised = False
    except K.PyRaise:
        raised = True
    need = sizes(w, mt)
    i = ctx.fresh('i', K.I_)
    rng = z3.And(i >= 0, i < need)
    if raised:
        ctx.prove('an error only for a length mismatch', K.zi(n) != need)
        ctx.prove('a rejected edit changes nothing', w.unchanged(old))
        editor_kept(ctx, w, w.earlier)
        return
    ctx.prove('values of another length are rejected', K.zi(n) == need)
    now = w.parts().get(key(mt))
    ctx.prove('the reaction holds the values set', z3.And(isinstance(now, K.Arr), dz(now.shape[0]) == need, z3.Implies(rng, same(now.fn((i,)), v0((i,))))))
    ctx.prove('everything else is unchanged', w.unchanged(old, but=[key(mt)]))
    o = w.ed.attrs['original_sigma'].get(mt)
    if mt not in w.kept:
        f, sh = old[key(mt)]
        ctx.prove('the original values are remembered', z3.And(isinstance(o, K.Arr), z3.BoolVal(False) if not isinstance(o, K.Arr) else z3.And(
            dz(o.shape[0]) == need, z3.Implies(rng, same(o.fn((i,)), f((i,)))))))
    editor_kept(ctx, w, w.earlier | {mt})
    got = it.call(it.getattr(w.ed, 'get_sigma'), (mt,))
    ctx.prove('reading gives the values set', z3.And(dz(got.shape[0]) == need, z3.Implies(rng, same(got.fn((i,)), v0((i,))))))
    ctx.prove('the values handed in are unchanged', z3.Implies(rng, same(vals.fn((i,)), v0((i,)))))


def read(ctx, it, mt, un):
    from pyvc import npmodel as N
    w = world(ctx, it, [2, 102])
    old = w.remember()
    got = it.call(it.getattr(w.ed, 'get_sigma'), (mt,), {'unadjusted': un})
    f, sh = old['file' if un else 'now', mt, 'y']
    i = ctx.fresh('i', K.I_)
    ctx.prove('reading gives the %s values' % ('file' if un else 'current'), z3.And(dz(got.shape[0]) == dz(sh[0]), z3.Implies(
        z3.And(i >= 0, i < dz(sh[0])), same(got.fn((i,)), f((i,))))))
    e = it.call(it.getattr(w.ed, 'get_energy'), (mt,))
    f, sh = old['now', mt, 'x']
    ctx.prove('energies of the reaction', z3.And(dz(e.shape[0]) == dz(sh[0]), z3.Implies(z3.And(i >= 0, i < dz(sh[0])), same(e.fn((i,)), f((i,))))))
    if mt != 452:
        N.arr_set(it, got, slice(None), -77.0)
        at = it.call(it.getattr(w.ed, 'get_sigma'), (mt,), {'unadjusted': un, 'at_energies': e})
        f, sh = old['file' if un else 'now', mt, 'y']
        ctx.prove('reading at its own energies gives the same', z3.And(dz(at.shape[0]) == dz(sh[0]), z3.Implies(
            z3.And(i >= 0, i < dz(sh[0])), same(at.fn((i,)), f((i,))))))
        N.arr_set(it, at, slice(None), -78.0)
        ctx.prove('what is read is an independent copy', w.unchanged(old))
    else:
        ctx.prove('reading changes nothing', w.unchanged(old))
    editor_kept(ctx, w, w.earlier)


def absent(ctx, it, op, mt):
    w = world(ctx, it, [2])
    if mt in (18, 452, 1018):
        for t in (w.table, w.orig):
            t.attrs['reactions'].pop(18)
        w.ed.attrs['all_mts'] = [m for m in MTS if m != 18]
    old = w.remember()
    n = ctx.in_int('given', 1, size=True)
    try:
        if op == 'get_sigma':
            it.call(it.getattr(w.ed, op), (mt,))
        else:
            it.call(it.getattr(w.ed, op), (mt, ctx.in_arr('values', (n,))))
        ctx.prove('an absent reaction raises an error', z3.BoolVal(False))
    except K.PyRaise:
        ctx.prove('an absent reaction changes nothing', w.unchanged(old))
        ctx.prove('and is not reported as adjusted', z3.BoolVal(set(w.ed.attrs['adjusted_mts']) == {2} and set(w.ed.attrs['original_sigma']) == {2}))


def create(ctx, it, temps, asked):
    """the editor of a file: reading the file twice gives separate equal tables"""
    from pyvc import interp as I
    import importlib
    w = Ace(ctx, it, MTS, adjusted=[], chi=1)
    AceIO = importlib.import_module('ASAPy.AceIO')
    reads = []
    tables = [w.table, w.orig]

    def from_ace(it, args, kw):
        reads.append(args)
        if len(reads) > 2:
            raise K.Unsupported('file read more than twice')
        t = tables[len(reads) - 1]
        t.attrs['temperatures'] = list(temps)
        return t
    I.CONTRACTS['ASAPy.data.neutron:IncidentNeutron.from_ace'] = from_ace
    w.ed = I.SObj(AceIO.AceEditor)
    ok = (asked is None and len(temps) == 1) or (asked is not None and str(asked).rstrip('K') + 'K' in temps)
    try:
        it.call(AceIO.AceEditor.__init__, (w.ed, '/x.ace') + (() if asked is None else (asked,)))
    except K.PyRaise:
        ctx.prove('an error only for an absent or ambiguous temperature', z3.BoolVal(not ok))
        return
    ctx.prove('an absent or ambiguous temperature is an error', z3.BoolVal(ok))
    ed = w.ed.attrs
    ctx.prove('separate tables for current and original values', z3.BoolVal(ed['table'] is not ed['original_table']))
    ctx.prove('nothing adjusted yet', z3.BoolVal(set(ed['adjusted_mts']) == set() and dict(ed['original_sigma']) == {}))
    ctx.prove('all reactions, the fission yield and spectrum are listed', z3.BoolVal(sorted(ed['all_mts']) == sorted(MTS + [452, 1018])))
    ctx.prove('the temperature is the one asked for', z3.BoolVal(ed['temperature'] == (temps[0] if asked is None else str(asked).rstrip('K') + 'K')))


def hist(ops):
    """the structure of a failed obligation as a history on a file"""
    def f(m):
        return {'kind': 'proof', 'mts': MTS, 'ops': ops, 'n': m.get('N'), 'given': m.get('given'), 'starts': {str(k): m.get(f'start{k}') for k in MTS}}
    return f


FUN = [ACE + 'AceEditor.' + n for n in ('set_sigma', 'get_sigma', 'get_energy', 'get_nu_distro', 'set_nu_distro')]
AS = ['IncidentNeutron.from_ace is a contract: each read of the file gives a new table with the values of the file (executed by the bounded contract)',
      'at its own energies a tabulated function gives its values (C20)']
TASKS = []
for mt in (2, 51, 102, 18, 452):
    for earlier in ([], [2, 452], [mt, 1]):
        TASKS.append(Task(f'set_sigma MT {mt} after {earlier}', FUN, lambda ctx, it, mt=mt, e=earlier: put(ctx, it, mt, e), assumptions=AS,
                          case=hist([['set', m] for m in earlier] + [['set', mt]])))
    for un in (False, True):
        TASKS.append(Task(f'get_sigma MT {mt} unadjusted={un}', FUN[1:4], lambda ctx, it, mt=mt, u=un: read(ctx, it, mt, u), assumptions=AS,
                          case=hist([['set', 2], ['set', 102], ['read', mt]])))
for op in ('set_sigma', 'get_sigma'):
    for mt in (16, 18, 452, 999):
        TASKS.append(Task(f'{op} absent MT {mt}', FUN, lambda ctx, it, op=op, mt=mt: absent(ctx, it, op, mt), assumptions=AS, case=hist([['set', 2], ['absent', mt]])))
for temps, asked in ((['300K'], None), (['300K', '600K'], None), (['300K'], 300), (['300K'], '300K'), (['300K'], 301), (['300K'], '30')):
    TASKS.append(Task(f'AceEditor temperatures {temps} asked {asked}', [ACE + 'AceEditor.__init__'], lambda ctx, it, t=temps, a=asked: create(ctx, it, t, a), assumptions=AS,
                      case=hist([['set', 2]])))
