"""C22: nuclide names and ZAIDs, for every element, all mass numbers and states."""
import z3
from pyvc import core as K
from pyvc.prove import Task
from contracts.rt_c22 import SYM

D, AC = 'ASAPy.data.data:', 'ASAPy.data.ace:'


def eq(ctx, v, w):
    """the value is that integer"""
    if isinstance(v, bool) or not K.isnum(v):
        return z3.BoolVal(False)
    return K.zi(v) == K.zi(w)


def text_is(ctx, got, Z, A, m, state):
    from pyvc import text
    want = text.rope(SYM[Z], A, *(['_m', m] if state else []))
    try:
        return z3.BoolVal(bool(text.same_rope(got, want)))
    except K.Unsupported:
        return z3.BoolVal(False)


def names(ctx, it, zs):
    A, m = ctx.in_int('A', 0), ctx.in_int('m', 0)
    gnd, zam = it.load(D + 'gnd_name'), it.load(D + 'zam')
    for Z in zs:
        n = it.call(gnd, (Z, A, m))
        if ctx.decide(K.zi(m) > 0, 'metastable'):
            ctx.prove('the name of a metastable state', text_is(ctx, n, Z, A, m, True))
        else:
            ctx.prove('the name of a ground state', text_is(ctx, n, Z, A, m, False))
        r = it.call(zam, (n,))
        ok = isinstance(r, tuple) and len(r) == 3
        ctx.prove('a name decodes to what it was built from', z3.And(eq(ctx, r[0], Z), eq(ctx, r[1], A), eq(ctx, r[2], m)) if ok else z3.BoolVal(False))
        n = it.call(gnd, (Z, A))
        ctx.prove('the ground state is the default', text_is(ctx, n, Z, A, 0, False))


def not_a_name(ctx, it):
    """texts that are not names are refused"""
    for s in ('', '42', '_m1', 'Am', '235U', 'Am_m1', 'zz1'):
        try:
            it.call(it.load(D + 'zam'), (s,))
            ctx.prove(f'{s!r} is refused', z3.BoolVal(False))
        except K.PyRaise:
            ctx.prove(f'{s!r} is refused', z3.BoolVal(True))


def zaid(ctx, it, zs, scheme, form):
    A = ctx.in_int('A', 1)
    S = ctx.in_int('S', 1, 99) if form == 'sza' else None
    get = it.load(AC + 'get_metadata')
    a = K.zi(A)
    for Z in zs:
        dom = z3.And(a <= min(3 * Z, 300), a + 100 > 3 * Z)
        if not ctx.decide(dom, 'a mass number of the element'):
            continue
        if form == 'plain':
            z = K.add(1000 * Z, A)
        elif form == 'plus400':
            z = K.add(1000 * Z + 400, A)
        else:
            z = K.add(K.mul(1000000, S), K.add(1000 * Z, A))
        am = z3.And(z3.BoolVal(Z == 95), a == 242)
        if form == 'plain':
            m = z3.If(z3.And(am, scheme == 'mcnp'), 1, 0)
        elif form == 'plus400':
            m = z3.If(z3.And(am, scheme == 'mcnp'), 0, 1)
        else:
            m = z3.If(z3.And(am, K.zi(S) == 1), 0, K.zi(S))
        r = it.call(get, (z,) if scheme is None else (z, scheme))
        ok = isinstance(r, tuple) and len(r) == 5
        ctx.prove('atomic number, mass number and state', z3.And(eq(ctx, r[2], Z), eq(ctx, r[3], A), eq(ctx, r[4], K.mk(m))) if ok else z3.BoolVal(False))
        if not ok:
            continue
        ctx.prove('element', z3.BoolVal(r[1] == SYM[Z]))
        if ctx.decide(m > 0, 'metastable'):
            good = text_like(r[0], Z, r[3], r[4])
        else:
            good = text_like(r[0], Z, r[3], None)
        ctx.prove('name', good)


def text_like(got, Z, A, m):
    from pyvc import text
    try:
        return z3.BoolVal(bool(text.same_rope(got, text.rope(SYM[Z], A if K.isnum(A) and isinstance(A, K.Sym) else str(A),
                          *([] if m is None else ['_m', m if isinstance(m, K.Sym) else str(m)])))))
    except K.Unsupported:
        return z3.BoolVal(False)


def case(zs, kind):
    def f(m):
        return {'kind': 'names' if kind == 'names' else 'zaid', 'zs': list(zs), 'Z': zs[0], 'A': [m['A']] if kind == 'zaid' else [m['A']], 'states': [m.get('m', 0)], 'shifts': [m.get('S', 1)]}
    return f


TASKS = []
AS = ['int() of the decimal text of a non-negative integer is that integer', 're by the built-in matcher of the verifier (sequential backtracking on literal characters and runs of digits)']
for lo in range(0, 119, 15):
    zs = tuple(range(lo, min(lo + 15, 119)))
    TASKS.append(Task(f'gnd_name, zam of elements {lo}-{zs[-1]}', [D + 'gnd_name', D + 'zam'], lambda ctx, it, zs=zs: names(ctx, it, zs), case=case(zs, 'names'), assumptions=AS))
TASKS.append(Task('zam of other texts', [D + 'zam'], not_a_name, assumptions=AS))
for lo in range(1, 119):
    zs = (lo,)
    for scheme, forms in (('nndc', ('plain', 'plus400')), (None, ('plain', 'plus400')), ('mcnp', ('plain', 'plus400', 'sza'))):
        for form in forms:
            TASKS.append(Task(f'get_metadata {scheme} {form} element {lo}', [AC + 'get_metadata', D + 'gnd_name'],
                              lambda ctx, it, zs=zs, scheme=scheme, form=form: zaid(ctx, it, zs, scheme, form), case=case(zs, 'zaid'), assumptions=AS, max_paths=3000))
