"""C19: ENDF numbers of any digits in every shape, and records of every enumerated size with all values."""
import itertools
import z3
import numpy as np
from pyvc import core as K
from pyvc.core import dz
from pyvc.prove import Task

MODS = ('ASAPy.data.endf:', 'ASAPy.endf:')
SHAPES = [(pre, sg, a, b, e, es, post) for pre in ('', ' ', '   ') for sg in ('', '+', '-') for a, b in ((1, 1), (0, 1), (1, 0), (1, None))
          for e, es in (('', ''), ('', '+'), ('', '-'), ('E', ''), ('E', '+'), ('E', '-'), ('e', ''), ('e', '+'), ('e', '-')) for post in ('', ' ')
          if not (b is None and not e and es) and not (b == 0 and not e and es)]     # without a point or digits after it an exponent needs its letter


def dig(ctx, name):
    from pyvc import text
    ctx.in_int(name, 0)                     # the digits of a counterexample
    return text.Dig(name, K.mk(z3.Int(name)))


def number(ctx, it, mod, shapes):
    from pyvc import text
    A, B, C = dig(ctx, 'a'), dig(ctx, 'b'), dig(ctx, 'c')
    f = it.load(mod + 'float_endf')
    for pre, sg, a, b, e, es, post in shapes:
        mant = ([sg] if sg else []) + ([A] if a else []) + (['.'] if b is not None else []) + ([B] if b else [])
        ex = ([e] if e else []) + ([es] if es else []) + ([C] if e or es else [])
        got = it.call(f, (text.rope(pre, *mant, *ex, post),))
        want = text.to_float(text.rope(*mant, *(['e', es or '+', C] if ex else [])))
        ctx.prove('the number denoted by %s%s%s%s' % (sg or '', 'a' if a else '', '.' if b is not None else '', 'b' if b else '') + (e + es + 'c' if ex else ''),
                  z3.And(K.sort_of(got) == 'f', K.fin(got), K.fl(got)[0] == K.fl(want)[0]))


def number_case(shapes):
    def f(m):
        return {'kind': 'floats', 'texts': [pre + sg + (str(m['a']) if a else '') + ('.' if b is not None else '') + (str(m['b']) if b else '') + e + es +
                                            (str(m['c'] % 90) if e or es else '') + post for pre, sg, a, b, e, es, post in shapes]}
    return f


def blank_int(ctx, it):
    from pyvc import text
    A = dig(ctx, 'a')
    f = it.load(MODS[0] + '_int_endf')
    for pre in ('', ' ', '    '):
        for post in ('', '  '):
            ctx.prove('an empty field is zero', K.zi(it.call(f, (pre + post,))) == 0)
            for sg in ('', '-', '+'):
                ctx.prove('the integer in the field', K.zi(it.call(f, (text.rope(pre, sg, A, post),))) == (-z3.Int('a') if sg == '-' else z3.Int('a')))


class Rec:
    """builds lines of 11-column fields"""
    def __init__(self, ctx, mod):
        from pyvc import text, interp as I
        self.ctx, self.lines, self.text = ctx, [], text

        def fl_(it, args, kw):
            cs = text.cells(args[0])
            if len(cs) == 1 and isinstance(cs[0], text.Field) and cs[0].tag == 'float':
                return cs[0].val
            raise K.Unsupported('float_endf of something else than one field')
        I.CONTRACTS[mod + 'float_endf'] = fl_

    def f(self, name):
        return self.text.Field(name, self.ctx.in_float(name), 11, 'float')

    def i(self, name, val=None):
        return self.text.Field(name, self.ctx.in_int(name) if val is None else val, 11, 'int')

    def add(self, fields):
        pad = ' ' * (66 - 11 * len(fields))
        self.lines.append(self.text.rope(*fields, pad + ' 125 3  1%5d\n' % len(self.lines)))

    def rows(self, fields):
        for k in range(0, len(fields), 6):
            self.add(fields[k:k + 6])

    def open(self):
        self.n = len(self.lines)
        return self.text.VFile('endf', self.lines + ['NEXT RECORD\n', 'AND ONE MORE\n'], 'r')


def eqv(a, b):
    if isinstance(b, K.Sym) or K.isnum(b):
        if not K.isnum(a):
            return z3.BoolVal(False)
        if K.sort_of(b) == 'f':
            return z3.And(K.sort_of(a) == 'f', K.fin(a), K.fl(a)[0] == K.fl(b)[0])
        return z3.And(K.sort_of(a) == 'i', K.zi(a) == K.zi(b))
    return z3.BoolVal(a is b)


def items(got, want):
    return z3.And(isinstance(got, (list, tuple)) and len(got) == len(want), *[eqv(a, b) for a, b in zip(got, want)])


def arr_is(a, want, integral=False):
    return z3.And(isinstance(a, K.Arr) and len(a.shape) == 1, dz(a.shape[0]) == len(want), *[
        (K.zi(a.fn((z3.IntVal(k),))) == K.zi(w)) if integral else z3.And(K.fin(a.fn((z3.IntVal(k),))), K.fl(a.fn((z3.IntVal(k),)))[0] == K.fl(w)[0]) for k, w in enumerate(want)])


def record(ctx, it, mod, kind, n, p):
    R = Rec(ctx, mod)
    c1, c2 = R.f('c1'), R.f('c2')
    ints = [R.i(f'l{k}') for k in range(4)]
    if kind == 'list':
        ints[2] = R.i('npl', n)
    elif kind == 'tab1':
        ints[2:] = [R.i('nr', n), R.i('np', p)]
    elif kind == 'tab2':
        ints[2] = R.i('nr', n)
    if kind == 'head':
        # an integer written as a floating point number
        za = ctx.in_int('za', 0)
        c1 = R.text.Field('za', K.cast(za, 'f'), 11, 'float')
    R.add([c1, c2] + ints)
    head = [c1.val, c2.val] + [q.val for q in ints]
    if kind == 'list':
        vals = [R.f(f'v{k}') for k in range(n)]
        R.rows(vals)
    if kind in ('tab1', 'tab2'):
        nbt = [(R.i(f'nbt{k}'), R.i(f'int{k}')) for k in range(n)]
        R.rows([q for pr in nbt for q in pr])
    if kind == 'tab1':
        xy = [(R.f(f'x{k}'), R.f(f'y{k}')) for k in range(p)]
        R.rows([q for pr in xy for q in pr])
    fh = R.open()
    name = {'cont': 'get_cont_record', 'skip': 'get_cont_record', 'head': 'get_head_record'}.get(kind, f'get_{kind}_record')
    r = it.call(it.load(mod + name), (fh,), dict(skipC=True) if kind == 'skip' else {})
    flat = list(r) if kind in ('cont', 'skip', 'head') else list(r[0])
    for k, v in enumerate(flat):
        ctx.result(f'h{k}', v)
    if kind == 'list' and isinstance(r[1], list):
        for k, v in enumerate(r[1]):
            ctx.result(f'r{k}', v)
    if kind == 'cont':
        ctx.prove('the six items', items(r, head))
    elif kind == 'skip':
        ctx.prove('the six items without the first two', items(r, [None, None] + head[2:]))
    elif kind == 'head':
        ctx.prove('the six items, the first an integer', items(r, [za] + head[1:]))
    elif kind == 'list':
        ctx.prove('the items of the header', items(r[0], head))
        ctx.prove('the announced number of values in order', items(list(r[1]), [v.val for v in vals]) if isinstance(r[1], (list, tuple)) else arr_is(r[1], [v.val for v in vals]))
    else:
        if kind == 'tab1' and mod == MODS[1]:
            pr, x, y, nb, law = r
        elif kind == 'tab1':
            pr, t = r
            x, y, nb, law = [it.getattr(t, q) for q in ('x', 'y', 'breakpoints', 'interpolation')]
        else:
            pr, t = r
            nb, law = it.getattr(t, 'breakpoints'), it.getattr(t, 'interpolation')
        ctx.prove('the items of the header', items(pr, head[:4] if kind == 'tab1' else head))
        ctx.prove('the regions', z3.And(arr_is(nb, [a.val for a, _ in nbt], True), arr_is(law, [b.val for _, b in nbt], True)))
        for nm, v in (('nb', nb), ('law', law)) + ((('x', x), ('y', y)) if kind == 'tab1' else ()):
            ctx.result(nm, v)
        if kind == 'tab1':
            ctx.prove('the pairs in order', z3.And(arr_is(x, [a.val for a, _ in xy]), arr_is(y, [b.val for _, b in xy])))
    ctx.prove('the reader is right after the record', z3.BoolVal(fh.pos == R.n))


def record_case(kind, n, p):
    def f(m):
        fl = lambda q: m.get(q, 0.0)
        h = [fl('c1') if kind != 'head' else float(m['za'] % 100000), fl('c2')] + [int(m.get(f'l{k}', 0)) for k in range(4)]
        return {'kind': 'proof', 'rec': kind, 'head': h, 'vals': [fl(f'v{k}') for k in range(n)], 'nbt': [int(m.get(f'nbt{k}', 0)) for k in range(n)],
                'int': [int(m.get(f'int{k}', 0)) for k in range(n)], 'x': [fl(f'x{k}') for k in range(p)], 'y': [fl(f'y{k}') for k in range(p)]}
    return f


def live(nrow, ii, jj):
    n = min(nrow, ii - jj)
    return range(n) if n <= 3 else (0, n - 1)


def record_pins(kind, n, p):
    v = [0.0, 1.5, -2.25, 1e5, 0.125, 3e-7]
    d = {'c1': 1.5, 'c2': -0.25, **{f'l{k}': [3, 0, -7, 12][k] for k in range(4)}}
    if kind == 'head':
        d['za'] = 92235
    d.update({f'v{k}': v[k % 6] for k in range(n)})
    d.update({f'nbt{k}': 3 * k + 2 for k in range(n)})
    d.update({f'int{k}': 1 + k % 5 for k in range(n)})
    d.update({f'x{k}': v[k % 5] for k in range(p)})
    d.update({f'y{k}': v[(k + 2) % 6] for k in range(p)})
    yield d


def record_real(mod, kind, n, p):
    def f(pin):
        import importlib, io
        from contracts import rt_c19 as T
        m = importlib.import_module(mod[:-1])
        k, txt = T.proof_text(record_case(kind, n, p)(pin))
        fh = io.StringIO(txt)
        r = getattr(m, {'cont': 'get_cont_record', 'skip': 'get_cont_record', 'head': 'get_head_record'}.get(kind, f'get_{kind}_record'))(fh, **({'skipC': True} if kind == 'skip' else {}))
        out = {f'h{k}': v for k, v in enumerate(r if kind in ('cont', 'skip', 'head') else r[0])}
        if kind == 'list':
            out.update({f'r{k}': v for k, v in enumerate(r[1])})
        if kind == 'tab2' or kind == 'tab1' and mod == MODS[0]:
            t = r[1]
            out.update(nb=t.breakpoints, law=t.interpolation)
            if kind == 'tab1':
                out.update(x=t.x, y=t.y)
        elif kind == 'tab1':
            out.update(x=r[1], y=r[2], nb=r[3], law=r[4])
        return out
    return f


def intg(ctx, it, nd, npar, rows):
    from pyvc import text, interp as I
    mod = MODS[0]
    R = Rec(ctx, mod)
    nrow = {2: 18, 4: 11, 5: 9, 6: 8}[nd]

    def i_(it, args, kw):
        cs = text.strip_cells(text.cells(args[0]))
        if not cs:
            return 0
        if len(cs) == 1 and isinstance(cs[0], text.Field) and cs[0].tag == 'int':
            return cs[0].val
        raise K.Unsupported('_int_endf of something else than one field')
    I.CONTRACTS[mod + '_int_endf'] = i_
    R.add([R.f('c1'), R.f('c2'), R.i('nd', nd), R.i('np', npar), R.i('nl', len(rows)), R.i('z', 0)])
    want = {}
    for ii, jj in rows:
        fs = [text.Field('ii', ii, 5, 'int'), text.Field('jj', jj, 5, 'int'), ' ']
        w = 11
        for q in range(min(nrow, ii - jj)):
            if q not in live(nrow, ii, jj):
                fs.append(' ' * (nd + 1))
                w += nd + 1
                continue
            e = ctx.in_int(f'e{ii}_{jj}_{q}', -10 ** nd + 1, 10 ** nd - 1)
            fs.append(text.Field('e', e, nd + 1, 'int'))
            w += nd + 1
            want[ii - 1, jj - 1 + q] = e
        R.lines.append(text.rope(*fs, ' ' * (66 - w) + ' 125 3  1    1\n'))
    fh = R.open()
    r = it.call(it.load(mod + 'get_intg_record'), (fh,))
    ctx.prove('square', z3.And(isinstance(r, K.Arr) and len(r.shape) == 2, dz(r.shape[0]) == npar, dz(r.shape[1]) == npar))
    goals = []
    for a in range(npar):
        for b in range(npar):
            v = r.fn((z3.IntVal(a), z3.IntVal(b)))
            e = want.get((max(a, b), min(a, b)))
            if e is None:
                goals.append(z3.And(K.fin(v), K.fl(v)[0] == (1 if a == b else 0)))
            else:
                z = z3.ToReal(K.zi(e))
                goals.append(z3.And(K.fin(v), K.fl(v)[0] * 10 ** nd == z3.If(K.zi(e) > 0, z + z3.RealVal('1/2'), z3.If(K.zi(e) < 0, z - z3.RealVal('1/2'), 0))))
    ctx.prove('the correlations of the record', z3.And(*goals))
    ctx.prove('the reader is right after the record', z3.BoolVal(fh.pos == R.n))


def intg_case(nd, npar, rows):
    nrow = {2: 18, 4: 11, 5: 9, 6: 8}[nd]

    def f(m):
        return {'kind': 'intg', 'head': [' 1.000000+0', ' 0.000000+0', 0, 0, 0, 0], 'nd': nd, 'npar': npar,
                'lines': [[ii, jj, [m.get(f'e{ii}_{jj}_{q}', 0) for q in range(min(nrow, ii - jj))]] for ii, jj in rows]}
    return f


TASKS = []
NUM = ['float() of a decimal text is the number it denotes; e, E, a plus sign of the exponent and surrounding blanks make no difference']
REC = ['an 11-column field stands for the number float_endf (decided by the number tasks) or int() reads from it', 'readline gives the next line']
for mod in MODS:
    for k in range(0, len(SHAPES), 27):
        s = SHAPES[k:k + 27]
        TASKS.append(Task(f'{mod[:-1]} number shapes {k}', [mod + 'float_endf'], lambda ctx, it, mod=mod, s=s: number(ctx, it, mod, s), case=number_case(s), assumptions=NUM))
    for kind, sizes in (('cont', [(0, 0)]), ('skip', [(0, 0)]), ('head', [(0, 0)]), ('list', [(n, 0) for n in range(1, 41)]), ('tab2', [(n, 0) for n in range(1, 20)]),
                        ('tab1', [(n, 1 + n % 4) for n in range(1, 12)] + [(1, p) for p in range(1, 25)] + [(2, 9), (3, 12), (4, 13)])):
        for n, p in sizes:
            TASKS.append(Task(f'{mod[:-1]} {kind} record {n} {p}', [mod + {'cont': 'get_cont_record', 'skip': 'get_cont_record', 'head': 'get_head_record'}.get(kind, f'get_{kind}_record')],
                              lambda ctx, it, mod=mod, kind=kind, n=n, p=p: record(ctx, it, mod, kind, n, p), lambda kind=kind, n=n, p=p: record_pins(kind, n, p), record_real(mod, kind, n, p), case=record_case(kind, n, p), assumptions=REC))
TASKS.append(Task('_int_endf', [MODS[0] + '_int_endf'], blank_int, assumptions=NUM))
for nd, npar, rows in ((2, 2, [(2, 1)]), (2, 4, [(2, 1), (4, 1)]), (4, 3, [(3, 2)]), (5, 4, [(4, 2), (3, 1)]), (6, 3, [(2, 1), (3, 1)]), (5, 12, [(12, 1), (12, 10)]), (2, 20, [(20, 1)])):
    TASKS.append(Task(f'INTG record {nd} {npar} {rows}', [MODS[0] + 'get_intg_record'], lambda ctx, it, nd=nd, npar=npar, rows=rows: intg(ctx, it, nd, npar, rows), case=intg_case(nd, npar, rows), assumptions=REC))
