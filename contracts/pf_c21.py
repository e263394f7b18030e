"""C21: ACE libraries in text and binary form. Tables with data of any length; up to three tables in both header styles are enumerated.
The file written by ascii_to_binary (real code) is read by Library (real code), both from text and from binary form."""
import itertools
import z3
from pyvc import core as K
from pyvc.core import dz, zi
from pyvc.prove import Task

MOD = 'ASAPy.data.ace:'
NAMES = ['92235.80c', '1001.70c', '92235.81c']
WIDTHS = [10, 8, 9]                     # characters of the weight ratio
DATE = '  12/19/12'


def table(ctx, t, name, style, wid):
    from pyvc import text, words as W
    r = text.rope
    o = {'name': name}
    o['n'] = ctx.in_int(f'n{t}', 1, 10 ** 8)
    o['awr'], o['temp'] = ctx.in_float(f'awr{t}'), ctx.in_float(f'temp{t}')
    integer = lambda s: ctx.in_int(s, -10 ** 7, 10 ** 8)
    tok = lambda v, w=None: text.Num('number', v, w, 'int' if K.sort_of(v) == 'i' else None)
    o['pairs'] = [(integer(f'iz{t}_{k}'), ctx.in_float(f'aw{t}_{k}')) for k in range(16)]
    o['nxs'] = [o['n']] + [integer(f'nxs{t}_{k}') for k in range(15)]
    o['jxs'] = [integer(f'jxs{t}_{k}') for k in range(32)]
    head = []
    if style == 'new':
        head.append(f'2.0.0     {name}              ENDFB-VII.1\n')
        head.append(r(tok(o['awr']), ' ', tok(o['temp']), ' 12/19/12     3\n'))
        head.append("The next two lines are the first two lines of 'old-style' ACE.\n")
    head.append(r(name.rjust(10), ' ' * (12 - wid), tok(o['awr'], wid), '  ', tok(o['temp'], 10), ' ', DATE, '\n'))
    head.append(r(text.Field('comment', None, 70), text.Field('material', None, 10), '\n'))
    for q in range(4):
        head.append(r(*[x for z, a in o['pairs'][4 * q:4 * q + 4] for x in (' ', tok(z), ' ', tok(a))], '\n'))
    for vs in (o['nxs'], o['jxs']):
        for q in range(0, len(vs), 8):
            head.append(r(*[x for v in vs[q:q + 8] for x in (' ', tok(v))], '\n'))
    n = zi(o['n'])
    L = K.simp((n + 3) / 4)
    w = ctx.fresh_fn(f'word of table {t}', K.I_, K.I_)
    st = ctx.fresh_fn(f'line of table {t} starts blank', K.I_, K.B_)
    i = z3.Int('i!w')
    ctx.axioms.append(z3.ForAll([i], w(i) >= 0, patterns=[w(i)]))

    def off(q):
        """words before line q"""
        e = K.simp(4 * q)
        return z3.IntVal(0) if K.simp(q).eq(z3.IntVal(0)) else n if K.simp(q).eq(L) else K.simp(z3.If(e < n, e, n))
    line = lambda q: W.Words(w, off(q), off(q + 1), st(q), z3.BoolVal(True), True, False)
    o.update(head=head, w=w, L=L, line=line)
    return o


def world(ctx, styles, wids):
    from pyvc import acelib as A
    T = [table(ctx, t, NAMES[t], s, w) for t, (s, w) in enumerate(zip(styles, wids))]
    ctx.axioms.extend(A.number_axioms())
    ctx.cursors = []
    ctx.vfs = {'/in/lib': A.segs([x for o in T for x in (o['head'], K.SList(o['L'], o['line']))])}
    return T


def same_table(ctx, g, o, what):
    from pyvc import acelib as A, interp as I
    if not isinstance(g, I.SObj):
        raise K.Unsupported('table')
    a = g.attrs
    num = lambda v, x: K.isnum(v) and K.simp(K.same(v, x))
    ctx.prove(f'{what}: name', z3.BoolVal(isinstance(a['name'], str) and a['name'] == o['name']))
    ctx.prove(f'{what}: weight ratio and temperature', z3.And(num(K.cast(a['atomic_weight_ratio'], 'f'), o['awr']), num(K.cast(a['temperature'], 'f'), o['temp'])))
    ps = a['pairs']
    ok = isinstance(ps, (list, tuple)) and len(ps) == 16 and all(isinstance(p, tuple) and len(p) == 2 for p in ps)
    ctx.prove(f'{what}: pairs', z3.And(*[z3.And(K.sort_of(p[0]) == 'i' and zi(p[0]) == zi(q[0]), num(p[1], q[1])) for p, q in zip(ps, o['pairs'])]) if ok else z3.BoolVal(False))
    for s, n in (('nxs', 16), ('jxs', 32)):
        x = a[s]
        ok = isinstance(x, K.Arr) and not x.islist and len(x.shape) == 1 and x.dtype == 'i'
        ctx.prove(f'{what}: {s}', z3.And(dz(x.shape[0]) == n + 1, *[zi(x.fn((z3.IntVal(k + 1),))) == zi(o[s][k]) for k in range(n)]) if ok else z3.BoolVal(False))
    x = a['xss']
    if not (isinstance(x, K.Arr) and not x.islist and len(x.shape) == 1 and x.dtype == 'f'):
        ctx.prove(f'{what}: data', z3.BoolVal(False))
        return
    q = ctx.fresh('q', K.I_)
    v = x.fn((q + 1,))
    ctx.prove(f'{what}: number of data values', dz(x.shape[0]) == zi(o['n']) + 1)
    ctx.prove(f'{what}: data values', z3.Implies(z3.And(q >= 0, q < zi(o['n'])), z3.And(K.fin(v), K.fl(v)[0] == A.NUMVAL(o['w'](q)))))


def wanted(K_):
    """the requests that are tried: what is passed, the tables it selects"""
    yield (), list(range(K_))
    for k in range(K_):
        yield (NAMES[k],), [k]
    yield ([],), []
    yield ([NAMES[k] for k in reversed(range(K_))] + ['8016.70c'],), list(range(K_))
    if K_ == 3:
        for a, b in itertools.combinations(range(3), 2):
            yield ((NAMES[b], NAMES[a]),), [a, b]
    yield ([NAMES[K_ - 1]],), [K_ - 1]
    yield ('8016.70c',), []


def reading(styles, wids, form, only=None):
    def f(ctx, it):
        from pyvc import acelib
        T = world(ctx, styles, wids)
        path = '/in/lib'
        if form == 'binary':
            it.call(it.load(MOD + 'ascii_to_binary'), (path, '/out/bin'))
            ctx.prove('only the binary library is written', z3.BoolVal([x.name for x in ctx.vfs['written']] == ['/out/bin'] and ctx.vfs['written'][0].closed))
            path = '/out/bin'
        reqs = [r for k, r in enumerate(wanted(len(T))) if only is None or k in only]
        args, sel = reqs[ctx.choose(len(reqs), 'request')]
        try:
            lib = it.call(it.load(MOD + 'Library'), (path, *args))
        except K.PyRaise as ex:
            return ctx.prove('reading raises nothing', z3.BoolVal(False))
        tabs = it.getattr(lib, 'tables')
        ctx.prove('exactly the tables asked for', z3.BoolVal(isinstance(tabs, list) and len(tabs) == len(sel)))
        if len(tabs) == len(sel):
            for g, k in zip(tabs, sel):
                same_table(ctx, g, T[k], f'table {k + 1} of {len(T)}')
    return f


def single(styles, wids):
    def f(ctx, it):
        from pyvc import acelib, interp as I
        T = world(ctx, styles, wids)
        lib = I.SObj(it.load(MOD + 'Library'))
        seen = []

        def library(it, args, kw):
            seen.append((args, kw))
            g = it.load(MOD + 'Table')
            lib.attrs['tables'] = [I.SObj(g, name=o['name']) for o in T]
            return lib
        I.CONTRACTS[MOD + 'Library'] = library
        name = [None, '8016.70c', NAMES[0][:-1], *[o['name'] for o in T]][ctx.choose(3 + len(T), 'name')]
        try:
            r = it.call(it.load(MOD + 'get_table'), ('/in/lib', name) if name else ('/in/lib',))
        except K.PyRaise:
            return ctx.prove('an error only for an absent table', z3.BoolVal(name not in [o['name'] for o in T] and name is not None))
        a, kw = seen[0]
        req = a[1] if len(a) > 1 else kw.get('table_names')
        if req is not None:
            raise K.Unsupported('reading of some tables')
        ctx.prove('the table asked for', z3.BoolVal(len(seen) == 1 and a[0] == '/in/lib' and isinstance(r, I.SObj) and
                                                   it.getattr(r, 'name') == (name or NAMES[0])))
    return f


# ---------------------------------------------------------------- the lemma on the regular expression
FORMS = [(sg, b, es) for sg in ('', '-', '+') for b in (1, 0) for es in ('+', '-')]


def lemma(ctx, it):
    """adding the exponent letter changes exactly the words that lack it, each into a number of the same value, whatever stands around"""
    from pyvc import text
    dig = lambda s: (ctx.in_int(s, 0), text.Dig(s, K.mk(z3.Int(s))))[1]
    A, B, C, D, E, G = [dig(s) for s in 'abcdeg']
    import importlib
    rx = importlib.import_module(MOD[:-1]).ENDF_FLOAT_RE
    sub, search = it.getattr(rx, 'sub'), it.getattr(rx, 'search')
    plain = [[sg, D, '.', E, 'E', es, G] for sg in ('', '-') for es in ('+', '-')] + [[sg, D] for sg in ('', '-')] + [['-', D, '.', E]]
    want_rep = r'\1e\2'
    for k, p in enumerate(plain):
        p = [x for x in p if x != '']
        for blank in (' ', '  ', '\n ', ' \n'):
            s = text.rope('0.0', blank, *p, blank, *p, '\n')
            got = it.call(sub, (want_rep, s))
            ctx.prove('numbers with an exponent letter stay', z3.BoolVal(bool(text.same_rope(got, s))))
            ctx.prove('none is found', z3.BoolVal(it.call(search, (s,)) is None))
    for sg, b, es in FORMS:
        m = ([sg] if sg else []) + [A, '.'] + [B]
        bare, full = m + [es, C], m + ['e', es, C]
        for p in plain[:1] + plain[4:5]:
            p = [x for x in p if x != '']
            for blank in (' ', '  ', ' \n '):
                for build in (lambda x: [*x, '\n'], lambda x: ['0.0', blank, *x], lambda x: [*p, blank, *x, blank, *p, '\n'], lambda x: [*x, blank, *x, blank, *p], lambda x: [*p, blank, *p, blank, *x, '\n']):
                    s, w = text.rope(*build(bare)), text.rope(*build(full))
                    got = it.call(sub, (want_rep, s))
                    ctx.prove('the exponent letter is added', z3.BoolVal(bool(text.same_rope(got, w))))
                    ctx.prove('one is found', z3.BoolVal(it.call(search, (s,)) is not None))


def lib_case(styles, form):
    def f(m):
        from contracts import rt_c21 as T
        from harness.rt import Rng
        out = []
        for sh in range(6):
            rng = Rng(sh)
            tabs = []
            for t, s in enumerate(styles):
                n = max(1, min(int(m.get(f'n{t}', 3)), 3000))
                n = [n, n, 4 * ((n + 3) // 4), n + 1, 512, 513][sh]
                o = T.mk(rng, n, t, sh > 0)
                o['name'], o['style'] = NAMES[t], s
                o['xss'] = [float('%.11E' % x) for x in o['xss']]
                if sh == 1:
                    o['styles'][-1] = 'noe'
                if sh == 2:
                    o['styles'][0] = 'noe'
                o['xss'] = [x if k != 'noe' or 0 < abs(x) < 1e-100 else 1.5e-120 for x, k in zip(o['xss'], o['styles'])]
                tabs.append(o)
            for args, sel in wanted(len(styles)):
                c = {'kind': 'proof', 'tables': tabs}
                if args:
                    c['want'] = [args[0]] if isinstance(args[0], str) else list(args[0])
                    c['asstr'] = isinstance(args[0], str)
                out.append(c)
        return out
    return f


def get_case(m):
    from contracts import rt_c21 as T
    from harness.rt import Rng
    tabs = [T.mk(Rng(k), 3 + k, k) for k in range(3)]
    return [{'kind': 'proof', 'tables': tabs, 'get': g} for g in ('first', 'absent', 0, 1, 2)]


AS = ['a data word is a number in one of two forms: float() reads it, or only its exponent letter is missing; words are separated by white space, four per line',
      'numpy.fromstring(text, sep=" ") reads all words, or stops within the first one that lacks its exponent letter, giving one value for it',
      'struct.pack/unpack/calcsize with standard sizes and no alignment; file position and content (executed by the bounded contract)',
      'a text library has no null byte; a binary one has a null byte before its tenth newline byte']
TASKS = []
COMBOS = [((s,), (w,)) for s in ('old', 'new') for w in WIDTHS[:2]] + [((a, b), (10, 8)) for a in ('old', 'new') for b in ('old', 'new')] + \
    [(c, (9, 10, 8)) for c in itertools.product(('old', 'new'), repeat=3)]
for styles, wids in COMBOS:
    for form in ('text', 'binary'):
        fs = [MOD + 'Library.__init__', MOD + ('Library._read_ascii' if form == 'text' else 'Library._read_binary'), MOD + 'Table.__init__'] + ([MOD + 'ascii_to_binary'] if form == 'binary' else [])
        for only in ([None] if len(styles) < 3 else [{0}, {5}, {1, 2, 3, 4}, {6, 7, 8, 9, 10}]):
            TASKS.append(Task(f'{form} library, {" ".join(styles)}' + ('' if only is None else ', requests %s' % sorted(only)), fs, reading(styles, wids, form, only), case=lib_case(styles, form),
                              assumptions=AS, budget=150 if len(styles) < 3 else 300,
                              tiers=('quick', 'thorough') if len(styles) < 3 or styles == ('new', 'old', 'new') and (form == 'binary' or only == {1, 2, 3, 4}) else ('thorough',)))
TASKS.append(Task('get_table', [MOD + 'get_table'], single(('old', 'old', 'new'), (10, 10, 10)), case=get_case))
TASKS.append(Task('exponent letters', [MOD + 'ENDF_FLOAT_RE'], lemma, case=get_case, assumptions=['the regular expression acts on the words of the texts of the lemma as on all words']))
