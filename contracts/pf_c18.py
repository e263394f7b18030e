"""C18: the deck as a function of its options; the numbers in it are symbols, told apart by what the verifier proves them equal to."""
import itertools
import z3
from pyvc import core as K
from pyvc.prove import Task

NJ = 'ASAPy.njoy:'
MAT, MATT, POISON = 98317, 47, 55555501
TEMP = lambda k: round(133.251237 + 21.513111 * k, 6)      # enough digits for a rounded print to be told apart
ITEMP = lambda k: 1733 + 211 * k
GRP = lambda k: 0.062512345671 * (k + 1) ** 7
FLX = lambda k: 0.3751234567891 * (k + 3) ** 2
MTS = lambda k: 20011 + k
ZS, LIB = ' 92-U -235 ', ('ENDF/B', 7, 1)


class Names:
    """the symbolic numbers of a deck and what they are replaced by before the cards are read"""
    def __init__(self, ctx):
        self.ctx, self.known = ctx, []

    def add(self, sym, val):
        self.known.append((sym, val))
        return sym

    def value(self, v):
        for sym, val in self.known:
            if K.sort_of(sym) == K.sort_of(v) and (sym is v or sym.e.eq(v.e) or self.ctx.valid(K.same(sym, v))):
                return val
        if v.s == 'i' and self.ctx.valid(K.zi(v) == 1):
            return 1
        return POISON if v.s == 'i' else float(POISON)

    def text(self, s):
        from pyvc import text as T
        out = ''
        for p in T.parts_of(s):
            if isinstance(p, str):
                out += p
            elif isinstance(p, K.Sym):
                out += str(self.value(p))
            elif isinstance(p, T.Shown):
                out += format(self.value(p.val), p.spec)
            else:
                raise K.Unsupported('piece of a deck')
        return out


def evaluation(ctx, it, mat, thermal=None, matt=None):
    from pyvc import interp as I
    import importlib
    EN = importlib.import_module('ASAPy.endf')

    def make(it, args, kw):
        fn = (list(args) + list(kw.values()))[0]
        if thermal is not None and 'thermal' in fn:
            return I.SObj(EN.Evaluation, material=matt, target={'zsymam': ZS, 'isomeric_state': 0}, info={'library': LIB}, section=thermal)
        return I.SObj(EN.Evaluation, material=mat, target={'zsymam': ZS, 'isomeric_state': ctx.in_int('iso', 0, 5)}, info={'library': LIB}, section={})
    I.CONTRACTS[f'{EN.Evaluation.__module__}:{EN.Evaluation.__qualname__}'] = make


def judge(ctx, c, N, deck, tin, tout, fn, more=()):
    from contracts import decks
    from harness.rt import Violation
    t = N.text(deck)
    out = type(tout)((K.conc(k) if isinstance(k, K.Sym) else k, N.text(v)) for k, v in tout.items())
    steps = [('the deck is consistent', lambda: decks.verify(c, t, tin, out, fn))] + list(more)
    for name, f in steps:
        try:
            f()
            ctx.prove(name, z3.BoolVal(True))
        except Violation as ex:
            ctx.prove(f'{name}: {ex}'[:300], z3.BoolVal(False))
    return t, out


def run(ctx, it, s):
    N = Names(ctx)
    mat = N.add(ctx.in_int('mat', 1), MAT)
    evaluation(ctx, it, mat)
    fn = 'tape.endf'
    nt = s['nt']
    c = {'kind': 'stub', 'mat': MAT, 'opts': s['opts'], 'pendf': s.get('pendf')}
    kw = dict(s['opts'])
    if nt:
        tv = ITEMP if s.get('ints') else TEMP
        kw['temperatures'] = [N.add(ctx.in_int(f't{k}', 0) if s.get('ints') else ctx.in_float(f't{k}'), tv(k)) for k in range(nt)]
        c['temps'] = [tv(k) for k in range(nt)]
    if s.get('pendf'):
        kw['pendf'] = 'pendf'
    if s.get('ng'):
        kw['cov_energy_groups'] = [N.add(ctx.in_float(f'g{k}'), GRP(k)) for k in range(s['ng'] + 1)]
        c['groups'] = [GRP(k) for k in range(s['ng'] + 1)]
    if s.get('mts') is not None:
        kw['covr_plot_mts'] = [N.add(ctx.in_int(f'mt{k}', 1), MTS(k)) for k in range(s['mts'])]
        c['mts'] = [MTS(k) for k in range(s['mts'])]
    iwt = kw['iwt_fluxweight'] = ctx.in_int('iwt', 1)
    kw['user_flux_weight_vals'] = [N.add(ctx.in_float(f'f{k}'), FLX(k)) for k in range(2 * s.get('nf', 1))]
    c['flux'] = [FLX(k) for k in range(2 * s.get('nf', 1))]
    ctx.vfs = {}
    deck, tin, tout = it.call(it.load(NJ + 'make_njoy_run'), (fn,), kw)
    if ctx.valid(K.zi(iwt) == 1):
        c['iwt'] = 1
    else:
        if not ctx.valid(K.zi(iwt) != 1) and s['opts'].get('errorr', True):
            raise K.Unsupported('weight option undecided')
        c['iwt'] = 77773
        N.add(iwt, 77773)
    t, o = judge(ctx, c, N, deck, tin, tout, fn)
    ctx.result('deck', t)
    ctx.result('out', repr(sorted(o.items())))
    w = ctx.vfs.get('njoy_in.txt')
    ctx.prove('the deck file holds the returned deck', z3.BoolVal(w is not None and w.closed and N.text(w.text()) == t))


def thermal(ctx, it, s):
    from pyvc import interp as I, text as T
    N = Names(ctx)
    mat = N.add(ctx.in_int('mat', 1), MAT)
    nt = s['nt']
    given = [N.add(ctx.in_float(f't{k}'), TEMP(k)) for k in range(nt)]

    def fl_(it, args, kw):
        cs = T.cells(args[0])
        if len(cs) == 1 and isinstance(cs[0], T.Field) and cs[0].tag == 'float':
            return cs[0].val
        raise K.Unsupported('float_endf of something else than one field')
    I.CONTRACTS['ASAPy.endf:float_endf'] = I.CONTRACTS['ASAPy.data.endf:float_endf'] = fl_
    f = lambda n, v=None: T.Field(n, ctx.in_float(n) if v is None else v, 11, 'float')
    i = lambda n, v=None: T.Field(n, ctx.in_int(n) if v is None else v, 11, 'int')
    cast = lambda n: T.Field(n, K.cast(ctx.in_int(n, 1), 'f'), 11, 'float')
    rows = [[cast('za'), f('awr'), i('a'), i('lat'), i('lasym'), i('b')], [f('c'), f('d'), i('lln'), i('e'), i('ni', 6), i('ns')],
            [f('b0'), f('b1'), f('b2'), f('emax'), f('b4'), cast('natom')],
            [f('h'), f('j'), i('k'), i('l'), i('nr2', 1), i('nb')], [i('n21'), i('i21')],
            [f('T0', given[0]), f('beta'), i('lt', nt - 1), i('m'), i('nr1', 1), i('np1', 2)], [i('n11', 2), i('i11')], [f('x0'), f('y0'), f('x1'), f('y1')]]
    for k in range(1, nt):
        rows += [[f(f'T{k}', given[k]), f(f'be{k}'), i(f'li{k}'), i(f'mm{k}'), i(f'np{k}', 2), i(f'nn{k}')], [f(f'u{k}'), f(f'w{k}')]]
    text = lambda rr: T.rope(*[p for n, r in enumerate(rr) for p in r + [' ' * (66 - 11 * len(r)) + '%4d 7  4%5d\n' % (MATT, n)]])
    N.add(rows[2][3].val, 4.46)
    N.add(K.mk(z3.Int('natom')), 2)
    sec = {(7, 4): text(rows)}
    if s['elastic']:
        N.add(K.mk(z3.Int('lthr') - 1), s['elastic'] - 1)
        sec[(7, 2)] = text([[cast('za2'), f('awr2'), i('lthr'), i('o'), i('p'), i('q')]])
    evaluation(ctx, it, mat, sec, s['mat'])
    got = []
    I.CONTRACTS[NJ + 'run'] = lambda it, args, kw: got.append((args, kw))
    ctx.vfs = {}
    it.call(it.load(NJ + 'make_ace_thermal'), ('tape.endf', 'x_thermal.endf'), {} if s['default'] else {'temperatures': given})
    ctx.prove('NJOY is run once', z3.BoolVal(len(got) == 1))
    if len(got) != 1:
        return
    a = dict(zip(('commands', 'tapein', 'tapeout'), got[0][0]), **got[0][1])
    c = {'kind': 'thermal', 'mat': MAT, 'mat_thermal': s['mat'], 'elastic': s['elastic'], 'temps': [TEMP(k) for k in range(nt)]}
    t, o = judge(ctx, c, N, a['commands'], a['tapein'], a['tapeout'], 'tape.endf')
    ctx.result('deck', t)
    ctx.result('out', repr(sorted(o.items())))


def pendf(ctx, it):
    from contracts import decks
    N = Names(ctx)
    evaluation(ctx, it, N.add(ctx.in_int('mat', 1), MAT))
    ctx.vfs = {}
    it.call(it.load(NJ + 'make_pendf'), ('tape.endf',))
    w = ctx.vfs.get('njoy_in.txt')
    ctx.prove('the deck is written', z3.BoolVal(w is not None and w.closed))
    if w is None:
        return

    def f():
        from harness.rt import expect
        mods = decks.parse(N.text(w.text()))
        decks.check_tapes(mods, {20: 'tape.endf'}, {21: 'pendf'})
        expect([m for m, _ in mods] == ['reconr', 'stop'], 'modules {}', [m for m, _ in mods])
        expect(mods[0][1][2].split()[0] == str(MAT), 'material')
    from harness.rt import Violation
    try:
        f()
        ctx.prove('only the reconstruction, with its tapes and material', z3.BoolVal(True))
    except Violation as ex:
        ctx.prove(f'only the reconstruction, with its tapes and material: {ex}'[:300], z3.BoolVal(False))


def case(s):
    def f(m):
        c = {'kind': 'stub', 'mat': 9228, 'opts': s['opts'], 'pendf': bool(s.get('pendf')), 'iwt': int(m.get('iwt', 1)), 'temps': None, 'iso': min(int(m.get('iso', 0)), 1)}
        if s['nt']:
            c['temps'] = [(ITEMP if s.get('ints') else TEMP)(k) for k in range(s['nt'])]
        if s.get('ng'):
            c['groups'] = [GRP(k) for k in range(s['ng'] + 1)]
        if s.get('mts') is not None:
            c['mts'] = [[2, 18, 102, 452, 4][k] for k in range(s['mts'])]
        c['flux'] = [FLX(k) for k in range(2 * s.get('nf', 1))]
        return c
    return f


def same_deck(c):
    from contracts import rt_c18 as B
    deck, out = B.run(c, True)
    return {'deck': deck, 'out': out}


FLAGS = ['broadr', 'heatr', 'purr', 'acer', 'errorr', 'nu', 'chi']
SETS = []
for n, bits in enumerate(itertools.product([False, True], repeat=len(FLAGS))):
    o = dict(zip(FLAGS, bits))
    for nt in (1, 2, 3):
        SETS.append(dict(opts=o, nt=nt, ng=(1 + (n + nt) % 4) if o['errorr'] else 0, mts=[None, 0, 1, 3][(n + nt) % 4], pendf=(n // 2 + nt) % 2 == 0, nf=1 + (n + nt) % 3, ints=(n + 2 * nt) % 5 == 0))
for nu, chi in itertools.product([False, True], repeat=2):
    for nt in (1, 2, 3, 4, 5):
        for mts in (1, 2, 5):
            SETS.append(dict(opts={'broadr': True, 'heatr': False, 'purr': False, 'acer': False, 'errorr': True, 'nu': nu, 'chi': chi}, nt=nt, ng=1 + nt, mts=mts, nf=2))
SETS.append(dict(opts={}, nt=0, ng=2, mts=1))
SETS.append(dict(opts={'errorr': False}, nt=0))
SETS.append(dict(opts={'errorr': True}, nt=2, ng=30, mts=2, nf=6))
TASKS = []
AS = ['Evaluation by contract: it gives the material number, target and library of the file (C19)', 'a printed number has no blanks and no slash and denotes the number',
      'the number of temperatures, groups, weights and reactions is enumerated; their values are not']
CH = 14
for k in range(0, len(SETS), CH):
    part = SETS[k:k + CH]

    def body(ctx, it, part=part):
        # one option set per path, chosen by a free number
        q = ctx.in_int('set', 0, len(part) - 1)
        for j, s in enumerate(part):
            if j == len(part) - 1 or ctx.decide(K.zi(q) == j, 'option set'):
                return run(ctx, it, s)
    TASKS.append(Task('make_njoy_run, option sets %d-%d' % (k, k + len(part) - 1), [NJ + 'make_njoy_run', NJ + '_TEMPLATE_COVR_FOR_PLOT', NJ + '_TEMPLATE_GROUPR_FOR_XSEC', NJ + '_TEMPLATE_GROUPR_FOR_XSEC_USER_FLUX', NJ + '_TEMPLATE_GROUPR_FOR_PLOT'],
                      body, [{'set': j, 'iwt': w, 'mat': MAT} for j in range(0, len(part), 3) for w in (1, 77773)],
                      lambda p, part=part: same_deck(dict(case(part[p['set']])(p), mat=MAT, **({} if part[p['set']].get('mts') is None else {'mts': [MTS(k) for k in range(part[p['set']]['mts'])]}))),
                      case=lambda m, part=part: case(part[int(m['set'])])(m), assumptions=AS))


TH = [1, 2, 3, 5, 7, 8, 10, 11, 12, 13, 26, 27, 31, 33, 34, 37, 39, 40, 41, 43, 44, 46, 47, 48, 49, 50, 52, 53, 55, 56, 58, 59, 75]
TSETS = [dict(nt=nt, mat=m, elastic=e, default=d) for nt in (1, 2, 3, 5) for e in (0, 1, 2) for d in (False, True) for m in (7, 26)] + [dict(nt=2, mat=m, elastic=m % 3, default=m % 2 == 0) for m in TH]
for k in range(0, len(TSETS), 17):
    part = TSETS[k:k + 17]

    def body(ctx, it, part=part):
        q = ctx.in_int('set', 0, len(part) - 1)
        for j, s in enumerate(part):
            if j == len(part) - 1 or ctx.decide(K.zi(q) == j, 'option set'):
                return thermal(ctx, it, s)

    def tcase(m, part=part):
        s = part[int(m['set'])]
        return {'kind': 'thermal', 'mat': 125, 'mat_thermal': s['mat'], 'elastic': s['elastic'], 'emax': 4.46, 'temps': [TEMP(k) for k in range(s['nt'])], 'default_temps': s['default'], 'iwt': 9}
    TASKS.append(Task('make_ace_thermal, option sets %d-%d' % (k, k + len(part) - 1), [NJ + 'make_ace_thermal'], body, [{'set': j, 'mat': MAT, 'emax': 4.46, 'natom': 2, 'lthr': part[j]['elastic']} for j in range(0, len(part), 4)],
                      lambda p, tcase=tcase: same_deck(dict(tcase(p), mat=MAT)), case=tcase, assumptions=AS + ['float_endf by contract (C19)']))
TASKS.append(Task('make_pendf', [NJ + 'make_pendf', NJ + 'make_njoy_run'], pendf, case=lambda m: {'kind': 'pendf', 'mat': 125, 'opts': {}, 'iwt': 9}, assumptions=AS))
