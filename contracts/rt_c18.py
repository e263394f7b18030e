"""Deck grammar: see contracts/decks.py."""
import itertools
import os
from harness.rt import *
from contracts.decks import parse, check_tapes, verify
from ASAPy import njoy as NJ
from ASAPy import endf as EN


class Ev:
    def __init__(self, c):
        self.material = c['mat']
        self.target = {'zsymam': ' 92-U -235 ', 'isomeric_state': c.get('iso', 0), 'atomic_number': 92, 'mass_number': 235,
                       'fissionable': True}
        self.info = {'library': ('ENDF/B', 7, 1)}
        self.section = c.get('section', {})
        self.reaction_list = []


def run(c, get=False):
    c = dict(c)
    with scratch() as d:
        old = os.getcwd()
        os.chdir(d)
        saved = {}
        cap = []
        try:
            stub = lambda fn: Ev(c) if 'thermal' not in str(fn) else Ev(dict(c, mat=c['mat_thermal'], section=c['_sec']))
            if c['kind'] != 'real':
                for m, a in ((EN, 'Evaluation'), (NJ, 'Evaluation')):
                    if hasattr(m, a):
                        saved[(m, a)] = getattr(m, a)
                        setattr(m, a, stub)
                if NJ.endf is not EN:
                    raise Skip('njoy uses another reader')
                fn = 'tape.endf'
            else:
                import ASAPy
                fn = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(ASAPy.__file__))), 'test_data', 'n_0125_1-H-1.dat')
                if not os.path.exists(fn):
                    raise Skip('no sample evaluation')
                c = dict(c, mat=125)
            if c['kind'] == 'thermal':
                c['_sec'] = {(7, 4): HEAD74(c), **({(7, 2): HEAD72(c)} if c['elastic'] else {})}
                saved[(NJ, 'run')] = NJ.run
                NJ.run = lambda commands, tapein, tapeout, **k: cap.append((commands, tapein, tapeout))
                kw = {} if c.get('default_temps') else {'temperatures': c['temps']}
                call(need(NJ, 'make_ace_thermal'), fn, 'x_thermal.endf', **kw)
                expect(len(cap) == 1, 'NJOY was run {} times', len(cap))
                deck, tin, tout = cap[0]
            else:
                o = c['opts']
                kw = dict(o)
                if c.get('temps') is not None:
                    kw['temperatures'] = c['temps']
                if c.get('pendf'):
                    kw['pendf'] = 'pendf'
                if c.get('groups'):
                    kw['cov_energy_groups'] = c['groups']
                if c.get('mts') is not None:
                    kw['covr_plot_mts'] = c['mts']
                kw['iwt_fluxweight'] = c['iwt']
                if c['iwt'] == 1:
                    kw['user_flux_weight_vals'] = c['flux']
                if c['kind'] == 'pendf':
                    call(need(NJ, 'make_pendf'), fn)
                    with open('njoy_in.txt') as f:
                        deck = f.read()
                    mods = parse(deck)
                    check_tapes(mods, {20: fn}, {21: 'pendf'})
                    expect([m for m, _ in mods] == ['reconr', 'stop'], 'modules {}', [m for m, _ in mods])
                    return
                deck, tin, tout = call(need(NJ, 'make_njoy_run'), fn, **kw)
                with open('njoy_in.txt') as f:
                    expect(f.read() == deck, 'the deck file differs from the returned deck')
        finally:
            for (m, a), v in saved.items():
                setattr(m, a, v)
            os.chdir(old)
    if get:
        return deck, repr(sorted(tout.items()))
    verify(c, deck, tin, tout, fn)


def HEAD74(c):
    f = lambda v: '%11.6f' % v if abs(v) < 1000 else '%11.4E' % v
    i = lambda v: '%11d' % v
    s = f(1001.) + f(.9) + i(0) + i(1) + i(0) + i(0) + '\n'
    s += f(0.) + f(0.) + i(0) + i(0) + i(6) + i(0) + '\n' + ''.join(f(v) for v in (20., 4., .9, c['emax'], 0., 2.)) + '\n'
    s += f(0.) + f(0.) + i(0) + i(0) + i(1) + i(1) + '\n' + i(1) + i(4) + '\n'
    T = c['temps']
    s += f(T[0]) + f(0.) + i(len(T) - 1) + i(0) + i(1) + i(2) + '\n' + i(2) + i(2) + '\n' + f(.1) + f(1.) + f(.2) + f(2.) + '\n'
    for t in T[1:]:
        s += f(t) + f(0.) + i(0) + i(0) + i(2) + i(0) + '\n' + f(1.) + f(2.) + '\n'
    return s


def HEAD72(c):
    f = lambda v: '%11.6f' % v
    i = lambda v: '%11d' % v
    return f(1001.) + f(.9) + i(c['elastic']) + i(1) + i(0) + i(0) + '\n'


FLAGS = ['broadr', 'heatr', 'purr', 'acer', 'errorr', 'nu', 'chi']


def mk(rng, o, kind='stub', T=None):
    g = sorted({float('%.3e' % v) for v in 10 ** rng.uniform(-5, 7, rng.int(3, 12))})
    c = {'kind': kind, 'mat': rng.pick([125, 9228, 9437, 1, 4725]), 'opts': o, 'iwt': rng.pick([9, 6, 3, 2, 1]),
         'temps': None if T is None and rng.chance(.1) else [float(v) for v in rng.pick([[300], [293.6, 600], [300, 600, 900.5], [0.1], [300, 600, 900, 1200]])],
         'mts': rng.pick([None, [], [2], [18, 102], [1, 2, 4, 16, 18, 102]]), 'pendf': rng.chance(.3)}
    if T is not None:
        c['temps'] = T
    if rng.chance(.2) and c['temps']:
        c['temps'] = [int(t) if float(t).is_integer() else t for t in c['temps']]
    if o.get('errorr', True):
        c['groups'] = g
    if c['iwt'] == 1:
        c['flux'] = [float('%.4e' % v) for v in 10 ** rng.uniform(-5, 7, 2 * rng.int(1, 9))]
    c['iso'] = rng.pick([0, 0, 1])
    return c


def gen(rng, tier):
    if rng.chance(.15):
        return {'kind': 'thermal', 'mat': rng.pick([125, 128, 600]), 'mat_thermal': rng.pick([1, 7, 26, 31, 40, 47]), 'elastic': rng.pick([0, 1, 2]),
                'emax': rng.pick([10.0, 4.46]), 'temps': [float(v) for v in rng.pick([[300], [293.6, 400, 500], [296, 350, 400, 450, 500]])],
                'default_temps': rng.chance(.5), 'iwt': 9}
    o = {f: rng.chance(.5) for f in FLAGS}
    return mk(rng, o, rng.pick(['stub', 'stub', 'stub', 'real']))


def fixed(tier):
    rng = Rng(18)
    for bits in itertools.product([False, True], repeat=len(FLAGS)):
        o = dict(zip(FLAGS, bits))
        for T in ([300.0], [300.0, 600.0], [293.6, 600.0, 1200.0]):
            for iwt in (1, 6):
                c = mk(rng, o, T=T)
                c['iwt'] = iwt
                c['flux'] = [1e-5, 1.0, 10.0, 2.0, 2e7, 0.5]
                yield c
    # exactly what the covariance chain asks for
    for nu, chi in itertools.product([False, True], repeat=2):
        for T in ([300], [300, 600]):
            for mts in ([2], [1, 2, 18, 102]):
                c = mk(rng, {'broadr': True, 'heatr': False, 'purr': False, 'acer': False, 'errorr': True, 'nu': nu, 'chi': chi}, T=T)
                c.update(mts=mts, pendf=False)
                yield c
    for e in (0, 1, 2):
        for T in ([300.0], [293.6, 400.0, 500.0]):
            for dt in (False, True):
                yield {'kind': 'thermal', 'mat': 125, 'mat_thermal': 7, 'elastic': e, 'emax': 4.46, 'temps': T, 'default_temps': dt, 'iwt': 9}
    yield {'kind': 'pendf', 'mat': 125, 'opts': {}, 'iwt': 9}
    o = {f: f != 'errorr' for f in FLAGS}
    yield mk(rng, o, 'real', [300.0])
