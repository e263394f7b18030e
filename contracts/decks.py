"""what a processing deck has to satisfy; the cards are parsed by position, so it does not matter how the text is assembled"""
import re
from harness.rt import expect

MODULES = {'reconr', 'broadr', 'heatr', 'purr', 'acer', 'groupr', 'errorr', 'covr', 'viewr', 'thermr'}


def parse(deck):
    """[(module, [card, ...])]; a card is the text before '/' of a line that is
    not a comment; quoted titles are kept as they are."""
    mods = []
    for line in deck.split('\n'):
        s = line.strip()
        if s.startswith('--') or not s:
            continue
        head = re.match(r'[a-z]+', s)
        if head and head.group(0) in MODULES and re.match(r'[a-z]+\s*(/.*)?$', s):
            mods.append((head.group(0), []))
            continue
        if s == 'stop':
            mods.append(('stop', []))
            continue
        expect(bool(mods), 'deck starts with {!r}', s)
        if s.startswith("'"):
            mods[-1][1].append(s)
        else:
            mods[-1][1].append(s.split('/')[0].strip())
    return mods


def ints(card):
    return [int(t) for t in card.split()]


def floats_until(cards, i, n):
    """n numbers starting with card i, over as many cards as needed"""
    out = []
    while len(out) < n and i < len(cards):
        out += [float(t) for t in cards[i].split()]
        i += 1
    return out, i


# positions of (read, written) tapes on the first card
IO = {'reconr': ((0,), (1,)), 'broadr': ((0, 1), (2,)), 'heatr': ((0, 1), (2,)), 'purr': ((0, 1), (2,)),
      'acer': ((0, 1, 2), (3, 4)), 'groupr': ((0, 1, 2), (3,)), 'errorr': ((0, 1, 2), (3,)), 'viewr': ((0,), (1,)),
      'thermr': ((0, 1), (2,))}


def check_tapes(mods, tapein, tapeout):
    have = set(tapein)
    kind = {t: 'endf' for t in tapein}
    last_pendf = None
    writers = {}
    for m, cards in mods:
        if m == 'stop':
            continue
        t = ints(cards[0])
        if m == 'covr':
            t = t + [0] * (3 - len(t))
            r, w = [t[0]], [v for v in t[1:3] if v]
        else:
            r = [t[i] for i in IO[m][0] if i < len(t)]
            w = [t[i] for i in IO[m][1]]
        for v in r:
            if v:
                expect(v in have, '{} reads tape {} that nothing has written', m, v)
        for v in w:
            expect(v and v not in have, '{} writes tape {} that is already in use', m, v)
            have.add(v)
            writers[v] = m
        # what kind of tape each module is given
        def want(v, *k):
            expect(kind[v] in k, '{} reads tape {} as {} but it was written as {}', m, v, '/'.join(k), kind[v])
        if m == 'reconr':
            want(t[0], 'endf'); kind[t[1]] = 'pendf'
        elif m in ('broadr', 'heatr', 'purr'):
            want(t[0], 'endf'); want(t[1], 'pendf')
            kind[t[2]] = 'pendf'
            expect(t[1] == last_pendf, '{} reads PENDF tape {} instead of the last one {}', m, t[1], last_pendf)
        elif m == 'thermr':
            if t[0]:
                want(t[0], 'endf')
            want(t[1], 'pendf'); kind[t[2]] = 'pendf'
            expect(t[1] == last_pendf, '{} reads PENDF tape {} instead of the last one {}', m, t[1], last_pendf)
        elif m == 'acer':
            want(t[0], 'endf'); want(t[1], 'pendf')
            expect(t[1] == last_pendf, 'acer reads PENDF tape {} instead of the last one {}', t[1], last_pendf)
            kind[t[3]], kind[t[4]] = 'ace', 'xsdir'
        elif m == 'groupr':
            want(t[0], 'endf'); want(t[1], 'pendf')
            kind[t[3]] = 'gendf'
        elif m == 'errorr':
            want(t[0], 'endf')
            if t[1]:
                want(t[1], 'pendf')
            if t[2]:
                want(t[2], 'gendf')
            expect(t[1] or t[2], 'errorr reads neither a PENDF nor a GENDF tape')
            kind[t[3]] = 'cov'
        elif m == 'covr':
            want(t[0], 'cov')
            if t[1]:
                kind[t[1]] = 'covout'
            if t[2]:
                kind[t[2]] = 'plot'
        elif m == 'viewr':
            want(t[0], 'plot'); kind[t[1]] = 'eps'
        for v in w:
            if kind[v] == 'pendf':
                last_pendf = v
    for tape, name in tapeout.items():
        expect(tape in writers, 'output {} is announced on tape {} that no module writes', name, tape)
    return kind, writers


def grouping(cards, i, groups, what):
    """cards i: count, then the bounds; returns the next card"""
    n = len(groups)
    expect(ints(cards[i].split()[0]) == [n - 1], '{}: group count {} instead of {}', what, cards[i], n - 1)
    got, j = floats_until(cards, i + 1, n)
    expect(got == [float(g) for g in groups], '{}: group bounds {} instead of {}', what, got, groups)
    return j


def flux(cards, i, c, what):
    if c['iwt'] != 1:
        return i
    v = c['flux']
    expect(i < len(cards), '{}: no weight function', what)
    h = cards[i].split()
    np_ = len(v) // 2
    expect([int(float(t)) for t in h[5:8]] == [np_, np_, 2], '{}: weight function header {}', what, cards[i])
    got, j = floats_until(cards, i + 1, len(v))
    expect(got == [float(x) for x in v], '{}: weight function {} instead of {}', what, got, v)
    return j


def verify(c, deck, tin, tout, fn):
    mods = parse(deck)
    expect('{' not in deck and '}' not in deck, 'unfilled template field')
    expect(mods[-1][0] == 'stop', 'the deck does not end with stop')
    kind, writers = check_tapes(mods, tin, tout)
    expect(len(set(tout.values())) == len(tout), 'two outputs with the same name: {}', dict(tout))
    temps = c['temps'] if c.get('temps') is not None else [293.6]
    if c['kind'] == 'thermal':
        return thermal(c, mods, tin, tout, temps, kind)
    expect(list(tin.values()) == [fn], 'inputs {}', dict(tin))
    o = {'broadr': True, 'heatr': True, 'purr': True, 'acer': True, 'errorr': True, 'nu': False, 'chi': False}
    o.update(c['opts'])
    names = [m for m, _ in mods]
    for m in ('broadr', 'heatr', 'purr'):
        expect((m in names) == o[m], 'module {} present: {}, requested: {}', m, m in names, o[m])
        expect(names.count(m) == (1 if o[m] else 0), 'module {} runs {} times', m, names.count(m))
    expect(names.count('acer') == (len(temps) if o['acer'] else 0), 'acer runs {} times', names.count('acer'))
    ne = (len(temps) + o['nu'] + o['chi']) if o['errorr'] else 0
    expect(names.count('errorr') == ne, 'errorr runs {} times instead of {}', names.count('errorr'), ne)
    ng = (len(temps) + (1 if o['nu'] or o['chi'] else 0)) if o['errorr'] else 0
    expect(names.count('groupr') == ng, 'groupr runs {} times instead of {}', names.count('groupr'), ng)
    mat = c['mat']
    acer_t, err = [], []
    for m, cards in mods:
        if m == 'reconr':
            expect(ints(cards[2])[0] == mat, 'reconr material {}', cards[2])
        elif m == 'broadr':
            v = cards[1].split()
            expect(int(v[0]) == mat and int(v[1]) == len(temps), 'broadr material/temperatures {}', cards[1])
            expect([float(t) for t in cards[3].split()] == temps, 'broadr temperatures {}', cards[3])
        elif m == 'heatr':
            expect(ints(cards[1])[0] == mat, 'heatr material {}', cards[1])
        elif m == 'purr':
            v = ints(cards[1])
            expect(v[0] == mat and v[1] == len(temps), 'purr material/temperatures {}', cards[1])
            expect([float(t) for t in cards[2].split()] == temps, 'purr temperatures {}', cards[2])
        elif m == 'acer':
            v = cards[3].split()
            expect(int(v[0]) == mat, 'acer material {}', cards[3])
            acer_t.append(float(v[1]))
            t = ints(cards[0])
            expect(t[3] in tout and t[4] in tout, 'acer output is not announced')
            expect(tout[t[3]] == 'ace_%.1f' % acer_t[-1] and tout[t[4]] == 'xsdir_%.1f' % acer_t[-1],
                   'acer output of temperature {} announced as {}', acer_t[-1], tout[t[3]])
        elif m == 'groupr':
            v = ints(cards[1])
            expect(v[0] == mat and v[3] == c['iwt'] and v[5] == len(temps), 'groupr material/weight/temperatures {}', cards[1])
            expect([float(t) for t in cards[3].split()] == temps, 'groupr temperatures {}', cards[3])
            j = grouping(cards, 5, c['groups'], 'groupr')
            j = flux(cards, j, c, 'groupr')
            # one list of reactions per temperature, each ended by 0, then a final 0
            rest = cards[j:]
            expect(rest.count('0') == len(temps) + 1 and rest[-2:] == ['0', '0'], 'groupr reaction lists {} for {} temperatures', rest, len(temps))
            per, cur = [], []
            for r in rest[:-1]:
                if r == '0':
                    per.append(cur); cur = []
                else:
                    cur.append(r)
            expect(all(p == per[0] and p for p in per), 'groupr asks different reactions per temperature: {}', per)
        elif m == 'errorr':
            v = ints(cards[1])
            expect(v[0] == mat and v[2] == c['iwt'], 'errorr material/weight {}', cards[1])
            expect(float(cards[2].split()[1]) in [float(t) for t in temps], 'errorr temperature {}', cards[2])
            err.append((ints(cards[3])[1], float(cards[2].split()[1]), ints(cards[0])))
            j = grouping(cards, 4, c['groups'], 'errorr')
            flux(cards, j, c, 'errorr')
        elif m == 'covr':
            last = [x for x in cards if x][-1]
            expect(int(last.split()[0]) == mat, 'covr material {}', last)
    if o['acer']:
        expect(acer_t == [float(t) for t in temps], 'acer temperatures {}', acer_t)
    if o['errorr']:
        expect([t for mf, t, _ in err if mf == 33] == [float(t) for t in temps], 'errorr temperatures {}', err)
        expect([mf for mf, *_ in err if mf != 33] == [31] * o['nu'] + [35] * o['chi'], 'errorr of nu/chi {}', err)
        if not c.get('pendf'):
            cov_names = ['covr_%s.txt' % t for t in temps]
            if o['nu']:
                cov_names.append('covr_nu_%s.txt' % temps[-1])
            if o['chi']:
                cov_names.append('covr_chi_%s.txt' % temps[-1])
            if c.get('mts'):
                head = list(tout.items())[:2 * len(cov_names)]
                expect([n for _, n in head[0::2]] == cov_names, 'covariance outputs {} instead of {}', [n for _, n in head[0::2]], cov_names)
                expect(all(kind[t] == 'covout' for t, _ in head[0::2]) and all(kind[t] == 'eps' for t, _ in head[1::2]),
                       'outputs are not alternately covariances and plots: {}', [(n, kind[t]) for t, n in head])
                # and each of them belongs to the covariance it is named after
                src = {}
                for m, cards in mods:
                    if m == 'covr':
                        t = ints(cards[0])
                        for w in t[1:3]:
                            src[w] = t[0]
                    elif m == 'viewr':
                        t = ints(cards[0])
                        src[t[1]] = src[t[0]]
                bytape = {t[3]: (mf, T) for mf, T, t in err}
                want = [(33, float(t)) for t in temps] + [(31, float(temps[-1]))] * o['nu'] + [(35, float(temps[-1]))] * o['chi']
                for k, w in enumerate(want):
                    for q in (0, 1):
                        expect(bytape[src[head[2 * k + q][0]]] == w, 'output {} holds {} instead of {}', head[2 * k + q][1], bytape[src[head[2 * k + q][0]]], w)
                for m, cards in mods:
                    if m == 'covr' and len(ints(cards[0])) > 2 and bytape[ints(cards[0])[0]][0] == 33:
                        n = ints(cards[3])[1]
                        got = [ints(x) for x in cards[4:] if x]
                        expect(n == len(got) and got == [[mat, mt, mat, mt] for mt in c['mts']], 'plots of {} instead of {}', got, c['mts'])


def thermal(c, mods, tin, tout, temps, kind):
    names = [m for m, _ in mods]
    expect(names == ['reconr', 'broadr', 'thermr', 'thermr'] + ['acer'] * len(temps) + ['stop'], 'modules {}', names)
    expect(sorted(tin.values()) == ['tape.endf', 'x_thermal.endf'], 'inputs {}', dict(tin))
    k = 0
    for m, cards in mods:
        t = ints(cards[0]) if cards else []
        if m in ('reconr', 'broadr'):
            expect(tin[t[0]] == 'tape.endf', '{} reads the thermal evaluation', m)
            expect(ints(cards[2])[0] == c['mat'] if m == 'reconr' else int(cards[1].split()[0]) == c['mat'], '{} material', m)
            if m == 'broadr':
                expect(int(cards[1].split()[1]) == len(temps) and [float(v) for v in cards[3].split()] == temps, 'broadr temperatures {}', cards)
        elif m == 'thermr':
            v = ints(cards[1])
            expect(v[:2] == ([c['mat_thermal'], c['mat']] if t[0] else [0, c['mat']]), 'thermr materials {}', cards[1])
            if t[0]:
                expect(tin[t[0]] == 'x_thermal.endf', 'thermr reads the neutron evaluation')
                expect(v[5] == (1 if c['elastic'] else 0), 'thermr elastic option {}', cards[1])
            expect(v[3] == len(temps) and [float(x) for x in cards[2].split()] == temps, 'thermr temperatures {}', cards)
        elif m == 'acer':
            v = cards[3].split()
            expect(int(v[0]) == c['mat'] and float(v[1]) == temps[k], 'acer material/temperature {}', cards[3])
            expect(tout[t[3]] == 'ace_%.1f' % temps[k] and tout[t[4]] == 'xsdir_%.1f' % temps[k], 'acer outputs {}', dict(tout))
            k += 1
    expect(len(tout) == 2 * len(temps), 'outputs {}', dict(tout))
