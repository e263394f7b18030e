import io
import itertools
from fractions import Fraction
import numpy as np
from harness.rt import *
from ASAPy.data import endf as A
from ASAPy import endf as B

MODS = [('ASAPy.data.endf', A), ('ASAPy.endf', B)]


def parts(t):
    """the number a text in one of the ENDF shapes denotes, computed from its parts"""
    s = t.strip()
    sign = 1
    if s[0] in '+-':
        sign = -1 if s[0] == '-' else 1
        s = s[1:]
    i = 0
    while i < len(s) and (s[i].isdigit() or s[i] == '.'):
        i += 1
    mant, ex = s[:i], s[i:]
    if ex[:1] in ('e', 'E'):
        ex = ex[1:]
    e = int(ex) if ex else 0
    if '.' in mant:
        a, b = mant.split('.')
    else:
        a, b = mant, ''
    v = Fraction(int((a + b) or '0')) / 10 ** len(b)
    v = v * Fraction(10) ** e
    return sign * float(v) if v < Fraction(2) ** 1025 else sign * float('inf')


def f11(v, style=0):
    """an 11-column ENDF number close to v; style picks the shape"""
    if style == 3:
        return '%11.5f' % v
    m, e = ('%.6e' % v).split('e')
    e = int(e)
    for d in (6, 5, 4):
        m, e = ('%.*e' % (d, v)).split('e')
        e = int(e)
        t = {0: '%s%+d', 1: '%sE%+03d', 2: '%se%+d'}[style] % (m, e)
        if len(t) <= 11:
            return t.rjust(11)
    return ('%+.3e' % v).rjust(11)[:11]


def line(fields, seq):
    return ''.join(fields).ljust(66)[:66] + '%4d%2d%3d%5d\n' % (125, 3, 1, seq)


def i11(v):
    return '%11d' % v


def cont(c, seq):
    return line([c[0], c[1]] + [i11(v) for v in c[2:]], seq)


def rows(fields, seq):
    return ''.join(line(fields[i:i + 6], seq) for i in range(0, len(fields), 6))


def proof_text(c):
    """(kind, text) of the record of a counterexample, values rounded to what the columns hold"""
    c, k = proof_case(c), c['rec']
    return k, text(c, k)


def proof_case(c):
    n = lambda v: f11(v if v == 0 or 1e-90 < abs(v) < 1e90 else 0.0, 0)
    i = lambda v: max(-99999999, min(99999999, v))
    d = dict(c, kind=c['rec'], head=[n(v) for v in c['head'][:2]] + [i(v) for v in c['head'][2:]], nbt=[i(v) for v in c['nbt']], int=[i(v) for v in c['int']])
    d.update({q: [n(v) for v in c[q]] for q in ('vals', 'x', 'y')})
    return d


def text(c, k):
    h = c['head']
    if k in ('cont', 'head', 'skip'):
        return cont(h, 1)
    if k == 'list':
        return cont(h[:4] + [len(c['vals']), h[5]], 1) + rows(c['vals'], 2)
    if k == 'tab1':
        return cont(h[:4] + [len(c['nbt']), len(c['x'])], 1) + rows([i11(v) for p in zip(c['nbt'], c['int']) for v in p], 2) + rows([v for p in zip(c['x'], c['y']) for v in p], 3)
    if k == 'tab2':
        return cont(h[:4] + [len(c['nbt']), h[5]], 1) + rows([i11(v) for p in zip(c['nbt'], c['int']) for v in p], 2)
    if k == 'intg':
        txt = line([h[0], h[1], i11(c['nd']), i11(c['npar']), i11(len(c['lines'])), i11(0)], 1)
        for ii, jj, el in c['lines']:
            s = '%5d%5d ' % (ii, jj)
            s += ''.join(('%*d' % (c['nd'] + 1, e)) if e else ' ' * (c['nd'] + 1) for e in el)
            txt += line([s], 2)
        return txt
    raise Skip('kind')


def run(c):
    k = c['kind']
    if k == 'floats':
        for t in c['texts']:
            run({'kind': 'float', 'text': t})
        return
    if k == 'proof':
        run(proof_case(c))
        return
    if k == 'float':
        want = parts(c['text'])
        for nm, m in MODS:
            got = call(need(m, 'float_endf'), c['text'])
            expect(isinstance(got, float) and got == want, '{}.float_endf({!r}) = {!r} instead of {!r}', nm, c['text'], got, want)
        return
    for nm, m in MODS:
        if k == 'intg' and m is B:
            continue
        h = c['head']
        txt = text(c, k)
        rest = 'NEXT RECORD\nAND ONE MORE\n'
        f = io.StringIO(txt + rest)
        if c.get('nl'):                      # last line without a terminator
            f = io.StringIO(txt.rstrip('\n'))
            rest = ''
        hv = [parts(h[0]), parts(h[1])] + h[2:]
        if k == 'cont':
            got = call(need(m, 'get_cont_record'), f)
            expect(list(got) == hv, '{}.get_cont_record gives {} instead of {}', nm, got, hv)
        elif k == 'skip':
            got = call(need(m, 'get_cont_record'), f, skipC=True)
            expect(list(got) == [None, None] + h[2:], '{}.get_cont_record(skipC) gives {}', nm, got)
        elif k == 'head':
            got = call(need(m, 'get_head_record'), f)
            want = [int(hv[0])] + hv[1:]
            expect(list(got) == want and isinstance(got[0], int), '{}.get_head_record gives {} instead of {}', nm, got, want)
        elif k == 'list':
            items, vals = call(need(m, 'get_list_record'), f)
            want = hv[:4] + [len(c['vals']), h[5]]
            expect(list(items) == want, '{}.get_list_record header {} instead of {}', nm, items, want)
            w = [parts(v) for v in c['vals']]
            expect(list(vals) == w, '{}.get_list_record values {} instead of {}', nm, list(vals)[:8], w[:8])
        elif k == 'tab1':
            r = call(need(m, 'get_tab1_record'), f)
            if m is A:
                p, t = r
                x, y, nb, it = t.x, t.y, t.breakpoints, t.interpolation
            else:
                p, x, y, nb, it = r
            expect(list(p) == hv[:4], '{}.get_tab1_record header {}', nm, p)
            same(nb, c['nbt'], nm + ' breakpoints')
            same(it, c['int'], nm + ' interpolation')
            same(x, [parts(v) for v in c['x']], nm + ' x')
            same(y, [parts(v) for v in c['y']], nm + ' y')
        elif k == 'tab2':
            p, t = call(need(m, 'get_tab2_record'), f)
            want = hv[:4] + [len(c['nbt']), h[5]]
            expect(list(p) == want, '{}.get_tab2_record header {} instead of {}', nm, p, want)
            same(t.breakpoints, c['nbt'], nm + ' breakpoints')
            same(t.interpolation, c['int'], nm + ' interpolation')
        elif k == 'intg':
            got = call(need(m, 'get_intg_record'), f)
            w = np.eye(c['npar'])
            for ii, jj, el in c['lines']:
                for q, e in enumerate(el):
                    if e and jj + q < ii:
                        w[ii - 1, jj - 1 + q] = w[jj - 1 + q, ii - 1] = (e + (.5 if e > 0 else -.5)) / 10 ** c['nd']
            close(got, w, nm + ' correlation', rtol=1e-14)
        expect(f.read() == rest, '{}: the reader is not right after the {} record', nm, k)


def num(rng):
    s = rng.pick([0, 0, 0, 1, 2, 3])
    if s == 3:
        return f11(rng.uniform(-9999, 9999), 3)
    v = rng.uniform(1, 10) * 10.0 ** rng.int(-12 if s else -99, 12 if s else 99) * rng.pick([1, -1])
    if rng.chance(.08):
        v = 0.0
    return f11(v, s)


def head(rng):
    return [num(rng), num(rng)] + [rng.int(-99, 99999) for _ in range(4)]


def gen(rng, tier, k=None, n=None):
    k = k or rng.pick(['float', 'cont', 'skip', 'head', 'list', 'tab1', 'tab2', 'intg'])
    if k == 'float':
        t = num(rng)
        if rng.chance(.4):
            t = rng.pick(['', ' ', '   ']) + rng.pick(['', '+', '-']) + rng.pick(['', '0', '1', '12', '123456']) + '.' + rng.pick(['0', '5', '25', '123456']) \
                + rng.pick(['', 'E', 'e'])
            if t[-1] in 'eE':
                t += rng.pick(['+', '-', '']) + str(rng.int(0, 30))
            elif rng.chance(.7):
                t += rng.pick(['+', '-']) + rng.pick(['0', '00', '3', '07', '10', '99', '120', '300'])
            t += rng.pick(['', ' ', '  '])
        elif rng.chance(.2):
            t = rng.pick(['%d', ' %d ', '%11d']) % rng.int(-99999, 99999)
        return {'kind': k, 'text': t}
    c = {'kind': k, 'head': head(rng), 'nl': rng.chance(.2)}
    if k == 'head':
        c['head'][0] = f11(float(rng.int(1, 118) * 1000 + rng.int(0, 300)), 0)
    if k == 'list':
        c['vals'] = [num(rng) for _ in range(n or (rng.int(41, 500) if deep(rng, tier) else rng.int(1, 40)))]
    if k in ('tab1', 'tab2'):
        big = deep(rng, tier)
        r = n or (rng.int(9, 60) if big else rng.int(1, 9))
        c['nbt'] = sorted(rng.int(1, 500) for _ in range(r))
        c['int'] = [rng.int(1, 5) for _ in range(r)]
        p = rng.int(26, 200) if big else rng.int(1, 25)
        c['x'] = [num(rng) for _ in range(p)]
        c['y'] = [num(rng) for _ in range(p)]
    if k == 'intg':
        nd = rng.pick([2, 4, 5])
        npar = rng.int(30, 60) if deep(rng, tier) else rng.int(2, 30)
        nr = {2: 18, 4: 11, 5: 9}[nd]
        ls = []
        for ii in range(2, npar + 1):
            for jj in range(1, ii, nr):
                if rng.chance(.7):
                    # a field of width nd+1 must leave room for the sign
                    ls.append([ii, jj, [0 if rng.chance(.3) else rng.int(-10 ** nd + 1, 10 ** nd - 1) for _ in range(min(nr, ii - jj))]])
        c.update(nd=nd, npar=npar, lines=ls)
    return c


def fixed(tier):
    rng = Rng(19)
    for s, a, b, l, e in itertools.product(['', '+', '-', ' ', '  -'], ['0', '1', '9', '12', ''], ['0', '5', '000001', '999999'], ['', 'E', 'e'],
                                           ['', '+0', '-0', '+1', '-1', '+10', '-10', '+99', '-99', '-120', '+05', '-05']):
        if l and not e:
            continue
        yield {'kind': 'float', 'text': s + a + '.' + b + l + e}
    for n in list(range(1, 41)) + [59, 60, 61, 119, 120, 251]:
        yield gen(rng, tier, 'list', n)
    for n in list(range(1, 20)) + [31, 45]:
        yield gen(rng, tier, 'tab2', n)
        yield gen(rng, tier, 'tab1', n)
    for p in list(range(1, 20)) + [44, 99, 150]:
        c = gen(rng, tier, 'tab1', 1)
        c['x'] = [num(rng) for _ in range(p)]
        c['y'] = [num(rng) for _ in range(p)]
        yield c
