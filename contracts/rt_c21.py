import os
import numpy as np
from harness.rt import *
from ASAPy.data import ace as AC


def num(v, style):
    if style == 'noe':
        m, e = ('%.11E' % v).split('E')
        return ('%s%+04d' % (m, int(e))).rjust(20)
    if style == 'int':
        return '%20d' % int(v)
    return '%20.11E' % v


def val(v, style):
    return float(int(v)) if style == 'int' else float('%.11E' % v)


def table_text(t):
    s = ''
    if t['style'] == 'new':
        s += '2.0.0     %s              %s\n' % (t['name'], t.get('src', 'ENDFB-VII.1'))
        s += '%.6f %.4E 12/19/12     3\n' % (t['awr'], t['temp'])
        s += "The next two lines are the first two lines of 'old-style' ACE.\n"
    s += '%10s%12.6f %11.4E %10s\n' % (t['name'], t['awr'], t['temp'], '12/19/12')
    s += ('%-70s%10s' % ('synthetic ' + t['name'], '   mat 125')) + '\n'
    for r in range(4):
        s += ''.join('%7d%11.5f' % (z, a) for z, a in t['pairs'][4 * r:4 * r + 4]) + '\n'
    nxs = [len(t['xss'])] + t['nxs']
    for r in range(2):
        s += ''.join('%9d' % v for v in nxs[8 * r:8 * r + 8]) + '\n'
    for r in range(4):
        s += ''.join('%9d' % v for v in t['jxs'][8 * r:8 * r + 8]) + '\n'
    f = [num(v, k) for v, k in zip(t['xss'], t['styles'])]
    for i in range(0, len(f), 4):
        s += ''.join(f[i:i + 4]) + '\n'
    return s


def check(got, t, what):
    expect(got.name == t['name'], '{}: table {!r} instead of {!r}', what, got.name, t['name'])
    close(got.atomic_weight_ratio, float('%.6f' % t['awr']), what + ' weight ratio', rtol=1e-15)
    close(got.temperature, float('%.4E' % t['temp']), what + ' temperature', rtol=1e-15)
    same(got.nxs[1:], [len(t['xss'])] + t['nxs'], what + ' NXS')
    same(got.jxs[1:], t['jxs'], what + ' JXS')
    expect(len(got.nxs) == 17 and len(got.jxs) == 33 and len(got.xss) == len(t['xss']) + 1, '{}: array lengths', what)
    same(got.xss[1:], [val(v, k) for v, k in zip(t['xss'], t['styles'])], what + ' XSS')
    expect([(int(a), float(b)) for a, b in got.pairs] == [(z, float('%.5f' % a)) for z, a in t['pairs']], '{}: pairs {}', what, got.pairs)


def run(c):
    T = c['tables']
    with scratch() as d:
        p, b = os.path.join(d, 'lib.ace'), os.path.join(d, 'lib.bin')
        with open(p, 'w') as f:
            f.write(''.join(table_text(t) for t in T))
        raw = open(p, 'rb').read()
        Lib = need(AC, 'Library')
        want = c.get('want')
        for what, path in (('text', p), ('binary', b)):
            if what == 'binary':
                call(need(AC, 'ascii_to_binary'), p, b)
                expect(open(p, 'rb').read() == raw, 'the text library was changed')
            if want is None:
                lib = call(Lib, path)
                sel = T
            else:
                arg = want[0] if c.get('asstr') else (tuple(want) if c.get('tup') else list(want))
                lib = call(Lib, path, arg)
                w = [want[0]] if c.get('asstr') else want
                sel = [t for t in T if t['name'] in w]
            expect([t.name for t in lib.tables] == [t['name'] for t in sel], '{}: tables {} instead of {}', what,
                   [t.name for t in lib.tables], [t['name'] for t in sel])
            for g, t in zip(lib.tables, sel):
                check(g, t, what)
            k = c.get('get')
            if k is not None:
                gt = need(AC, 'get_table')
                if k == 'first':
                    check(call(gt, path), T[0], what + ' get_table')
                elif k == 'absent':
                    must_raise(gt, path, '99999.00c', _what='an error for an absent table')
                    must_raise(gt, path, T[0]['name'][:-1], _what='an error for an absent table')
                else:
                    check(call(gt, path, T[k]['name']), T[k], what + ' get_table')


def mk(rng, n, i, special=False):
    xs = []
    st = []
    for _ in range(n):
        k = rng.int(0, 12)
        if k == 0:
            xs.append(float(rng.int(-9999, 9999))); st.append('int')
        elif special and k in (1, 2):
            xs.append(float(rng.uniform(1, 9.9) * 10.0 ** rng.int(-300, -100) * rng.pick([1, -1]))); st.append('noe')
        else:
            xs.append(float(rng.uniform(-1, 1) * 10.0 ** rng.int(-20, 20))); st.append('e')
    # a name is unique in its library; one may be a prefix of another
    name = rng.pick(['%d.%02dc', '%d.%02dt', '%d.%02dp']) % (rng.pick([1001, 92235, 8016, 94239]), i)
    return {'name': name, 'style': rng.pick(['old', 'old', 'new']), 'awr': float(rng.uniform(.9, 240)), 'temp': float(rng.uniform(1e-9, 1e-6)),
            'pairs': [[rng.pick([0, 1001, 8016]), float(rng.uniform(0, 9))] for _ in range(16)],
            'nxs': [rng.int(0, 99999) for _ in range(15)], 'jxs': [rng.int(0, 99999) for _ in range(32)], 'xss': xs, 'styles': st}


SIZES = [1, 2, 3, 4, 5, 7, 8, 9, 511, 512, 513, 1023, 1024, 1025]


def gen(rng, tier):
    k = rng.int(1, 4)
    T = [mk(rng, rng.pick(SIZES + [rng.int(1, 60)] * 20), i, rng.chance(.4)) for i in range(k)]
    c = {'kind': '%d tables' % k, 'tables': T}
    m = rng.int(0, 3)
    if m == 1:
        c['want'] = [t['name'] for t in T if rng.chance(.5)] or [T[-1]['name']]
        rng.shuffle(c['want'])
        c['tup'] = rng.chance(.3)
    elif m == 2:
        c['want'] = [T[rng.int(0, k - 1)]['name']]
        c['asstr'] = rng.chance(.5)
    if rng.chance(.5):
        c['get'] = rng.pick(['first', 'absent'] + list(range(k)))
    return c


def fixed(tier):
    rng = Rng(21)
    for n in SIZES + list(range(10, 26)):
        for pos in (0, 1):
            T = [mk(rng, n, 0, n % 2 == 0), mk(rng, 5, 1)]
            if pos:
                T.reverse()
            yield {'kind': 'size', 'tables': T, 'get': pos}
            yield {'kind': 'size', 'tables': T, 'want': [T[1]['name']]}
    for st in ('old', 'new'):
        # all bytes of the binary form are ascii
        T = [{'name': '1001.7%dc' % i, 'style': st, 'awr': 2.0, 'temp': 0.0, 'pairs': [[0, 0.0]] * 16, 'nxs': [1] * 15, 'jxs': [2] * 32,
              'xss': [2.0, 4.0, 0.0, 3.0, 2.0, 2.0], 'styles': ['e'] * 6} for i in range(2)]
        yield {'kind': 'ascii bytes', 'tables': T[:1], 'get': 0}
        yield {'kind': 'ascii bytes', 'tables': T, 'get': 1}
    for st in ('old', 'new'):
        for k in (1, 2, 3):
            T = [mk(rng, 6, i, True) for i in range(k)]
            for t in T:
                t['style'] = st
            for q in range(k):
                yield {'kind': 'style', 'tables': T, 'get': q, 'want': [T[q]['name']]}
