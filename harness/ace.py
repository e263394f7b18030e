"""Writer of small synthetic ACE files in the published ACE format (no ACE file
is part of the repository).  build(spec) returns (lines, layout) where layout
maps names to the 0-based slice of the data numbers."""
import numpy as np


def r11(x):
    """Round to what the 12 significant digits of the file can hold."""
    return np.array([float('%.11E' % v) for v in np.asarray(x, float).ravel()])


class Xss:
    def __init__(self):
        self.tok = []

    def add(self, vals, integer=False):
        start = len(self.tok)
        for v in vals:
            self.tok.append('%20d' % int(v) if integer else '%20.11E' % v)
        return slice(start, len(self.tok))

    @property
    def next(self):
        return len(self.tok) + 1          # 1-based index of the next entry


def build(spec):
    x = Xss()
    lay = {}
    jxs = [0] * 33
    nxs = [0] * 17
    E = spec['energy']
    n = len(E)
    jxs[1] = x.next
    lay['energy'] = x.add(E)
    lay[('xs', 1)] = x.add(spec['total'])
    lay[('xs', 101)] = x.add(spec['absorption'])
    lay[('xs', 2)] = x.add(spec['elastic'])
    lay['heating'] = x.add(spec.get('heating', [0.0] * n))
    rx = spec['reactions']
    producers = [r for r in rx if r.get('ty', 0) != 0]
    others = [r for r in rx if r.get('ty', 0) == 0]
    rx = producers + others
    if spec.get('nu'):
        nu = spec['nu']
        jxs[2] = x.next
        m = len(nu['e'])
        if nu.get('regions'):
            nr, bp, it = nu['regions']
        else:
            nr, bp, it = 0, [], []
        body = 1 + 1 + 2 * nr + 1 + 2 * m
        x.add([-body], True)
        for what in ('prompt', 'total'):
            x.add([2, nr] + list(bp) + list(it) + [m], True)
            lay['nu_e_' + what] = x.add(nu['e'])
            lay['nu_' + what] = x.add(nu[what])
    jxs[3] = x.next
    x.add([r['mt'] for r in rx], True)
    jxs[4] = x.next
    x.add([r.get('q', 0.0) for r in rx])
    jxs[5] = x.next
    x.add([r.get('ty', 0) for r in rx], True)
    jxs[6] = x.next
    loc = 1
    locs = []
    for r in rx:
        locs.append(loc)
        loc += 2 + len(r['xs'])
    x.add(locs, True)
    jxs[7] = x.next
    for r in rx:
        x.add([r['start'] + 1, len(r['xs'])], True)
        lay[('xs', r['mt'])] = x.add(r['xs'])
    jxs[8] = x.next
    x.add([0] * (len(producers) + 1), True)
    jxs[9] = x.next
    jxs[10] = x.next
    # energy distributions
    dlw = []
    locs = []

    def put(vals, integer=False):
        i = len(dlw)
        dlw.extend((v, integer) for v in vals)
        return i
    chi_lay = []
    for r in producers:
        at = len(dlw) + 1
        locs.append(at)
        chi = spec.get('chi') if abs(r['ty']) == 19 else None
        head = 3 + 2 + 4
        put([0, 4 if chi else 3, at + head], True)
        put([0, 2], True)
        put([E[0], E[-1]])
        put([1.0, 1.0])
        if chi:
            ne = len(chi)
            put([0, ne], True)
            put([c['ein'] for c in chi])
            p0 = len(dlw) + ne + 1
            ls = []
            for c in chi:
                ls.append(p0)
                p0 += 2 + 3 * len(c['eout'])
            put(ls, True)
            for c in chi:
                put([2, len(c['eout'])], True)
                a = put(c['eout'])
                b = put(c['p'])
                d = put(c['c'])
                if r['mt'] == 18:
                    chi_lay.append((a, b, d, len(c['eout'])))
        else:
            put([0.5, 0.9])
    x.add(locs, True)
    jxs[11] = x.next
    base = len(x.tok)
    for v, integer in dlw:
        x.add([v], integer)
    lay['chi'] = [(slice(base + a, base + a + m), slice(base + b, base + b + m), slice(base + d, base + d + m)) for a, b, d, m in chi_lay]
    pad = spec.get('pad', 0)
    x.add([0.0] * pad)
    nxs[1] = len(x.tok)
    nxs[2] = spec['zaid']
    nxs[3] = n
    nxs[4] = len(rx)
    nxs[5] = len(producers)
    jxs[12] = jxs[13] = 0
    jxs[22] = len(x.tok)
    name = '%d.%s' % (spec['zaid'], spec.get('ext', '70c'))
    out = []
    if spec.get('header') == 'new':
        out.append('2.0.0 %14s        ENDFB-VII.1\n' % name)
        out.append('%12.6f %11.4E 12/01/20     3\n' % (spec['awr'], spec['temp']))
        out.append('The next two lines are the first two lines of \'old-style\' ACE.\n')
    out.append('%10s%12.6f%12.4E %10s\n' % (name, spec['awr'], spec['temp'], '12/01/2020'))
    out.append('%-70s%10s\n' % (spec.get('comment', 'synthetic table'), '   mat 125'))
    for i in range(4):
        out.append(''.join('%7d%11.6f' % (0, 0.0) for _ in range(4)) + '\n')
    for i in range(2):
        out.append(''.join('%9d' % v for v in nxs[1 + 8 * i:9 + 8 * i]) + '\n')
    for i in range(4):
        out.append(''.join('%9d' % v for v in jxs[1 + 8 * i:9 + 8 * i]) + '\n')
    for i in range(0, len(x.tok), 4):
        out.append(''.join(x.tok[i:i + 4]) + '\n')
    return out, lay


def write(path, spec):
    lines, lay = build(spec)
    with open(path, 'w') as f:
        f.writelines(lines)
    return lay


def header_len(spec):
    return 15 if spec.get('header') == 'new' else 12


NEUTRON_OUT = {4: 1, 5: 1, 11: 2, 16: 2, 17: 3, 18: 19, 19: 19, 20: 1, 21: 1, 22: 1, 28: 1, 37: 4, 38: 1, 41: 2, 42: 3, 44: 1, 45: 1}


def ty(mt):
    if mt in NEUTRON_OUT:
        return NEUTRON_OUT[mt]
    if 50 <= mt <= 91:
        return 1
    if 875 <= mt <= 891:
        return 2
    if mt in range(22, 38) or mt in (152, 153, 154) or 156 <= mt <= 181 or 183 <= mt <= 190 or mt in (194, 195, 196, 198, 199, 200):
        return 1
    return 0


def random_spec(rng, mts, n=None, fission=None, zaid=92235, exact_sums=True, header=None):
    """A table with the given reaction MTs (besides 1, 2 and 101)."""
    n = n or rng.int(5, 12)
    E = np.sort(10.0 ** rng.uniform(-9, 1.2, size=n))
    E = r11(E)
    while len(set(E.tolist())) < n:
        E = r11(np.sort(10.0 ** rng.uniform(-9, 1.2, size=n)))
    if n > 3 and rng.chance(.25):
        # neighbouring energies that nearly coincide
        i = rng.int(0, n - 2)
        v = r11(np.array([E[i + 1] * (1 - 4e-6)]))[0]
        if i == 0 or v > E[i - 1]:
            E[i] = v
    rx = []
    for mt in sorted(mts):
        start = 0 if mt in (18, 102, 4, 27, 3, 101) or rng.chance(.4) else rng.int(0, n - 2)
        xs = r11(rng.uniform(.01, 3, size=n - start))
        if start > 0 and rng.chance(.5):
            xs[0] = 0.0
        rx.append({'mt': mt, 'start': start, 'xs': xs.tolist(), 'ty': ty(mt), 'q': -1.0 if start else 0.0})
    spec = {'zaid': zaid, 'ext': rng.pick(['70c', '80c', '31c']), 'awr': float('%.6f' % rng.uniform(.9, 240)), 'temp': rng.pick([2.5301e-8, 5.1704e-8]),
            'energy': E.tolist(), 'reactions': rx, 'header': header or rng.pick(['old', 'new'])}

    def full(r):
        v = np.zeros(n)
        v[r['start']:] = r['xs']
        return v
    el = r11(rng.uniform(1, 10, size=n))
    ab = np.zeros(n)
    tot = el.copy()
    for r in rx:
        if 102 <= r['mt'] <= 117 or 600 <= r['mt'] < 850 or r['mt'] in (155, 182, 191, 192, 193, 197):
            ab = ab + full(r)
        tot = tot + full(r)
    if rng.chance(.15) and not fission:
        ab = ab * 0
    spec['absorption'] = r11(ab + (rng.uniform(0, .1, size=n) if ab.any() and not exact_sums else 0)).tolist()
    spec['elastic'] = el.tolist()
    spec['total'] = r11(tot + rng.uniform(0, .1, size=n)).tolist()
    spec['heating'] = r11(rng.uniform(0, 5, size=n)).tolist()
    if 18 in mts or 19 in mts:
        m = rng.int(2, 5)
        ne = r11(np.linspace(E[0], E[-1], m) + 0)
        spec['nu'] = {'e': ne.tolist(), 'prompt': r11(rng.uniform(2, 4, m)).tolist(), 'total': r11(rng.uniform(2, 4, m)).tolist()}
        chi = []
        for ein in r11(np.linspace(E[0], E[-1], rng.int(1, 3))):
            k = rng.int(3, 8)
            eo = r11(np.sort(np.append(0.0, rng.uniform(.01, 20, k - 1))))
            p = rng.uniform(.05, 1, k)
            c = np.append(0.0, np.cumsum(p[1:] * np.diff(eo)))
            p, c = p / c[-1], c / c[-1]
            chi.append({'ein': float(ein), 'eout': eo.tolist(), 'p': r11(p).tolist(), 'c': r11(c).tolist()})
        spec['chi'] = chi
    return spec
