import os
import numpy as np
from harness.rt import *
from ASAPy import EndfToCov as EC

MARK = '***ERROR IN BOXR***'


def field(v):
    return '%10.3E' % v


def block(vals, per, ends):
    s = ''
    for i in range(0, len(vals), per):
        s += ''.join(field(v) for v in vals[i:i + per]) + ends
    return s


def text(c):
    s = '\n' * c.get('lead', 0)
    names = [c['bounds'], c['xsec'], c['rel'], [v for r in c['cov'] for v in r]]
    for k, vals in enumerate(names[:c.get('nblocks', 4)]):
        s += '%s%d %s\n' % (' ' * c.get('indent', 0), k, c.get('title', 'u-238   9228   1 9228   1 239'))
        s += block(vals, c['per'][k], '\n')
        s += '\n' * c['gap'][k]
    if c.get('marker') is not None:
        lines = s.splitlines(True)
        lines.insert(min(c['marker'], len(lines)), ' ' + MARK + ' 12\n')
        s = ''.join(lines)
    if c.get('nonl') and s.endswith('\n'):
        s = s.rstrip('\n')
    return s


def run(c):
    cls = need(EC, 'read_boxer_out_matrix')
    with scratch() as d:
        p = os.path.join(d, 'm.txt')
        with open(p, 'w') as f:
            f.write(text(c))

        def read():
            return cls(p).get_block_data()
        if c.get('marker') is not None:
            must_raise(read, _what='RuntimeError for the error marker', _types=RuntimeError)
            return
        if c.get('nblocks', 4) < 4:
            must_raise(read, _what='an error for missing data blocks')
            return
        b, x, s, cov = call(read)
        rd = lambda v: [float(field(t)) for t in v]
        same(b, rd(c['bounds']), 'group bounds')
        same(x, rd(c['xsec']), 'cross sections')
        n = len(c['xsec'])
        same(cov, np.array(rd([v for r in c['cov'] for v in r])).reshape(n, n), 'covariance')
        close(s, np.array(rd(c['rel'])) * np.array(rd(c['xsec'])), 'standard deviation', rtol=1e-14)


def val(rng):
    k = rng.int(0, 9)
    if k == 0:
        return 0.0
    v = rng.uniform(1, 10) * 10.0 ** rng.int(-30, 20)
    if k == 1:
        v = rng.uniform(1, 10) * 10.0 ** rng.int(-98, 98)
    return float(v if rng.chance(.5) else -v)


def gen(rng, tier, n=None):
    n = n or (rng.int(30, 90) if deep(rng, tier) else rng.pick([1, 2, 3, 4, 7, 8, 9, 10, 16, 17, rng.int(1, 30)]))
    c = {'kind': 'ok', 'bounds': fl(np.sort(rng.uniform(1, 1e7, n + 1))[::-1]),
         'xsec': [abs(val(rng)) for _ in range(n)], 'rel': [abs(val(rng)) for _ in range(n)],
         'cov': [[val(rng) for _ in range(n)] for _ in range(n)],
         'per': [rng.pick([8, 8, 8, 1, 3, 5, 12]) for _ in range(4)], 'gap': [rng.int(0, 2) for _ in range(4)],
         'lead': rng.int(0, 5), 'indent': rng.int(0, 3), 'nonl': rng.chance(.3)}
    k = rng.int(0, 9)
    if k == 0:
        c.update(kind='marker', marker=rng.int(0, 40))
    elif k == 1:
        c.update(kind='short', nblocks=rng.int(0, 3))
    return c


def fixed(tier):
    rng = Rng(11)
    for n in list(range(1, 26)) + [44, 56, 101]:
        c = gen(rng, tier, n)
        c.update(kind='fixed')
        c.pop('marker', None), c.pop('nblocks', None)
        yield c
    for k in range(4):
        c = gen(rng, tier, 3)
        c.pop('marker', None)
        yield dict(c, kind='short', nblocks=k)
    for m in range(0, 12):
        c = gen(rng, tier, 2)
        c.pop('nblocks', None)
        yield dict(c, kind='marker', marker=m)
