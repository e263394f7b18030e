import numpy as np
import pandas as pd
from contracts.stores import *
from ASAPy import AsapyCovStorage as ST

DOC = COLS


def _mk(o):
    if o['what'] == 'corr':
        return pd.DataFrame(np.array(o['vals'], float).reshape(len(o['rows']), len(o['cols'])), index=o['rows'], columns=o['cols'])
    df = std_frame(list(range(len(o['hi']), -1, -1)), o['x'], o['x'])
    df['e high'] = np.array(o['hi'], float)
    df['e low'] = np.array(o['lo'], float)
    return df


def _ok(o):
    if o['what'] == 'corr':
        return o['rows'] == o['cols']
    return all(a > b for a, b in zip(o['hi'], o['hi'][1:])) and all(a > b for a, b in zip(o['lo'], o['lo'][1:]))


def _eq(a, b, what):
    expect(list(a.index) == list(b.index) and list(a.columns) == list(b.columns), '{}: labels changed', what)
    same(a.values.astype(float), b.values.astype(float), what)


def run(c):
    if c['kind'] == 'empty':
        n = c['n']
        d = call(need(ST, 'create_stddev_df'), n)
        expect(list(d.index) == list(range(1, n + 1)), 'groups {}', list(d.index))
        expect(list(d.columns) == DOC, 'columns {}', list(d.columns))
        d = call(need(ST, 'create_corr_df'), n)
        expect(list(d.index) == list(range(1, n + 1)) and list(d.columns) == list(range(1, n + 1)), 'groups of the correlation')
        return
    with scratch() as d, quiet():
        with pd.HDFStore(os.path.join(d, 's.h5'), 'w') as h:
            model = {}
            for o in c['ops']:
                df = _mk(o)
                ref = df.copy()
                f = need(ST, 'add_corr_to_store' if o['what'] == 'corr' else 'add_stddev_to_store')
                chk = need(ST, 'check_correlation_df' if o['what'] == 'corr' else 'check_stddev_df')
                k = key(*o['key'], 'corr' if o['what'] == 'corr' else 'std_dev')
                if _ok(o):
                    call(chk, df)
                    call(f, h, df, *o['key'])
                    model[k] = ref
                else:
                    must_raise(chk, df, _what='an error for %s' % o)
                    must_raise(f, h, df, *o['key'], _what='an error for %s' % o)
                _eq(df, ref, 'the table handed in')
                expect(set(x.strip('/') for x in h.keys()) == set(model), 'keys {} instead of {}', sorted(h.keys()), sorted(model))
                for kk, v in model.items():
                    _eq(h[kk], v, 'stored %s' % kk)


def _op(rng, keys, big=False):
    g = rng.pick([12, 33, 80, 260] if big else [1, 2, 3, 4, 6])
    o = {'what': rng.pick(['corr', 'std']), 'key': list(rng.pick(keys))}
    if o['what'] == 'corr':
        rows = list(range(1, g + 1))
        cols = list(rows)
        r = rng.random()
        if r < .15:
            cols[rng.int(0, g - 1)] += rng.pick([1, 10, -1]) * (g + 1)
        elif r < .25 and g > 1:
            i = rng.int(0, g - 2)
            cols[i], cols[i + 1] = cols[i + 1], cols[i]
        elif r < .35:
            cols = cols + [g + 1]
        elif r < .45 and g > 1:
            cols = cols[:-1]
        elif r < .5:
            rows = [v + 1 for v in rows]
        elif r < .55:
            rows = [v + 3 for v in rows]
            cols = list(rows)
        o.update(rows=rows, cols=cols, vals=fl(rng.normal(size=(len(rows), len(cols)))))
    else:
        hi = [float(v) for v in range(2 * g, 0, -2)]
        lo = [v - 2 for v in hi]
        r = rng.random()
        if r < .5 and g > 1:
            t = rng.pick([hi, lo])
            i = rng.int(0, g - 2)
            t[i] = rng.pick([t[i + 1], t[i + 1] - 1, float('nan'), np.nextafter(t[i + 1], 0)])
            if rng.chance(.3):
                t[i + 1] = float('nan')
        elif r < .6 and g > 1:
            hi, lo = hi[::-1], lo[::-1]
        elif r < .7 and g > 2:
            j = rng.int(1, g - 1)
            hi[j] = hi[0] + 1
        o.update(hi=[float(v) for v in hi], lo=[float(v) for v in lo], x=fl(rng.uniform(0, 1, g)))
    return o


def _case(rng, big=False):
    keys = [(z1, m1, z2, m2) for z1 in (92235, 1001) for m1 in (102, 18) for z2 in (92235, 1001) for m2 in (102, 18)]
    rng.shuffle(keys)
    keys = keys[:rng.int(1, 4)]
    return {'kind': 'history', 'ops': [_op(rng, keys, big) for _ in range(rng.int(1, 5))]}


def fixed(tier):
    for n in (1, 2, 3, 7, 44, 250):
        yield {'kind': 'empty', 'n': n}
    rng = Rng(101)
    for _ in range(8):
        yield _case(rng, True)
    # one violation anywhere in a long structure
    for g in (44, 252):
        for i in (0, 1, g // 2, g - 3, g - 2):
            for which in ('hi', 'lo'):
                hi = [float(v) for v in range(2 * g, 0, -2)]
                lo = [v - 2 for v in hi]
                t = hi if which == 'hi' else lo
                t[i] = t[i + 1]
                yield {'kind': 'history', 'ops': [{'what': 'std', 'key': [1001, 102, 1001, 102], 'hi': hi, 'lo': lo, 'x': [1.0] * g}]}
    # a violation at every single position
    for g in range(2, 7):
        for which in ('hi', 'lo'):
            for i in range(g - 1):
                for bad in ('eq', 'up', 'nan'):
                    hi = [float(v) for v in range(2 * g, 0, -2)]
                    lo = [v - 2 for v in hi]
                    t = hi if which == 'hi' else lo
                    t[i] = {'eq': t[i + 1], 'up': t[i + 1] - .5, 'nan': float('nan')}[bad]
                    yield {'kind': 'history', 'ops': [{'what': 'std', 'key': [1001, 102, 1001, 102], 'hi': hi, 'lo': lo, 'x': [1.0] * g}]}
        for i in range(g):
            rows = list(range(1, g + 1))
            cols = list(rows)
            cols[i] = 77
            yield {'kind': 'history', 'ops': [{'what': 'corr', 'key': [1001, 102, 1001, 102], 'rows': rows, 'cols': cols, 'vals': [0.5] * (g * g)}]}


def gen(rng, tier):
    return _case(rng, deep(rng, tier))
