import numpy as np
import pandas as pd
from contracts.stores import *
from contracts.sampling import corr_matrix
from ASAPy import XsecSampler as XS


def table(k, swapped):
    if 'cols' not in k:
        return std_frame(k['bounds'], k['xsec'], k['std'], swapped)
    df = std_frame(np.arange(len(k['xsec']) + 1)[::-1], k['xsec'], k['std'])
    for col, v in k['cols'].items():
        df[col] = np.array(v, float)
    if not swapped and (df['e low'] > df['e high']).any():
        df['e low'], df['e high'] = df['e high'].copy(), df['e low'].copy()
    return df


def run(c):
    frames = {}
    for k in c['entries']:
        if 'cols' in k:
            lo, hi = np.array(k['cols']['e low']), np.array(k['cols']['e high'])
            if not ((lo < hi).all() or (lo > hi).all()):
                raise Skip("bounds neither all ascending nor all reversed")
            k['swapped'] = bool((lo > hi).all())
    for k in c['entries']:
        z = k['key']
        frames[key(*z, 'std_dev')] = table(k, k.get('swapped'))
        frames[key(*z, 'corr')] = corr_frame(np.array(k['corr']) * k['scale'])
    a = c['ask']
    want = next(k for k in c['entries'] if [str(v) for v in k['key']] == [str(v) for v in
                ([a[0], a[1]] + [a[2] if a[2] is not None else a[0], a[3] if a[3] is not None else a[1]])])
    X = need(XS, 'XsecSampler')
    with scratch() as d:
        if c['real']:
            p = os.path.join(d, 's.h5')
            with pd.HDFStore(p, 'w') as h, quiet():
                for k, v in frames.items():
                    h.put(k, v)
            before = open(p, 'rb').read()
            h = pd.HDFStore(p, 'r')
        else:
            h = DictStore(frames)
        try:
            args = [h, a[0], a[1]]
            kw = {}
            if a[2] is not None:
                kw['zaid_2'] = a[2]
            if a[3] is not None:
                kw['mt_2'] = a[3]
            sd, corr = call(need(X, 'load_zaid_mt'), *args, **kw)
            sampler = call(X, *args, remove_negative_eig=False, **kw)
        finally:
            if c['real']:
                h.close()
        if c['real']:
            expect(open(p, 'rb').read() == before, 'the store was modified')
    g = len(want['xsec'])
    ref = table(want, False)
    for col in COLS:
        same(sd[col].values, ref[col].values, 'column %r' % col)
    expect(list(sd.columns) == COLS and list(sd.index) == list(range(1, g + 1)), 'labels of the deviation table')
    expect((sd['e low'].values < sd['e high'].values).all(), 'lower bound not below upper bound')
    S = np.array(want['corr'])
    raw = S * want['scale']
    m = np.diag(raw).max()
    exp = raw / m if m > 0 else raw
    close(corr.values, exp, 'correlation', rtol=1e-13, atol=0)
    if m > 0:
        expect(abs(np.diag(corr.values).max() - 1) < 1e-12, 'largest diagonal element is not one')
    expect(list(corr.columns) == list(range(1, g + 1)) and list(corr.index) == list(range(1, g + 1)), 'labels of the correlation')
    # derived covariance
    same(sampler.std_dev_df['s.d.(1)'].values, ref['s.d.(1)'].values, 'deviations of the sampler')
    close(sampler.corr_df.values, exp, 'correlation of the sampler', rtol=1e-13)
    cov = call(sampler.calc_cov)
    s = np.array(want['std'])
    full = exp * s[:, None] * s[None, :]
    chk = ~np.eye(g, dtype=bool) | (np.diag(exp) == 1)[:, None]
    close(np.asarray(cov.values, float)[chk], full[chk], 'derived covariance', rtol=1e-12, atol=1e-300)
    expect(list(cov.columns) == list(corr.columns) and list(cov.index) == list(corr.index), 'labels of the covariance')
    same(sampler.std_dev_df['s.d.(1)'].values, ref['s.d.(1)'].values, 'deviations after deriving the covariance')
    close(sampler.corr_df.values, exp, 'correlation after deriving the covariance', rtol=1e-13)


def _case(rng, real=None, big=False):
    zs = rng.pick([[92235, 92238], ['1001', '1002'], [94239, 1001]])
    ms = rng.pick([[102, 18], [2, 1018], [1, 102], [452, 4]])
    keys = [(z1, m1, z2, m2) for z1 in zs for m1 in ms for z2 in zs for m2 in ms]
    rng.shuffle(keys)
    keys = keys[:rng.int(1, 6)]
    i = rng.int(0, len(keys) - 1)
    if rng.chance(.6):
        keys[i] = (keys[i][0], keys[i][1], keys[i][0], keys[i][1])
        keys = [k for n, k in enumerate(keys) if n == i or k != keys[i]]
        i = keys.index((keys[i] if i < len(keys) else keys[-1])) if False else None
    keys = list(dict.fromkeys(keys))
    askk = rng.pick([k for k in keys if k[0] == k[2] and k[1] == k[3]] or keys)
    if rng.chance(.4):
        askk = rng.pick(keys)
    ask = list(askk)
    if ask[2] == ask[0] and rng.chance(.6):
        ask[2] = None
    if ask[3] == ask[1] and rng.chance(.6):
        ask[3] = None
    if rng.chance(.2):
        ask = [None if v is None else str(v) for v in ask]
    entries = []
    for k in keys:
        g = rng.pick([8, 15, 30]) if big else rng.pick([1, 2, 3, 4, 6])
        S = corr_matrix(rng, g)
        if rng.chance(.3):
            j = rng.int(0, g - 1)
            S[j, :] = 0
            S[:, j] = 0
        if rng.chance(.2):
            dd = rng.uniform(.5, 1, size=g)
            S = S * dd[:, None] * dd[None, :]
        if rng.chance(.05):
            S = S * 0
        entries.append({'key': list(k), 'bounds': fl(bounds(rng, g)), 'xsec': fl(rng.uniform(0, 5, g)), 'std': fl(rng.uniform(0, 2, g)),
                        'swapped': bool(rng.chance(.4)), 'corr': mat(S), 'scale': rng.pick([1.0, 1000.0, .5, 1e-3, 3.7])})
    return {'kind': 'hdf' if real else 'dict', 'entries': entries, 'ask': ask, 'real': bool(real)}


def fixed(tier):
    rng = Rng(71)
    for _ in range(10):
        yield _case(rng, True)
    for _ in range(60):
        yield _case(rng, False)
    for _ in range(6):
        yield _case(rng, False, big=True)


def gen(rng, tier):
    return _case(rng, rng.chance(.1), big=deep(rng, tier))
