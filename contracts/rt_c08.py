import numpy as np
import pandas as pd
from contracts.stores import *
from contracts.sampling import corr_matrix
from ASAPy import XsecSampler as XS


def stub(c):
    """sampling with the sampled values given: the correlated sampler is replaced by its contract"""
    A = np.array(c['samples'], float).reshape(-1, len(c['xsec']))          # samples x groups
    n, g = A.shape
    mean = np.array(c['xsec'], float)
    sd = std_frame(np.arange(g + 1)[::-1] + 1.0, mean, np.ones(g))
    h = DictStore({key('1001', 102, '1001', 102, 'std_dev'): sd, key('1001', 102, '1001', 102, 'corr'): corr_frame(np.eye(g))})
    hits = []

    def fake(m, s, r, k, *a, **kw):
        hits.append(np.array(m, float))
        return A.copy()
    cm = XS.CovManipulation
    old = need(cm, 'sample_with_corr')
    cm.sample_with_corr = fake
    try:
        div = np.where(mean == 0, 1, mean)
        for rel in (False, True):
            ref = (A / div).T if rel else A.T
            for rn in (False, True):
                for z in (False, True):
                    s = call(need(XS, 'XsecSampler'), h, '1001', 102)
                    keep = ~(ref < 0).any(axis=0) if rn else np.ones(n, bool)
                    want = ref[:, keep]
                    if z:
                        want = np.where(want < 0, 0, want)
                    hits.clear()
                    r = call(s.sample, c['type'], n, return_relative=rel, remove_neg=rn, set_neg_to_zero=z)
                    if len(hits) != 1:
                        raise Skip('the correlated sampler is not called through its module')
                    expect(list(r.index) == list(range(1, g + 1)), 'rows {}', list(r.index))
                    expect(list(r.columns) == list(range(int(keep.sum()))), 'columns {} for {} kept samples', list(r.columns), int(keep.sum()))
                    close(r.values, want, 'samples (relative=%s, remove_neg=%s, set_neg_to_zero=%s)' % (rel, rn, z), rtol=1e-12)
                    same(s.std_dev_df['x-sec(1)'].values, mean, 'group means after sampling')
        for rn in (False, True):
            keep = ~(A < 0).any(axis=1) if rn else np.ones(n, bool)
            r, f = call(need(XS, 'sample_xsec'), h, 102, '1001', n, sample_type=c['type'], remove_neg=rn)
            for df, want, what in ((f, A[keep].T, 'full'), (r, (A[keep] / div).T, 'relative')):
                expect(list(df.index) == list(range(1, g + 1)) and list(df.columns) == list(range(int(keep.sum()))), 'sample_xsec {} table labels {} {}', what, list(df.index), list(df.columns))
                close(df.values, want, 'sample_xsec %s values (remove_neg=%s)' % (what, rn), rtol=1e-12)
    finally:
        cm.sample_with_corr = old


def run(c):
    if c['kind'] == 'stub':
        return stub(c)
    g, n, st = len(c['xsec']), c['n'], c['type']
    sd = std_frame(c['bounds'], c['xsec'], c['std'])
    h = DictStore({key('1001', 102, '1001', 102, 'std_dev'): sd, key('1001', 102, '1001', 102, 'corr'): corr_frame(c['corr'])})
    mean = np.array(c['xsec'])

    def sampler():
        return call(need(XS, 'XsecSampler'), h, '1001', 102)

    def draw(**kw):
        s = sampler()
        np.random.seed(c['npseed'])
        r = call(s.sample, st, n, **kw)
        same(s.std_dev_df['x-sec(1)'].values, mean, 'group means after sampling')
        expect(r.shape[0] == g and list(r.index) == list(range(1, g + 1)), 'rows {} for {} groups ({})', list(r.index), g, kw)
        expect(list(r.columns) == list(range(r.shape[1])), 'columns {} ({})', list(r.columns), kw)
        return np.asarray(r.values, float)

    A = draw(return_relative=False, remove_neg=False)
    expect(A.shape == (g, n), 'absolute samples {} instead of {}', A.shape, (g, n))
    expect(np.isfinite(A).all(), 'non finite sample')
    div = np.where(mean == 0, 1, mean)
    R = A / div[:, None]
    close(draw(return_relative=True, remove_neg=False), R, 'relative samples', rtol=1e-12)
    keepA = ~(A < 0).any(axis=0)
    keepR = ~(R < 0).any(axis=0)
    close(draw(return_relative=False, remove_neg=True), A[:, keepA], 'absolute samples after removing negative ones', rtol=1e-12)
    close(draw(return_relative=True, remove_neg=True), R[:, keepR], 'relative samples after removing negative ones', rtol=1e-12)
    clip = A.copy()
    clip[clip < 0] = 0
    close(draw(return_relative=False, remove_neg=False, set_neg_to_zero=True), clip, 'clipped absolute samples', rtol=1e-12)
    clip = R.copy()
    clip[clip < 0] = 0
    close(draw(return_relative=True, remove_neg=False, set_neg_to_zero=True), clip, 'clipped relative samples', rtol=1e-12)
    s = sampler()
    np.random.seed(c['npseed'])
    if keepR.all():
        call(s.sample, st, n, raise_on_bad_sample=True)
    else:
        must_raise(s.sample, st, n, raise_on_bad_sample=True, _what='an error for negative samples')
    for rn in (False, True):
        np.random.seed(c['npseed'])
        rel, full = call(need(XS, 'sample_xsec'), h, 102, '1001', n, sample_type=st, remove_neg=rn)
        k = keepA if rn else np.ones(n, bool)
        for df, want, what in ((full, A[:, k], 'full'), (rel, R[:, k], 'relative')):
            expect(list(df.index) == list(range(1, g + 1)) and list(df.columns) == list(range(int(k.sum()))),
                   'sample_xsec {} table labels {} {}', what, list(df.index), list(df.columns))
            close(df.values, want, 'sample_xsec %s values (remove_neg=%s)' % (what, rn), rtol=1e-12)


def _case(rng, st=None, big=False):
    st = st or rng.pick(['normal', 'lognormal', 'uncorrelated', 'uniform', 'loguncorrelated', 'Normal', 'LogNormal'])
    g = rng.pick([30, 44, 60] if big else [1, 2, 3, 4, 5, 7, 8, 10, 13, 20])
    n = rng.pick([1, 3, 30, 130] if big else [1, 2, 3, 5, 10, 25, 40])
    mean = rng.uniform(.2, 4, g)
    std = mean * rng.pick([rng.uniform(.01, .2, g), rng.uniform(.2, 1.2, g), rng.uniform(.01, .8, g)])
    if rng.chance(.5):
        for j in range(g):
            if rng.chance(.4):
                mean[j] = 0
                std[j] = rng.pick([0.0, 1e-7, .3])
    if rng.chance(.3):
        std[rng.int(0, g - 1)] = 0
    S = corr_matrix(rng, g)
    if rng.chance(.2):
        j = rng.int(0, g - 1)
        S[j, :] = 0
        S[:, j] = 0
        if not S.any():
            S[j, j] = 1.0
    return {'kind': st.lower(), 'type': st, 'n': n, 'xsec': fl(mean), 'std': fl(std), 'corr': mat(S), 'bounds': fl(bounds(rng, g)),
            'npseed': rng.int(0, 2**31 - 1)}


def _stub_case(rng, big=False):
    g, n = (rng.pick([5, 40, 140]), rng.pick([7, 30, 300])) if big else (rng.pick([1, 2, 3, 5]), rng.pick([1, 2, 3, 4, 7]))
    mean = [rng.pick([0.0, 1.0, 2.5, -1.0, -0.5, 1e-9, 3e5]) for _ in range(g)]
    A = [[rng.pick([0.0, -0.0, 1.0, 2.0, -1.0, -1e-12, 5e-324, -2.0, 0.5]) if rng.chance(.5) else float(rng.normal()) + 1.5 for _ in range(g)] for _ in range(n)]
    return {'kind': 'stub', 'type': rng.pick(['normal', 'lognormal', 'uncorrelated', 'uniform', 'loguncorrelated', 'LogNormal']), 'xsec': mean, 'samples': A}


def fixed(tier):
    rng = Rng(81)
    for st in ('normal', 'lognormal', 'uncorrelated', 'uniform', 'loguncorrelated'):
        for _ in range(8):
            yield _case(rng, st)
        yield _case(rng, st, True)
    for _ in range(6):
        yield _stub_case(rng, True)


def gen(rng, tier):
    big = deep(rng, tier)
    if rng.chance(.5):
        return _stub_case(rng, big)
    return _case(rng, big=big)
