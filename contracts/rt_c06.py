import numpy as np
import pandas as pd
from contracts.stores import *
from contracts.sampling import corr_matrix
from ASAPy import XsecSampler as XS

THR = 1e-8


def run(c):
    S = np.array(c['corr'])
    g = len(S)
    b = np.array(c['bounds'])
    sd = std_frame(b, np.ones(g), np.full(g, .1))
    h = DictStore({key('1001', 102, '1001', 102, 'std_dev'): sd, key('1001', 102, '1001', 102, 'corr'): corr_frame(S * c['scale'])})
    if c.get('no_repair'):
        x = call(need(XS, 'XsecSampler'), h, '1001', 102, remove_negative_eig=False)
        close(x.corr_df.values, S, 'correlation without repair', rtol=1e-12, atol=1e-14)
        return
    x = call(need(XS, 'XsecSampler'), h, '1001', 102)
    got = np.asarray(x.corr_df.values, float)
    expect(list(x.corr_df.index) == list(range(1, g + 1)) and list(x.corr_df.columns) == list(range(1, g + 1)), 'labels changed')
    expect(got.shape == S.shape, 'shape {}', got.shape)
    pos = np.diag(S) > 0
    if not pos.any():
        same(got, S, 'all-zero correlation')
        return
    close(got, got.T, 'symmetry', rtol=0, atol=1e-9)
    out = ~np.outer(pos, pos)
    close(got[out], S[out], 'entries outside the block of present groups', rtol=1e-12, atol=1e-15)
    B, F = S[pos][:, pos], got[pos][:, pos]
    w, V = np.linalg.eigh(B)
    if (np.abs(w - THR) < 2e-9).any():
        raise Skip('eigenvalue on the threshold')
    bad = w <= THR
    if not bad.any():
        close(F, B, 'positive definite correlation', rtol=1e-12, atol=1e-14)
        return
    wf = np.linalg.eigvalsh((F + F.T) / 2)
    expect(wf[0] > 1e-11, 'eigenvalue {} after the repair is not positive', wf[0])
    T = V.T @ F @ V
    close(T[np.ix_(~bad, ~bad)], np.diag(w[~bad]), 'kept eigenvalues in their eigenvectors', rtol=1e-9, atol=1e-9)
    close(T[np.ix_(~bad, bad)], np.zeros(((~bad).sum(), bad.sum())), 'mixing of kept and raised eigenvectors', rtol=0, atol=1e-9)
    e = np.linalg.eigvalsh(T[np.ix_(bad, bad)])
    expect((e <= 1e-6).all(), 'a removed eigenvalue was raised to {}, not to a small number', e[-1])


def _case(rng, style, g):
    if style in ('indef', 'rand', 'ident', 'pos', 'neg', 'band'):
        S = corr_matrix(rng, g, style)
    elif style == 'lowrank':
        q = rng.normal(size=(g, max(1, g // 2)))
        S = q @ q.T
        d = np.sqrt(np.diag(S))
        S = S / d[:, None] / d[None, :]
    elif style == 'ones':
        S = np.ones((g, g))
    elif style == 'small':
        # tiny positive eigenvalue, on either side of the threshold
        q, _ = np.linalg.qr(rng.normal(size=(g, g)))
        w = rng.uniform(.3, 1.5, size=g)
        w[0] = rng.pick([1e-6, 1e-7, 3e-8, 1e-9, 1e-12, 1e-14, 4e-9])
        S = (q * w) @ q.T
    elif style == 'uneven':
        S = corr_matrix(rng, g)
        d = rng.uniform(.3, 1, size=g)
        S = S * d[:, None] * d[None, :]
    elif style == 'allzero':
        S = np.zeros((g, g))
    S = (S + S.T) / 2
    if style in ('lowrank', 'ones', 'indef'):
        S[np.arange(g), np.arange(g)] = 1
    if style not in ('allzero', 'small') and rng.chance(.5):
        z = rng.random(g) < rng.pick([.2, .5, .8])
        if rng.chance(.7):
            S[z, :] = 0
            S[:, z] = 0
        else:
            S[z, z] = 0
    m = np.diag(S).max()
    if m > 0:
        S = S / m
    return {'kind': style, 'corr': mat(S), 'scale': rng.pick([1.0, 1.0, 1000.0, .5]) if m > 0 else 1.0, 'bounds': fl(bounds(rng, g)),
            'no_repair': bool(rng.chance(.05))}


STY = ['indef', 'rand', 'ident', 'pos', 'neg', 'band', 'lowrank', 'ones', 'small', 'uneven', 'allzero']


def fixed(tier):
    rng = Rng(61)
    for g in (1, 2, 3, 4, 6, 9):
        for s in STY:
            for _ in range(3):
                yield _case(rng, s, g)
    for s in STY:
        yield _case(rng, s, 30)


def gen(rng, tier):
    return _case(rng, rng.pick(STY), rng.pick([16, 25, 44, 56] if deep(rng, tier) else [1, 2, 3, 4, 5, 6, 8, 12, 20]))
