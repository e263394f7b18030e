"""Covariance store stand-ins and generators (C06, C07, C08, C17)."""
import os
import numpy as np
import pandas as pd
from harness.rt import *

COLS = ['e low', 'e high', 'x-sec(1)', 'x-sec(2)', 'rel.s.d.(1)', 'rel.s.d(2)', 's.d.(1)', 's.d(2)']


class DictStore:
    """Read-only store: every read returns a fresh copy, like a file would."""
    def __init__(self, frames):
        self.frames = {k.strip('/'): v for k, v in frames.items()}
        self.reads = []

    def __getitem__(self, key):
        self.reads.append(key.strip('/'))
        return self.frames[key.strip('/')].copy()

    def get(self, key):
        return self[key]

    def select(self, key):
        return self[key]

    def __contains__(self, key):
        return key.strip('/') in self.frames

    def keys(self):
        return ['/' + k for k in self.frames]

    def __iter__(self):
        return iter(self.keys())


def std_frame(bounds, xsec, std, swapped=False, extra=None):
    g = len(xsec)
    idx = pd.Index(list(range(1, g + 1)), name='groups')
    df = pd.DataFrame(index=idx, columns=COLS, dtype=float)
    bounds = np.asarray(bounds, float)
    hi, lo = bounds[:-1], bounds[1:]
    if swapped:
        hi, lo = lo, hi
    df['e high'] = hi
    df['e low'] = lo
    x, s = np.asarray(xsec, float), np.asarray(std, float)
    df['x-sec(1)'] = x
    df['x-sec(2)'] = x * 1.5
    with np.errstate(all='ignore'):
        df['rel.s.d.(1)'] = s / x
    df['rel.s.d(2)'] = 0.25
    df['s.d.(1)'] = s
    df['s.d(2)'] = s * 2
    return df


def corr_frame(m):
    g = len(m)
    return pd.DataFrame(np.array(m, float), index=pd.Index(list(range(1, g + 1))), columns=list(range(1, g + 1)))


def key(z1, m1, z2, m2, what):
    return '%s/%s/%s/%s/%s' % (z1, m1, z2, m2, what)


def bounds(rng, g):
    b = np.sort(10.0 ** rng.uniform(-3, 7, size=g + 1))[::-1].copy()
    for i in range(1, g + 1):
        if b[i] >= b[i - 1]:
            b[i] = b[i - 1] * .5
    return b
