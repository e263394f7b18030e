"""Shared pieces of the sampling contracts (C03, C04, C05, C08)."""
import numpy as np
from scipy.stats import norm
from harness.rt import *
from ASAPy import CovManipulation as CM


def corr_matrix(rng, n, style=None):
    style = style or rng.pick(['rand', 'ident', 'pos', 'neg', 'band', 'indef'])
    if style == 'ident':
        return np.eye(n)
    if style == 'pos':
        r = rng.pick([.2, .5, .9])
        return r * np.ones((n, n)) + (1 - r) * np.eye(n)
    if style == 'neg':
        r = -.8 / max(1, n - 1)
        return r * np.ones((n, n)) + (1 - r) * np.eye(n)
    if style == 'band':
        r = rng.pick([.3, -.4, .48])
        return np.eye(n) + r * (np.eye(n, k=1) + np.eye(n, k=-1))
    if style == 'indef':
        a = rng.uniform(-.95, .95, size=(n, n))
        a = np.triu(a, 1)
        return a + a.T + np.eye(n)
    q = rng.normal(size=(n, n + 2))
    a = q @ q.T
    d = np.sqrt(np.diag(a))
    a = a / d[:, None] / d[None, :]
    a = (a + a.T) / 2
    a[np.arange(n), np.arange(n)] = 1
    return a


def strata(u, n, what, tol):
    u = np.sort(np.asarray(u, float))
    expect(np.isfinite(u).all(), '{}: non finite quantile', what)
    k = np.arange(n)
    bad = (u < k / n - tol) | (u > (k + 1) / n + tol)
    if bad.any():
        i = int(np.argwhere(bad)[0][0])
        raise Violation('%s: the value of rank %d of %d has quantile %.17g, outside its stratum [%g, %g]' % (what, i, n, u[i], i / n, (i + 1) / n))


def lognormal_corr(mean, std, corr):
    v = np.log(std ** 2 / mean ** 2 + 1)
    s = np.sqrt(np.outer(v, v))
    return np.outer(mean / std, mean / std) * (np.exp(corr * s) - 1)


def marginal(col, mean, std, distro, n, what):
    if distro == 'normal':
        z = (col - mean) / std
        err = 4e-16 * (abs(mean) / std + 1)
    else:
        expect((col > 0).all() and np.isfinite(col).all(), '{}: log-normal sample not positive and finite', what)
        sig = np.sqrt(np.log1p(std ** 2 / mean ** 2))
        mu = np.log(mean) - 0.5 * np.log1p(std ** 2 / mean ** 2)
        z = (np.log(col) - mu) / sig
        # the code computes 1 + (std/mean)**2 in floating point
        err = 1e-15 * (abs(mu) + 1) / sig + 4e-16 / sig ** 2 * (np.abs(z).max() + 1)
    strata(norm.cdf(z), n, what, 1e-9 + 10 * err)
