"""Run-time side of the contracts: assertion helpers used by the executable
contracts in contracts/rt_cXX.py.  A contract is evaluated on the *real* code
imported from /repo; Violation means the real code broke the contract on this
input, Skip means the case could not be evaluated (outside the domain, or the
function the case needs is not there), everything else is an error of ours."""
import contextlib
import io
import os
import sys
import tempfile
import traceback
import warnings

import numpy as np


class Violation(Exception):
    pass


class Skip(Exception):
    pass


def expect(cond, msg, *args):
    if not cond:
        raise Violation(msg.format(*args) if args else msg)


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        yield


def call(fn, *a, **k):
    """Call real code; an exception is a violation of 'returns normally'."""
    try:
        with quiet():
            return fn(*a, **k)
    except (Skip, Violation, KeyboardInterrupt, TimeoutError):
        raise
    except MemoryError:
        raise Skip('memory')
    except (Exception, SystemExit) as e:
        raise Violation('%s raised %s: %s\n%s' % (getattr(fn, '__qualname__', fn), type(e).__name__, e,
                                                 ''.join(traceback.format_tb(e.__traceback__)[-3:])))


def must_raise(fn, *a, **k):
    what = k.pop('_what', 'an error')
    types = k.pop('_types', Exception)
    try:
        with quiet():
            r = fn(*a, **k)
    except TimeoutError:
        raise
    except types:
        return
    except Exception as e:
        raise Violation('%s raised %r instead of %s' % (getattr(fn, '__qualname__', fn), e, what))
    raise Violation('%s returned normally instead of raising %s' % (getattr(fn, '__qualname__', fn), what))


def need(obj, name):
    f = getattr(obj, name, None)
    if f is None:
        raise Skip('no %s' % name)
    return f


def close(got, want, what, rtol=1e-9, atol=0.0):
    got = np.asarray(got, dtype=float)
    want = np.asarray(want, dtype=float)
    if got.shape != want.shape:
        raise Violation('%s: shape %s instead of %s' % (what, got.shape, want.shape))
    ok = (np.isnan(got) & np.isnan(want)) | (got == want)
    with np.errstate(all='ignore'):
        ok |= np.abs(got - want) <= atol + rtol * np.abs(want)
    if not ok.all():
        i = np.argwhere(~ok)[0]
        raise Violation('%s: at %s got %r, expected %r' % (what, tuple(int(v) for v in i), float(got[tuple(i)]), float(want[tuple(i)])))


def same(got, want, what):
    """Bitwise equal values (NaN equal to NaN) and equal shape."""
    got = np.asarray(got)
    want = np.asarray(want)
    if got.shape != want.shape:
        raise Violation('%s: shape %s instead of %s' % (what, got.shape, want.shape))
    if got.dtype.kind in 'fiub' and want.dtype.kind in 'fiub':
        g, w = got.astype(float), want.astype(float)
        ok = (g == w) | (np.isnan(g) & np.isnan(w))
    else:
        ok = np.asarray(got == want)
    if not np.all(ok):
        i = np.argwhere(~np.atleast_1d(ok))[0]
        raise Violation('%s: changed/differs at %s (%r instead of %r)' % (
            what, tuple(int(v) for v in i), np.atleast_1d(got)[tuple(i)], np.atleast_1d(want)[tuple(i)]))


@contextlib.contextmanager
def scratch():
    with tempfile.TemporaryDirectory(prefix='vrt') as d:
        yield d


class Rng:
    """Seeded generator with shape helpers."""
    def __init__(self, seed):
        self.r = np.random.default_rng(seed)

    def __getattr__(self, k):
        return getattr(self.r, k)

    def pick(self, seq):
        return seq[int(self.r.integers(len(seq)))]

    def chance(self, p):
        return self.r.random() < p

    def int(self, lo, hi):
        return int(self.r.integers(lo, hi + 1))


def deep(rng, tier):
    """half of the cases of a deep search are larger than the usual ones"""
    return tier in ('deep', 'thorough') and rng.chance(.5)


def fl(x):
    return [float(v) for v in np.asarray(x).ravel()]


def mat(x):
    return [[float(v) for v in row] for row in np.asarray(x)]
