"""Reference model of the reaction sums on a synthetic ACE table (C13-C17)."""
import os
import numpy as np
from harness import ace
from harness.rt import *
from ASAPy import AceIO

SUMS = {
    107: list(range(800, 850)), 106: list(range(750, 800)), 105: list(range(700, 750)), 104: list(range(650, 700)),
    103: list(range(600, 650)),
    101: list(range(102, 110)) + list(range(111, 118)) + [155, 182, 191, 192, 193, 197],
    18: [19, 20, 21, 38], 27: [18, 101], 16: list(range(875, 892)), 4: list(range(50, 92)),
    3: [4, 5, 11, 16, 17] + list(range(22, 38)) + [41, 42, 44, 45, 152, 153, 154] + list(range(156, 182)) + list(range(183, 191)) +
       [194, 195, 196, 198, 199, 200],
    1: [2, 3],
}
# MT 3 (non-elastic) holds 27 (absorption) through the range 22-37
ORDER = [107, 106, 105, 104, 103, 101, 18, 27, 16, 4, 3, 1]


def expand(mts, present):
    S = SUMS
    out = []
    for m in mts:
        if m in S and m not in present:
            out += expand(S[m], present)
        elif m in present:
            out.append(m)
    return out


def apply(vals, orig, grids, adjusted):
    """vals/orig: mt -> array on grids[mt] (energies); returns new vals after the sum rules."""
    present = set(vals)
    vals = {k: v.copy() for k, v in vals.items()}
    adjusted = set(adjusted)
    S = SUMS
    for s in ORDER:
        if s not in present:
            continue
        kids = [m for m in expand(S[s], present) if m in adjusted]
        if not kids:
            continue
        assert len(kids) == len(set(kids))
        new = orig[s].copy()
        for m in kids:
            d = dict(zip(grids[m].tolist(), (vals[m] - orig[m]).tolist()))
            new += np.array([d.get(e, 0.0) for e in grids[s].tolist()])
        vals[s] = new
        adjusted.add(s)
    return vals, adjusted


LEVELS = [600, 601, 649, 650, 700, 750, 800, 849]
POOL = [18, 102, 51, 52, 91, 600, 601, 16, 17, 22, 28, 103, 107, 5, 11, 37, 41, 45, 4, 27, 3, 19, 20, 38, 875, 876, 891, 108, 111, 117,
        155, 182, 197, 649, 650, 699, 700, 750, 799, 800, 849, 104, 105, 106, 152, 160, 181, 190, 200, 36, 90, 109, 112, 191]


def pick_mts(rng, k=None):
    k = k if k is not None else rng.pick([0, 1, 2, 4, 7, 12, 20])
    pool = list(POOL)
    rng.shuffle(pool)
    mts = pool[:k]
    if rng.chance(.5) and 18 not in mts:
        mts.append(18)
    if rng.chance(.6) and 102 not in mts:
        mts.append(102)
    if rng.chance(.4):
        mts += [m for m in (51, 52, 600, 601, 800) if m not in mts]
    if 19 in mts and 18 not in mts:
        # a fission table always has the yield for the reaction that uses it
        pass
    return sorted(set(int(m) for m in mts))


def load(path):
    return call(need(AceIO, 'AceEditor'), path)


def state(ed):
    """Everything observable of an editor: energies and values per reaction, yields and spectra."""
    out = {}
    for mt in ed.all_mts:
        if mt in (452, 1018):
            continue
        out[('e', mt)] = np.array(call(ed.get_energy, mt))
        out[('v', mt)] = np.array(call(ed.get_sigma, mt))
        out[('u', mt)] = np.array(call(ed.get_sigma, mt, unadjusted=True))
    if 18 in ed.all_mts:
        e, v = call(ed.get_nu_distro)
        out[('e', 452)], out[('v', 452)] = np.array(e), np.array(v)
        out[('u', 452)] = np.array(call(ed.get_nu_distro, unadjusted=True)[1])
        for tag, un in (('v', False), ('u', True)):
            ei, eo, p, c = call(ed.get_chi_distro, unadjusted=un)
            out[(tag, 'chi', 'ein')] = np.array(ei)
            for i in range(len(eo)):
                out[(tag, 'chi', 'eout', i)] = np.array(eo[i])
                out[(tag, 'chi', 'p', i)] = np.array(p[i])
                out[(tag, 'chi', 'c', i)] = np.array(c[i])
    return out


def compare(got, want, what, exact=True):
    expect(set(got) == set(want), '{}: reactions/tables {} instead of {}', what, sorted(map(str, set(got) ^ set(want))), '')
    for k in want:
        if exact:
            same(got[k], want[k], '%s %s' % (what, k))
        else:
            close(got[k], want[k], '%s %s' % (what, k), rtol=1e-9, atol=1e-12 * (np.abs(want[k]).max() if len(want[k]) else 0) + 1e-300)
