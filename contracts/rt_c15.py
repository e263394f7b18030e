from contracts.acetab import *


def _exp(want, pdf):
    new = {}
    for i, q in enumerate(pdf):
        x, p, c = want[('v', 'chi', 'eout', i)], want[('v', 'chi', 'p', i)], want[('v', 'chi', 'c', i)]
        d = (q - p) * np.append(0.0, np.diff(x))
        norm = c[-1] + d.sum()
        new[i] = ((c + np.cumsum(d)) / norm, q / norm, norm)
    return new


def run(c):
    with scratch() as d:
        p = os.path.join(d, 'a.ace')
        ace.write(p, c['spec'])
        ed = load(p)
        want = state(ed)
        mt = c.get('mt', 18)
        if mt == 18 and 452 not in ed.all_mts:
            raise Skip('no fission')
        k = len(c['spec']['chi'])
        for o in c['ops']:
            if o['op'] == 'same':
                pdf = [want[('v', 'chi', 'p', i)].copy() for i in range(k)]
            else:
                pdf = []
                for i in range(k):
                    pv = want[('v', 'chi', 'p', i)]
                    f = np.array([o['f'][(i + j) % len(o['f'])] for j in range(len(pv))])
                    pdf.append(pv * f if o.get('scaled', True) else f * 1e-6)
            if o['op'] == 'bad':
                if o['how'] == 'count':
                    pdf = pdf + [pdf[0].copy()] if o['d'] > 0 else pdf[:-1]
                else:
                    i = o['which'] % k
                    pdf[i] = np.append(pdf[i], pdf[i][-1]) if o['d'] > 0 else pdf[i][:-1]
                    if o['d'] == 7:
                        pdf[i] = pdf[i][:1]
                        if len(want[('v', 'chi', 'p', i)]) == 1:
                            continue
                must_raise(ed.set_sigma if o.get('via') else ed.set_chi_distro, *(([1018] if o.get('via') else []) + [pdf]), _what='an error for a density list of wrong size')
                compare(state(ed), want, 'after a rejected spectrum')
                continue
            new = _exp(want, pdf)
            if any(not (v[2] > 0.05) for v in new.values()):
                raise Skip('no positive normalisation')
            keep = [q.copy() for q in pdf]
            if o.get('via'):
                call(ed.set_sigma, 1018, pdf)
                expect(1018 in ed.adjusted_mts, 'spectrum not reported as adjusted')
            else:
                call(ed.set_chi_distro, pdf)
            for q, r in zip(pdf, keep):
                same(q, r, 'the densities handed in')
            for i in range(k):
                want[('v', 'chi', 'c', i)], want[('v', 'chi', 'p', i)] = new[i][0], new[i][1]
            got = state(ed)
            for kk in want:
                if kk[:2] == ('v', 'chi') and kk[2] in ('p', 'c'):
                    close(got[kk], want[kk], 'after %s: %s' % (o['op'], kk), rtol=1e-9, atol=1e-12 * np.abs(want[kk]).max())
                else:
                    same(got[kk], want[kk], 'after %s: %s' % (o['op'], kk))
            for i in range(k):
                expect(abs(got[('v', 'chi', 'c', i)][-1] - 1) < 1e-12, 'the cumulative distribution {} ends at {}', i, got[('v', 'chi', 'c', i)][-1])
                if o['op'] == 'same' and abs(want[('v', 'chi', 'c', i)][-1] - 1) < 1e-15:
                    pass
            want = got


_run = run


def run(c):
    if c['kind'] != 'proof':
        return _run(c)
    rng = Rng(15)
    spec = ace.random_spec(rng, [18, 102], n=5)
    spec['chi'] = [{'ein': 1e-6 * (j + 1), 'eout': q['x'], 'p': q['p'], 'c': q['c']} for j, q in enumerate(c['chi'])]
    with scratch() as d:
        p = os.path.join(d, 'a.ace')
        ace.write(p, spec)
        ed = load(p)
    want = state(ed)
    k = len(c['chi'])
    pdf = [np.array(q['q']) * 1e-6 for q in c['chi']]
    arg = (pdf + [pdf[0]])[:k + c.get('extra', 0)] if c.get('extra', 0) > 0 else pdf[:k + c.get('extra', 0)]
    go = (lambda: ed.set_sigma(1018, arg)) if c.get('via') else (lambda: ed.set_chi_distro(arg))
    if len(arg) != k or any(len(pdf[i]) != len(want[('v', 'chi', 'p', i)]) for i in range(k)):
        must_raise(go, _what='an error for a density list of wrong size')
        compare(state(ed), want, 'after a rejected spectrum')
        return
    new = _exp(want, pdf)
    if any(not v[2] > .05 for v in new.values()):
        raise Skip('no positive normalisation')
    call(go)
    for i in range(k):
        want[('v', 'chi', 'c', i)], want[('v', 'chi', 'p', i)] = new[i][0], new[i][1]
    got = state(ed)
    for kk in want:
        if kk[:2] == ('v', 'chi') and kk[2] in ('p', 'c'):
            close(got[kk], want[kk], 'after set: %s' % (kk,), rtol=1e-9, atol=1e-12 * np.abs(want[kk]).max())
        else:
            same(got[kk], want[kk], 'after set: %s' % (kk,))


def _case(rng, big=False):
    mts = sorted(set([18, 102] + (pick_mts(rng) if rng.chance(.3) else [])))
    spec = ace.random_spec(rng, mts)
    chi = []
    E = spec['energy']
    m = rng.int(5, 20) if big else rng.int(1, 4)
    for ein in ace.r11(np.linspace(E[0], E[-1], m)):
        k = rng.pick([25, 60, 120] if big else [2, 3, 4, 6, 10])
        eo = ace.r11(np.sort(np.append(rng.pick([0.0, 1e-11, .5]), rng.uniform(.6, 20, k - 1))))
        pv = rng.uniform(.05, 1, k)
        st = rng.pick(['riemann', 'riemann', 'trapez'])
        inc = pv[1:] * np.diff(eo) if st == 'riemann' else (pv[1:] + pv[:-1]) / 2 * np.diff(eo)
        cc = np.append(0.0, np.cumsum(inc))
        s = cc[-1] * rng.pick([1, 1, 1.001])
        chi.append({'ein': float(ein), 'eout': eo.tolist(), 'p': ace.r11(pv / s).tolist(), 'c': ace.r11(cc / s).tolist()})
    spec['chi'] = chi
    ops = []
    for _ in range(rng.int(1, 4)):
        k = rng.pick(['set', 'set', 'set', 'same', 'bad'])
        o = {'op': k, 'via': bool(rng.chance(.5)), 'f': fl(rng.uniform(.3, 2.5, rng.int(1, 6)))}
        if k == 'set' and rng.chance(.2):
            o['scaled'] = False
        if k == 'bad':
            o.update(how=rng.pick(['count', 'size', 'size']), which=rng.int(0, 5), d=rng.pick([1, -1, 7]))
        ops.append(o)
    return {'kind': 'chi', 'spec': spec, 'ops': ops}


def fixed(tier):
    rng = Rng(151)
    for _ in range(40):
        yield _case(rng)
    for _ in range(6):
        yield _case(rng, True)


def gen(rng, tier):
    return _case(rng, deep(rng, tier))
