from contracts.acetab import *


def run(c):
    with scratch() as d:
        p = os.path.join(d, 'a.ace')
        ace.write(p, c['spec'])
        raw = open(p, 'rb').read()
        ed = load(p)
        temp = getattr(ed, 'temperature', None)
        if c.get('temp') == 'float' and temp:
            ed = call(need(AceIO, 'AceEditor'), p, int(temp[:-1]))
        elif c.get('temp') == 'str' and temp:
            ed = call(need(AceIO, 'AceEditor'), p, temp)
        elif c.get('temp') == 'bad':
            must_raise(AceIO.AceEditor, p, '12345K', _what='an error for an absent temperature')
        want = state(ed)
        # the values of the file
        for r in c['spec']['reactions']:
            if ('v', r['mt']) in want:
                same(want[('v', r['mt'])], r['xs'], 'cross section read for MT %d' % r['mt'])
                close(want[('e', r['mt'])], np.array(c['spec']['energy'][r['start']:]) * 1e6, 'energies of MT %d' % r['mt'], rtol=1e-14)
        same(want[('v', 2)], c['spec']['elastic'], 'elastic cross section read')
        same(want[('v', 1)], c['spec']['total'], 'total cross section read')
        if c['spec'].get('nu') and ('v', 452) in want:
            same(want[('v', 452)], c['spec']['nu']['total'], 'fission yield read')
        adjusted = set()
        first = {}
        mts = list(ed.all_mts)
        expect(set(ed.adjusted_mts) == set(), 'adjusted before any edit')
        for o in c['ops']:
            k = o['op']
            if k in ('set', 'setnu'):
                mt = 452 if k == 'setnu' else mts[o['i'] % len(mts)]
                if mt == 1018 or (mt == 452 and 452 not in mts):
                    continue
                n = len(want[('v', mt)])
                v = np.array([o['f'][i % len(o['f'])] for i in range(n)])
                if o.get('const'):
                    v[:] = v[0]
                if o.get('scaled'):
                    v = v * want[('v', mt)]
                first.setdefault(mt, want[('v', mt)].copy())
                call(ed.set_sigma, mt, v.copy())
                want[('v', mt)] = v
                adjusted.add(mt)
            elif k == 'badlen':
                mt = mts[o['i'] % len(mts)]
                if mt == 1018:
                    continue
                n = len(want[('v', mt)])
                m = max(0, n + o['d'])
                if m == n:
                    continue
                must_raise(ed.set_sigma, mt, np.ones(m), _what='an error for %d values on %d energies' % (m, n))
            elif k == 'absent':
                mt = o['mt']
                if mt in mts:
                    continue
                must_raise(ed.set_sigma, mt, np.ones(3), _what='an error for absent MT %d' % mt)
                must_raise(ed.get_sigma, mt, _what='an error for absent MT %d' % mt)
            elif k == 'read':
                mt = mts[o['i'] % len(mts)]
                if mt in (452, 1018):
                    continue
                for un in (False, True):
                    got = call(ed.get_sigma, mt, unadjusted=un)
                    same(got, want[('u' if un else 'v', mt)], 'reading MT %d (unadjusted=%s)' % (mt, un))
                    got[...] = -77.0            # a copy is the caller's own
                    e = want[('e', mt)]
                    got = call(ed.get_sigma, mt, at_energies=e.copy(), unadjusted=un)
                    close(got, want[('u' if un else 'v', mt)], 'reading MT %d at its own energies' % mt, rtol=1e-12)
                    got[...] = -78.0
            elif k == 'other':
                # another editor of the same file is independent
                ed2 = load(p)
                mt = mts[o['i'] % len(mts)]
                if mt != 1018:
                    call(ed2.set_sigma, mt, np.full(len(want[('v', mt)]), 5.5))
            compare(state(ed), want, 'after %s' % k)
            expect(set(ed.adjusted_mts) == adjusted, 'adjusted {} instead of {}', sorted(ed.adjusted_mts), sorted(adjusted))
            for mt, v in first.items():
                expect(mt in ed.original_sigma, 'original values of MT {} not remembered', mt)
                same(ed.original_sigma[mt], v, 'remembered original values of MT %d' % mt)
            expect(list(ed.all_mts) == mts, 'list of reactions changed')
        expect(open(p, 'rb').read() == raw, 'the file was modified')


_run = run


def run(c):
    if c['kind'] != 'proof':
        return _run(c)
    # the structure of a failed obligation on synthetic files
    base = [m for m in c['mts'] if m not in (1, 2, 101)]
    for k in range(4):
        rng = Rng(70 + k)
        spec = ace.random_spec(rng, base, n=max(3, min(12, (c.get('n') or 5))))
        for mts in (base, [m for m in base if m != 18]):
            spec = ace.random_spec(rng, mts)
            with scratch() as d:
                p = os.path.join(d, 'a.ace')
                ace.write(p, spec)
                have = list(load(p).all_mts)
            ops = []
            for what, mt in c['ops']:
                if mt in have:
                    i = have.index(mt)
                    ops += {'set': [{'op': 'set', 'i': i, 'f': [1.5, .5, 2.0]}, {'op': 'badlen', 'i': i, 'd': 1}, {'op': 'badlen', 'i': i, 'd': -1}, {'op': 'read', 'i': i}],
                            'read': [{'op': 'read', 'i': i}]}.get(what, [])
                else:
                    ops.append({'op': 'absent', 'mt': mt})
            _run({'kind': 'history', 'spec': spec, 'ops': ops, 'temp': [None, 'float', 'str', 'bad'][k]})


def _case(rng, big=False):
    spec = ace.random_spec(rng, pick_mts(rng), n=rng.int(30, 150) if big else None)
    ops = []
    for _ in range(rng.int(1, 6)):
        k = rng.pick(['set', 'set', 'set', 'setnu', 'badlen', 'absent', 'read', 'read', 'other'])
        o = {'op': k, 'i': rng.int(0, 50)}
        if k in ('set', 'setnu'):
            o['f'] = fl(rng.uniform(0, 3, rng.int(1, 7)))
            o['scaled'] = bool(rng.chance(.3))
            o['const'] = bool(rng.chance(.2))
            if rng.chance(.4) and ops and any(q['op'] == 'set' for q in ops):
                o['i'] = [q for q in ops if q['op'] == 'set'][0]['i']
        elif k == 'badlen':
            o['d'] = rng.pick([-1, 1, -2, 5, -100])
        elif k == 'absent':
            o['mt'] = rng.pick([999, 849, 452, 18, 1018, 117])
        ops.append(o)
    return {'kind': 'history', 'spec': spec, 'ops': ops, 'temp': rng.pick([None, None, 'float', 'str', 'bad'])}


def fixed(tier):
    rng = Rng(131)
    for _ in range(40):
        yield _case(rng)
    for _ in range(6):
        yield _case(rng, True)


def gen(rng, tier):
    return _case(rng, deep(rng, tier))
