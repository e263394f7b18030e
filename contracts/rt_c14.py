from contracts.acetab import *


def run(c):
    with scratch() as d:
        p = os.path.join(d, 'a.ace')
        ace.write(p, c['spec'])
        ed = load(p)
        want = state(ed)
        mts = [m for m in ed.all_mts if m not in (452, 1018)]
        grids = {m: want[('e', m)] for m in mts}
        orig = {m: want[('u', m)] for m in mts}
        vals = {m: want[('v', m)] for m in mts}
        adjusted = set()
        for o in c['ops']:
            if o['op'] == 'set':
                mt = mts[o['i'] % len(mts)]
                v = orig[mt] * np.array([o['f'][i % len(o['f'])] for i in range(len(orig[mt]))])
                call(ed.set_sigma, mt, v.copy())
                vals[mt] = v
                adjusted.add(mt)
            elif o['op'] == 'nu':
                if 452 in ed.all_mts:
                    v = want[('u', 452)] * o['f'][0]
                    call(ed.set_sigma, 452, v.copy())
                    want[('v', 452)] = v
            else:
                call(ed.apply_sum_rules)
                vals, adjusted = apply(vals, orig, grids, adjusted)
                expect(adjusted <= set(ed.adjusted_mts), 'adjusted sums {} not reported', sorted(adjusted - set(ed.adjusted_mts)))
            for m in mts:
                want[('v', m)] = vals[m]
            got = state(ed)
            scale = max(np.abs(v).max() for k, v in want.items() if k[0] == 'v' and k[1] in mts)
            for k in want:
                if k[0] == 'v' and k[1] in mts:
                    close(got[k], want[k], 'after %s: MT %s (adjusted %s of %s)' % (o['op'], k[1], sorted(adjusted), mts), rtol=1e-9, atol=1e-11 * scale)
                else:
                    same(got[k], want[k], 'after %s: %s' % (o['op'], k))


def _case(rng, mts=None, ops=None, big=False):
    spec = ace.random_spec(rng, mts if mts is not None else pick_mts(rng), n=rng.int(30, 120) if big else None)
    if ops is None:
        ops = []
        for _ in range(rng.int(1, 3)):
            for _ in range(rng.int(1, 4)):
                ops.append({'op': 'set', 'i': rng.int(0, 60), 'f': fl(rng.uniform(0, 3, rng.int(1, 5)))})
            if rng.chance(.2):
                ops.append({'op': 'nu', 'f': [1.25]})
            ops.append({'op': 'apply'})
            if rng.chance(.5):
                ops.append({'op': 'apply'})
    return {'kind': 'history', 'spec': spec, 'ops': ops}


def fixed(tier):
    rng = Rng(141)
    # each single reaction adjusted, with every subset of the sums that hold it present or absent
    S = SUMS
    allm = sorted({m for v in S.values() for m in v if m not in S} | {103, 104, 105, 106, 107, 18, 27, 16, 4, 3} - {2})
    for mt in allm:
        up = [s for s in (3, 4, 27, 18, 16, 103, 104, 105, 106, 107) if s != mt]
        rng.shuffle(up)
        keep = [int(s) for s in up[:rng.int(0, 5)]]
        mts = sorted(set([mt] + keep + [102]))
        spec = ace.random_spec(rng, mts, n=5)
        order = [1] + ([101] if any(spec['absorption']) else []) + [2]
        # position of mt in all_mts is not known here: adjust by name
        c = _case(rng, mts, [])
        c['spec'] = spec
        c['ops'] = [{'op': 'setmt'}]
        c['kind'] = 'single'
        c['mt'] = mt
        yield c
    for _ in range(60):
        yield _case(rng)
    for _ in range(6):
        yield _case(rng, big=True)


_run = run


def run(c):
    if c['kind'] == 'byname':
        # the structure of a failed obligation: these reactions in the table, those adjusted
        rng = Rng(c.get('seed', 7))
        spec = ace.random_spec(rng, [m for m in c['mts'] if m not in (1, 2, 101)], n=6)
        with scratch() as d:
            p = os.path.join(d, 'a.ace')
            ace.write(p, spec)
            mts = [m for m in load(p).all_mts if m not in (452, 1018)]
        ops = [{'op': 'set', 'i': mts.index(m), 'f': [1.5, .5, 2.0]} for m in c['adj'] if m in mts]
        return _run({'kind': 'history', 'spec': spec, 'ops': ops + [{'op': 'apply'}, {'op': 'apply'}]})
    if c['kind'] == 'single':
        with scratch() as d:
            p = os.path.join(d, 'a.ace')
            ace.write(p, c['spec'])
            ed = load(p)
            mts = [m for m in ed.all_mts if m not in (452, 1018)]
        if c['mt'] not in mts:
            raise Skip('not loaded')
        c = dict(c, kind='history', ops=[{'op': 'set', 'i': mts.index(c['mt']), 'f': [1.5, .5, 2.0]}, {'op': 'apply'}, {'op': 'apply'}])
    return _run(c)


def gen(rng, tier):
    return _case(rng, big=deep(rng, tier))
