import sys
import runpy
from contracts.acetab import *
from contracts.stores import *
from ASAPy import XsecSampler as XS

CASE_SECONDS = 240


class FakeComm:
    def __init__(self, rank, size):
        self._r, self._s = rank, size

    def Get_rank(self):
        return self._r

    def Get_size(self):
        return self._s

    rank = property(Get_rank)
    size = property(Get_size)

    def bcast(self, x, root=0):
        return x

    def Barrier(self):
        pass

    barrier = Barrier


def _map(e, b, v):
    """value of the group holding e (eV); 1 outside [lowest bound, highest bound]"""
    out = np.ones(len(e))
    for i, x in enumerate(e):
        if b[-1] <= x <= b[0]:
            g = 0
            while g + 1 < len(v) and x <= b[g + 1]:
                g += 1
            out[i] = v[g]
    return out


def expected(ed, c, s):
    """values per table name expected in the file of sample s"""
    want = state(ed)
    mts = [m for m in ed.all_mts if m not in (452, 1018)]
    orig = {m: want[('u', m)] for m in mts}
    vals = {m: want[('v', m)].copy() for m in mts}
    grids = {m: want[('e', m)] for m in mts}
    adj = set()
    out = {}
    for q in c['mts']:
        mt, b, rel, xs = q['mt'], np.array(q['bounds']), np.array(q['rel'])[:, s], np.array(q['xsec'])
        if mt == 1018:
            for i in range(len(c['spec']['chi'])):
                x, p, cc = want[('v', 'chi', 'eout', i)], want[('v', 'chi', 'p', i)], want[('v', 'chi', 'c', i)]
                new = p * _map(x, b, rel)
                d = (new - p) * np.append(0.0, np.diff(x))
                norm = cc[-1] + d.sum()
                if norm < .05:
                    raise Skip('spectrum without positive normalisation')
                out[('chi', i, 'p')] = new / norm * 1e6
                out[('chi', i, 'c')] = (cc + np.cumsum(d)) / norm
            continue
        e = want[('e', mt)]
        base = want[('v', mt)].copy() if mt == 452 else vals[mt].copy()
        zero = (base == 0) & (_map(e, b, xs) == 0) & (e >= b[-1]) & (e <= b[0])
        base[zero] = 1
        new = base * _map(e, b, rel)
        if mt == 452:
            out['nu_total'] = new
        else:
            vals[mt] = new
            adj.add(mt)
        vals, adj = apply(vals, orig, grids, adj)
    for m in adj:
        out[('xs', m)] = vals[m]
    return out


def check_file(path, base_tok, header, lay, want, what):
    with open(path) as f:
        lines = f.readlines()
    expect(lines[:len(header)] == header, '{}: header changed', what)
    tok = ' '.join(lines[len(header):]).split()
    expect(len(tok) == len(base_tok), '{}: {} numbers instead of {}', what, len(tok), len(base_tok))
    free = np.zeros(len(tok), bool)
    for k, v in want.items():
        if isinstance(k, tuple) and k[0] == 'chi':
            sl = lay['chi'][k[1]][1 if k[2] == 'p' else 2]
        elif k in lay:
            sl = lay[k]
        else:
            continue                    # built from its levels, not in the file itself
        got = np.array([float(t) for t in tok[sl]])
        scale = np.abs(v).max() + np.abs(np.array([float(t) for t in base_tok[sl]])).max()
        close(got, v, '%s: %s' % (what, k), rtol=2e-11, atol=3e-11 * scale if k[0] == 'xs' and k[1] in SUMS else 1e-13 * scale)
        free[sl] = True
    for i in np.flatnonzero(~free):
        if tok[i] != base_tok[i]:
            raise Violation('%s: number %d changed from %s to %s but belongs to nothing that was adjusted (adjusted %s)' % (
                what, i, base_tok[i], tok[i], sorted(map(str, want))))


def run(c):
    with scratch() as d:
        base = os.path.join(d, 'base.ace')
        lay = ace.write(base, c['spec'])
        raw = open(base, 'rb').read()
        h = ace.header_len(c['spec'])
        lines = raw.decode().splitlines(True)
        header, btok = lines[:h], ' '.join(lines[h:]).split()
        ed = load(base)
        for q in c['mts']:
            if q['mt'] not in ed.all_mts:
                raise Skip('reaction not loaded')
        z = c['spec']['zaid']
        frames = {}
        for q in c['mts']:
            g = len(q['xsec'])
            frames[key(z, q['mt'], z, q['mt'], 'std_dev')] = std_frame(q['bounds'], q['xsec'], [.1] * g, q.get('swapped', False))
            frames[key(z, q['mt'], z, q['mt'], 'corr')] = corr_frame(np.eye(g))
        if c['kind'] == 'cli':
            return run_cli(c, d, base, raw, lay, header, btok, ed, frames)
        store = DictStore(frames)
        n, size = c['n'], c['size']
        wants = [expected(ed, c, s) for s in range(n)]
        saved = {k: getattr(XS, k) for k in ('rank', 'size', 'comm') if hasattr(XS, k)}
        written = {}
        os.mkdir(os.path.join(d, 'o'))
        fmt = os.path.join(d, 'o', 'x_{0}')
        try:
            for r in c['rank_order']:
                if r >= size:
                    continue
                for k, v in (('rank', r), ('size', size), ('comm', FakeComm(r, size))):
                    if k in saved:
                        setattr(XS, k, v)
                dfs = [pd.DataFrame(np.array(q['rel']), index=range(1, len(q['xsec']) + 1)) for q in c['mts']]
                before = {f: os.stat(os.path.join(d, 'o', f)).st_mtime_ns for f in os.listdir(os.path.join(d, 'o'))}
                call(need(XS, 'write_sampled_data'), store, base, z, [q['mt'] for q in c['mts']], dfs, output_formatter=fmt)
                for f in os.listdir(os.path.join(d, 'o')):
                    if f.endswith('.csv'):
                        continue
                    if f not in before or os.stat(os.path.join(d, 'o', f)).st_mtime_ns != before[f]:
                        expect(f not in written, 'file {} written by processes {} and {}', f, written.get(f), r)
                        written[f] = r
        finally:
            for k, v in saved.items():
                setattr(XS, k, v)
        expect(set(written) == {'x_%d' % s for s in range(n)}, '{} processes wrote {} for {} samples', size, sorted(written), n)
        for s in range(n):
            check_file(os.path.join(d, 'o', 'x_%d' % s), btok, header, lay, wants[s], 'sample %d (MTs %s)' % (s, [q['mt'] for q in c['mts']]))
        expect(open(base, 'rb').read() == raw, 'the base file was modified')


def run_cli(c, d, base, raw, lay, header, btok, ed, frames):
    """the command line program: sample the store and write the files"""
    import subprocess
    sp = os.path.join(d, 's.h5')
    with quiet(), pd.HDFStore(sp, 'w') as h:
        for k, v in frames.items():
            h.put(k, v)
    mod = os.path.abspath(XS.__file__)
    env = dict(os.environ)
    cmd = [sys.executable, '-B', '-W', 'ignore', '-c',
           'import sys,runpy,numpy;numpy.random.seed(%d);sys.argv=sys.argv[1:];runpy.run_path(sys.argv[0],run_name="__main__")' % c['npseed'],
           mod, base, sp, str(c['n']), '-distribution', c['distro']]
    if c.get('mtarg'):
        cmd += ['-mts'] + [str(q['mt']) for q in c['mts']] + ['777']
    r = subprocess.run(cmd, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=200)
    expect(r.returncode == 0, 'XsecSampler ended with code {}: {}', r.returncode, r.stdout.decode()[-800:])
    sym, A = ed.table.atomic_symbol, ed.table.mass_number
    csvs = {}
    for q in c['mts']:
        f = os.path.join(d, '%s%d_%d_samples.csv' % (sym, A, q['mt']))
        expect(os.path.exists(f), 'no sample table {}', os.path.basename(f))
        df = pd.read_csv(f, index_col=0)
        csvs[q['mt']] = df[[k for k in df.columns if k.isdigit()]].values
    n = csvs[c['mts'][0]['mt']].shape[1]
    if c['distro'] in ('lognormal', 'loguncorrelated'):
        expect(n == c['n'], '{} of {} samples', n, c['n'])
    if any(v.shape[1] < n for v in csvs.values()):
        raise Skip('negative samples removed')
    cc = dict(c, mts=[dict(q, rel=csvs[q['mt']].tolist()) for q in sorted(c['mts'], key=lambda q: q['mt'])] if not c.get('mtarg') else
              [dict(q, rel=csvs[q['mt']].tolist()) for q in c['mts']])
    for s in range(n):
        f = os.path.join(d, '%s%d_%d' % (sym, A, s))
        expect(os.path.exists(f), 'no file for sample {}', s)
        check_file(f, btok, header, lay, expected(ed, cc, s), 'sample %d' % s)
    expect(open(base, 'rb').read() == raw, 'the base file was modified')


def _case(rng, cli=False, big=False):
    mts = pick_mts(rng, rng.pick([1, 3, 6, 9]))
    if rng.chance(.6) and 18 not in mts:
        mts = sorted(mts + [18])
    if 102 not in mts:
        mts = sorted(mts + [102])
    spec = ace.random_spec(rng, mts, n=rng.int(30, 90) if big else rng.int(6, 14))
    # sampled: no reaction together with a sum that holds it
    leaf = [m for m in mts if m not in SUMS] + [2]
    sums = [m for m in mts if m in SUMS and m not in (1, 3)]
    rng.shuffle(leaf)
    pick = [int(m) for m in leaf[:rng.pick([1, 1, 2, 3])]]
    if sums and rng.chance(.4):
        s = int(rng.pick(sums))
        inside = set(expand(SUMS[s], set(mts) | {101, 2})) | {s}
        todo = list(inside)
        while todo:
            m = todo.pop()
            for k in SUMS.get(m, []):
                if k not in inside:
                    inside.add(k)
                    todo.append(k)
        if not (inside & set(pick)):
            pick.append(s)
    if 18 in mts and rng.chance(.5):
        pick.append(452)
    if 18 in mts and rng.chance(.5):
        pick.append(1018)
    rng.shuffle(pick)
    n = rng.pick([5, 11, 17] if big else [1, 2, 3, 4])
    qs = []
    zero_mt = rng.chance(.3)
    for mt in pick:
        g = rng.pick([9, 20] if big else [1, 2, 3, 5])
        E = np.array(spec['energy']) * 1e6
        if mt == 1018:
            lo, hi = 0.0, 2.5e7
            b = np.append(np.sort(rng.uniform(1e5, 2e7, g))[::-1], 0.0)
        else:
            hi = E[-1] * rng.pick([1.0, .5, 2.0])
            b = np.sort(np.append(10.0 ** rng.uniform(np.log10(E[0]) - 1, np.log10(hi), g), [hi]))[::-1]
            if rng.chance(.5) and g > 1:
                b[rng.int(1, g - 1)] = E[rng.int(0, len(E) - 1)]
                b = np.sort(b)[::-1]
        if len(set(b.tolist())) < g + 1:
            b = np.append(np.arange(g, 0, -1) * 1e6, 1.0)
        xs = rng.uniform(.5, 2, g)
        rel = rng.uniform(.3, 1.9, (g, n))
        if mt not in (452, 1018) and zero_mt:
            j = rng.int(0, g - 1)
            if rng.chance(.6):
                xs[j] = 0.0
            r = [r for r in spec['reactions'] if r['mt'] == mt]
            if r:
                v = np.array(r[0]['xs'])
                k = rng.int(0, len(v) - 2)
                v[:k] = 0
                r[0]['xs'] = v.tolist()
        qs.append({'mt': int(mt), 'bounds': fl(b), 'xsec': fl(xs), 'rel': mat(rel), 'swapped': bool(rng.chance(.2))})
    c = {'kind': 'cli' if cli else 'write', 'spec': spec, 'mts': qs, 'n': n, 'size': rng.pick([1, 1, 2, 3, 4]), 'npseed': rng.int(0, 2**31 - 1)}
    c['rank_order'] = [int(v) for v in rng.permutation(4)]
    if cli:
        c['distro'] = rng.pick(['normal', 'lognormal', 'loguncorrelated', 'uncorrelated'])
        c['mtarg'] = bool(rng.chance(.5))
        for q in c['mts']:
            q['xsec'] = fl(np.maximum(q['xsec'], .5))
    return c


def fixed(tier):
    rng = Rng(171)
    for _ in range(4 if tier == 'quick' else 20):
        yield _case(rng, True)
    for _ in range(40):
        yield _case(rng)


def gen(rng, tier):
    return _case(rng, rng.chance(.03), deep(rng, tier))
