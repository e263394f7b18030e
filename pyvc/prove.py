"""python -m pyvc.prove PROP OUT.json [--tier T] [--limit S]: discharge the obligations of contracts/pf_<prop>.py"""
import argparse, importlib, json, math, os, sys, time, traceback
import multiprocessing as mp


class Task:
    """one function (or composition) under contract.
    body(ctx, it): declares inputs (precondition), calls the real code through the verifier, states obligations.
    pins: concrete inputs for the CPython cross-check; real(pin) -> {output name: value} from the real code.
    case(model) -> runtime-contract case replaying a counterexample (or None)."""
    def __init__(self, name, functions, body, pins=(), real=None, case=None, assumptions=(), contracts=None,
                 invariants=None, budget=150, timeout_ms=8000, tiers=('quick', 'thorough'), max_paths=400):
        self.name, self.functions, self.body = name, functions, body
        self.pins, self.real, self.case = pins, real, case
        self.assumptions, self.budget, self.timeout_ms, self.tiers = list(assumptions), budget, timeout_ms, tiers
        self.contracts, self.invariants = contracts or {}, invariants or {}
        self.max_paths = max_paths


def _setup():
    from . import core, interp, npmodel          # noqa
    for m in ('pdmodel', 'text', 'linalg', 'scimodel', 'words', 'acelib'):
        try:
            importlib.import_module('pyvc.' + m)
        except ModuleNotFoundError as ex:
            if ex.name != 'pyvc.' + m:
                raise
    return core, interp


def run_body(task, core, interp, pinned=None, tier='quick'):
    """-> (ctx, unsupported reason or None)"""
    ctx = core.Ctx(task.name, task.timeout_ms, task.budget * (1 if tier == 'quick' else 4))
    ctx.pinned = pinned
    ctx.max_paths = task.max_paths
    ctx.results = []
    interp.CONTRACTS.clear()
    interp.CONTRACTS.update(task.contracts)
    interp.INVARIANTS.clear()
    interp.INVARIANTS.update(task.invariants)

    def once():
        it = interp.Interp(ctx)
        ended = 'normal'
        try:
            task.body(ctx, it)
        except core.PyRaise as ex:
            # an exception the contract does not allow: the path must be unreachable
            import z3
            ob = ctx.prove(f'no unexpected {ex.cls.__name__} {ex.eargs!r:.80} {ex.where}', z3.BoolVal(False), kind='exception')
            ended = 'raise'
        ctx.results.append(dict(ctx.outputs))
        if pinned is not None:
            compare(ctx, core, ctx.pin_real)
        if ended == 'normal' and ctx.covered == 0:
            r, _ = ctx._solve([], 3000)
            import z3
            if r != z3.unsat:
                ctx.covered += 1
    why = None
    try:
        if pinned is not None:
            ctx.pin_real = task.real(pinned)
        ctx.explore(once)
    except core.Unsupported as ex:
        why = f'{ex}'
        tb = traceback.extract_tb(ex.__traceback__)
        ctx.where = ' <- '.join(f'{os.path.basename(f.filename)}:{f.lineno}' for f in tb[-4:])
    return ctx, why


def compare(ctx, core, real):
    """the symbolic result under pinned inputs must be the value CPython computed"""
    import numpy as np, z3
    for name, rv in real.items():
        if name not in ctx.outputs:
            continue
        sv = ctx.outputs[name]
        ctx.cross += 1
        if isinstance(sv, core.Arr):
            rv = np.asarray(rv)
            if len(rv.shape) != sv.ndim:
                ctx.mismatch.append(f'{name}: rank {sv.ndim} vs {rv.shape}')
                continue
            for d, s in zip(sv.shape, rv.shape):
                if not ctx.valid(core.dz(d) == s, 4000):
                    if not ctx.valid(core.dz(d) != s, 4000):
                        return          # the models leave it open: nothing to compare
                    ctx.mismatch.append(f'{name}: shape {sv.shape} vs {rv.shape}')
            for ix in np.ndindex(*rv.shape):
                v = sv.fn(tuple(z3.IntVal(i) for i in ix))
                if not close(ctx, core, v, rv[ix].item()):
                    ctx.mismatch.append(f'{name}{list(ix)}: cpython {rv[ix].item()!r}')
                    if len(ctx.mismatch) > 4:
                        return
        elif core.isnum(sv):
            if not close(ctx, core, sv, rv):
                ctx.mismatch.append(f'{name}: {sv!r} cpython {rv!r}')
        elif isinstance(sv, (str, bool, type(None))):
            if sv != rv:
                ctx.mismatch.append(f'{name}: {sv!r} cpython {rv!r}')


def close(ctx, core, v, r):
    import z3
    if isinstance(r, bool) or not isinstance(r, float):
        g = core.same(v, r)
        return ctx.valid(g, 5000) or not ctx.valid(z3.Not(core.zb(g)), 5000)
    if math.isnan(r) or math.isinf(r):
        e, k = core.fl(v)
        want = core.NAN if math.isnan(r) else core.PINF if r > 0 else core.NINF
        return k is not None and (ctx.valid(k == want, 5000) or not ctx.valid(k != want, 5000))
    e, k = core.fl(v)
    tol = core.RV(1e-9 * max(1.0, abs(r)))
    g = z3.And(e - core.RV(r) <= tol, core.RV(r) - e <= tol)
    if k is not None:
        g = z3.And(g, k == core.FIN)
    return ctx.valid(g, 5000) or not ctx.valid(z3.Not(g), 5000)


def run_task(arg):
    prop, i, tier = arg
    core, interp = _setup()
    mod = importlib.import_module('contracts.pf_' + prop.lower())
    task = mod.TASKS[i]
    out = dict(task=task.name, functions=task.functions, assumptions=task.assumptions, obligations=[], unsupported=None,
               cross=0, mismatch=[], solver_s=0.0, trusted=[], inlined=[], paths=0, vacuous=False)
    t = time.time()
    try:
        ctx, why = run_body(task, core, interp, None, tier)
        out['obligations'] = []
        agg = {}
        for ob in ctx.obligations:
            key = ob.name
            a = agg.setdefault(key, dict(name=f'{task.name}: {ob.name}', kind=ob.kind, status='discharged', backends={}, seconds=0.0, paths=0, output='', case=None))
            a['paths'] += 1
            a['seconds'] += ob.time
            a['backends'][ob.backend] = a['backends'].get(ob.backend, 0) + 1
            if ob.status != 'discharged' and a['status'] != 'refuted':
                a['status'] = ob.status
                a['output'] = f'path {ob.path}: {ob.reason}; model {ob.model!r:.1500}'
                if ob.model is not None and task.case is not None:
                    try:
                        a['case'] = task.case(ob.model)
                    except Exception as ex:
                        a['output'] += f'; case not built: {type(ex).__name__} {ex}'
        out['obligations'] = list(agg.values())
        if why:
            out['unsupported'] = why + ' @ ' + getattr(ctx, 'where', '')
        out['trusted'] = sorted(str(x) for x in ctx.trusted)
        out['inlined'] = sorted(ctx.inlined)
        out['solver_s'] = ctx.solver_time
        out['paths'] = ctx.paths
        out['vacuous'] = ctx.covered == 0 and not why
        out['queries'] = ctx.queries
        if not why and task.real is not None and not any(o['status'] == 'refuted' for o in out['obligations']):
            for pin in (task.pins() if callable(task.pins) else task.pins):
                core.Ctx.cross = 0
                core.Ctx.mismatch = []
                c2, w2 = run_body(task, core, interp, pin, tier)
                out['cross'] += c2.cross
                out['mismatch'] += c2.mismatch
                if w2:
                    out['mismatch'] += ['cross-check unsupported: ' + w2] if 'budget' not in w2 else []
    except Exception as ex:
        out['unsupported'] = f'engine error {type(ex).__name__}: {ex} ' + ' <- '.join(
            f'{os.path.basename(f.filename)}:{f.lineno}' for f in traceback.extract_tb(ex.__traceback__)[-4:])
    out['seconds'] = time.time() - t
    return out


def collect(results):
    d = dict(obligations=[], functions=[], assumptions=[], trusted=set(), unsupported=[], solver_s=0.0, backends={},
             cross_checked=0, tasks=[])
    for r in results:
        ok = not r['unsupported'] and not r['vacuous'] and not r['mismatch'] and r['obligations']
        if r['unsupported']:
            d['unsupported'].append(dict(function=r['task'], reason=r['unsupported']))
        if r['vacuous']:
            d['unsupported'].append(dict(function=r['task'], reason='no path reaches the postcondition: obligations not counted'))
        if r['mismatch']:
            d['unsupported'].append(dict(function=r['task'], reason='the verifier and CPython disagree: ' + '; '.join(r['mismatch'][:3])))
        for o in r['obligations']:
            st = {'discharged': 'proved'}.get(o['status'], o['status'])
            if st == 'proved' and not ok:
                st = 'not counted'          # proved on explored paths only: not a proof of the function
            if st == 'refuted' and (r['vacuous'] or r['mismatch']):
                st = 'not counted'
            d['obligations'].append(dict(name=o['name'], task=r['task'], status=st, kind=o['kind'], paths=o['paths'], output=o['output'], case=o['case']))
            for b, n in o['backends'].items():
                d['backends'][b or '-'] = d['backends'].get(b or '-', 0) + n
        d['functions'] += r['functions']
        for f in r['inlined']:
            if f not in d['functions']:
                d['functions'].append(f)
        d['assumptions'] += [a for a in r['assumptions'] if a not in d['assumptions']]
        d['trusted'] |= set(r['trusted'])
        d['solver_s'] += r['solver_s']
        d['cross_checked'] += r['cross']
        d['tasks'].append({k: r[k] for k in ('task', 'paths', 'seconds', 'cross')})
    d['trusted'] = ['model of ' + t for t in sorted(d['trusted'])]
    d['functions'] = sorted(set(d['functions']))
    return d


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('out')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--limit', type=float, default=240)
    ap.add_argument('--only')
    ap.add_argument('--tasks')
    ap.add_argument('--patience', type=float, default=1)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    _setup()
    mod = importlib.import_module('contracts.pf_' + a.prop.lower())
    idx = [i for i, t in enumerate(mod.TASKS) if a.tier in t.tiers and (not a.only or a.only in t.name) and (not a.tasks or t.name in json.loads(a.tasks))]
    for i in idx:
        mod.TASKS[i].timeout_ms = int(mod.TASKS[i].timeout_ms * a.patience)
        mod.TASKS[i].budget *= a.patience
    res = []
    with mp.get_context('fork').Pool(min(6, max(1, len(idx)))) as pool:
        jobs = [(i, pool.apply_async(run_task, ((a.prop, i, a.tier),))) for i in idx]
        for i, j in jobs:
            try:
                res.append(j.get(max(1, a.limit - (time.time() - t0))))
            except mp.TimeoutError:
                t = mod.TASKS[i]
                res.append(dict(task=t.name, functions=t.functions, assumptions=t.assumptions, obligations=[], unsupported='time limit',
                                cross=0, mismatch=[], solver_s=0.0, trusted=[], inlined=[], paths=0, vacuous=False, seconds=0))
        pool.terminate()
    d = collect(res)
    json.dump(d, open(a.out, 'w'), indent=1)
    if a.v:
        for r in res:
            print(f"== {r['task']}: {r['paths']} paths, {r['seconds']:.1f}s, solver {r['solver_s']:.1f}s, cross {r['cross']}, vacuous {r['vacuous']}")
            if r['unsupported']:
                print('   UNSUPPORTED', r['unsupported'])
            for m in r['mismatch'][:6]:
                print('   MISMATCH', m)
            for o in r['obligations']:
                print('  ', o['status'], o['name'], o['paths'], o['backends'], '%.2f' % o['seconds'], o['output'][:600])


if __name__ == '__main__':
    main()
