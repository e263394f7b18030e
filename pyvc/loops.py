"""the loop rule: an invariant supplied by a contract, proved on entry and preserved by the real loop body for a generic iteration,
and all that is known afterwards.

`hoare` forks the path: on one side the variables the loop changes are replaced by unknowns that satisfy the invariant at a generic
iteration, the body of the real loop is executed and the invariant of the next iteration is proved (that path then ends); on the
other side they satisfy the invariant at the end of the range.  Checked on the way: that the loop changes nothing but the variables
named by the contract (other arrays, containers and aliases)."""
import ast
import z3
from . import core as K
from . import interp as I
from .core import Arr, Sym, Unsupported, dz, simp


class View:
    pass


def _containers(fr_list):
    out, seen = {}, set()

    def go(v, d=0):
        if d > 6 or id(v) in seen:
            return
        seen.add(id(v))
        if isinstance(v, (list, tuple, set)):
            out[id(v)] = (v, tuple(id(x) for x in v))
            for x in v:
                go(x, d + 1)
        elif isinstance(v, dict):
            out[id(v)] = (v, tuple((id(k), id(x)) for k, x in v.items()))
            for x in v.values():
                go(x, d + 1)
        elif isinstance(v, I.SObj):
            out[id(v)] = (v, tuple((k, id(x)) for k, x in v.attrs.items()))
            for x in v.attrs.values():
                go(x, d + 1)
    for f in fr_list:
        for v in f.env.values():
            go(v)
    return out


def _state_of(c):
    v = c[0]
    if isinstance(v, (list, tuple, set)):
        return tuple(id(x) for x in v)
    if isinstance(v, dict):
        return tuple((id(k), id(x)) for k, x in v.items())
    return tuple((k, id(x)) for k, x in v.attrs.items())


def separate(interp, fr, names):
    """the arrays bound to the names are distinct and nothing else refers to them"""
    mine = {}
    for n in names:
        a = fr.env.get(n)
        if not isinstance(a, Arr):
            raise Unsupported(f'loop state {n} is not an array')
        if a.base is not None:
            raise Unsupported(f'loop state {n} is a view')
        if a.ident in mine:
            raise Unsupported(f'loop state {n} and {mine[a.ident]} are the same array')
        mine[a.ident] = n
    saved = {n: fr.env.pop(n) for n in names}
    try:
        others = interp.reachable_arrays(fr)
    finally:
        fr.env.update(saved)
    for a in others:
        if a.root().ident in mine:
            raise Unsupported(f'loop state {mine[a.root().ident]} is shared')
    return others


def hoare(interp, fr, s, spec, label, state, inv, ghosts=None, init=None, step=None):
    """state: name -> 'f' | 'i' | shape;  inv(v, g, i) -> [(label, number of variables, body, patterns)]
    ghosts: name -> number of Int arguments and result sort; init: their values on entry; step(g, v, w, i) -> their next values"""
    ctx = interp.ctx
    if ctx.loop_logs or ctx.guards or ctx.capture is not None:
        raise Unsupported('loop invariant inside a summarised loop')
    for n in state:
        if n not in fr.env or isinstance(fr.env[n], I.Conflict) or fr.env[n] is I.UNDEF:
            raise Unsupported(f'loop state {n} is missing')
    arrs = [n for n, k in state.items() if isinstance(k, tuple)]
    ghosts = ghosts or {}

    def access():
        v = {}
        for n, k in state.items():
            x = fr.env[n]
            if hasattr(k, 'havoc'):
                v[n] = x
            elif k == 'i':
                v[n] = K.zi(x)
            elif k == 'f':
                v[n] = K.fl(x)[0]
            else:
                snap = x.snap()
                v[n] = lambda *ix, snap=snap: K.fl(snap(ix))[0]
        return v

    def establish(v, g, i, where):
        for n, k in state.items():
            x = fr.env[n]
            if hasattr(k, 'havoc'):
                k.establish(x, i, where)
            elif k == 'f':
                ctx.prove(f'{label}: {n} is finite {where}', K.fin(x), kind='invariant')
            elif k == 'i':
                if K.sort_of(x) != 'i':
                    raise Unsupported('loop state type')
            else:
                ix = tuple(ctx.fresh('x', K.I_) for _ in k)
                if len(x.shape) != len(k):
                    raise Unsupported('loop state shape')
                ctx.prove(f'{label}: {n} keeps its shape {where}', z3.And(*[dz(a) == dz(b) for a, b in zip(x.shape, k)]), kind='invariant')
                ctx.prove(f'{label}: {n} is finite {where}', z3.Implies(K.in_range(ix, k), K.fin(x.fn(ix))), kind='invariant')
        for item in inv(v, g, i):
            vs = [ctx.fresh('v', K.I_) for _ in range(item[1])]
            ctx.prove(f'{label}: {item[0]} {where}', item[2](*vs), kind='invariant')

    def havoc(i):
        for n, k in state.items():
            if hasattr(k, 'havoc'):
                fr.env[n] = k.havoc(i)
            elif k == 'f':
                fr.env[n] = K.mkf(ctx.fresh(n, K.R_))
            elif k == 'i':
                fr.env[n] = Sym('i', ctx.fresh(n, K.I_))
            else:
                f = ctx.fresh_fn(n, *[K.I_] * len(k), K.R_)
                fr.env[n] = Arr(k, 'f', lambda idx, f=f: K.mkf(f(*idx)))
        g = {n: ctx.fresh_fn(n, *[K.I_] * k, srt) for n, (k, srt) in ghosts.items()}
        v = access()
        for item in inv(v, g, i):
            if item[1] == 0:
                ctx.fact(item[2]())
                continue
            vs = [z3.Int(f'v!{next(ctx.fresh_n)}') for _ in range(item[1])]
            pats = [p if isinstance(p, z3.PatternRef) else z3.MultiPattern(*p) if isinstance(p, tuple) else p for p in (item[3](*vs) if len(item) > 3 else [])]
            ctx.axioms.append(z3.ForAll(vs, item[2](*vs), patterns=pats) if pats else z3.ForAll(vs, item[2](*vs)))
        return v, g
    n = dz(spec.n)
    n = z3.If(n >= 0, n, z3.IntVal(0)) if not ctx.valid(n >= 0, 500) else n
    separate(interp, fr, arrs)
    establish(access(), init or {}, z3.IntVal(0), 'on entry')
    changed = interp.assigned_names(s.body) | interp.assigned_names([ast.Expr(s.target)])
    for m in changed:
        if m in fr.env and m not in state:
            fr.env[m] = I.Conflict()
    only, stop = getattr(ctx, 'bodies', None), getattr(ctx, 'stop', ())
    if ctx.fork('loop ' + label):
        if only is not None and label not in only:
            raise K.Infeasible()         # this body is explored by another task of the contract
        i = ctx.fresh('i', K.I_)
        ctx.fact(z3.And(i >= 0, i < n))
        v, g = havoc(i)
        if ctx._solve([], 300)[0] == z3.unsat:
            raise K.Infeasible()
        ctx.covered += 1
        keep = [(a, a.writes) for a in separate(interp, fr, arrs)]
        cont = _containers(interp.frames)
        scal = {k: x for k, x in fr.env.items() if k not in state and k not in changed}
        interp.assign(s.target, spec.fn(i), fr)
        try:
            interp.exec_block(s.body, fr)
        except I._Continue:
            pass
        except (I._Break, I._Return):
            raise Unsupported('leaving a loop that has an invariant')
        separate(interp, fr, arrs)
        for a, w in keep:
            if a.writes != w:
                raise Unsupported('the loop writes an array its invariant does not name')
        for c in cont.values():
            if _state_of(c) != c[1]:
                raise Unsupported('the loop changes a container its invariant does not name')
        for k, x in scal.items():
            if fr.env.get(k) is not x:
                raise Unsupported('the loop changes a variable its invariant does not name')
        w = access()
        g2 = step(g, v, w, i) if step else {}
        establish(w, g2, i + 1, 'is preserved')
        raise K.Infeasible()
    if label in stop:
        raise K.Infeasible()             # what follows is explored by another task of the contract
    v, g = havoc(n)
    return v, g
