"""Symbolic interpreter for the Python subset the repository uses."""
import ast, builtins, importlib, inspect, os, types, itertools
import z3
import numpy as np
from . import core as K
from .core import (Sym, Str, Arr, SList, Unsupported, PyRaise, Infeasible, UNDEF, mk, zi, zb, dz, dim, dv, simp)

REPO = os.environ.get('VERIF_REPO', '/repo')
_src_cache = {}


def module_ast(path):
    if path not in _src_cache:
        with open(path) as f:
            src = f.read()
        _src_cache[path] = ast.parse(src)
    return _src_cache[path]


def find_def(path, qualname, lineno=None):
    node = module_ast(path)
    for part in qualname.split('.'):
        if part == '<locals>':
            continue
        found = None
        for ch in ast.walk(node) if '<locals>' in qualname else node.body:
            if isinstance(ch, (ast.FunctionDef, ast.ClassDef)) and ch.name == part:
                if found is None or lineno is None or abs(ch.lineno - lineno) < abs(found.lineno - lineno):
                    found = ch
        if found is None:
            raise Unsupported(f'{qualname} not found in {path}')
        node = found
    return node


class PyFunc:
    def __init__(self, node, glob, name, closure=None, defaults=None, kwdefaults=None, qual=None):
        self.node, self.glob, self.name = node, glob, name
        self.closure, self.defaults, self.kwdefaults = closure, defaults or [], kwdefaults or {}
        self.qual = qual or name

    def __repr__(self):
        return f'<PyFunc {self.name}>'


class Bound:
    def __init__(self, obj, func):
        self.obj, self.func = obj, func


class Model:
    """callable implemented by the verifier"""
    def __init__(self, fn, name='model'):
        self.fn, self.name = fn, name


class SObj:
    """instance of a repository class, attributes held symbolically"""
    def __init__(self, cls, **attrs):
        self.cls, self.attrs = cls, dict(attrs)

    def __repr__(self):
        return f'<SObj {self.cls.__name__}>'


class IterSpec:
    def __init__(self, n, fn):
        self.n, self.fn = dim(n), fn     # fn: z3 Int -> value


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


MODELS = {}          # id(real callable) -> (callable, model)
CONTRACTS = {}       # 'module:qualname' -> handler used at call sites
INVARIANTS = {}      # 'module:qualname' -> fn(interp, loop_ordinal, ...) or None
TYPE_ATTRS = []      # [(predicate, getattr_handler)]
TYPE_INDEX = []      # [(class, get, set)]
BINOPS = []          # extra binop handlers (pandas models)
LEN = []
ITER = []


def model(*objs):
    def deco(fn):
        for o in objs:
            MODELS[id(o)] = (o, fn)
        return fn
    return deco


BOUND_MODELS = {}    # methods of library singletons (scipy distributions): (id(object), method name) -> (object, handler)


def bound_model(obj, name):
    def deco(fn):
        BOUND_MODELS[(id(obj), name)] = (obj, fn)
        return fn
    return deco


def is_symbolic(v, depth=0):
    if isinstance(v, (Sym, Arr, SList, SObj, Str, IterSpec, PyFunc, Bound, Model, Opaque)):
        return True
    if type(v).__module__.startswith('pyvc') or type(v).__module__.startswith('contracts'):
        return True
    if depth > 4:
        return False
    if isinstance(v, (list, tuple, set, frozenset)):
        return any(is_symbolic(x, depth + 1) for x in v)
    if isinstance(v, dict):
        return any(is_symbolic(x, depth + 1) for x in v.values()) or any(is_symbolic(x, depth + 1) for x in v.keys())
    return False


class Opaque:
    """value the proof never looks into"""
    def __init__(self, what=''):
        self.what = what

    def __repr__(self):
        return f'Opaque({self.what})'


def subst_expr(e, pairs):
    g = K.CTX.generic
    if g:
        for a, _ in pairs:
            x = g.get(a.get_id())
            if x is not None:
                e = x.lift(e)
    return z3.substitute(e, *pairs)


def subst_val(v, pairs, emit):
    """value with i := e; `emit(pairs)` re-emits the facts that came with the generic evaluation"""
    if isinstance(v, Sym):
        return rewrap(v, pairs)
    if isinstance(v, Arr):
        if v.base is not None:
            v = v.copy()
        old = v._fn

        def fn(idx):
            return subst_scalar_eval(lambda: old(idx), pairs, emit)
        return Arr([simp(subst_expr(dz(d), pairs)) if not isinstance(d, int) else d for d in v.shape], v.dtype, fn,
                   v.islist)
    if isinstance(v, SList):
        old = v.fn
        return SList(simp(subst_expr(dz(v.n), pairs)), lambda i: subst_val(old(i), pairs, emit))
    if isinstance(v, tuple):
        return tuple(subst_val(x, pairs, emit) for x in v)
    if isinstance(v, list):
        return [subst_val(x, pairs, emit) for x in v]
    if hasattr(v, 'subst'):
        return v.subst(pairs, emit)
    if is_symbolic(v) and not isinstance(v, (Str, PyFunc, Model, Opaque)):
        raise Unsupported(f'substitution in {type(v).__name__}')
    return v


def rewrap(v, pairs):
    e = simp(subst_expr(v.e, pairs))
    if v.s == 'f':
        return K.mkf(e, None if v.k is None else subst_expr(v.k, pairs))
    return mk(e)


def subst_scalar_eval(thunk, pairs, emit):
    """evaluate thunk (may add facts about the generic index), substitute result and facts"""
    ctx = K.CTX
    n0, a0 = len(ctx.facts), len(ctx.axioms)
    cap = ctx.capture
    ctx.capture = []
    k0 = ctx.fresh_n.n
    try:
        v = thunk()
        new = ctx.capture
    finally:
        ctx.capture = cap
    if ctx.fresh_n.n > k0 and (len(ctx.axioms) > a0 or any(K.maxnum(e) >= k0 for e in K.exprs_of(v) + new)):
        raise Unsupported('a symbol that depends on the index of a loop')
    for f in new:
        ctx.fact(subst_expr(f, pairs))
    emit(pairs)
    if isinstance(v, Sym):
        return rewrap(v, pairs)
    return v


MUTATORS = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse', 'update', 'setdefault', 'popitem', 'add', 'discard',
            'difference_update', 'intersection_update', 'symmetric_difference_update'}


class Interp:
    def __init__(self, ctx):
        self.ctx = ctx
        self.depth = 0
        self.printed = []
        self.frames = []
        self.loop_counter = {}

    # ------------------------------------------------------------ entry points
    def load(self, target):
        """'ASAPy.mod:qual.name' -> callable value"""
        mod, qn = target.split(':')
        m = importlib.import_module(mod)
        obj = m
        for part in qn.split('.'):
            obj = inspect.getattr_static(obj, part) if inspect.isclass(obj) else getattr(obj, part)
        if isinstance(obj, (staticmethod, classmethod)):
            obj = obj.__func__
        if isinstance(obj, property):
            obj = obj.fget
        if inspect.isclass(obj):
            return obj
        return self.wrap_function(obj)

    def wrap_function(self, f):
        f = inspect.unwrap(f)
        path = inspect.getsourcefile(f)
        node = find_def(path, f.__qualname__, f.__code__.co_firstlineno)
        closure = None
        if f.__closure__:
            closure = {n: c.cell_contents for n, c in zip(f.__code__.co_freevars, f.__closure__)}
        return PyFunc(node, f.__globals__, f.__name__, closure, list(f.__defaults__ or ()), dict(f.__kwdefaults__ or {}),
                      qual=f'{f.__module__}:{f.__qualname__}')

    # ------------------------------------------------------------ calls
    def call(self, f, args=(), kwargs=None):
        kwargs = kwargs or {}
        if isinstance(f, Model):
            return f.fn(self, *args, **kwargs)
        if isinstance(f, PyFunc):
            return self.call_py(f, args, kwargs)
        if isinstance(f, Bound):
            return self.call(f.func, (f.obj, *args), kwargs)
        if isinstance(f, SObj):
            m = inspect.getattr_static(f.cls, '__call__', None)
            if isinstance(m, types.FunctionType):
                return self.call(m, (f, *args), kwargs)
        if id(f) in MODELS:
            if not is_symbolic(args) and not is_symbolic(kwargs) and f not in FORCE_MODEL:
                return self.native(f, args, kwargs)
            self.ctx.trusted.add(getattr(f, '__module__', '') + '.' + getattr(f, '__name__', str(f))
                                 if hasattr(f, '__name__') else str(type(f)))
            return MODELS[id(f)][1](self, *args, **kwargs)
        if isinstance(f, types.MethodType):
            m = BOUND_MODELS.get((id(f.__self__), f.__func__.__name__))
            if m is not None and (is_symbolic(args) or is_symbolic(kwargs)):
                self.ctx.trusted.add(f'{type(f.__self__).__module__}.{type(f.__self__).__name__}.{f.__func__.__name__}')
                return m[1](self, *args, **kwargs)
            if isinstance(f.__func__, types.FunctionType) and f.__func__.__module__.startswith('ASAPy'):
                return self.call(f.__func__, (f.__self__, *args), kwargs)
        if isinstance(f, types.FunctionType) and f.__module__.startswith('ASAPy'):
            q = f'{f.__module__}:{f.__qualname__}'
            if q in CONTRACTS:
                return CONTRACTS[q](self, args, kwargs)
            return self.call_py(self.wrap_function(f), args, kwargs)
        if inspect.isclass(f) and f.__module__.startswith('ASAPy'):
            return self.instantiate(f, args, kwargs)
        if inspect.isclass(f) and issubclass(f, BaseException):
            return PyRaise(f, args)
        if isinstance(f, types.BuiltinMethodType) and isinstance(getattr(f, '__self__', None), (list, dict, set)) and f.__name__ in MUTATORS \
                and self.in_symbolic_body():
            # under a symbolic condition or in a generic iteration nothing is changed for good
            return self.container_method(f, args, kwargs)
        if not is_symbolic(args) and not is_symbolic(kwargs):
            return self.native(f, args, kwargs)
        if isinstance(f, types.BuiltinMethodType) and isinstance(getattr(f, '__self__', None), (list, dict, set, str)):
            return self.container_method(f, args, kwargs)
        if isinstance(f, types.BuiltinMethodType) and isinstance(getattr(f, '__self__', None), bytes) and f.__name__ == 'join' and BYTES_JOIN:
            return BYTES_JOIN[0](self, f.__self__, args[0])
        raise Unsupported(f'call of {f!r}')

    def native(self, f, args, kwargs):
        try:
            return f(*args, **kwargs)
        except (Unsupported, PyRaise, Infeasible):
            raise
        except Exception as ex:
            raise PyRaise(type(ex), ex.args, 'native ' + str(f)[:80])

    def container_method(self, f, args, kwargs):
        obj, name = f.__self__, f.__name__
        logs = self.ctx.loop_logs
        if logs and not self.ctx.guards and name in MUTATORS and id(obj) not in getattr(logs[-1], 'outer', {id(obj): 0}):
            # a container made in this iteration
            return self.native(f, args, kwargs)
        if isinstance(obj, list) and name == 'append':
            if self.ctx.loop_logs:
                self.ctx.loop_logs[-1].__dict__.setdefault('appends', []).append((obj, args[0], self.ctx.guard()))
                return None
            if self.ctx.guards:
                raise Unsupported('append under a symbolic condition')
            obj.append(args[0])
            return None
        if isinstance(obj, list) and name == 'extend' and isinstance(args[0], (list, tuple)) and not self.ctx.loop_logs:
            obj.extend(args[0])
            return None
        if isinstance(obj, list) and name == 'insert' and isinstance(args[0], int) and not self.ctx.loop_logs:
            obj.insert(*args)
            return None
        if isinstance(obj, str) and name == 'format':
            return fmt_format(obj, args, kwargs)
        if isinstance(obj, str) and name == 'join' and isinstance(args[0], (list, tuple)) and not any(type(v).__name__ == 'Words' for v in args[0]):
            ps = []
            for k, v in enumerate(args[0]):
                if k and obj:
                    ps.append([obj])
                ps.append(fmt_parts(v))
            return fmt_join(ps)
        if isinstance(obj, str) and name == 'join':
            for h in JOIN:
                return h(self, obj, args[0])
            return Str('joined')
        if isinstance(obj, dict) and name in ('update', 'get', 'setdefault') and not is_symbolic(list(obj.keys())) \
                and not (args and is_symbolic(args[0])):
            if self.ctx.loop_logs:
                raise Unsupported('dict update in symbolic loop')
            return f(*args, **kwargs)
        raise Unsupported(f'{type(obj).__name__}.{name} with symbolic arguments')

    def instantiate(self, cls, args, kwargs):
        if issubclass(cls, BaseException):
            return PyRaise(cls, args)
        key = f'{cls.__module__}:{cls.__qualname__}'
        if key in CONTRACTS:
            return CONTRACTS[key](self, args, kwargs)
        o = SObj(cls)
        init = inspect.getattr_static(cls, '__init__', None)
        if isinstance(init, types.FunctionType):
            self.call(init, (o, *args), kwargs)
        return o

    def call_py(self, f, args, kwargs):
        if self.depth > 40:
            raise Unsupported('recursion')
        node = f.node
        if isinstance(node, ast.Lambda):
            env = self.bind(node.args, f, args, kwargs)
            fr = Frame(env, f)
            self.frames.append(fr)
            try:
                return self.eval(node.body, fr)
            finally:
                self.frames.pop()
        env = self.bind(node.args, f, args, kwargs)
        fr = Frame(env, f)
        self.ctx.inlined.add(f.qual)
        self.depth += 1
        self.frames.append(fr)
        gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(node))
        try:
            if gen:
                fr.yields = []
                try:
                    self.exec_block(node.body, fr)
                except _Return:
                    pass
                return fr.yields
            try:
                self.exec_block(node.body, fr)
            except _Return as r:
                return r.v
            return None
        finally:
            self.depth -= 1
            self.frames.pop()

    def bind(self, a, f, args, kwargs):
        env = {}
        params = [p.arg for p in a.posonlyargs + a.args]
        args = list(args)
        kwargs = dict(kwargs)
        for i, v in enumerate(args):
            if i < len(params):
                env[params[i]] = v
        if len(args) > len(params):
            if a.vararg:
                env[a.vararg.arg] = tuple(args[len(params):])
            else:
                raise PyRaise(TypeError, ('too many arguments',))
        elif a.vararg:
            env[a.vararg.arg] = ()
        for k in list(kwargs):
            if k in params or k in [p.arg for p in a.kwonlyargs]:
                if k in env:
                    raise PyRaise(TypeError, ('duplicate argument',))
                env[k] = kwargs.pop(k)
        if kwargs:
            if a.kwarg:
                env[a.kwarg.arg] = kwargs
            else:
                raise PyRaise(TypeError, (f'unexpected keyword {list(kwargs)}',))
        elif a.kwarg:
            env[a.kwarg.arg] = {}
        ds = f.defaults
        for p, d in zip(params[len(params) - len(ds):], ds):
            env.setdefault(p, d)
        for p in a.kwonlyargs:
            if p.arg not in env:
                if p.arg in f.kwdefaults:
                    env[p.arg] = f.kwdefaults[p.arg]
        for p in params:
            if p not in env:
                raise PyRaise(TypeError, (f'missing argument {p}',))
        return env

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, fr):
        for s in stmts:
            self.exec(s, fr)

    def exec(self, s, fr):
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            raise Unsupported(f'statement {type(s).__name__}')
        m(s, fr)

    def x_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, fr)

    def x_Pass(self, s, fr):
        pass

    def x_Import(self, s, fr):
        for a in s.names:
            m = importlib.import_module(a.name)
            fr.env[a.asname or a.name.split('.')[0]] = m if a.asname else importlib.import_module(a.name.split('.')[0])

    def x_ImportFrom(self, s, fr):
        if s.level:
            raise Unsupported('relative import in function')
        m = importlib.import_module(s.module)
        for a in s.names:
            fr.env[a.asname or a.name] = getattr(m, a.name)

    def x_Global(self, s, fr):
        raise Unsupported('global statement')

    def x_Nonlocal(self, s, fr):
        for n in s.names:
            fr.nonlocals.add(n)

    def x_Assign(self, s, fr):
        v = self.eval(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def x_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, fr), fr)

    def x_AugAssign(self, s, fr):
        if isinstance(s.target, ast.Name):
            cur = self.lookup(s.target.id, fr)
            v = self.eval(s.value, fr)
            if isinstance(cur, list) and isinstance(s.op, ast.Add):
                if self.ctx.loop_logs or self.ctx.guards:
                    raise Unsupported('list += in symbolic loop')
                for pred, h in LIST_IADD:
                    if pred(v):
                        fr.env[s.target.id] = h(cur, v)
                        fr.touch(s.target.id)
                        return
                cur.extend(self.to_list(v))
                return
            if isinstance(cur, Arr) and not cur.islist:
                r = self.binop(s.op, cur, v)
                self.array_assign_all(cur, r)
                return
            fr.env[s.target.id] = self.binop(s.op, cur, v)
            fr.touch(s.target.id)
            return
        if isinstance(s.target, ast.Subscript):
            o = self.eval(s.target.value, fr)
            k = self.eval_index(s.target.slice, fr)
            cur = self.getitem(o, k)
            self.setitem(o, k, self.binop(s.op, cur, self.eval(s.value, fr)))
            return
        if isinstance(s.target, ast.Attribute):
            o = self.eval(s.target.value, fr)
            cur = self.getattr(o, s.target.attr)
            v = self.eval(s.value, fr)
            if isinstance(cur, list) and isinstance(s.op, ast.Add) and not self.in_symbolic_body():
                cur.extend(self.to_list(v))
                return
            self.setattr(o, s.target.attr, self.binop(s.op, cur, v))
            return
        raise Unsupported('augmented assignment target')

    def array_assign_all(self, arr, val):
        if isinstance(val, Arr):
            vs = val.snap()
            from . import npmodel
            sh, get = npmodel.broadcast_to(val, arr.shape)
            arr.write(lambda idx: z3.BoolVal(True), get)
        else:
            arr.write(lambda idx: z3.BoolVal(True), lambda idx: val)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            if t.id in fr.nonlocals and fr.f.closure is not None:
                fr.f.closure[t.id] = v
                return
            fr.env[t.id] = v
            fr.touch(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.unpack(v, len(t.elts), [isinstance(e, ast.Starred) for e in t.elts])
            for e, x in zip(t.elts, vs):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, fr)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, fr), self.eval_index(t.slice, fr), v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr), t.attr, v)
        else:
            raise Unsupported('assignment target')

    def unpack(self, v, n, starred):
        if isinstance(v, Arr):
            if v.ndim >= 1 and isinstance(v.shape[0], int):
                v = [self.getitem(v, i) for i in range(v.shape[0])]
            else:
                raise Unsupported('unpacking an array of symbolic length')
        if isinstance(v, IterSpec):
            v = self.to_list(v)
        try:
            v = list(v)
        except TypeError:
            raise Unsupported(f'unpacking {type(v).__name__}')
        if any(starred):
            i = starred.index(True)
            k = len(v) - (n - 1)
            return v[:i] + [v[i:i + k]] + v[i + k:]
        if len(v) != n:
            raise PyRaise(ValueError, ('unpack',))
        return v

    def x_Return(self, s, fr):
        # symbolic conditions and loops of the callers do not matter
        if len(self.ctx.guards) > fr.entry[0]:
            raise Unsupported('return under a symbolic loop condition')
        if len(self.ctx.loop_logs) > fr.entry[1]:
            raise Unsupported('return inside a symbolic loop')
        raise _Return(self.eval(s.value, fr) if s.value else None)

    def x_Raise(self, s, fr):
        if self.ctx.loop_logs or self.ctx.guards:
            g = self.ctx.guard()
            # a raise that cannot be reached is fine
            if not self.ctx.sat(z3.BoolVal(True)):
                raise Infeasible()
            raise Unsupported('raise inside a symbolic loop')
        if s.exc is None:
            raise fr.exc
        v = self.eval(s.exc, fr)
        if inspect.isclass(v):
            raise PyRaise(v, (), f'line {s.lineno}')
        if isinstance(v, PyRaise):
            v.where = f'line {s.lineno}'
            raise v
        if isinstance(v, BaseException):
            raise PyRaise(type(v), v.args)
        raise Unsupported('raise of a non exception')

    def x_Assert(self, s, fr):
        c = zb(self.truth(self.eval(s.test, fr)))
        if not self.branch(c):
            raise PyRaise(AssertionError, (), f'line {s.lineno}')

    def x_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr.env.pop(t.id, None)
            else:
                raise Unsupported('del')

    def x_FunctionDef(self, s, fr):
        defaults = [self.eval(d, fr) for d in s.args.defaults]
        kwd = {p.arg: self.eval(d, fr) for p, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None}
        fr.env[s.name] = PyFunc(s, fr.f.glob, s.name, EnvChain(fr), defaults, kwd, qual=f'{fr.f.qual}.{s.name}')

    def x_If(self, s, fr):
        c = zb(self.truth(self.eval(s.test, fr)))
        self.if_(c, lambda: self.exec_block(s.body, fr), lambda: self.exec_block(s.orelse, fr), fr)

    def in_symbolic_body(self):
        return bool(self.ctx.loop_logs) or bool(self.ctx.guards)

    def branch(self, c):
        return self.ctx.decide(c)

    def if_(self, c, then, els, fr):
        c = simp(c)
        ctx = self.ctx
        if z3.is_true(c):
            return then()
        if z3.is_false(c):
            return els()
        if not self.in_symbolic_body():
            return then() if self.branch(c) else els()
        if ctx.valid(c):
            return then()
        if ctx.valid(z3.Not(c)):
            return els()
        # predicated execution of both branches
        before = dict(fr.env)
        ctx.guards.append(c)
        cont_t = cont_e = False
        try:
            then()
        except _Continue:
            cont_t = True
        finally:
            ctx.guards.pop()
        env_t = dict(fr.env)
        fr.env.clear()
        fr.env.update(before)
        ctx.guards.append(z3.Not(c))
        try:
            els()
        except _Continue:
            cont_e = True
        finally:
            ctx.guards.pop()
        env_e = dict(fr.env)
        merged = {}
        for k in set(env_t) | set(env_e):
            merged[k] = self.merge(c, env_t.get(k, UNDEF), env_e.get(k, UNDEF))
        fr.env.clear()
        fr.env.update(merged)
        if cont_t and cont_e:
            raise _Continue()
        if cont_t or cont_e:
            # the rest of the body runs only where no continue happened
            g = z3.Not(c) if cont_t else c
            ctx.guards.append(g)
            fr.cont_guards += 1

    def merge(self, c, a, b):
        if a is b:
            return a
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        if isinstance(a, Arr) and isinstance(b, Arr) and len(a.shape) == len(b.shape) and \
                all(K.dim_eq(x, y) for x, y in zip(a.shape, b.shape)):
            fa, fb = a.snap(), b.snap()
            return Arr(a.shape, a.dtype if a.dtype == b.dtype else 'f', lambda idx: K.ite(c, fa(idx), fb(idx)))
        if K.isnum(a) and K.isnum(b):
            return K.ite(c, a, b)
        if isinstance(a, (str, Str)) and isinstance(b, (str, Str)):
            return a if a == b else Str()
        try:
            if a == b:
                return a
        except Exception:
            pass
        return Conflict()

    def x_Continue(self, s, fr):
        raise _Continue()

    def x_Break(self, s, fr):
        if self.in_symbolic_body():
            raise Unsupported('break in a symbolic loop')
        raise _Break()

    def x_With(self, s, fr):
        opened = []
        for it in s.items:
            v = self.eval(it.context_expr, fr)
            if hasattr(v, 'vclose'):
                opened.append(v)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, self.enter(v), fr)
        try:
            self.exec_block(s.body, fr)
        finally:
            for v in opened:
                v.vclose()

    def enter(self, v):
        if isinstance(v, (SObj, Opaque)) or type(v).__module__.startswith(('pyvc', 'contracts')):
            return v
        raise Unsupported(f'with {type(v).__name__}')

    def x_Try(self, s, fr):
        if self.in_symbolic_body():
            # allowed only if the body raises nothing on this (generic) iteration
            try:
                self.exec_block(s.body, fr)
            except PyRaise:
                raise Unsupported('exception inside a symbolic loop')
            self.exec_block(s.orelse, fr)
            self.exec_block(s.finalbody, fr)
            return
        try:
            try:
                self.exec_block(s.body, fr)
            except PyRaise as ex:
                for h in s.handlers:
                    types_ = [BaseException] if h.type is None else self.to_types(self.eval(h.type, fr))
                    if any(issubclass(ex.cls, t) for t in types_):
                        if h.name:
                            fr.env[h.name] = ex
                        old = fr.exc
                        fr.exc = ex
                        try:
                            self.exec_block(h.body, fr)
                        finally:
                            fr.exc = old
                        break
                else:
                    raise
            else:
                self.exec_block(s.orelse, fr)
        finally:
            if s.finalbody:
                self.exec_block(s.finalbody, fr)

    def to_types(self, v):
        return list(v) if isinstance(v, tuple) else [v]

    # ------------------------------------------------------------ loops
    def loop_ordinal(self, fr, node):
        loops = [n for n in ast.walk(fr.f.node) if isinstance(n, (ast.For, ast.While))]
        loops.sort(key=lambda n: (n.lineno, n.col_offset))
        return loops.index(node)

    def x_For(self, s, fr):
        it = self.iterate(self.eval(s.iter, fr))
        inv = INVARIANTS.get(fr.f.qual) or INVARIANTS.get('*')
        if inv is not None and isinstance(it, IterSpec) and not isinstance(it.n, int):
            r = inv(self, fr, s, self.loop_ordinal(fr, s), it)
            if r:
                return
        if not isinstance(it, IterSpec):
            if len(it) > 3000:
                raise Unsupported('long concrete loop')
            broke = False
            for v in it:
                self.assign(s.target, v, fr)
                g0 = fr.cont_guards
                try:
                    self.exec_block(s.body, fr)
                except _Continue:
                    pass
                except _Break:
                    broke = True
                    break
                finally:
                    while fr.cont_guards > g0:
                        self.ctx.guards.pop()
                        fr.cont_guards -= 1
            if not broke:
                self.exec_block(s.orelse, fr)
            return
        if s.orelse:
            raise Unsupported('for-else over a symbolic range')
        if isinstance(it.n, int) and it.n <= 80:
            for j in range(it.n):
                self.assign(s.target, it.fn(z3.IntVal(j)), fr)
                try:
                    self.exec_block(s.body, fr)
                except _Continue:
                    pass
            return
        if self.ctx.__dict__.get('cursors') and all(isinstance(b, ast.Expr) for b in s.body):
            return self.reading_loop(s, fr, it)
        self.summarise(s, fr, it)

    def reading_loop(self, s, fr, it):
        """a loop that assigns nothing"""
        ctx = self.ctx
        i = ctx.fresh('it', K.I_)
        log = K.LoopLog(0)
        f0, a0 = len(ctx.facts), len(ctx.axioms)
        fs0 = set(ctx._factset)
        ctx.pc.append(z3.And(i >= 0, i < dz(it.n)))
        ctx.loop_logs.append(log)
        saved = self.cursors_at(i)
        try:
            self.assign(s.target, it.fn(i), fr)
            self.exec_block(s.body, fr)
            self.cursors_after(saved, i, it.n)
        except (_Continue, _Break):
            raise Unsupported('control flow in a symbolic loop')
        finally:
            ctx.loop_logs.pop()
            ctx.pc.pop()
            del ctx.facts[f0:]
            del ctx.axioms[a0:]
            ctx._factset = fs0
        if log.writes or getattr(log, 'appends', None):
            raise Unsupported('side effects in a loop that reads')
        for n in self.assigned_names([ast.Expr(s.target)]):
            fr.env[n] = UNDEF

    def cursors_at(self, i):
        """loop rule for positions of files, invariant: position = position before + number of the iteration"""
        r = [(c, c.pos, c.reads) for c in self.ctx.__dict__.get('cursors', [])]
        for c, p, _ in r:
            c.pos = simp(p + i)
        return r

    def cursors_after(self, saved, i, n):
        for c, p, k in saved:
            if c.reads == k:
                c.pos = p
            elif self.ctx.valid(c.pos == p + i + 1):
                c.pos = simp(p + z3.If(dz(n) > 0, dz(n), 0)) if not self.ctx.valid(dz(n) >= 0) else simp(p + dz(n))
            else:
                raise Unsupported('reading more than one line per iteration')

    def x_While(self, s, fr):
        inv = INVARIANTS.get(fr.f.qual) or INVARIANTS.get('*')
        if inv is not None:
            r = inv(self, fr, s, self.loop_ordinal(fr, s), None)
            if r:
                return
        # concrete loop as long as the condition is decided
        for _ in range(200):
            c = simp(zb(self.truth(self.eval(s.test, fr))))
            if z3.is_false(c) or (not z3.is_true(c) and self.ctx.valid(z3.Not(c))):
                return
            if not z3.is_true(c) and not self.ctx.valid(c):
                break
            try:
                self.exec_block(s.body, fr)
            except _Continue:
                pass
            except _Break:
                return
        else:
            raise Unsupported('long while loop')
        self.summarise_while(s, fr)

    def assigned_names(self, stmts):
        out = set()
        for st in stmts:
            for n in ast.walk(st):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    out.add(n.id)
        return out

    def summarise_while(self, s, fr):
        """loop whose state is scalar: unknown iteration count T, closed forms where the step is linear"""
        ctx = self.ctx
        names = [n for n in self.assigned_names(s.body) if n in fr.env and K.isnum(fr.env[n])]
        v0 = {n: fr.env[n] for n in names}
        i = ctx.fresh('t', K.I_)
        fns = {n: ctx.fresh_fn('w_' + n, K.I_, {'i': K.I_, 'b': K.I_, 'f': K.R_}[K.sort_of(v0[n])]) for n in names}
        saved = dict(fr.env)
        for n in names:
            fr.env[n] = mk(fns[n](i))
        n0 = len(ctx.pc)
        c = zb(self.truth(self.eval(s.test, fr)))
        ctx.pc.append(z3.And(i >= 0, c))
        log = K.LoopLog(0)
        ctx.loop_logs.append(log)
        try:
            self.exec_block(s.body, fr)
        except (_Continue, _Break):
            raise Unsupported('control flow in a symbolic while')
        finally:
            ctx.loop_logs.pop()
            del ctx.pc[n0:]
        if log.writes or getattr(log, 'appends', None):
            raise Unsupported('array writes in a symbolic while')
        T = ctx.fresh('T', K.I_)
        ctx.fact(T >= 0)
        for n in names:
            out = fr.env[n]
            oe = zi(out) if K.sort_of(v0[n]) in 'ib' else K.fl(out)[0]
            d = simp(oe - fns[n](i))
            base = zi(v0[n]) if K.sort_of(v0[n]) in 'ib' else K.fl(v0[n])[0]
            f = fns[n]
            if z3.is_int_value(d) or z3.is_rational_value(d):
                tt = (lambda t: t) if K.sort_of(v0[n]) in 'ib' else (lambda t: z3.ToReal(t))
                clos = lambda t, d=d, base=base, tt=tt: base + d * tt(t)
                ctx.fact(f(T) == clos(T))
                ctx.fact(f(T - 1) == clos(T - 1))
                ctx.fact(f(z3.IntVal(0)) == base)
            else:
                ctx.fact(f(z3.IntVal(0)) == base)
                q = z3.Int(f'q!{next(ctx.fresh_n)}')
                ctx.axioms.append(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < T), subst_expr(f(i + 1) == oe, [(i, q)]))))
        fr.env.clear()
        fr.env.update(saved)
        for n in names:
            fr.env[n] = mk(fns[n](T))
        ctx.fact(z3.Not(subst_expr(c, [(i, T)])))
        ctx.fact(z3.Implies(T >= 1, subst_expr(c, [(i, T - 1)])))

    def havoc_like(self, v, name):
        ctx = self.ctx
        s = K.sort_of(v)
        e = ctx.fresh(name, {'i': K.I_, 'b': K.B_, 'f': K.R_}[s])
        return mk(e)

    def summarise(self, s, fr, it):
        ctx = self.ctx
        assigned = self.assigned_names(s.body)
        tnames = self.assigned_names([ast.Expr(s.target)])
        carried = [n for n in sorted(assigned - tnames) if n in fr.env and K.isnum(fr.env[n]) and fr.env[n] is not UNDEF]
        v0 = {n: fr.env[n] for n in carried}
        placeholders = {}
        for n in carried:
            srt = K.sort_of(v0[n])
            f = ctx.fresh_fn('lc_' + n, K.I_, {'i': K.I_, 'b': K.B_, 'f': K.R_}[srt])
            placeholders[n] = f
        out = self._run_generic(s, fr, it, {n: (lambda i, f=f: mk(f(i))) for n, f in placeholders.items()})
        # closed forms for counters
        closed = {}
        for n in carried:
            f = placeholders[n]
            ov = out['env'].get(n)
            if ov is None or not K.isnum(ov):
                continue
            if K.sort_of(v0[n]) == 'i' and K.sort_of(ov) == 'i':
                d = simp(zi(ov) - f(out['i']))
                if z3.is_int_value(d):
                    closed[n] = d.as_long()
        if closed and out['uses'](placeholders, closed):
            subs = {}
            for n in carried:
                f = placeholders[n]
                if n in closed:
                    subs[n] = lambda i, n=n: mk(simp(zi(v0[n]) + closed[n] * i))
                else:
                    subs[n] = lambda i, f=f: mk(f(i))
            out = self._run_generic(s, fr, it, subs)
        self._finish(s, fr, it, out, carried, v0, placeholders, closed)

    def _run_generic(self, s, fr, it, subs):
        ctx = self.ctx
        i = ctx.fresh('it', K.I_)
        saved = dict(fr.env)
        saved_arr = {}
        gen = ctx.generic[i.get_id()] = K.Generic(i, ctx.fresh_n.n)
        rng = z3.And(i >= 0, i < dz(it.n))
        f0, a0, p0, g0 = len(ctx.facts), len(ctx.axioms), len(ctx.pc), len(ctx.guards)
        fs0 = set(ctx._factset)
        log = K.LoopLog(len(ctx.loop_logs))
        log.appends = []
        # remember array contents
        arrs = {}
        log.outer = {}
        for a in self.reachable_arrays(fr, log.outer):
            arrs[a.ident] = (a, a._fn, a.writes, dict(a.tag))
        ctx.pc.append(rng)
        ctx.loop_logs.append(log)
        envout = None
        try:
            for n, mkv in subs.items():
                fr.env[n] = mkv(i)
            self.assign(s.target, it.fn(i), fr)
            c0 = fr.cont_guards
            try:
                self.exec_block(s.body, fr)
            except _Continue:
                pass
            while fr.cont_guards > c0:
                ctx.guards.pop()
                fr.cont_guards -= 1
            envout = dict(fr.env)
            gen.close()
            # force values so that all reads are known
            own_reads = len(log.reads)
            for (a, g, v, pg) in log.writes:
                w = tuple(ctx.fresh('w', K.I_) for _ in a.shape)
                gg = g(w)
                n1 = len(ctx.pc)
                ctx.pc.append(z3.And(gg, in_rng(w, a.shape), *( [pg] if pg is not None else [])))
                r1 = len(log.reads)
                v(w)
                for k in range(r1, len(log.reads)):
                    log.reads[k] = log.reads[k] + (list(ctx.pc),)
                del ctx.pc[n1:]
            for (lst, v, pg) in log.appends:
                if isinstance(v, Arr):
                    w = tuple(ctx.fresh('w', K.I_) for _ in v.shape)
                    v.fn(w)
            # loop-carried array dependences
            written = {}
            for (a, g, v, pg) in log.writes:
                written.setdefault(a.root().ident, []).append((a, g, pg))
            j = ctx.fresh('it', K.I_)
            for rd in log.reads:
                a, idx = rd[0], rd[1]
                hy = rd[2] if len(rd) > 2 else []
                for (b, g, pg) in written.get(a.ident, []):
                    gj = self._guard_at(g, pg, idx, i, j)
                    claim = z3.Implies(z3.And(j >= 0, j < i, *hy, in_rng(idx, a.shape)), z3.Not(gj))
                    if not ctx.valid(claim, 3000):
                        raise Unsupported('loop-carried array dependence')
        finally:
            ctx.loop_logs.pop()
            del ctx.guards[g0:]
            body_facts = ctx.facts[f0:]
            body_ax = ctx.axioms[a0:]
            del ctx.facts[f0:]
            del ctx.axioms[a0:]
            ctx._factset = fs0
            del ctx.pc[p0:]
            for a, f, w, t in arrs.values():
                a._fn, a.writes, a.tag = f, w, t
            if envout is None:
                envout = dict(fr.env)
            fr.env.clear()
            fr.env.update(saved)

        def emit(pairs):
            # facts of the body, instantiated, valid when the index is in range
            r = subst_expr(rng, pairs)
            for f in body_facts:
                ctx.fact(z3.Implies(r, subst_expr(f, pairs)))
            for f in body_ax:
                ctx.fact(z3.Implies(r, subst_expr(f, pairs)))

        def uses(placeholders, closed):
            return True
        return dict(i=i, log=log, env=envout, emit=emit, uses=uses, rng=rng)

    def _mentions(self, idx, i):
        return any(mentions(e, i) for e in idx)

    def _guard_at(self, g, pg, idx, i, j):
        # guard of iteration j at the location iteration i reads: rename i in the guard only
        w = tuple(self.ctx.fresh('w', K.I_) for _ in idx)
        e = g(w)
        if pg is not None:
            e = z3.And(pg, e)
        e = subst_expr(e, [(i, j)])
        return subst_expr(e, list(zip(w, idx)))

    def reachable_arrays(self, fr, seen_containers=None):
        seen, out = set(), []
        seen_containers = {} if seen_containers is None else seen_containers

        def go(v, d=0):
            if d > 6 or id(v) in seen:
                return
            seen.add(id(v))
            if isinstance(v, Arr):
                out.append(v.root())
                return
            if isinstance(v, (list, tuple, set)):
                seen_containers[id(v)] = v
                for x in v:
                    go(x, d + 1)
            elif isinstance(v, dict):
                seen_containers[id(v)] = v
                for x in v.values():
                    go(x, d + 1)
            elif isinstance(v, SObj):
                for x in v.attrs.values():
                    go(x, d + 1)
            elif hasattr(v, '__dict__') and type(v).__module__.startswith(('pyvc', 'contracts')):
                for x in v.__dict__.values():
                    go(x, d + 1)
        for f in self.frames:
            for v in f.env.values():
                go(v)
        return out

    def _finish(self, s, fr, it, out, carried, v0, placeholders, closed):
        ctx = self.ctx
        i, log, emit = out['i'], out['log'], out['emit']
        n = dz(it.n)
        # --- arrays
        by_arr = {}
        for (a, g, v, pg) in log.writes:
            by_arr.setdefault(a.ident, (a, []))[1].append((g, v, pg))
        for a, ws in by_arr.values():
            cands = []
            for g, v, pg in ws:
                w = tuple(ctx.fresh('w', K.I_) for _ in a.shape)
                cap = ctx.capture
                ctx.capture = []
                gg = g(w)
                ctx.capture = cap
                if pg is not None:
                    gg = z3.And(pg, gg)
                sol = solve_index(gg, i, w)
                cands.append((g, v, pg, w, gg, sol))
            old = a._fn
            a._fn = self._loop_array_fn(a, cands, i, n, emit, old)
            a.writes += 1
            a.tag = {}
            if ctx.loop_logs:
                self._log_outer(a, cands, i, n, emit)
        # --- lists
        by_list = {}
        for (lst, v, pg) in log.appends:
            by_list.setdefault(id(lst), (lst, []))[1].append((v, pg))
        for lst, vs in by_list.values():
            if len(vs) != 1 or vs[0][1] is not None or len(lst) != 0:
                raise Unsupported('list building pattern in a symbolic loop')
            v = vs[0][0]
            new = make_list(it.n, lambda e, v=v: subst_val(v, [(i, e)], emit) if not K.isnum(v) or isinstance(v, Sym)
                            else v, v, emit, i)
            self.replace_everywhere(lst, new)
        # --- scalars
        assigned = self.assigned_names(s.body) | self.assigned_names([ast.Expr(s.target)])
        for nm in assigned:
            if nm not in out['env']:
                continue
            v = out['env'][nm]
            if nm in carried:
                f = placeholders[nm]
                srt = K.sort_of(v0[nm])
                if nm in closed:
                    fr.env[nm] = mk(simp(zi(v0[nm]) + closed[nm] * n))
                    continue
                if not K.isnum(v):
                    fr.env[nm] = Conflict()
                    continue
                conv = {'i': zi, 'b': zb, 'f': lambda x: K.fl(x)[0]}[srt]
                if srt == 'f' and K.fl(v)[1] is not None:
                    fr.env[nm] = Sym('f', ctx.fresh('hv_' + nm, K.R_), ctx.fresh('hk_' + nm, K.I_))
                    continue
                try:
                    ov = conv(v)
                except Unsupported:
                    fr.env[nm] = Conflict()
                    continue
                ctx.fact(f(z3.IntVal(0)) == conv(v0[nm]))
                q = z3.Int(f'q!{next(ctx.fresh_n)}')
                ctx.axioms.append(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), subst_expr(f(i + 1) == ov, [(i, q)]))))
                fr.env[nm] = mk(f(n))
                ctx.recurrences = getattr(ctx, 'recurrences', []) + [(f, i, ov, n)]
            elif nm in fr.env or True:
                # last iteration's value (undefined when there was none)
                try:
                    last = subst_val(v, [(i, simp(n - 1))], emit)
                except Unsupported:
                    last = Conflict()
                prev = fr.env.get(nm, UNDEF)
                if prev is UNDEF or ctx.valid(n >= 1):
                    fr.env[nm] = last
                else:
                    try:
                        fr.env[nm] = self.merge(n >= 1, last, prev)
                    except Unsupported:
                        fr.env[nm] = Conflict()

    def _log_outer(self, a, cands, i, n, emit):
        ctx = self.ctx
        for (g, v, pg, w, gg, sol) in cands:
            if sol is None:
                raise Unsupported('nested loop write without index solution')

            def g2(idx, gg=gg, w=w, sol=sol):
                e = sol(idx)
                pairs = list(zip(w, idx)) + [(i, e)]
                return z3.And(e >= 0, e < n, subst_expr(gg, [(i, e)] + list(zip(w, idx))))

            def v2(idx, v=v, sol=sol):
                e = sol(idx)
                return subst_scalar_eval(lambda: v(idx), [(i, e)], emit)
            ctx.loop_logs[-1].writes.append((a, g2, v2, ctx.guard()))

    def _loop_array_fn(self, a, cands, i, n, emit, old):
        ctx = self.ctx
        dt = a.dtype
        if all(c[5] is not None for c in cands):
            def fn(idx):
                acc = None      # (cond, iteration, value)
                for (g, v, pg, w, gg, sol) in cands:
                    e = simp(sol(idx))
                    cond = simp(z3.And(e >= 0, e < n, subst_expr(gg, [(i, e)] + list(zip(w, idx)))))
                    if z3.is_false(cond):
                        continue
                    val = K.cast(subst_scalar_eval(lambda: v(idx), [(i, e)], emit), dt)
                    if acc is None:
                        acc = (cond, e, val)
                    else:
                        c0, e0, v0_ = acc
                        pick = z3.And(cond, z3.Or(z3.Not(c0), e >= e0))
                        acc = (z3.Or(c0, cond), z3.If(pick, e, e0), K.ite(pick, val, v0_))
                if acc is None:
                    return old(idx)
                return K.ite(acc[0], acc[2], old(idx))
            return fn
        if len(cands) != 1:
            # several writes, none solvable: order them by last writer one after another is not sound
            raise Unsupported('several unsolved writes in a loop')
        g, v, pg, w, gg, _ = cands[0]
        sorts = [K.I_] * len(a.shape)
        kap = ctx.fresh_fn('lastw', *sorts, K.I_)
        wr = ctx.fresh_fn('written', *sorts, K.B_)

        def fn(idx):
            e = kap(*idx)
            at = lambda k: subst_expr(gg, [(i, k)] + list(zip(w, idx)))
            ctx.fact(z3.Implies(wr(*idx), z3.And(e >= 0, e < n, at(e))))
            q = z3.Int(f'q!{next(ctx.fresh_n)}')
            ctx.fact(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n, at(q)), z3.And(wr(*idx), q <= e))))
            val = K.cast(subst_scalar_eval(lambda: v(idx), [(i, e)], emit), dt)
            return K.ite(wr(*idx), val, old(idx))
        return fn

    def replace_everywhere(self, old, new):
        hit = False
        for f in self.frames:
            for k, v in f.env.items():
                if v is old:
                    f.env[k] = new
                    hit = True
                elif isinstance(v, SObj):
                    for kk, vv in v.attrs.items():
                        if vv is old:
                            v.attrs[kk] = new
                            hit = True
        if not hit:
            raise Unsupported('list built in a loop is not bound to a variable')

    # ------------------------------------------------------------ expressions
    def eval(self, e, fr):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported(f'expression {type(e).__name__}')
        return m(e, fr)

    def e_Constant(self, e, fr):
        return e.value

    def e_Name(self, e, fr):
        return self.lookup(e.id, fr)

    def lookup(self, name, fr):
        if name in fr.env:
            v = fr.env[name]
            if v is UNDEF:
                raise PyRaise(UnboundLocalError, (name,))
            if isinstance(v, Conflict):
                raise Unsupported(f'variable {name} has no single symbolic value')
            return v
        if fr.f.closure is not None and name in fr.f.closure:
            return fr.f.closure[name]
        if name in fr.f.glob:
            return fr.f.glob[name]
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise PyRaise(NameError, (name,))

    def e_Tuple(self, e, fr):
        return tuple(self.elts(e.elts, fr))

    def e_List(self, e, fr):
        return self.elts(e.elts, fr)

    def e_Set(self, e, fr):
        return set(self.elts(e.elts, fr))

    def elts(self, es, fr):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out.extend(self.to_list(self.eval(x.value, fr)))
            else:
                out.append(self.eval(x, fr))
        return out

    def e_Dict(self, e, fr):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.eval(v, fr))
            else:
                d[self.eval(k, fr)] = self.eval(v, fr)
        return d

    def e_JoinedStr(self, e, fr):
        return fmt_join([fmt_parts(self.eval(v, fr)) for v in e.values])

    def e_FormattedValue(self, e, fr):
        v = self.eval(e.value, fr)
        spec = self.eval(e.format_spec, fr) if e.format_spec else ''
        if is_symbolic(v) or isinstance(v, PyRaise) or isinstance(spec, Str):
            ps = fmt_value(v, spec) if not isinstance(spec, Str) and e.conversion in (-1, 115) else None
            return fmt_join([ps])
        if e.conversion == 114:
            v = repr(v)
        elif e.conversion == 115:
            v = str(v)
        try:
            return format(v, spec)
        except Exception as ex:
            raise PyRaise(type(ex), ex.args)

    def e_BinOp(self, e, fr):
        return self.binop(e.op, self.eval(e.left, fr), self.eval(e.right, fr))

    def e_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        if isinstance(e.op, ast.Not):
            return K.not_(self.truth(v)) if isinstance(self.truth(v), Sym) else not self.truth(v)
        if isinstance(v, Arr):
            from . import npmodel
            if isinstance(e.op, ast.USub):
                return npmodel.elementwise1(K.neg, v)
            if isinstance(e.op, ast.Invert):
                return npmodel.invert(v)
            if isinstance(e.op, ast.UAdd):
                return v
        if isinstance(v, Sym):
            if isinstance(e.op, ast.USub):
                return K.neg(v)
            if isinstance(e.op, ast.UAdd):
                return v
        for h in UNOPS:
            r = h(self, e.op, v)
            if r is not NotImplemented:
                return r
        if is_symbolic(v):
            raise Unsupported('unary operator')
        return {ast.USub: lambda: -v, ast.UAdd: lambda: +v, ast.Invert: lambda: ~v}[type(e.op)]()

    def e_BoolOp(self, e, fr):
        is_and = isinstance(e.op, ast.And)
        vals = []
        cond = None
        for k, x in enumerate(e.values):
            v = self.eval(x, fr)
            if k == len(e.values) - 1:
                return v if cond is None else self._boolmerge(is_and, cond, v)
            t = self.truth(v)
            if not isinstance(t, Sym):
                if is_and and not t:
                    return v
                if not is_and and t:
                    return v
                continue
            # symbolic: outside loops fork, inside combine
            if not self.in_symbolic_body():
                b = self.branch(zb(t))
                if is_and and not b:
                    return v if not isinstance(v, Sym) or v.s != 'b' else False
                if not is_and and b:
                    return v if not isinstance(v, Sym) or v.s != 'b' else True
                continue
            cond = zb(t) if cond is None else (z3.And(cond, zb(t)) if is_and else z3.Or(cond, zb(t)))

    def _boolmerge(self, is_and, cond, v):
        t = zb(self.truth(v))
        return mk(simp(z3.And(cond, t) if is_and else z3.Or(cond, t)))

    def e_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, fr)
            v = self.compare(op, left, right)
            if res is None:
                res = v
            else:
                res = mk(simp(z3.And(zb(res), zb(v)))) if isinstance(res, Sym) or isinstance(v, Sym) else (res and v)
            left = right
        return res

    def compare(self, op, a, b):
        t = type(op)
        if t is ast.Is:
            return a is b
        if t is ast.IsNot:
            return a is not b
        if t in (ast.In, ast.NotIn):
            r = self.contains(b, a)
            return r if t is ast.In else (K.not_(r) if isinstance(r, Sym) else not r)
        o = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!='}[t]
        for h in COMPARE:
            r = h(self, o, a, b)
            if r is not NotImplemented:
                return r
        if isinstance(a, Arr) or isinstance(b, Arr):
            from . import npmodel
            if (isinstance(a, Arr) and a.islist and not isinstance(b, Arr)) or \
                    (isinstance(b, Arr) and b.islist and not isinstance(a, Arr)):
                raise Unsupported('list comparison')
            return npmodel.elementwise2(lambda x, y: K.cmp(o, x, y), a, b, 'b')
        if isinstance(a, Sym) or isinstance(b, Sym):
            if isinstance(a, (str, Str)) or isinstance(b, (str, Str)):
                raise Unsupported('string comparison')
            if not (a is None or K.isnum(a)) or not (b is None or K.isnum(b)):
                if o == '==':
                    return False
                if o == '!=':
                    return True
            return K.cmp(o, a, b)
        if isinstance(a, (str, Fmt)) and isinstance(b, (str, Fmt)) and (isinstance(a, Fmt) or isinstance(b, Fmt)) and o in ('==', '!='):
            from . import text
            r = text.compare(a, b)
            return r if o == '==' else not r
        if isinstance(a, Str) or isinstance(b, Str):
            raise Unsupported('comparison of an opaque string')
        if is_symbolic(a) or is_symbolic(b):
            if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and o in ('==', '!='):
                if len(a) != len(b):
                    return o == '!='
                r = z3.And(*[zb(self.compare(ast.Eq(), x, y)) for x, y in zip(a, b)])
                return mk(simp(r if o == '==' else z3.Not(r)))
            if (a is None or b is None) and o in ('==', '!='):
                return (a is b) == (o == '==')
            raise Unsupported(f'comparison {type(a).__name__} {type(b).__name__}')
        try:
            return {'<': lambda: a < b, '<=': lambda: a <= b, '>': lambda: a > b, '>=': lambda: a >= b,
                    '==': lambda: a == b, '!=': lambda: a != b}[o]()
        except Exception as ex:
            raise PyRaise(type(ex), ex.args)

    def contains(self, c, x):
        for h in CONTAINS:
            r = h(self, c, x)
            if r is not NotImplemented:
                return r
        if isinstance(c, (list, tuple, set, frozenset, dict, range)) or isinstance(c, type({}.keys())):
            if not is_symbolic(x) and not any(is_symbolic(y) for y in c):
                return x in c
            r = z3.Or(*[zb(self.compare(ast.Eq(), x, y)) for y in c]) if len(c) else z3.BoolVal(False)
            return mk(simp(r))
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        if is_symbolic(c) or is_symbolic(x):
            raise Unsupported(f'membership in {type(c).__name__}')
        return x in c

    def e_IfExp(self, e, fr):
        c = simp(zb(self.truth(self.eval(e.test, fr))))
        if z3.is_true(c):
            return self.eval(e.body, fr)
        if z3.is_false(c):
            return self.eval(e.orelse, fr)
        if not self.in_symbolic_body():
            return self.eval(e.body if self.branch(c) else e.orelse, fr)
        self.ctx.guards.append(c)
        try:
            a = self.eval(e.body, fr)
        finally:
            self.ctx.guards.pop()
        self.ctx.guards.append(z3.Not(c))
        try:
            b = self.eval(e.orelse, fr)
        finally:
            self.ctx.guards.pop()
        r = self.merge(c, a, b)
        if isinstance(r, Conflict):
            raise Unsupported('conditional expression')
        return r

    def e_Lambda(self, e, fr):
        return PyFunc(e, fr.f.glob, '<lambda>', EnvChain(fr), [self.eval(d, fr) for d in e.args.defaults], {},
                      qual=fr.f.qual + '.<lambda>')

    def e_Attribute(self, e, fr):
        return self.getattr(self.eval(e.value, fr), e.attr)

    def e_Subscript(self, e, fr):
        return self.getitem(self.eval(e.value, fr), self.eval_index(e.slice, fr))

    def eval_index(self, s, fr):
        if isinstance(s, ast.Slice):
            return slice(*(self.eval(x, fr) if x is not None else None for x in (s.lower, s.upper, s.step)))
        if isinstance(s, ast.Tuple):
            return tuple(self.eval_index(x, fr) for x in s.elts)
        return self.eval(s, fr)

    def e_Starred(self, e, fr):
        raise Unsupported('starred')

    def e_Yield(self, e, fr):
        fr.yields.append(self.eval(e.value, fr) if e.value else None)

    def e_YieldFrom(self, e, fr):
        fr.yields.extend(self.to_list(self.eval(e.value, fr)))

    def e_Call(self, e, fr):
        f = self.eval(e.func, fr)
        if f is builtins.super and not e.args:
            raise Unsupported('super()')
        if f is builtins.locals and not e.args:
            return dict(fr.env)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, fr)
                w = next((w for h in STARRED for w in [h(f, v)] if w is not None), None)
                if w is not None:
                    args.append(w)
                else:
                    args.extend(self.to_list(v))
            else:
                args.append(self.eval(a, fr))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                kw.update(self.eval(k.value, fr))
            else:
                kw[k.arg] = self.eval(k.value, fr)
        return self.call(f, args, kw)

    # comprehensions
    def e_ListComp(self, e, fr):
        return self.comp(e.elt, e.generators, fr)

    def e_GeneratorExp(self, e, fr):
        return self.comp(e.elt, e.generators, fr)

    def e_SetComp(self, e, fr):
        r = self.comp(e.elt, e.generators, fr)
        if not isinstance(r, list):
            raise Unsupported('set comprehension')
        return set(r)

    def e_DictComp(self, e, fr):
        r = self.comp(ast.Tuple([e.key, e.value], ast.Load()), e.generators, fr)
        if not isinstance(r, list):
            raise Unsupported('dict comprehension')
        return dict(r)

    def comp(self, elt, gens, fr):
        sub = Frame(dict(fr.env), fr.f)
        sub.parent = fr
        self.frames.append(sub)
        try:
            return self._comp(elt, gens, sub)
        finally:
            self.frames.pop()

    def _comp(self, elt, gens, fr):
        g = gens[0]
        it = self.iterate(self.eval(g.iter, fr))
        if not isinstance(it, IterSpec) or (isinstance(it.n, int) and it.n <= 12):
            out = []
            seq = it if not isinstance(it, IterSpec) else [it.fn(z3.IntVal(j)) for j in range(it.n)]
            for v in seq:
                self.assign(g.target, v, fr)
                ok = True
                for c in g.ifs:
                    t = self.truth(self.eval(c, fr))
                    if isinstance(t, Sym):
                        t = self.branch(zb(t))
                    if not t:
                        ok = False
                        break
                if not ok:
                    continue
                if len(gens) > 1:
                    r = self._comp(elt, gens[1:], fr)
                    if not isinstance(r, list):
                        raise Unsupported('nested symbolic comprehension')
                    out.extend(r)
                else:
                    out.append(self.eval(elt, fr))
            return out
        if g.ifs or len(gens) > 1:
            raise Unsupported('filtered comprehension over a symbolic range')
        ctx = self.ctx
        i = ctx.fresh('it', K.I_)
        gen = ctx.generic[i.get_id()] = K.Generic(i, ctx.fresh_n.n)
        rng = z3.And(i >= 0, i < dz(it.n))
        f0, a0 = len(ctx.facts), len(ctx.axioms)
        fs0 = set(ctx._factset)
        log = K.LoopLog(0)
        ctx.pc.append(rng)
        ctx.loop_logs.append(log)
        cur = self.cursors_at(i)
        try:
            self.assign(g.target, it.fn(i), fr)
            v = self.eval(elt, fr)
            self.cursors_after(cur, i, it.n)
            gen.close()
        finally:
            ctx.loop_logs.pop()
            ctx.pc.pop()
            bf, ba = ctx.facts[f0:], ctx.axioms[a0:]
            del ctx.facts[f0:]
            del ctx.axioms[a0:]
            ctx._factset = fs0
        if log.writes or getattr(log, 'appends', None):
            raise Unsupported('side effects in a comprehension')

        def emit(pairs):
            r = subst_expr(rng, pairs)
            for f in bf + ba:
                ctx.fact(z3.Implies(r, subst_expr(f, pairs)))
        return make_list(it.n, lambda e: subst_val(v, [(i, e)], emit), v, emit, i)

    # ------------------------------------------------------------ operations
    def truth(self, v):
        if isinstance(v, Sym):
            return mk(simp(zb(v)))
        if isinstance(v, Arr):
            if v.islist:
                n = v.shape[0]
                return mk(simp(dz(n) != 0)) if not isinstance(n, int) else n != 0
            if v.ndim == 0:
                return mk(simp(zb(v.at())))
            raise Unsupported('truth of an array')
        if isinstance(v, SList):
            return mk(simp(dz(v.n) != 0)) if not isinstance(v.n, int) else v.n != 0
        if isinstance(v, Fmt):
            return True          # tokens are not empty
        if isinstance(v, Str):
            raise Unsupported('truth of opaque string')
        if isinstance(v, (SObj, PyFunc, Opaque)):
            return True
        for h in TRUTH:
            r = h(self, v)
            if r is not NotImplemented:
                return r
        return bool(v)

    def binop(self, op, a, b):
        for h in BINOPS:
            r = h(self, op, a, b)
            if r is not NotImplemented:
                return r
        if isinstance(a, Arr) or isinstance(b, Arr):
            from . import npmodel
            return npmodel.binop(self, op, a, b)
        if isinstance(a, Str) or isinstance(b, Str):
            if isinstance(op, ast.Add) and isinstance(a, (str, Str)) and isinstance(b, (str, Str)):
                return fmt_join([fmt_parts(a), fmt_parts(b)])
            if isinstance(op, (ast.Add, ast.Mod)):
                return Str()
            raise Unsupported('string op')
        if isinstance(a, Sym) or isinstance(b, Sym):
            return self.scalar_op(op, a, b)
        if isinstance(a, list) and isinstance(b, list) and isinstance(op, ast.Add):
            return a + b
        if isinstance(a, str) and isinstance(op, ast.Mod):
            return Str() if is_symbolic(b) else a % b
        if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
            if isinstance(op, ast.Mult) and (isinstance(a, Sym) or isinstance(b, Sym)):
                raise Unsupported('list * symbolic')
            if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
                if is_symbolic(a) or is_symbolic(b):
                    raise Unsupported('ndarray with symbolic list')
        elif is_symbolic(a) or is_symbolic(b):
            raise Unsupported(f'operator on {type(a).__name__}, {type(b).__name__}')
        import operator as o
        f = {ast.Add: o.add, ast.Sub: o.sub, ast.Mult: o.mul, ast.Div: o.truediv, ast.FloorDiv: o.floordiv,
             ast.Mod: o.mod, ast.Pow: o.pow, ast.BitAnd: o.and_, ast.BitOr: o.or_, ast.BitXor: o.xor,
             ast.MatMult: o.matmul, ast.LShift: o.lshift, ast.RShift: o.rshift}[type(op)]
        try:
            return f(a, b)
        except Exception as ex:
            raise PyRaise(type(ex), ex.args)

    def scalar_op(self, op, a, b):
        t = type(op)
        if (isinstance(a, (str, bytes)) or isinstance(b, (str, bytes))) and t in (ast.Mult, ast.Mod):
            raise Unsupported('string operator with a symbolic operand')
        if a is None or b is None or isinstance(a, (str, bytes)) or isinstance(b, (str, bytes)):
            raise PyRaise(TypeError, ('operand',))
        if not (K.isnum(a) and K.isnum(b)):
            raise Unsupported(f'operator on {type(a).__name__}, {type(b).__name__}')
        if t is ast.BitAnd or t is ast.BitOr:
            if K.sort_of(a) == 'b' and K.sort_of(b) == 'b':
                return mk(simp((z3.And if t is ast.BitAnd else z3.Or)(zb(a), zb(b))))
            raise Unsupported('bit operation')
        f = {ast.Add: K.add, ast.Sub: K.sub, ast.Mult: K.mul, ast.Div: K.div, ast.FloorDiv: K.floordiv,
             ast.Mod: K.mod, ast.Pow: K.power}.get(t)
        if f is None:
            raise Unsupported('scalar operator')
        return f(a, b)

    def iterate(self, v):
        """-> python list, or IterSpec for symbolic lengths"""
        if isinstance(v, IterSpec):
            return v
        if isinstance(v, (list, tuple, range)):
            return list(v)
        if isinstance(v, (set, frozenset)):
            return sorted(v, key=repr) if not is_symbolic(v) else list(v)
        if isinstance(v, dict):
            return list(v.keys())
        if isinstance(v, (str, bytes)):
            return list(v)
        if isinstance(v, np.ndarray):
            return list(v)
        if isinstance(v, Arr):
            if isinstance(v.shape[0], int) and v.shape[0] <= 12:
                return [self.getitem(v, j) for j in range(v.shape[0])]
            if v.ndim == 1:
                f = v.snap()
                return IterSpec(v.shape[0], lambda i: f((i,)))
            return IterSpec(v.shape[0], lambda i: self.getitem(v, mk(i)))
        if isinstance(v, SList):
            return IterSpec(v.n, v.fn)
        for h in ITER:
            r = h(self, v)
            if r is not NotImplemented:
                return r
        if is_symbolic(v):
            raise Unsupported(f'iteration over {type(v).__name__}')
        try:
            return list(v)
        except TypeError as ex:
            raise PyRaise(TypeError, ex.args)

    def to_list(self, v):
        it = self.iterate(v)
        if isinstance(it, IterSpec):
            raise Unsupported('list of symbolic length')
        return it

    def length(self, v):
        if isinstance(v, Arr):
            return dv(v.shape[0])
        if isinstance(v, (SList, IterSpec)):
            return dv(v.n)
        for h in LEN:
            r = h(self, v)
            if r is not NotImplemented:
                return r
        if isinstance(v, SObj):
            f = inspect.getattr_static(v.cls, '__len__', None)
            if f is not None:
                return self.call(f, (v,))
        if isinstance(v, (list, tuple, dict, set, str, range, np.ndarray)) or not is_symbolic(v):
            try:
                return len(v)
            except TypeError as ex:
                raise PyRaise(TypeError, ex.args)
        raise Unsupported(f'len of {type(v).__name__}')

    # attribute access
    def getattr(self, o, name):
        if isinstance(o, SObj):
            return self.obj_attr(o, name)
        for pred, h in TYPE_ATTRS:
            if pred(o):
                return h(self, o, name)
        if isinstance(o, PyRaise):
            if name == 'args':
                return o.eargs
            raise Unsupported('exception attribute')
        if isinstance(o, Str):
            return Model(lambda it, *a, **k: Str(f'.{name}'))
        if isinstance(o, K.NpSym) and name in ('sum', 'item', 'max', 'min', 'mean', 'copy'):
            return Model(lambda it: o)
        if isinstance(o, (list, dict, set, str)) and hasattr(o, name):
            return getattr(o, name)
        if is_symbolic(o) and not isinstance(o, (list, dict, tuple, set)):
            raise Unsupported(f'attribute {name} of {type(o).__name__}')
        try:
            return getattr(o, name)
        except AttributeError as ex:
            raise PyRaise(AttributeError, ex.args)

    def obj_attr(self, o, name):
        if name in o.attrs:
            return o.attrs[name]
        if name == '__class__':
            return o.cls
        st = inspect.getattr_static(o.cls, name, UNDEF)
        if st is UNDEF:
            raise PyRaise(AttributeError, (name,))
        if isinstance(st, property):
            return self.call(st.fget, (o,))
        if isinstance(st, staticmethod):
            return st.__func__
        if isinstance(st, classmethod):
            return Bound(o.cls, st.__func__)
        if isinstance(st, types.FunctionType):
            return Bound(o, st)
        return st

    def setattr(self, o, name, v):
        if self.in_symbolic_body() and not isinstance(o, Opaque):
            raise Unsupported('attribute assignment in a symbolic loop')
        if isinstance(o, SObj):
            st = inspect.getattr_static(o.cls, name, UNDEF)
            if isinstance(st, property):
                if st.fset is None:
                    raise PyRaise(AttributeError, (name,))
                self.call(st.fset, (o, v))
                return
            o.attrs[name] = v
            return
        if hasattr(o, 'setattr_'):
            return o.setattr_(self, name, v)
        raise Unsupported(f'attribute assignment on {type(o).__name__}')

    def getitem(self, o, k):
        if isinstance(o, SObj):
            f = inspect.getattr_static(o.cls, '__getitem__', None)
            if f is None:
                raise PyRaise(TypeError, ('not subscriptable',))
            return self.call(f, (o, k))
        for cls, g, s in TYPE_INDEX:
            if isinstance(o, cls):
                return g(self, o, k)
        if isinstance(o, (list, tuple, str)):
            if isinstance(k, Sym):
                return self.select_from(o, k)
            if isinstance(k, slice) and is_symbolic((k.start, k.stop, k.step)):
                raise Unsupported('symbolic slice of a python sequence')
            if is_symbolic(k):
                raise Unsupported('index')
            try:
                return o[k]
            except Exception as ex:
                raise PyRaise(type(ex), ex.args)
        if isinstance(o, dict):
            if isinstance(k, Sym):
                return self.select_from(o, k)
            if isinstance(k, Str):
                raise Unsupported('opaque key')
            try:
                return o[k]
            except KeyError as ex:
                raise PyRaise(KeyError, ex.args)
        if isinstance(o, SList):
            if isinstance(k, (int, Sym)):
                e = zi(k)
                if isinstance(k, int) and k < 0:
                    e = simp(dz(o.n) + k)
                self.ctx.oblige_safe('list index in range', z3.And(e >= 0, e < dz(o.n)))
                return o.fn(e)
            raise Unsupported('slice of symbolic list')
        if is_symbolic(o) or is_symbolic(k):
            if isinstance(o, np.ndarray):
                from . import npmodel
                return self.getitem(npmodel.lift(o), k)
            raise Unsupported(f'index {type(o).__name__}[{type(k).__name__}]')
        try:
            return o[k]
        except Exception as ex:
            raise PyRaise(type(ex), ex.args)

    def select_from(self, o, k):
        items = list(o.items()) if isinstance(o, dict) else list(enumerate(o))
        if not items or not all(isinstance(a, int) for a, _ in items):
            raise Unsupported('symbolic key')
        ok = z3.Or(*[zi(k) == a for a, _ in items])
        if not self.branch(ok):
            raise PyRaise(KeyError if isinstance(o, dict) else IndexError, ())
        if self.ctx.capture is None and self.ctx.pinned is None and not self.ctx.loop_logs:
            r, s = self.ctx._solve([], 2000)
            if r == z3.sat:
                c = s.model().eval(zi(k), model_completion=True)
                if z3.is_int_value(c) and self.ctx.valid(zi(k) == c):
                    for a, v in items:
                        if a == c.as_long():
                            return v
        if all(K.isnum(v) for _, v in items):
            r = items[-1][1]
            for a, v in items[:-1]:
                r = K.ite(zi(k) == a, v, r)
            return r
        if all(isinstance(v, str) for _, v in items):
            return Keyed(o, k)
        raise Unsupported('symbolic selection')

    def setitem(self, o, k, v):
        for cls, g, s in TYPE_INDEX:
            if isinstance(o, cls):
                return s(self, o, k, v)
        if isinstance(o, (list, dict)):
            if self.in_symbolic_body():
                raise Unsupported('container update in a symbolic loop')
            if is_symbolic(k):
                raise Unsupported('symbolic key update')
            try:
                o[k] = v
            except Exception as ex:
                raise PyRaise(type(ex), ex.args)
            return
        if isinstance(o, SObj):
            return self.call(inspect.getattr_static(o.cls, '__setitem__'), (o, k, v))
        raise Unsupported(f'item assignment on {type(o).__name__}')


class Keyed(Str):
    """table[k] for a string table and symbolic integer k"""
    def __init__(self, table, key):
        super().__init__('table entry')
        self.table, self.key = table, key


class Fmt(Str):
    """a string built from literal pieces and printed values"""
    def __init__(self, parts):
        super().__init__('fmt')
        out = []
        for p in parts:
            if isinstance(p, str):
                if not p:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += p
                    continue
            out.append(p)
        self.parts = out

    def __repr__(self):
        return f'Fmt({self.parts})'


def fmt_parts(k):
    if isinstance(k, str):
        return [k]
    if isinstance(k, Fmt):
        return k.parts
    return None


SHOWN = None                # text.Shown: a number printed in some format


def fmt_value(v, spec=''):
    """parts of str(v), or None"""
    for h in WORD_FMT:
        r = h(v, spec)
        if r is not NotImplemented:
            return r
    if isinstance(v, Fmt) and not spec:
        return v.parts
    if isinstance(v, Sym) and v.s == 'i' and not spec:
        return [v]
    if isinstance(v, Sym) and v.s in 'if' and SHOWN is not None:
        return [SHOWN(v, spec)]
    if not is_symbolic(v) and not isinstance(v, PyRaise):
        return [format(v, spec)]
    return None


def fmt_join(pieces):
    """pieces: list of part lists or None"""
    if any(p is None for p in pieces):
        return Str('formatted')
    f = Fmt([x for p in pieces for x in p])
    if all(isinstance(x, str) for x in f.parts):
        return ''.join(f.parts)
    return f


def fmt_format(template, args, kwargs):
    import string
    auto = 0
    pieces = []
    held = []
    if isinstance(template, Fmt):
        # pieces that are not literal keep their place; none of them is part of a field
        t = ''
        for p in template.parts:
            if isinstance(p, str):
                if any(0xe000 <= ord(ch) < 0xf8ff for ch in p):
                    return Str('formatted')
                t += p
            else:
                t += chr(0xe000 + len(held))
                held.append(p)
        template = t

    def lit_parts(lit):
        out, cur = [], ''
        for ch in lit:
            if held and 0xe000 <= ord(ch) < 0xf8ff:
                out += [cur, held[ord(ch) - 0xe000]]
                cur = ''
            else:
                cur += ch
        return out + [cur]
    try:
        fields = list(string.Formatter().parse(template))
    except ValueError as ex:
        raise PyRaise(ValueError, ex.args)
    for lit, field, spec, conv in fields:
        if lit:
            pieces.append(lit_parts(lit))
        if field is None:
            continue
        if conv or (spec and '{' in spec) or any(ord(ch) >= 0xe000 for ch in field + spec):
            return Str('formatted')
        first = field.split('.')[0].split('[')[0]
        if first == '':
            if auto >= len(args):
                raise PyRaise(IndexError, ('Replacement index %d out of range for positional args tuple' % auto,))
            v = args[auto]
            auto += 1
        elif first.isdigit():
            if int(first) >= len(args):
                raise PyRaise(IndexError, ('Replacement index out of range',))
            v = args[int(first)]
        elif first in kwargs:
            v = kwargs[first]
        elif first.isidentifier():
            raise PyRaise(KeyError, (first,))
        else:
            return Str('formatted')
        if first != field:
            if is_symbolic(v):
                return Str('formatted')
            v = string.Formatter().get_field('0' + field[len(first):], (v,), {})[0]
        pieces.append(fmt_value(v, spec))
    return fmt_join(pieces)


class Conflict:
    pass


class Frame:
    def __init__(self, env, f):
        self.env, self.f = env, f
        self.exc = None
        self.cont_guards = 0
        self.nonlocals = set()
        self.yields = None
        self.entry = (len(K.CTX.guards), len(K.CTX.loop_logs))

    def touch(self, n):
        pass


class EnvChain:
    def __init__(self, fr):
        self.fr = fr

    def __contains__(self, n):
        return n in self.fr.env or (self.fr.f.closure is not None and n in self.fr.f.closure)

    def __getitem__(self, n):
        if n in self.fr.env:
            return self.fr.env[n]
        return self.fr.f.closure[n]

    def __setitem__(self, n, v):
        if n in self.fr.env:
            self.fr.env[n] = v
        else:
            self.fr.f.closure[n] = v


def walk_own(node):
    """nodes of a function body without nested functions"""
    stack = list(node.body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


def mentions(e, c):
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        if x.eq(c):
            return True
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        st.extend(x.children())
        if z3.is_quantifier(x):
            st.append(x.body())
    return False


def in_rng(idx, shape):
    return K.in_range(idx, shape)


def conjuncts(e):
    if z3.is_and(e):
        out = []
        for c in e.children():
            out += conjuncts(c)
        return out
    return [e]


def solve_index(g, i, w):
    """from guard g(i, w) find a function w -> i (i is determined by the location), or None"""
    for c in conjuncts(simp(g)) + conjuncts(g):
        if not z3.is_eq(c) or c.arg(0).sort() != K.I_:
            continue
        lhs, rhs = c.arg(0), c.arg(1)
        d = simp(lhs - rhs)
        if not mentions(d, i):
            continue
        # d = a*i + rest, with a in {1,-1}
        d0 = simp(subst_expr(d, [(i, z3.IntVal(0))]))
        d1 = simp(subst_expr(d, [(i, z3.IntVal(1))]) - subst_expr(d, [(i, z3.IntVal(0))]))
        if not z3.is_int_value(d1) or abs(d1.as_long()) != 1:
            continue
        # check linearity
        chk = simp(d - (d0 + d1 * i))
        if not (z3.is_int_value(chk) and chk.as_long() == 0):
            continue
        sol = simp(-d0) if d1.as_long() == 1 else simp(d0)
        if not any(mentions(sol, x) for x in w):
            continue
        return lambda idx, sol=sol: simp(subst_expr(sol, list(zip(w, idx))))
    return None


def make_list(n, fn, sample, emit, i):
    if K.isnum(sample):
        dt = K.sort_of(sample)
        return Arr((n,), dt, lambda idx: fn(idx[0]) if isinstance(sample, Sym) else sample, islist=True) \
            if not isinstance(sample, Sym) else _num_list(n, fn, dt, emit, i)
    return SList(n, lambda e: _with_facts(fn, e, emit, i))


def _num_list(n, fn, dt, emit, i):
    def g(idx):
        emit([(i, idx[0])])
        return fn(idx[0])
    return Arr((n,), dt, g, islist=True)


def _with_facts(fn, e, emit, i):
    emit([(i, e)])
    return fn(e)


UNOPS, COMPARE, CONTAINS, TRUTH, JOIN, WORD_FMT = [], [], [], [], [], []
LIST_IADD, BYTES_JOIN, STARRED, FLOAT = [], [], [], []
FORCE_MODEL = set()


@model(os.path.join)
def os_join(it, first, *rest):
    """posix join of text whose pieces are literal or decimal integers"""
    out = first
    for r in rest:
        p, q = fmt_parts(out), fmt_parts(r)
        if p is None or q is None:
            return Str('path')
        if q and isinstance(q[0], str) and q[0].startswith('/'):
            out = r
        elif not p or (isinstance(p[-1], str) and (p[-1].endswith('/') or (len(p) == 1 and p[-1] == ''))):
            out = fmt_join([p, q])
        else:
            out = fmt_join([p, ['/'], q])
    return out
