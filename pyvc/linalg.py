"""matrices of symbolic size: products, transposes, inverses and factorisations as terms of the matrix algebra.

A product of symbolic size has opaque elements el(W, i, j) for a word W of letters (a matrix, possibly transposed or
inverted).  Any array is read back as a linear combination of words from its element expression at generic (i, j), so
copies, views, transposes, scalings and sums made by the code are recognised by what they compute.  Identities of the
library routines (cholesky: U'U = A; gmw by contract; eigh: V'V = 1) are rewriting rules on words; `normal` applies them.
Trusted: that the rewriting is that of the ring of real matrices (checked numerically in pyvc/selftest.py)."""
import numpy as np
import scipy as sp
import scipy.linalg
import z3
from . import core as K
from . import interp as I
from . import npmodel as N
from .core import Arr, Sym, Unsupported, PyRaise, dz, simp

MAT = z3.DeclareSort('Mat')
EL = z3.Function('el', MAT, K.I_, K.I_, K.R_)
I0, J0 = z3.Int('canon!i'), z3.Int('canon!j')
ONE = z3.RealVal(1)


class Reg:
    def __init__(self):
        self.atoms = []          # (z3 Mat const, element expr over I0,J0 or None, shape, symmetric)
        self.words = {}          # word -> z3 Mat const
        self.back = {}           # id of Mat const -> word (and the const kept alive)
        self.rules = []          # (word, poly)
        self.inv = set()         # atoms known invertible
        self.side = []           # facts about the element read last, over I0, J0
        self.sides = {}          # atom -> facts about its elements


def reg():
    r = K.CTX.mats.get('linalg')
    if r is None:
        r = K.CTX.mats['linalg'] = Reg()
    return r


# a letter is (atom index, transposed, inverted); a word a tuple of letters; a polynomial a list of (coefficient, word)
def poly_add(p, q):
    out = list(p)
    for c, w in q:
        for k, (c0, w0) in enumerate(out):
            if w0 == w:
                out[k] = (simp(c0 + c), w)
                break
        else:
            out.append((c, w))
    return [(c, w) for c, w in out if not (z3.is_rational_value(c) and c.as_fraction() == 0)]


def cancel(w):
    """inverse letters next to their matrix"""
    out = []
    for l in w:
        if out and out[-1][0] == l[0] and out[-1][1] == l[1] and out[-1][2] != l[2]:
            out.pop()
        else:
            out.append(l)
    return tuple(out)


def poly_mul(p, q):
    out = []
    for c, w in p:
        for d, v in q:
            out = poly_add(out, [(simp(c * d), cancel(w + v))])
    return out


def canon(e):
    """arguments of the symmetric functions (an input matrix assumed symmetric) in one order"""
    names = K.CTX.mats.get('symf', ())
    memo = {}

    def walk(x):
        k = x.get_id()
        if k not in memo:
            if not z3.is_app(x) or not x.num_args():
                r = x
            else:
                ch = [walk(c) for c in x.children()]
                if x.decl().name() in names and len(ch) == 2 and ch[0].get_id() > ch[1].get_id():
                    ch.reverse()
                r = x.decl()(*ch) if x.decl().kind() not in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_ADD, z3.Z3_OP_MUL) else \
                    {z3.Z3_OP_AND: z3.And, z3.Z3_OP_OR: z3.Or, z3.Z3_OP_ADD: z3.Sum, z3.Z3_OP_MUL: z3.Product}[x.decl().kind()](*ch)
            memo[k] = (x, r)
        return memo[k][1]
    return simp(walk(e)) if names else e


def flip(l):
    a, t, i = l
    R = reg()
    m, e, sh, sym = R.atoms[a]
    if sym is None:
        sym = False
        if dimkey(sh[0]) == dimkey(sh[1]):
            sw = lambda x: z3.substitute(x, (I0, J0), (J0, I0))
            side = R.sides.get(a, [])
            f, n = simp(sw(e)), dz(sh[0])
            sym = f.eq(e) or canon(f).eq(canon(e)) or K.CTX.valid(z3.Implies(z3.And(I0 >= 0, J0 >= 0, I0 < n, J0 < n, *side, *[sw(x) for x in side]), e == f), 400)
        R.atoms[a] = (m, e, sh, sym)
    return l if sym else (a, not t, i)


def poly_T(p):
    return [(c, tuple(flip(l) for l in reversed(w))) for c, w in p]


def scale(c, p):
    return [(simp(c * d), w) for d, w in p]


def normal(p, limit=200):
    """apply the rules until none applies"""
    R = reg()
    for _ in range(limit):
        for k, (c, w) in enumerate(p):
            hit = None
            for lhs, rhs in R.rules:
                for s in range(len(w) - len(lhs) + 1):
                    if w[s:s + len(lhs)] == lhs:
                        hit = (s, lhs, rhs)
                        break
                if hit:
                    break
            if hit:
                s, lhs, rhs = hit
                rest = p[:k] + p[k + 1:]
                new = [(simp(c * d), cancel(w[:s] + v + w[s + len(lhs):])) for d, v in rhs]
                p = poly_add(rest, new)
                break
        else:
            return p
    raise Unsupported('matrix rewriting does not end')


def equal(p, q):
    """z3 Bool: sufficient for the two polynomials to denote the same matrix"""
    d = normal(poly_add(p, scale(z3.RealVal(-1), q)))
    return z3.And(*[c == 0 for c, w in d]) if d else z3.BoolVal(True)


def new_atom(shape, expr=None, name='A', sym=False):
    R = reg()
    m = z3.Const(f'{name}!{next(K.CTX.fresh_n)}', MAT)
    R.atoms.append((m, expr, tuple(shape), sym))
    k = len(R.atoms) - 1
    if expr is not None and R.side:
        R.sides[k] = list(R.side)
    w = ((k, False, False),)
    R.words[w] = m
    R.back[m.get_id()] = w
    return k


def letter(k, t=False, inv=False):
    return [(ONE, ((k, t, inv),))]


def word_const(w):
    R = reg()
    if w not in R.words:
        m = z3.Const(f'word!{next(K.CTX.fresh_n)}', MAT)
        R.words[w] = m
        R.back[m.get_id()] = w
    return R.words[w]


def dimkey(d):
    return d if isinstance(d, int) else simp(dz(d)).get_id()


def uses(e, vs):
    seen, todo = set(), [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if any(x.eq(v) for v in vs):
            return True
        todo.extend(x.children())
    return False


def parse(e):
    """polynomial of an element expression over (I0, J0); None when it is not one"""
    R = reg()
    k = e.decl().kind()
    if k == z3.Z3_OP_ADD:
        out = []
        for c in e.children():
            p = parse(c)
            if p is None:
                return None
            out = poly_add(out, p)
        return out
    if k == z3.Z3_OP_SUB:
        ps = [parse(c) for c in e.children()]
        if any(p is None for p in ps):
            return None
        out = ps[0]
        for p in ps[1:]:
            out = poly_add(out, scale(z3.RealVal(-1), p))
        return out
    if k == z3.Z3_OP_UMINUS:
        p = parse(e.arg(0))
        return None if p is None else scale(z3.RealVal(-1), p)
    if k == z3.Z3_OP_MUL:
        free = [c for c in e.children() if not uses(c, (I0, J0))]
        used = [c for c in e.children() if uses(c, (I0, J0))]
        if len(used) != 1:
            return None
        p = parse(used[0])
        c = z3.simplify(z3.Product(*free)) if free else ONE
        return None if p is None else scale(c, p)
    if k == z3.Z3_OP_DIV and not uses(e.arg(1), (I0, J0)):
        p = parse(e.arg(0))
        return None if p is None else scale(ONE / e.arg(1), p)
    if e.decl().eq(EL) and e.arg(0).get_id() in R.back:
        w = R.back[e.arg(0).get_id()]
        if e.arg(1).eq(I0) and e.arg(2).eq(J0):
            return [(ONE, w)]
        if e.arg(1).eq(J0) and e.arg(2).eq(I0):
            return poly_T([(ONE, w)])
    if k == z3.Z3_OP_ITE and e.arg(0).decl().kind() == z3.Z3_OP_EQ and \
            {e.arg(0).arg(0).get_id(), e.arg(0).arg(1).get_id()} == {I0.get_id(), J0.get_id()} and \
            z3.is_rational_value(e.arg(2)) and e.arg(2).as_fraction() == 0 and not uses(e.arg(1), (I0, J0)):
        return [(e.arg(1), ())]
    return None


def element(a):
    a = N.as_arr(a)
    if a.ndim != 2:
        raise Unsupported('matrix operation on an array that is not 2-d')
    v, extra = K.bound(lambda: a.fn((I0, J0)))
    for f in extra:
        if not uses(f, (I0, J0)):
            K.CTX.fact(f)
    reg().side = extra = [f for f in extra if uses(f, (I0, J0))]
    x, k = K.fl(v)
    if k is not None:
        i, j = K.CTX.fresh('i', K.I_), K.CTX.fresh('j', K.I_)
        n, m = dz(a.shape[0]), dz(a.shape[1])
        ok = K.fin(a.fn((i, j)))
        if not K.CTX.strong(z3.Implies(z3.And(i >= 0, i < n, j >= 0, j < m), ok)):
            raise Unsupported('matrix with elements that may be infinite or NaN')
    return simp(x)


def read(a):
    """the polynomial an array denotes"""
    a = N.as_arr(a)
    e = element(a)
    p = parse(e)
    if p is not None:
        return p
    R = reg()
    for k, (m, x, sh, sym) in enumerate(R.atoms):
        if x is not None and x.eq(e) and [dimkey(d) for d in sh] == [dimkey(d) for d in a.shape]:
            return letter(k)
        if x is not None and [dimkey(d) for d in reversed(sh)] == [dimkey(d) for d in a.shape] and \
                simp(z3.substitute(x, (I0, J0), (J0, I0))).eq(e):
            return poly_T(letter(k))
    return letter(new_atom(a.shape, e, sym=None))


def elem_of(w, i, j):
    R = reg()
    if w == ():
        return z3.If(i == j, ONE, z3.RealVal(0))
    if len(w) == 1 and not w[0][2]:
        m, x, sh, sym = R.atoms[w[0][0]]
        if w[0][1]:
            i, j = j, i
        if x is not None:
            for f in R.sides.get(w[0][0], ()):
                K.CTX.fact(z3.substitute(f, (I0, i), (J0, j)))
            return z3.substitute(x, (I0, i), (J0, j))
        return EL(m, i, j)
    return EL(word_const(w), i, j)


def build(p, shape):
    """the array of a polynomial"""
    p = normal(p)
    for c, w in p:
        if w and not (len(w) == 1 and not w[0][2]):
            word_const(w)          # named now

    def fn(idx):
        r = z3.RealVal(0)
        for c, w in p:
            r = r + c * elem_of(w, idx[0], idx[1])
        return K.mkf(simp(r))
    return Arr(shape, 'f', fn)


def small(*ds):
    return all(isinstance(d, int) and d <= 8 for d in ds)


def inner(a, b):
    if K.dim_eq(a, b):
        return
    if not K.CTX.decide(dz(a) == dz(b), 'matrix product'):
        raise PyRaise(ValueError, ('shapes not aligned',))


def swap_of(p):
    """the transposition of which p is the permutation matrix (proved from its elements), or None"""
    if not K.dim_eq(p.shape[0], p.shape[1]):
        return None
    v, extra = K.bound(lambda: p.fn((I0, J0)))
    e, k = K.fl(v)
    if k is not None or extra:
        return None
    e = simp(e)
    terms, seen, todo = {}, set(), [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() and x.sort() == K.R_:
            return None
        if z3.is_eq(x) and x.arg(0).sort() == K.I_:
            for y, z in ((x.arg(0), x.arg(1)), (x.arg(1), x.arg(0))):
                if (y.eq(I0) or y.eq(J0)) and not uses(z, (I0, J0)):
                    terms[z.get_id()] = z
        todo.extend(x.children())
    ts = list(terms.values())[:4]
    n = dz(p.shape[0])
    for a in range(len(ts)):
        for b in range(a + 1, len(ts)):
            tau = lambda x, a=ts[a], b=ts[b]: z3.If(x == a, b, z3.If(x == b, a, x))
            if K.CTX.valid(z3.Implies(z3.And(I0 >= 0, I0 < n, J0 >= 0, J0 < n), e == z3.If(I0 == tau(J0), ONE, z3.RealVal(0))), 2000):
                K.CTX.trusted.add('numpy.dot with the permutation matrix of a transposition exchanges two rows or columns')
                return tau
    return None


def dot(it, a, b):
    a, b = N.as_arr(a), N.as_arr(b)
    if a.ndim == 2 and b.ndim == 2:
        inner(a.shape[1], b.shape[0])
        if small(a.shape[1]):
            sa, sb = a.snap(), b.snap()

            def fn(idx):
                r = 0.0
                for k in range(a.shape[1]):
                    r = K.add(r, K.mul(sa((idx[0], z3.IntVal(k))), sb((z3.IntVal(k), idx[1]))))
                return r
            return Arr((a.shape[0], b.shape[1]), N.dtjoin(a.dtype, b.dtype), fn)
        t = swap_of(b)
        if t is not None:
            element(a)
            f = a.snap()
            return Arr(a.shape, N.dtjoin(a.dtype, b.dtype), lambda idx: f((idx[0], t(idx[1]))))
        t = swap_of(a)
        if t is not None:
            element(b)
            f = b.snap()
            return Arr(b.shape, N.dtjoin(a.dtype, b.dtype), lambda idx: f((t(idx[0]), idx[1])))
        return build(poly_mul(read(a), read(b)), (a.shape[0], b.shape[1]))
    if a.ndim == 1 and b.ndim == 1 and small(a.shape[0]):
        inner(a.shape[0], b.shape[0])
        r = 0.0
        for k in range(a.shape[0]):
            r = K.add(r, K.mul(a.fn((z3.IntVal(k),)), b.fn((z3.IntVal(k),))))
        return r
    if a.ndim == 2 and b.ndim == 1 and small(a.shape[1]):
        inner(a.shape[1], b.shape[0])
        sa, sb = a.snap(), b.snap()

        def fn1(idx):
            r = 0.0
            for k in range(a.shape[1]):
                r = K.add(r, K.mul(sa((idx[0], z3.IntVal(k))), sb((z3.IntVal(k),))))
            return r
        return Arr((a.shape[0],), N.dtjoin(a.dtype, b.dtype), fn1)
    return NotImplemented


N.DOT.append(dot)


def square(a):
    if not K.dim_eq(a.shape[0], a.shape[1]) and not K.CTX.decide(dz(a.shape[0]) == dz(a.shape[1]), 'square'):
        raise PyRaise(np.linalg.LinAlgError, ('not square',))


def symmetrised(a, lower):
    """the symmetric matrix of one triangle (cholesky and eigh read only that one)"""
    p = read(a)
    if p == poly_T(p):
        return p
    e = element(a)
    reg().side = reg().side + [z3.substitute(x, (I0, J0), (J0, I0)) for x in reg().side]
    f = simp(z3.substitute(e, (I0, J0), (J0, I0)))
    c = I0 >= J0 if lower else I0 <= J0
    x = simp(z3.If(c, e, f))
    for k, (m, y, sh, s) in enumerate(reg().atoms):
        if y is not None and y.eq(x):
            return letter(k)
    return letter(new_atom(a.shape, x, 'S', True))


def rule(lhs, rhs):
    """lhs word = rhs polynomial"""
    reg().rules.append((lhs, rhs))


def gram(u, p):
    """record U'U = p for the atom u"""
    g = ((u, True, False), (u, False, False))
    if len(p) == 1 and len(p[0][1]) > 1:
        c, w = p[0]
        rule(w, [(simp(ONE / c), g)])
        K.CTX.fact(c != 0)
    else:
        rule(g, p)


LOG = []        # called with (name, dict) when a factorisation is made; contracts look at what was factored


def note(name, **kw):
    for h in LOG:
        h(name, kw)


@I.model(sp.linalg.cholesky)
def sp_cholesky(it, a, lower=False, overwrite_a=False, check_finite=True):
    a = N.as_arr(a)
    square(a)
    p = symmetrised(a, bool(lower))
    if not K.CTX.fork('cholesky'):
        note('cholesky', arg=p, out=None)
        raise PyRaise(np.linalg.LinAlgError, ('not positive definite',))
    if overwrite_a:
        raise Unsupported('cholesky in place')
    u = new_atom(a.shape, None, 'U')
    K.CTX.trusted.add('scipy.linalg.cholesky: U upper with U\'U = A or LinAlgError')
    gram(u, p)
    reg().inv.add(u)
    note('cholesky', arg=p, out=u)
    return build(letter(u, bool(lower)), a.shape)


@I.model(np.linalg.cholesky)
def np_cholesky(it, a):
    return sp_cholesky(it, a, lower=True)


@I.model(np.linalg.inv, sp.linalg.inv)
def np_inv(it, a, *x, **k):
    a = N.as_arr(a)
    square(a)
    p = normal(read(a))
    if len(p) != 1:
        raise Unsupported('inverse of a sum')
    c, w = p[0]
    # a singular matrix raises LinAlgError: the inverse exists on this path
    K.CTX.fact(c != 0)
    q = tuple((l[0], l[1], not l[2]) for l in reversed(w))
    if len(w) > 1 and not all(K.dim_eq(reg().atoms[l[0]][2][0], reg().atoms[l[0]][2][1]) for l in w):
        raise Unsupported('inverse of a product of rectangular matrices')
    return build([(simp(ONE / c), q)], a.shape)


def eigh_(it, a, lower=True):
    a = N.as_arr(a)
    square(a)
    p = symmetrised(a, lower)
    n = a.shape[0]
    k = next(K.CTX.fresh_n)
    lam = z3.Function(f'eig!{k}', K.I_, K.R_)
    v = new_atom((n, n), None, 'V')
    reg().side = []
    lm = new_atom((n, n), simp(z3.If(I0 == J0, lam(I0), z3.RealVal(0))), 'Lam', True)
    V, VT = (v, False, False), (v, True, False)
    rule((VT, V), [(ONE, ())])
    rule((V, VT), [(ONE, ())])
    rule(((v, False, True),), [(ONE, (VT,))])          # the inverse of an orthogonal matrix is its transpose
    rule(((v, True, True),), [(ONE, (V,))])
    rule((V, (lm, False, False), VT), p)
    if len(p) == 1 and len(p[0][1]) == 1:
        c, w = p[0]
        ic = simp(ONE / c)
        K.CTX.fact(c != 0)
        rule(w + (V,), [(ic, (V, (lm, False, False)))])
        rule((VT,) + w, [(ic, ((lm, False, False), VT))])
    a0 = a.snap()
    N_ = dz(n)
    x, y = z3.Ints(f'ex!{k} ey!{k}')
    K.CTX.axioms.append(z3.ForAll([x, y], z3.Implies(z3.And(x >= 0, x <= y, y < N_), lam(x) <= lam(y)), patterns=[z3.MultiPattern(lam(x), lam(y))]))
    # Rayleigh: a diagonal element lies between the extreme eigenvalues
    K.CTX.forall(n, lambda i: z3.And(lam(z3.IntVal(0)) <= K.fl(a0((i, i)))[0], K.fl(a0((i, i)))[0] <= lam(N_ - 1)))
    K.CTX.trusted.add("eigh: V orthogonal, eigenvalues ascending, A = V diag V', extreme eigenvalues bound the diagonal")
    note('eigh', arg=p, vec=v, lam=lam, diag=lm)
    return Arr((n,), 'f', lambda idx: K.mkf(lam(idx[0]))), build(letter(v), (n, n))


@I.model(np.linalg.eigh)
def np_eigh(it, a, UPLO='L'):
    return eigh_(it, a, str(UPLO).upper() == 'L')


@I.model(sp.linalg.eigh)
def sp_eigh(it, a, b=None, lower=True, **k):
    if b is not None or k:
        raise Unsupported('generalised eigenproblem')
    return eigh_(it, a, lower)
