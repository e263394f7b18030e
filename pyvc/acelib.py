"""text and binary files made of a known sequence of parts, some of which have any length:
  Segs     a python list made of literal elements and lists of symbolic length
  LibFile  a text file that is a Segs of lines, read line by line at a symbolic position
  BinFile  a binary file that is a sequence of struct fields at symbolic offsets
Reading in a generic iteration of a loop moves the position: by the loop rule (invariant: position = position before + iteration)."""
import struct
import re
import z3
import numpy as np
from . import core as K
from . import interp as I
from . import text as T
from . import words as W
from .core import Sym, Str, Arr, SList, Unsupported, PyRaise, dz, zi, simp, mk
from .interp import Fmt, Model


def num(e):
    e = simp(e)
    return e.as_long() if z3.is_int_value(e) else None


# ---------------------------------------------------------------- lists with parts of symbolic length
class Segs:
    def __init__(self, parts):
        self.parts = []
        for p in parts:
            if isinstance(p, list):
                if self.parts and isinstance(self.parts[-1], list):
                    self.parts[-1] = self.parts[-1] + p
                elif p:
                    self.parts.append(list(p))
            else:
                self.parts.append(p)
        self.offs = [z3.IntVal(0)]
        for p in self.parts:
            self.offs.append(simp(self.offs[-1] + (len(p) if isinstance(p, list) else dz(p.n))))

    @property
    def n(self):
        return self.offs[-1]

    def at(self, e):
        """the element at position e; None past the end"""
        e = simp(zi(e))
        if num(e - self.n) is not None and num(e - self.n) >= 0:
            return None
        for p, o in zip(self.parts, self.offs):
            d = simp(e - o)
            k = num(d)
            if isinstance(p, list):
                if k is not None and 0 <= k < len(p):
                    return p[k]
            elif K.CTX.valid(z3.And(d >= 0, d < dz(p.n))):
                return p.fn(d)
        for k, (p, o) in enumerate(zip(self.parts, self.offs)):
            # the element before a list of lines may be the line before them
            x = self.parts[k - 1][-1] if k and isinstance(self.parts[k - 1], list) else None
            if isinstance(p, SList) and isinstance(x, W.Words) and K.CTX.valid(z3.And(e >= o - 1, e < o + dz(p.n))):
                y = p.fn(z3.IntVal(-1))
                q = K.CTX.fresh('q', K.I_)
                if isinstance(y, W.Words) and K.CTX.valid(y.w(q) == x.w(q)) and y.nl == x.nl and y.norm == x.norm and K.CTX.valid(z3.And(x.lo == y.lo, x.hi == y.hi, x.start == y.start, x.end == y.end)):
                    return p.fn(simp(e - o))
        for tries in (0, 1, 2):
            for p, o in zip(self.parts, self.offs):
                if isinstance(p, list):
                    for k in range(len(p)):
                        if K.CTX.valid(e == o + k):
                            return p[k]
                elif tries == 1 and K.CTX.decide(z3.And(e >= o, e < o + dz(p.n)), 'which part of the file'):
                    return p.fn(simp(e - o))
            if K.CTX.valid(e >= self.n):
                return None
        raise Unsupported(f'which line is read: {e} of {self.offs}'[:300])

    def cut(self, e):
        """(part, offset in it) of a boundary"""
        e = simp(zi(e))
        for tries in (0, 1):
            for k, (p, o) in enumerate(zip(self.parts, self.offs)):
                d = simp(e - o)
                j = num(d)
                if j == 0 or tries and K.CTX.valid(d == 0):
                    return k, z3.IntVal(0)
                if isinstance(p, list):
                    if j is not None and 0 <= j < len(p):
                        return k, z3.IntVal(j)
                elif tries and K.CTX.valid(z3.And(d >= 0, d < dz(p.n))):
                    return k, d
            if num(e - self.n) == 0 or tries and K.CTX.valid(e >= self.n):
                return len(self.parts), z3.IntVal(0)
        raise Unsupported('slice of a list of symbolic length')

    def slice(self, a, b):
        if not K.CTX.valid(zi(a) <= zi(b)):
            raise Unsupported('slice that may be empty')
        (i, x), (j, y) = self.cut(a), self.cut(b)
        out = []
        for k in range(i, min(j + 1, len(self.parts))):
            p = self.parts[k]
            n = z3.IntVal(len(p)) if isinstance(p, list) else dz(p.n)
            lo, hi = x if k == i else z3.IntVal(0), y if k == j else n
            if isinstance(p, list):
                out.append(p[num(lo):num(hi)])
            elif num(hi - lo) != 0:
                out.append(SList(simp(hi - lo), lambda q, p=p, lo=lo: p.fn(simp(lo + q))))
        return segs(out)


def segs(parts):
    s = Segs(parts)
    if not s.parts:
        return []
    return s.parts[0] if len(s.parts) == 1 else s


def sg_getitem(it, o, k):
    if isinstance(k, slice):
        if k.step not in (None, 1):
            raise Unsupported('step of a slice')
        z = lambda v, d: d if v is None else mk(simp(zi(v) + o.n)) if isinstance(v, int) and v < 0 else v
        return o.slice(z(k.start, 0), z(k.stop, mk(o.n)))
    if isinstance(k, int) and k < 0:
        k = mk(simp(o.n + k))
    v = o.at(zi(k))
    if v is None:
        raise PyRaise(IndexError, ('list index out of range',))
    return v


I.TYPE_INDEX.insert(0, (Segs, sg_getitem, None))
I.LEN.append(lambda it, v: mk(v.n) if isinstance(v, Segs) else NotImplemented)
I.TRUTH.append(lambda it, v: mk(simp(v.n != 0)) if isinstance(v, Segs) else NotImplemented)


def as_segs(v):
    return v.parts if isinstance(v, Segs) else [list(v)] if isinstance(v, (list, tuple)) else [v]


def h_binop(it, op, a, b):
    if isinstance(op, I.ast.Add) and (isinstance(a, (Segs, SList)) or isinstance(b, (Segs, SList))) and isinstance(a, (list, Segs, SList)) and isinstance(b, (list, Segs, SList)):
        return segs(as_segs(a) + as_segs(b))
    return NotImplemented


I.BINOPS.insert(0, h_binop)


class Gone:
    """an element of a list that was extended in place: its other names are not followed"""


def list_iadd(cur, v):
    r = segs(as_segs(cur) + as_segs(v))
    cur[:] = [Gone()]
    return r


I.LIST_IADD.append((lambda v: isinstance(v, (Segs, SList)), list_iadd))


def join(it, sep, v):
    if isinstance(v, Segs) or isinstance(v, (list, tuple)) and any(isinstance(x, W.Words) for x in v):
        out = None
        for p in as_segs(v):
            for x in (p if isinstance(p, list) else [W.join(it, sep, p)]):
                if out is not None and sep:
                    out = W.concat(out, sep)
                out = x if out is None else W.concat(out, x)
                if out is NotImplemented:
                    raise Unsupported('join')
        return out
    return W.join(it, sep, v)


I.JOIN.insert(0, join)


# ---------------------------------------------------------------- words as numbers
NUMVAL = z3.Function('number denoted by a word', K.I_, K.R_)
PLAIN = z3.Function('word is a number for float()', K.I_, K.B_)
FIX = z3.Function('word with the exponent letter added', K.I_, K.I_)
LIT = z3.Function('word with a literal text', K.I_, K.I_)


def number_axioms():
    """every word of the data is a number in one of two forms: float() reads it, or only the exponent letter is missing"""
    x = z3.Int('x!word')
    return [z3.ForAll([x], z3.And(PLAIN(FIX(x)), NUMVAL(FIX(x)) == NUMVAL(x)), patterns=[FIX(x)]),
            z3.ForAll([x], z3.Implies(PLAIN(x), FIX(x) == x), patterns=[FIX(x)])]


def literal_word(s):
    ctx = K.CTX
    d = ctx.__dict__.setdefault('literal_words', [])
    if s not in d:
        d.append(s)
    e = LIT(z3.IntVal(d.index(s)))
    v = float(s)
    ctx.fact(z3.And(PLAIN(e), NUMVAL(e) == z3.RealVal(repr(v)), e < 0))
    return e


def concat_literal(a, b):
    """literal words in front of a text of words"""
    if isinstance(a, str) and isinstance(b, W.Words) and a.strip():
        if not (a[-1].isspace() or K.CTX.valid(z3.And(b.start, b.lo < b.hi))):
            raise Unsupported('words may be joined')
        ws = [literal_word(s) for s in a.split()]
        k = len(ws)

        def w(q):
            r = b.w(simp(b.lo + q - k))
            for j, e in reversed(list(enumerate(ws))):
                r = z3.If(q == j, e, r)
            return simp(r)
        r = W.Words(w, z3.IntVal(0), simp(b.n + k), z3.BoolVal(a[0].isspace()), simp(z3.If(b.lo == b.hi, z3.BoolVal(True), b.end)), b.nl, False)
        r.src = k, b
        return r
    return NotImplemented


W.CONCAT.append(concat_literal)


def float_word(e):
    if not K.CTX.valid(PLAIN(e)):
        raise Unsupported('float of a word that may lack its exponent letter')
    return Sym('f', NUMVAL(e))


I.FLOAT.append(lambda v: float_word(v.e) if isinstance(v, W.WordStr) else NotImplemented)


def all_plain(w, lo, hi):
    q = K.CTX.fresh('q', K.I_)
    return K.CTX.valid(z3.Implies(z3.And(q >= lo, q < hi), PLAIN(w(q))))


def fromstring(it, s, dtype=float, count=-1, *, sep=None):
    ctx = K.CTX
    if isinstance(s, W.Words):
        if sep != ' ' or count != -1 or dtype not in (float, np.float64, 'float'):
            raise Unsupported('fromstring')
        val = lambda idx: Sym('f', NUMVAL(s.at(idx[0])))
        if all_plain(s.w, s.lo, s.hi):
            return Arr((K.dim(s.n),), 'f', val)
        k, b = getattr(s, 'src', (0, s))           # the first k words are literal numbers
        q = z3.Int(f'q!{next(ctx.fresh_n)}')
        pat = [b.w(q)] if b.w(q).decl().kind() == z3.Z3_OP_UNINTERPRETED else []
        if ctx.fork('every word is a number for numpy'):
            ctx.axioms.append(z3.ForAll([q], z3.Implies(z3.And(q >= b.lo, q < b.hi), PLAIN(b.w(q))), patterns=pat))
            return Arr((K.dim(s.n),), 'f', val)
        # it stops within the first word that lacks the exponent letter
        p = ctx.fresh('first word without exponent letter', K.I_)
        u = ctx.fresh('mantissa of that word', K.R_)
        ctx.fact(z3.And(p >= b.lo, p < b.hi, z3.Not(PLAIN(b.w(p)))))
        ctx.axioms.append(z3.ForAll([q], z3.Implies(z3.And(q >= b.lo, q < p), PLAIN(b.w(q))), patterns=pat))
        p = simp(p - b.lo + k)
        return Arr((K.dim(simp(p + 1)),), 'f', lambda idx: Sym('f', z3.If(idx[0] == p, u, NUMVAL(s.at(idx[0])))))
    if sep == ' ' and dtype in (int, np.int64, 'int') and count == -1 and isinstance(s, Fmt):
        from . import npmodel as N
        return N.as_arr([T.to_int(w) for w in T.m_split(s)])
    return _old_fromstring(it, s, dtype, count, sep=sep)


_old_fromstring = I.MODELS[id(np.fromstring)][1]
I.MODELS[id(np.fromstring)] = (np.fromstring, fromstring)
FLOAT_RX = r'([\s\-\+]?\d*\.\d+)([\+\-]\d+)'       # what the lemma about FIX is proved for (contracts/pf_c21.py)


def rx_hook(kind, rx, *a):
    s = a[-1]
    if not isinstance(s, W.Words):
        return NotImplemented
    if rx.pattern != FLOAT_RX or rx.flags & ~re.UNICODE:
        raise Unsupported('regular expression on a text of words')
    ctx = K.CTX
    if kind == 'sub':
        if a[0] not in (r'\1e\2', r'\1E\2', r'\g<1>e\g<2>'):
            raise Unsupported('substitution')
        return s.with_(w=lambda q: FIX(s.w(q)))
    if kind == 'search':
        if all_plain(s.w, s.lo, s.hi):
            return None
        if ctx.fork('a word of the line lacks its exponent letter'):
            p = ctx.fresh('such a word', K.I_)
            ctx.fact(z3.And(p >= s.lo, p < s.hi, z3.Not(PLAIN(s.w(p)))))
            return W.Found()
        q = z3.Int(f'q!{next(ctx.fresh_n)}')
        ctx.axioms.append(z3.ForAll([q], z3.Implies(z3.And(q >= s.lo, q < s.hi), PLAIN(s.w(q))), patterns=[s.w(q)] if s.w(q).decl().kind() == z3.Z3_OP_UNINTERPRETED else []))
        if ctx._solve([], 2000)[0] == z3.unsat:
            raise K.Infeasible()
        return None
    raise Unsupported('regular expression')


T.RX_HOOKS.append(rx_hook)


# ---------------------------------------------------------------- bytes
class Bytes:
    """the bytes of an ascii text"""
    def __init__(self, s):
        self.s = s


class Head:
    """the first lines of a file, as bytes. A text has no null bytes; a binary library has some, and may or may not have bytes above 127"""
    def __init__(self, binary, bad=False):
        self.binary, self.bad = binary, bad


def fixed(s, n):
    """the text in a field of n bytes: cut or filled with null bytes"""
    cs = T.cells(s)
    w = T.width(cs)
    if w is None:
        raise Unsupported('length of the text of a field')
    if w > n:
        return T.fmt_getitem(None, s, slice(0, n)) if isinstance(s, Fmt) else s[:n]
    return T.rope(s, '\0' * (n - w)) if w < n else s


def b_attr(it, o, name):
    if name == 'decode':
        return Model(lambda it, enc='utf-8', *a: o.s)
    if name in ('strip', 'rstrip', 'lstrip'):
        return Model(lambda it, *a: Bytes(T.m_strip(o.s, None if not a else a[0].decode(), name != 'rstrip', name != 'lstrip')))
    raise Unsupported('bytes.' + name)


def head_attr(it, o, name):
    def decode(it, enc='utf-8', *a):
        if a:
            raise Unsupported('decode')
        if o.binary and (o.bad or not K.CTX.fork('all bytes are ascii')):
            raise PyRaise(UnicodeDecodeError, (enc, b'', 0, 1, 'ordinal not in range(128)'))
        return Str('the first lines')

    def replace(it, a, b, *n):
        if a == b'\0' and isinstance(b, bytes) and b and max(b) > 127 and not n:
            return Head(o.binary, o.binary)
        raise Unsupported('bytes.replace')

    if name == 'decode':
        return Model(decode)
    if name == 'replace':
        return Model(replace)
    if name == 'find' or name == 'count':
        raise Unsupported('bytes.' + name)
    raise Unsupported('bytes.' + name)


I.TYPE_ATTRS.insert(0, (lambda o: isinstance(o, Bytes), b_attr))
I.TYPE_ATTRS.insert(0, (lambda o: isinstance(o, Head), head_attr))


def head_contains(it, c, x):
    if isinstance(c, Head):
        if x == b'\0':
            return c.binary and not c.bad
        raise Unsupported('search in bytes')
    return NotImplemented


I.CONTAINS.insert(0, head_contains)


def encode(o, enc='utf-8', *a):
    if str(enc).lower().replace('-', '') not in ('utf8', 'ascii'):
        raise Unsupported('encoding')
    return Bytes(o)


T.METHODS['encode'] = encode
_ws = W.METHODS
_ws['encode'] = encode


def bytes_join(it, sep, xs):
    if sep == b'' and isinstance(xs, list) and xs and all(isinstance(x, Head) for x in xs):
        return Head(any(x.binary for x in xs))
    raise Unsupported('join of bytes')


I.BYTES_JOIN.append(bytes_join)


# ---------------------------------------------------------------- struct
SIZES = {'i': 4, 'd': 8, 'f': 4, 'q': 8, 's': 1, 'x': 1}


def parse(fmt):
    """[(count, code)]; a count may be symbolic"""
    ps = [fmt] if isinstance(fmt, str) else fmt.parts if isinstance(fmt, Fmt) else None
    if ps is None:
        raise Unsupported('struct format')
    toks = []
    for p in ps:
        toks.extend(p if isinstance(p, str) else [p])
    if not toks or toks[0] != '=':
        raise Unsupported('struct format without standard sizes')
    out, cnt, dig = [], None, ''
    for t in toks[1:]:
        if isinstance(t, str):
            if t.isspace():
                continue
            if t.isdigit():
                if cnt is not None:
                    raise Unsupported('struct format')
                dig += t
                continue
            if t not in SIZES:
                raise Unsupported('struct code ' + t)
            out.append((int(dig) if dig else 1 if cnt is None else cnt, t))
            cnt, dig = None, ''
        else:
            v = t.val if isinstance(t, T.Shown) else t
            if not isinstance(v, Sym) or v.s != 'i' or dig or cnt is not None:
                raise Unsupported('struct format')
            if not K.CTX.valid(v.e >= 0):
                raise Unsupported('count of a struct format that may be negative')
            cnt = v
    return out


class Star:
    def __init__(self, v):
        self.v = v
        self.n = dz(v.n if isinstance(v, SList) else v.shape[0])

    def at(self, q):
        return self.v.fn(q) if isinstance(self.v, SList) else self.v.snap()((q,))


def starred(f, v):
    if f is struct.pack and (isinstance(v, SList) or isinstance(v, Arr) and v.islist) and not isinstance(v.n if isinstance(v, SList) else v.shape[0], int):
        return Star(v)


I.STARRED.append(starred)


class Field:
    def __init__(self, code, n, val):
        self.code, self.n, self.val = code, n, val          # n: bytes for s and x; number of values for a block
        self.size = simp(zi(n) * SIZES[code])


def check_value(code, v):
    if code == 'i':
        if K.sort_of(v) != 'i':
            raise PyRaise(struct.error, ('required argument is not an integer',))
        if not K.CTX.valid(z3.And(zi(v) >= -2**31, zi(v) < 2**31)):
            raise Unsupported('integer that may not fit')
        return v
    if code == 'd':
        if not K.isnum(v):
            raise PyRaise(struct.error, ('required argument is not a float',))
        return K.cast(v, 'f')
    raise Unsupported('struct code')


@I.model(struct.pack)
def pack(it, fmt, *args):
    out, k = [], 0
    for n, c in parse(fmt):
        if c == 'x':
            out.append(Field('x', n, None))
            continue
        if c == 's':
            if k >= len(args):
                raise PyRaise(struct.error, ('wrong number of items',))
            v = args[k]
            k += 1
            if isinstance(v, bytes):
                v = Bytes(v.decode('latin-1'))
            if not isinstance(v, Bytes):
                raise PyRaise(struct.error, ("argument for 's' must be a bytes object",))
            out.append(Field('s', n, fixed(v.s, n)))
            continue
        if isinstance(n, Sym) or k < len(args) and isinstance(args[k], Star):
            if k >= len(args) or not isinstance(args[k], Star):
                raise Unsupported('number of items')
            a = args[k]
            k += 1
            if not K.CTX.valid(a.n == zi(n)):
                if K.CTX.decide(a.n == zi(n), 'number of items'):
                    pass
                else:
                    raise PyRaise(struct.error, ('wrong number of items',))
            q = K.CTX.fresh('q', K.I_)
            K.CTX.pc.append(z3.And(q >= 0, q < a.n))
            try:
                check_value(c, a.at(q))
            finally:
                K.CTX.pc.pop()
            out.append(Field(c, n, lambda q, a=a, c=c: K.cast(a.at(q), 'f') if c == 'd' else a.at(q)))
            continue
        for _ in range(n):
            if k >= len(args):
                raise PyRaise(struct.error, ('wrong number of items',))
            out.append(Field(c, 1, check_value(c, args[k])))
            k += 1
    if k != len(args):
        raise PyRaise(struct.error, ('wrong number of items',))
    return Packed(out)


class Packed:
    def __init__(self, fields):
        self.fields = fields


class Chunk:
    """n bytes of a binary file from a position on"""
    def __init__(self, f, pos, n):
        self.f, self.pos, self.n = f, simp(pos), simp(n)


I.LEN.append(lambda it, v: mk(v.n) if isinstance(v, Chunk) else NotImplemented)
I.TRUTH.append(lambda it, v: mk(simp(v.n != 0)) if isinstance(v, Chunk) else NotImplemented)


def calcsize(items):
    return simp(sum([zi(n) * SIZES[c] for n, c in items], z3.IntVal(0)))


@I.model(struct.calcsize)
def b_calcsize(it, fmt):
    return mk(calcsize(parse(fmt)))


def mistyped(*ok):
    if K.CTX.loop_logs or K.CTX.guards:
        raise Unsupported('reading a field as another type')
    K.CTX.prove('what is read from the binary file is read as it was written', z3.And(*ok))
    raise K.Infeasible()


@I.model(struct.unpack)
def unpack(it, fmt, ch):
    if not isinstance(ch, Chunk):
        raise Unsupported('unpack')
    items = parse(fmt)
    if not K.CTX.valid(calcsize(items) == ch.n):
        if not K.CTX.decide(calcsize(items) == ch.n, 'size of the data'):
            raise PyRaise(struct.error, ('unpack requires a buffer of another size',))
    out, pos = [], ch.pos
    for n, c in items:
        if c == 'x':
            pos = simp(pos + zi(n))
            continue
        if isinstance(n, Sym):
            k = ch.f.index(pos)
            f = ch.f.fields[k]
            if f.code != c or not callable(f.val) or not K.CTX.valid(zi(f.n) == zi(n)):
                mistyped(f.code == c and callable(f.val), zi(f.n) == zi(n))
            if sum(x != 'x' for _, x in items) != 1:
                raise Unsupported('block among other fields')
            return Arr((K.dim(zi(n)),), 'f' if c == 'd' else 'i', lambda idx, f=f: f.val(idx[0]), True)
        for _ in range(1 if c == 's' else n):
            f = ch.f.fields[ch.f.index(pos)]
            if f.code != c or callable(f.val) or c == 's' and f.n != n:
                mistyped(False, True)
            out.append(Bytes(f.val) if c == 's' else f.val)
            pos = simp(pos + f.size)
    return tuple(out)


# ---------------------------------------------------------------- files
class LibFile(T.VFile):
    def __init__(self, name, lines, mode):
        super().__init__(name, lines, mode)
        self.pos, self.reads = z3.IntVal(0), 0
        K.CTX.__dict__.setdefault('cursors', []).append(self)

    def readline(self):
        x = self.lines.at(self.pos)
        self.reads += 1
        if x is None:
            return Head(False) if 'b' in self.mode else ''
        self.pos = simp(self.pos + 1)
        return Head(False) if 'b' in self.mode else x

    def readlines(self):
        if 'b' in self.mode or num(self.pos) != 0:
            raise Unsupported('readlines')
        self.pos = self.lines.n
        self.reads += 1
        return segs(self.lines.parts)

    def read(self, *a):
        raise Unsupported('read')

    def tell(self):
        raise Unsupported('tell')

    def seek(self, p, whence=0):
        if p != 0 or whence != 0:
            raise Unsupported('seek')
        self.pos = z3.IntVal(0)
        self.reads += 1


class BinFile(T.VFile):
    def __init__(self, name, mode):
        super().__init__(name, [], mode)
        self.pos = z3.IntVal(0)

    def write(self, s):
        if not isinstance(s, Packed):
            raise Unsupported('writing bytes')
        if K.CTX.loop_logs or K.CTX.guards:
            raise Unsupported('writing in a symbolic loop')
        self.out.extend(s.fields)


class BinReader(T.VFile):
    def __init__(self, name, fields, mode):
        super().__init__(name, [], mode)
        self.fields, self.pos, self.offs = fields, z3.IntVal(0), [z3.IntVal(0)]
        for f in fields:
            self.offs.append(simp(self.offs[-1] + f.size))
        self.total = self.offs[-1]
        self.alias = []

    def index(self, pos):
        c = K.CTX
        al = [d for n, d in self.alias]
        for d in [z3.IntVal(0)] + al:
            for k in range(len(self.fields)):
                if num(self.offs[k] - pos - d) == 0:
                    return k
        for k in sorted(range(len(self.fields)), key=lambda k: k == 0 or self.fields[k - 1].code != 'x'):
            d = simp(self.offs[k] - pos)
            if num(d) is None and c.valid(d == 0):
                if not c.loop_logs and not c.guards:
                    self.alias.append((0, d))          # an expression that is zero here and, as the path only grows, from here on
                return k
        if c.loop_logs or c.guards:
            raise Unsupported('reading inside a field')
        c.prove('what is read from the binary file starts where something was written', z3.Or(*[o == pos for o in self.offs[:-1]]))
        for k in range(len(self.fields)):
            d = simp(self.offs[k] - pos)
            if num(d) is None and c.decide(d == 0, 'which field is read'):
                return k
        raise K.Infeasible()

    def tell(self):
        return mk(self.pos)

    def seek(self, p, whence=0):
        if whence == 0:
            e = zi(p)
        elif whence == 1:
            e = self.pos + zi(p)
        elif whence == 2:
            e = self.total + zi(p)
        if not K.CTX.valid(e >= 0):
            raise Unsupported('seek')
        self.pos = simp(e)
        return mk(self.pos)

    def read(self, n=None):
        n = self.total - self.pos if n is None else zi(n)
        if K.CTX.valid(z3.And(n >= 0, self.pos + n <= self.total)):
            r = Chunk(self, self.pos, n)
        elif K.CTX.valid(self.pos >= self.total):
            r = Chunk(self, self.pos, z3.IntVal(0))
        else:
            raise Unsupported('reading past the end')
        self.pos = simp(self.pos + r.n)
        return r

    def readline(self):
        self.pos = K.CTX.fresh('position', K.I_)
        return Head(True)

    def readlines(self):
        raise Unsupported('lines of a binary file')


def opener(it, p, mode, vfs):
    if 'w' in mode:
        if mode != 'wb':
            return None
        f = BinFile(p, mode)
        vfs.setdefault('written', []).append(f)
        vfs[p] = f
        return f
    c = vfs.get(p)
    if isinstance(c, Segs):
        if mode not in ('r', 'rb', 'rt'):
            raise Unsupported('open mode')
        f = LibFile(p, c, mode)
    elif isinstance(c, BinFile):
        if not c.closed:
            raise Unsupported('reading a file that is still being written')
        if mode != 'rb':
            raise Unsupported('reading a binary file as text')
        f = BinReader(p, list(c.out), mode)
    else:
        return None
    vfs.setdefault('read', []).append(f)
    return f


T.OPEN.append(opener)
