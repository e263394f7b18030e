"""texts as sequences of white-space separated words, for any number of words.

A word is an opaque non-empty string without white space, identified by an integer (equal integers: equal text). A text (Words) is a window
[lo, hi) of a numbering of words together with what is known of the blanks around them:
  start/end  the text begins/ends with white space (z3 Bool)
  nl         it may contain line ends
  norm       neighbouring words are separated by exactly one blank
The text of format(v, spec) of a finite number v is the word F_spec(v) of an uninterpreted function.
Every operation gives the result that holds for all words, or raises Unsupported."""
import re
import z3
from . import core as K
from . import interp as I
from . import text as T
from .core import Sym, Str, Arr, SList, Unsupported, PyRaise, dz, zi, simp
from .interp import Fmt, Model

SPEC = re.compile(r'(\.\d+)?[eEfFgG]')


def number_word(v, spec):
    ctx = K.CTX
    e = K.fl(v)[0] if K.sort_of(v) == 'f' else z3.ToReal(K.zi(v))
    if K.sort_of(v) == 'f' and not ctx.valid(K.fin(v)):
        raise Unsupported('text of a number that may not be finite')
    return z3.Function('text of format ' + spec, K.R_, K.I_)(e)


class Word(T.Num):
    """one word; also a piece of a formatted string"""
    def __init__(self, e):
        super().__init__('word', None)
        self.e = simp(e)

    def subst(self, pairs, emit):
        return Word(I.subst_expr(self.e, pairs))


class WordStr(Fmt):
    """a string that is one word"""
    def __init__(self, e):
        super().__init__([Word(e)])
        self.e = simp(e)

    def subst(self, pairs, emit):
        emit(pairs)
        return WordStr(I.subst_expr(self.e, pairs))


class Pad(T.Tok):
    """a word padded with blanks to a least width"""
    def __init__(self, e, width, side):
        super().__init__('padded')
        self.e, self.wid, self.side = simp(e), width, side

    def subst(self, pairs, emit):
        return Pad(I.subst_expr(self.e, pairs), self.wid, self.side)


class Words(Str):
    def __init__(self, w, lo, hi, start, end, nl, norm):
        super().__init__('words')
        self.w, self.lo, self.hi, self.start, self.end, self.nl, self.norm = w, simp(lo), simp(hi), start, end, nl, norm

    @property
    def n(self):
        return simp(self.hi - self.lo)

    def at(self, q):
        return self.w(self.lo + q)

    def with_(self, **k):
        d = dict(w=self.w, lo=self.lo, hi=self.hi, start=self.start, end=self.end, nl=self.nl, norm=self.norm)
        d.update(k)
        return Words(**d)

    def subst(self, pairs, emit):
        emit(pairs)
        s = lambda e: I.subst_expr(e, pairs)
        return Words(lambda q: s(self.w(q)), s(self.lo), s(self.hi), s(self.start), s(self.end), self.nl, self.norm)


def word_of(x):
    """the id of the word a value is, or None"""
    if isinstance(x, WordStr):
        return x.e
    if isinstance(x, Word):
        return x.e
    if isinstance(x, Fmt) and len(x.parts) == 1:
        p = x.parts[0]
        if isinstance(p, Word):
            return p.e
        if isinstance(p, T.ShownNum) and SPEC.fullmatch(p.spec):
            return number_word(p.val, p.spec)
    return None


FALSE, TRUE = z3.BoolVal(False), z3.BoolVal(True)
CONCAT = []


def concat(a, b):
    for h in CONCAT:
        r = h(a, b)
        if r is not NotImplemented:
            return r
    if isinstance(a, str) and isinstance(b, Words):
        if a == '':
            return b
        if a.strip() == '' and isinstance(b, Words):
            return b.with_(start=TRUE, nl=b.nl or a.strip(' ') != '', norm=False if len(a) > 1 else b.norm and K.CTX.valid(z3.Not(b.start)))
    if isinstance(b, str) and isinstance(a, Words):
        if b == '':
            return a
        if b.strip() == '':
            return a.with_(end=TRUE, nl=a.nl or b.strip(' ') != '', norm=False if len(b) > 1 else a.norm and K.CTX.valid(z3.Not(a.end)))
    if isinstance(a, Words) and isinstance(b, Words):
        ctx = K.CTX
        if not ctx.valid(a.hi == b.lo):
            raise Unsupported('concatenation of texts that do not follow each other')
        q = ctx.fresh('q', K.I_)
        if a.w is not b.w and not ctx.valid(z3.Implies(z3.And(b.lo <= q, q < b.hi), a.w(q) == b.w(q))):
            raise Unsupported('concatenation of texts that do not follow each other')
        if not ctx.valid(z3.Or(a.end, b.start, a.lo == a.hi, b.lo == b.hi)):
            raise Unsupported('words may be joined')
        start = simp(z3.If(a.lo == a.hi, z3.Or(a.start, b.start), a.start))
        end = simp(z3.If(b.lo == b.hi, z3.Or(a.end, b.end), b.end))
        return Words(a.w, a.lo, b.hi, start, end, a.nl or b.nl, False)
    return NotImplemented


def h_binop(it, op, a, b):
    if isinstance(op, I.ast.Add):
        if isinstance(a, Pattern) or isinstance(b, Pattern):
            pa = a.parts if isinstance(a, Pattern) else [a]
            pb = b.parts if isinstance(b, Pattern) else [b]
            if all(isinstance(p, (str, Words)) for p in pa + pb):
                return Pattern(pa + pb)
            raise Unsupported('pattern')
        if isinstance(a, Words) or isinstance(b, Words):
            return concat(a, b)
    return NotImplemented


I.BINOPS.insert(0, h_binop)


def join(it, sep, lst):
    """sep.join(list of symbolic length)"""
    ctx = K.CTX
    if lst is not None and isinstance(lst, SList):
        i = ctx.fresh('i', K.I_)
        f0 = len(ctx.facts)
        x = lst.fn(i)
        e = word_of(x)
        if e is not None:
            if sep == ' ':
                return Words(lambda q: word_of(lst.fn(q)), z3.IntVal(0), dz(lst.n), FALSE, FALSE, False, True)
            raise Unsupported('words joined by %r' % sep)
        if isinstance(x, Words) and sep in ('', ' '):
            y = lst.fn(i + 1)
            r = z3.And(i >= 0, i + 1 < dz(lst.n))
            q = ctx.fresh('q', K.I_)
            if not ctx.valid(z3.Implies(r, x.hi == y.lo)) or not ctx.valid(z3.Implies(z3.And(r, y.lo <= q, q < y.hi), x.w(q) == y.w(q))):
                raise Unsupported('join of texts that do not follow each other')
            if sep == '' and not ctx.valid(z3.Implies(r, z3.Or(x.end, y.start))):
                raise Unsupported('words may be joined')
            first, last = lst.fn(z3.IntVal(0)), lst.fn(dz(lst.n) - 1)
            empty = dz(lst.n) <= 0
            if not ctx.valid(z3.Not(empty)) and not ctx.valid(z3.Implies(empty, z3.And(dz(lst.n) == 0, first.lo == last.hi))):
                raise Unsupported('join of a list that may be empty')
            return Words(first.w, first.lo, last.hi, ctx.fresh('start', K.B_), ctx.fresh('end', K.B_), x.nl, False)
    raise Unsupported('join')


I.JOIN.append(join)


# ---------------------------------------------------------------- methods
def w_replace(o, a, b, *cnt):
    if a == '\n' and isinstance(b, str) and b.strip(' ') == '' and b and not cnt:
        return o.with_(nl=False, norm=False)
    raise Unsupported('replace in a text of words')


def w_strip(side):
    def f(o, chars=None):
        if chars is not None and not all(c in chars for c in ' \n'):
            raise Unsupported('strip')
        r = o
        if side in 'lb':
            r = r.with_(start=FALSE)
        if side in 'rb':
            r = r.with_(end=FALSE)
        return r
    return f


def w_split(o, *a):
    if a and a != (None,):
        raise Unsupported('split')
    return SList(o.n, lambda i: WordStr(o.at(i)))


METHODS = {'replace': w_replace, 'strip': w_strip('b'), 'lstrip': w_strip('l'), 'rstrip': w_strip('r'), 'split': w_split}


def w_attr(it, o, name):
    f = METHODS.get(name)
    if f is None:
        raise Unsupported(f'method {name} of a text of words')
    return Model(lambda it, *a, **k: f(o, *a, **k))


I.TYPE_ATTRS.insert(0, (lambda o: isinstance(o, Words), w_attr))


def just(side):
    def f(it, o, w, fill=' '):
        if not isinstance(w, int) or fill != ' ':
            raise Unsupported('padding')
        return Fmt([Pad(o.e, w, side)])
    return f


def ws_attr(it, o, name):
    if name in ('rjust', 'ljust'):
        return Model(lambda it, *a: just('>' if name == 'rjust' else '<')(it, o, *a))
    if name in ('strip', 'lstrip', 'rstrip'):
        return Model(lambda it, *a: o)
    raise Unsupported(f'method {name} of a word')


I.TYPE_ATTRS.insert(0, (lambda o: isinstance(o, WordStr), ws_attr))


def show(v, spec):
    m = re.fullmatch(r'([<>]?)(\d+)s?', spec)
    if m:
        return [Pad(v.e, int(m.group(2)), m.group(1) or '<')]
    if spec in ('', 's'):
        return [Word(v.e)]
    return None


I.WORD_FMT.append(lambda v, spec: show(v, spec) if isinstance(v, WordStr) else NotImplemented)


@I.model(format)
def b_format(it, v, spec=''):
    if isinstance(v, Sym) and v.s in 'if' and SPEC.fullmatch(spec):
        return WordStr(number_word(v, spec))
    p = I.fmt_value(v, spec)
    return I.fmt_join([p])


# ---------------------------------------------------------------- regular expressions on texts of words
class Pattern(Str):
    """literal pieces of a pattern and escaped texts"""
    def __init__(self, parts):
        super().__init__('pattern')
        self.parts = [p for p in parts if p != '']


def _model_of(f):
    r = I.MODELS.get(id(f))
    return r[1] if r else None


_old = {n: _model_of(getattr(re, n)) for n in ('search', 'sub')}


@I.model(re.escape)
def re_escape(it, s):
    if isinstance(s, Words):
        return Pattern([s])
    if isinstance(s, str):
        return re.escape(s)
    raise Unsupported('escape')


class Occurrences:
    """the leftmost non-overlapping occurrences of the words of a in the words of t: whether there is one; for a word position q whether
    it lies in one, the position where that one starts and how many come before it"""
    def __init__(self, t, a):
        c = K.CTX
        self.t, self.a = t, a
        self.found = c.fresh('found', K.B_)
        self.cov = c.fresh_fn('covered', K.I_, K.B_)
        self.at = c.fresh_fn('start of the occurrence', K.I_, K.I_)
        self.rank = c.fresh_fn('rank of the occurrence', K.I_, K.I_)
        q = z3.Int(f'q!{next(c.fresh_n)}')
        p = self.at(q)
        self.ax = z3.ForAll([q], z3.Implies(self.cov(q), z3.And(self.found, q >= 0, q < t.n, p >= 0, p <= q, q < p + a.n, p + a.n <= t.n, self.rank(q) >= 0,
                                                                     t.at(q) == a.at(q - p))), patterns=[self.cov(q)])
        c.axioms.append(self.ax)


def occurrences(t, a):
    c = K.CTX
    memo = c.__dict__.setdefault('occurrences', [])
    q = c.fresh('q', K.I_)
    for o in memo:
        if not any(x is o.ax for x in c.axioms):
            continue             # of another path
        if c.valid(z3.And(o.t.n == t.n, o.a.n == a.n)) and c.valid(z3.Implies(z3.And(q >= 0, q < t.n), o.t.at(q) == t.at(q))) and \
                c.valid(z3.Implies(z3.And(q >= 0, q < a.n), o.a.at(q) == a.at(q))):
            return o
    o = Occurrences(t, a)
    memo.append(o)
    return o


def whole_words(p, t):
    if not (len(p.parts) == 3 and p.parts[0] == r'(?<!\S)' and p.parts[2] == r'(?!\S)' and isinstance(p.parts[1], Words)):
        raise Unsupported('pattern that is not a sequence of whole words')
    a = p.parts[1]
    if not (t.norm and not t.nl and a.norm and not a.nl and K.CTX.valid(z3.And(z3.Not(a.start), z3.Not(a.end)))):
        raise Unsupported('search in a text whose words are not separated by single blanks')
    if not K.CTX.valid(a.n >= 1):
        raise Unsupported('search of nothing')
    return a


class Found:
    pass


def re_search(it, p, s, flags=0):
    if isinstance(p, Pattern) and isinstance(s, Words):
        if flags:
            raise Unsupported('flags')
        o = occurrences(s, whole_words(p, s))
        return Found() if K.CTX.decide(o.found, 'the array is in the file') else None
    if isinstance(p, Pattern) or isinstance(s, Words):
        raise Unsupported('search')
    return _old['search'](it, p, s, *([flags] if flags else []))


def re_sub(it, p, r, s, count=0, flags=0):
    if isinstance(s, Words) and isinstance(p, str):
        if re.fullmatch(r' \+| \{1,\}| \{2,\}|\[ \]\+|  \+', p) and r == ' ' and count == 0 and not flags:
            pass
        if p in (' +', ' {2,}', '  +', '[ ]+', ' {1,}') and r == ' ' and count == 0 and not flags and not s.nl:
            return s.with_(norm=True)
        if p in (r'\s+', '[ \n]+') and r == ' ' and count == 0 and not flags:
            return s.with_(norm=True, nl=False)
        raise Unsupported('substitution in a text of words')
    if isinstance(p, Pattern) and isinstance(s, Words):
        ctx = K.CTX
        a = whole_words(p, s)
        if not isinstance(r, (Words, str)):
            r = it.call(r, (Found(),))
        if not isinstance(r, Words) or not r.norm or r.nl or not ctx.valid(z3.And(z3.Not(r.start), z3.Not(r.end), r.n >= 1)):
            raise Unsupported('replacement')
        if not ctx.valid(r.n == a.n):
            raise Unsupported('replacement of another length')
        if flags:
            raise Unsupported('flags')
        o = occurrences(s, a)
        c = zi(count)
        ctx.fact(c == zi(count))
        hit = lambda q: z3.And(o.cov(q), z3.Or(c == 0, o.rank(q) < c))
        return s.with_(w=lambda q: z3.If(hit(q - s.lo), r.at(q - s.lo - o.at(q - s.lo)), s.w(q)))
    if isinstance(p, Pattern) or isinstance(s, Words):
        raise Unsupported('substitution')
    return _old['sub'](it, p, r, s, *([count] if count else []))


I.MODELS[id(re.search)] = (re.search, re_search)
I.MODELS[id(re.sub)] = (re.sub, re_sub)


# ---------------------------------------------------------------- files: a head of literal lines and any number of lines of words
class FileLines:
    """head: a list of lines; n further lines, line(i) a text of words ending in a newline (the last one may not)"""
    def __init__(self, head, n, line):
        self.head, self.n, self.line = head, dz(n), line

    def rest(self):
        return SList(self.n, lambda i: self.line(i))


def fl_getitem(it, o, k):
    h = len(o.head)
    if isinstance(k, int) and 0 <= k < h:
        return o.head[k]
    if isinstance(k, slice) and k.step in (None, 1):
        a, b = k.start or 0, k.stop
        if isinstance(a, int) and isinstance(b, int) and 0 <= a <= b <= h:
            return o.head[a:b]
        if a == h and b is None:
            return o.rest()
        if isinstance(a, int) and 0 <= a < h and b is None:
            return FileLines(o.head[a:], o.n, o.line)
    raise Unsupported('lines of a file')


I.TYPE_INDEX.insert(0, (FileLines, fl_getitem, None))
I.LEN.append(lambda it, v: K.mk(simp(v.n + len(v.head))) if isinstance(v, FileLines) else NotImplemented)


def events(out):
    """what was written, piece by piece"""
    r = []
    for s in out:
        if isinstance(s, (tuple, str)):
            if s != '':
                r.append(s)
        elif isinstance(s, Fmt):
            r.extend(s.parts)
        else:
            raise Unsupported('writing ' + type(s).__name__)
    return r
