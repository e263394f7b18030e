"""strings with symbolic pieces ("ropes"): literal characters and opaque tokens, and matching of Python regular expressions against them.

A rope (interp.Fmt) has parts that are literal strings, symbolic integers (printed in decimal), or tokens:
  Dig    a non-empty run of decimal digits of any length
  Field  a text of a known width whose characters are not looked at (a fixed-width column of a file)
  Num    a printed number (no white space inside, not empty)
Every operation either gives the result that holds for all contents of the tokens or raises Unsupported."""
import re
import string
import z3
from . import core as K
from . import interp as I
from .core import Sym, Str, Unsupported, PyRaise
from .interp import Fmt, Model

try:
    import re._parser as sp
    import re._constants as sc
except ImportError:
    import sre_parse as sp
    import sre_constants as sc


class Tok:
    width = None
    digits = False

    def __init__(self, name, val=None, width=None, tag=None):
        self.name, self.val, self.width, self.tag = name, val, width, tag

    def __repr__(self):
        return f'<{self.name}>'


class Dig(Tok):
    digits = True


class Field(Tok):
    pass


class Num(Tok):
    pass


class Shown(Tok):
    """format(val, spec) of a symbolic number"""
    def __init__(self, val, spec=''):
        super().__init__('%s:%s' % (val, spec), val)
        self.spec = spec


class ShownNum(Shown, Num):
    """without padding"""


I.SHOWN = lambda v, spec='': (ShownNum if re.fullmatch(r'(\.\d+)?[efgEFG]?', spec) else Shown)(v, spec)


def rope(*parts):
    f = Fmt([p for p in parts])
    if all(isinstance(x, str) for x in f.parts):
        return ''.join(f.parts)
    return f


def parts_of(s):
    if isinstance(s, str):
        return [s] if s else []
    if isinstance(s, Fmt):
        return s.parts
    raise Unsupported('opaque string')


def cells(s):
    """one item per literal character, one per token; a symbolic integer is split into its sign and its digits"""
    out = []
    for p in parts_of(s):
        if isinstance(p, str):
            out.extend(p)
        elif isinstance(p, Sym):
            if not K.CTX.valid(K.zi(p) >= 0):
                if K.CTX.decide(K.zi(p) >= 0, 'sign of a printed integer'):
                    pass
                else:
                    out.append('-')
                    d = Dig('int', K.mk(K.simp(-K.zi(p))))
                    d.of = p
                    out.append(d)
                    continue
            d = Dig('int', p)
            d.of = p
            out.append(d)
        elif isinstance(p, Tok):
            out.append(p)
        else:
            raise Unsupported(f'piece {type(p).__name__} of a string')
    return out


def uncells(cs):
    ps = []
    for c in cs:
        if isinstance(c, Dig) and hasattr(c, 'of'):
            if ps and ps[-1] == '-' and c.of is not c.val and False:
                pass
            ps.append(c.val)
        else:
            ps.append(c)
    return rope(*ps)


def same_rope(a, b):
    pa, pb = parts_of(a), parts_of(b)
    if len(pa) != len(pb):
        return None
    for x, y in zip(pa, pb):
        if isinstance(x, str) or isinstance(y, str):
            if x != y:
                return None
        elif isinstance(x, Sym) and isinstance(y, Sym):
            if x.s != y.s or not (x.e.eq(y.e) or K.CTX.valid(x.e == y.e)):
                return None
        elif isinstance(x, Shown) and isinstance(y, Shown):
            if x.spec != y.spec or K.sort_of(x.val) != K.sort_of(y.val) or not K.CTX.valid(K.same(x.val, y.val)):
                return None
        elif x is not y:
            return None
    return True


def compare(a, b):
    if same_rope(a, b):
        return True
    ca, cb = cells(a), cells(b)
    least = lambda cs: sum(1 if isinstance(c, str) else c.width if c.width is not None else 1 if c.digits or isinstance(c, Num) else 0 for c in cs)
    if width(ca) is not None and least(cb) > width(ca) or width(cb) is not None and least(ca) > width(cb):
        return False
    for side in (1, -1):
        for x, y in zip(ca[::side], cb[::side]):
            if isinstance(x, str) and isinstance(y, str):
                if x != y:
                    return False
                continue
            t, l = (x, y) if not isinstance(x, str) else (y, x)
            if t.digits and isinstance(l, str) and not l.isdigit():
                return False
            break
    raise Unsupported('comparison of strings with unknown pieces')


# ---------------------------------------------------------------- regular expressions
DIGITS = set(string.digits)
RX_HOOKS = []
MID = 'mid'


def in_class(items, ch, ignorecase=False):
    neg, hit = False, False
    for op, av in items:
        if op is sc.NEGATE:
            neg = True
        elif op is sc.LITERAL:
            hit |= ord(ch) == av
        elif op is sc.RANGE:
            hit |= av[0] <= ord(ch) <= av[1]
        elif op is sc.CATEGORY:
            hit |= category(av, ch)
        else:
            raise Unsupported(f'regex class {op}')
    return hit != neg


def category(av, ch):
    d = {sc.CATEGORY_DIGIT: ch.isdigit(), sc.CATEGORY_NOT_DIGIT: not ch.isdigit(), sc.CATEGORY_SPACE: ch.isspace(),
         sc.CATEGORY_NOT_SPACE: not ch.isspace(), sc.CATEGORY_WORD: ch.isalnum() or ch == '_', sc.CATEGORY_NOT_WORD: not (ch.isalnum() or ch == '_')}
    return d[av]


class LengthDependent(Unsupported):
    pass


class Matcher:
    def __init__(self, rx, cs):
        if rx.flags & ~(re.UNICODE | re.DOTALL):
            raise Unsupported('regex flags')
        self.rx, self.cs = rx, cs
        self.tree = list(sp.parse(rx.pattern, rx.flags & re.DOTALL))
        self.steps = 0

    def one(self, op, av, c):
        """does the one-character node accept the cell? for a run of digits: all of them or none"""
        if op is sc.LITERAL:
            f = lambda ch: ord(ch) == av
        elif op is sc.NOT_LITERAL:
            f = lambda ch: ord(ch) != av
        elif op is sc.ANY:
            f = lambda ch: ch != '\n' or bool(self.rx.flags & re.DOTALL)
        elif op is sc.IN:
            f = lambda ch: in_class(av, ch)
        else:
            return None
        if isinstance(c, str):
            return f(c)
        if not c.digits:
            raise Unsupported('regular expression on an opaque field')
        r = {f(ch) for ch in DIGITS}
        if len(r) > 1:
            raise Unsupported('regular expression that tells digits apart')
        return r.pop()

    def run(self, start):
        return self.m(self.tree, 0, (start, False), {}, lambda st, g: (st, g))

    # a state is (cell index, inside): inside means part of the run of digits at the index is already consumed and at least one digit is left
    def m(self, nodes, i, st, g, k):
        self.steps += 1
        if self.steps > 20000:
            raise Unsupported('regular expression too expensive')
        if i == len(nodes):
            return k(st, g)
        op, av = nodes[i]
        nxt = lambda st2, g2: self.m(nodes, i + 1, st2, g2, k)
        if op in (sc.LITERAL, sc.NOT_LITERAL, sc.ANY, sc.IN):
            p = st[0]
            if p >= len(self.cs):
                return None
            c = self.cs[p]
            if not self.one(op, av, c):
                return None
            if isinstance(c, str):
                return nxt((p + 1, False), g)
            # one digit of a run: the run may end here or not
            a = nxt((p + 1, False), g)
            b = nxt((p, True), g)
            if a is None and b is None:
                return None
            raise LengthDependent('match depends on the number of digits')
        if op is sc.MAX_REPEAT or op is sc.MIN_REPEAT:
            return self.repeat(op, av, st, g, nxt)
        if op is sc.SUBPATTERN:
            gi, add, rem, sub = av
            if add or rem:
                raise Unsupported('regex inline flags')
            if gi is None:
                return self.m(list(sub), 0, st, g, nxt)
            return self.m(list(sub), 0, st, g, lambda st2, g2: nxt(st2, {**g2, gi: (st, st2)}))
        if op is sc.BRANCH:
            for alt in av[1]:
                r = self.m(list(alt), 0, st, g, nxt)
                if r is not None:
                    return r
            return None
        if op is sc.AT:
            if av in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
                return nxt(st, g) if st == (0, False) else None
            if av is sc.AT_END:
                n = len(self.cs)
                ok = st == (n, False) or (st == (n - 1, False) and self.cs[n - 1] == '\n')
                return nxt(st, g) if ok else None
            if av is sc.AT_END_STRING:
                return nxt(st, g) if st == (len(self.cs), False) else None
        raise Unsupported(f'regex {op}')

    def repeat(self, op, av, st, g, nxt):
        lo, hi, sub = av
        sub = list(sub)
        simple = len(sub) == 1 and sub[0][0] in (sc.LITERAL, sc.NOT_LITERAL, sc.ANY, sc.IN)
        if not simple:
            if hi is sc.MAXREPEAT or hi > 1 or op is sc.MIN_REPEAT:
                raise Unsupported('repeated group')
            r = self.m(sub, 0, st, g, nxt)
            if r is None and lo == 0:
                r = nxt(st, g)
            return r
        if op is sc.MIN_REPEAT:
            raise Unsupported('lazy repetition')
        # greedy: the positions reachable, longest first; a run of digits counts as one or more characters
        stops = [(0, 0, st, False)]                 # (fewest, most characters, state, within a run)
        p, cnt, runs = st, 0, 0
        while p[0] < len(self.cs):
            c = self.cs[p[0]]
            if hi is not sc.MAXREPEAT and cnt >= hi:
                break
            if not self.one(sub[0][0], sub[0][1], c):
                break
            if not isinstance(c, str):
                if hi is not sc.MAXREPEAT:
                    raise Unsupported('bounded repetition over a run of digits')
                stops.append((cnt + 1, None, (p[0], True), True))
            cnt += 1
            p = (p[0] + 1, False)
            stops.append((cnt, None, p, False))
        for fewest, _, s2, within in reversed(stops):
            runs = any(not isinstance(self.cs[q], str) for q in range(st[0], min(s2[0] + (1 if within else 0), len(self.cs))))
            if fewest < lo and not runs:
                continue
            r = nxt(s2, g)
            if r is not None:
                if within or (fewest < lo):
                    raise LengthDependent('match depends on the number of digits')
                return r
        return None


class Match:
    """a match on a rope"""
    def __init__(self, cs, start, end, groups, n):
        self.cs, self.a, self.b, self.gs, self.n = cs, start, end, groups, n

    def cut(self, a, b):
        if a[1] or b[1]:
            raise Unsupported('group boundary inside a run of digits')
        return uncells(self.cs[a[0]:b[0]])

    def group(self, i=0):
        if i == 0:
            return self.cut(self.a, self.b)
        if i not in self.gs:
            return None
        return self.cut(*self.gs[i])

    def groups(self):
        return tuple(self.group(i) for i in range(1, self.n + 1))


def rx_match(rx, s, full=False):
    cs = cells(s)
    r = Matcher(rx, cs).run(0)
    if r is None:
        return None
    (end, g) = r
    if full and end != (len(cs), False):
        raise Unsupported('fullmatch')
    return Match(cs, (0, False), end, g, rx.groups)


def rx_search(rx, s, start=0):
    cs = cells(s)
    for p in range(start, len(cs) + 1):
        m = Matcher(rx, cs)
        r = m.run(p)
        if r is not None:
            return Match(cs, (p, False), r[0], r[1], rx.groups)
        if p < len(cs) and not isinstance(cs[p], str):
            m = Matcher(rx, cs)
            if m.m(m.tree, 0, (p, True), {}, lambda st, g: (st, g)) is not None:
                raise LengthDependent('match starting inside a run of digits')
    return None


def rx_sub(rx, repl, s, count=0):
    cs = cells(s)
    out, p, done = [], 0, 0
    tpl = None
    if isinstance(repl, str):
        tpl = sp.parse_template(repl, rx)
        if isinstance(tpl, tuple):          # older layout: (groups, literals)
            groups, lits = tpl
            tpl = list(lits)
            for i, gi in groups:
                tpl[i] = gi
    else:
        raise Unsupported('substitution by a function')
    while p <= len(cs) and (count == 0 or done < count):
        m = rx_search_cells(rx, cs, p)
        if m is None:
            break
        if m.b[1] or m.b == m.a:
            raise Unsupported('substitution of an empty match')
        out.extend(cs[p:m.a[0]])
        for t in tpl:
            if isinstance(t, str):
                out.extend(t)
            elif t is not None:
                v = m.group(t)
                if v is not None:
                    out.extend(cells(v))
        p, done = m.b[0], done + 1
    out.extend(cs[p:])
    return uncells(out)


def rx_search_cells(rx, cs, start):
    for p in range(start, len(cs) + 1):
        m = Matcher(rx, cs)
        r = m.run(p)
        if r is not None:
            return Match(cs, (p, False), r[0], r[1], rx.groups)
        if p < len(cs) and not isinstance(cs[p], str):
            m = Matcher(rx, cs)
            if m.m(m.tree, 0, (p, True), {}, lambda st, g: (st, g)) is not None:
                raise LengthDependent('match starting inside a run of digits')
    return None


def rx_attr(it, o, name):
    r = rx_attr_(it, o, name)
    if not isinstance(r, Model):
        return r

    def hooked(it, *a, **k):
        for h in RX_HOOKS:
            v = h(name, o, *a)
            if v is not NotImplemented:
                return v
        return r.fn(it, *a, **k)
    return Model(hooked)


def rx_attr_(it, o, name):
    fs = {'match': lambda it, s, *a: rx_match(o, s) if isinstance(s, Fmt) else native_match(o.match, s),
          'search': lambda it, s, *a: rx_search(o, s) if isinstance(s, Fmt) else native_match(o.search, s),
          'sub': lambda it, r, s, count=0: rx_sub(o, r, s, count) if isinstance(s, Fmt) else native_match(o.sub, r, s, count)}
    if name in fs:
        return Model(fs[name])
    return getattr(o, name)


def native_match(f, *a):
    if any(isinstance(x, Str) for x in a):
        raise Unsupported('regular expression on an opaque string')
    try:
        return f(*a)
    except Exception as ex:
        raise PyRaise(type(ex), ex.args)


I.TYPE_ATTRS.append((lambda o: isinstance(o, re.Pattern), rx_attr))
I.TYPE_ATTRS.append((lambda o: isinstance(o, Match), lambda it, o, name: Model(lambda it, *a: getattr(o, name)(*a))))
for _n in ('match', 'search'):
    I.model(getattr(re, _n))(lambda it, p, s, *a, _n=_n: it.call(it.getattr(re.compile(p), _n), (s,)))
I.model(re.sub)(lambda it, p, r, s, count=0: it.call(it.getattr(re.compile(p), 'sub'), (r, s, count)))


# ---------------------------------------------------------------- numbers in ropes
def strip_cells(cs):
    while cs and isinstance(cs[0], str) and cs[0].isspace():
        cs = cs[1:]
    while cs and isinstance(cs[-1], str) and cs[-1].isspace():
        cs = cs[:-1]
    return cs


def to_int(s):
    cs = strip_cells(cells(s))
    if len(cs) == 1 and isinstance(cs[0], Tok) and cs[0].tag == 'int':
        return cs[0].val
    if any(isinstance(c, Num) and getattr(c, 'point', False) for c in cs):
        raise PyRaise(ValueError, ('invalid literal for int()',))
    if cs and all(isinstance(c, str) for c in cs):
        try:
            return int(''.join(cs))
        except ValueError as ex:
            raise PyRaise(ValueError, ex.args)
    neg = False
    if cs and cs[0] in ('+', '-'):
        neg = cs[0] == '-'
        cs = cs[1:]
    if not cs:
        raise PyRaise(ValueError, ('invalid literal for int()',))
    if len(cs) == 1 and isinstance(cs[0], Dig):
        v = cs[0].val
        return K.mk(K.simp(-K.zi(v))) if neg else v
    if all(isinstance(c, (str, Dig)) for c in cs) and any(isinstance(c, str) and not c.isdigit() and c != '_' for c in cs):
        raise PyRaise(ValueError, ('invalid literal for int()',))
    raise Unsupported('integer of this text')


FLOAT = re.compile(r'([+-]?)(\d*)(\.?)(\d*)(?:([eE])([+-]?)(\d+))?$')
DEN = {}


def to_float(s):
    """the number a text denotes: an uninterpreted value per text up to the spelling of the exponent (e/E, explicit plus) and blanks"""
    cs = strip_cells(cells(s))
    if len(cs) == 1 and isinstance(cs[0], Num) and cs[0].val is not None:
        return cs[0].val if K.sort_of(cs[0].val) == 'f' else K.cast(cs[0].val, 'f')
    if cs and isinstance(cs[-1], Num) and cs[-1].tag == 'unsigned' and all(c in ('0', '-', '+') for c in cs[:-1]):
        # blanks filled with zeros, or one sign, in front of an unsigned number
        lead = ''.join(cs[:-1])
        if set(lead) <= {'0'}:
            return cs[-1].val
        if lead[0] in '+-' and set(lead[1:]) <= {'0'}:
            return K.neg(cs[-1].val) if lead[0] == '-' else cs[-1].val
        raise PyRaise(ValueError, ('could not convert string to float',))
    try:
        m = rx_match(FLOAT, uncells(cs))
    except LengthDependent:
        raise Unsupported('float of this text')
    if m is None or m.b != (len(cs), False):
        if all(isinstance(c, (str, Dig)) for c in cs):
            raise PyRaise(ValueError, ('could not convert string to float',))
        raise Unsupported('float of this text')
    sg, a, dot, b, e, es, x = m.groups()
    if not parts_of(a) and not parts_of(b):
        raise PyRaise(ValueError, ('could not convert string to float',))
    key, args = [sg == '-', es == '-' if e else None], []
    for v in (a, b, x):
        ps = [] if v is None else parts_of(v)
        sig = []
        for p in ps:
            if isinstance(p, str):
                sig.append(p)
            elif isinstance(p, Sym):
                sig.append('#')
                args.append(K.zi(p))
            else:
                sig.append('#')
                args.append(z3.Int('dig!' + p.name))
        if v is x and not ps:
            sig = None
        key.append(None if sig is None else tuple(sig))
    if not args:
        return float(''.join(parts_of(uncells(cs))))
    f = z3.Function('denotes' + repr(tuple(key)).replace('|', '!'), *([K.I_] * len(args)), K.R_)
    return Sym('f', f(*args))


# ---------------------------------------------------------------- string methods
def fmt_attr(it, o, name):
    f = METHODS.get(name)
    if f is None:
        return Model(lambda it, *a, **k: (_ for _ in ()).throw(Unsupported(f'string method {name}')))
    return Model(lambda it, *a, **k: f(o, *a, **k))





def m_strip(o, chars=None, left=True, right=True):
    cs = cells(o)
    t = (lambda c: c.isspace()) if chars is None else (lambda c: c in chars)
    opaque = lambda c: not isinstance(c, str) and not c.digits and not isinstance(c, Num)
    if left:
        while cs and isinstance(cs[0], str) and t(cs[0]):
            cs = cs[1:]
        if cs and opaque(cs[0]):
            raise Unsupported('strip of an opaque field')
    if right:
        while cs and isinstance(cs[-1], str) and t(cs[-1]):
            cs = cs[:-1]
        if cs and opaque(cs[-1]):
            raise Unsupported('strip of an opaque field')
    return uncells(cs)


def m_split(o, sep=None, maxsplit=-1):
    if maxsplit != -1:
        raise Unsupported('split')
    out, cur = [], []
    if sep is None:
        for c in cells(o):
            if isinstance(c, str) and c.isspace():
                if cur:
                    out.append(uncells(cur))
                cur = []
            else:
                if isinstance(c, Field):
                    raise Unsupported('split of an opaque field')
                cur.append(c)
        if cur:
            out.append(uncells(cur))
        return out
    if not isinstance(sep, str) or len(sep) != 1 or sep.isalnum() or sep in '+-.':
        raise Unsupported('split')
    for c in cells(o):
        if c == sep:
            out.append(uncells(cur))
            cur = []
        else:
            cur.append(c)
    return out + [uncells(cur)]


def m_splitlines(o, keepends=False):
    if keepends:
        raise Unsupported('splitlines')
    r = m_split(o, '\n')
    return r[:-1] if isinstance(r[-1], str) and r[-1] == '' else r


def m_startswith(o, p):
    if not isinstance(p, str):
        raise Unsupported('startswith')
    cs = cells(o)
    for i, ch in enumerate(p):
        if i >= len(cs):
            return False
        if not isinstance(cs[i], str):
            if cs[i].digits and not ch.isdigit():
                return False
            raise Unsupported('startswith of a token')
        if cs[i] != ch:
            return False
    return True


def m_endswith(o, p):
    cs = cells(o)[::-1]
    for i, ch in enumerate(p[::-1]):
        if i >= len(cs):
            return False
        if not isinstance(cs[i], str):
            if cs[i].digits and not ch.isdigit():
                return False
            raise Unsupported('endswith of a token')
        if cs[i] != ch:
            return False
    return True


METHODS = {'strip': m_strip, 'lstrip': lambda o, c=None: m_strip(o, c, True, False), 'rstrip': lambda o, c=None: m_strip(o, c, False, True),
           'split': m_split, 'splitlines': m_splitlines, 'startswith': m_startswith, 'endswith': m_endswith}
I.TYPE_ATTRS.append((lambda o: isinstance(o, Fmt), fmt_attr))


def width(cs):
    w = 0
    for c in cs:
        if isinstance(c, str):
            w += 1
        elif c.width is not None:
            w += c.width
        else:
            return None
    return w


def cut_at(cs, k):
    """number of cells covering exactly k characters"""
    w = 0
    for i, c in enumerate(cs):
        if w == k:
            return i
        n = 1 if isinstance(c, str) else c.width
        if n is None:
            raise Unsupported('slice through a token of unknown width')
        w += n
        if w > k:
            raise Unsupported('slice through a token')
    return len(cs)


def fmt_getitem(it, o, k):
    cs = cells(o)
    if isinstance(k, slice):
        if k.step not in (None, 1) or I.is_symbolic((k.start, k.stop)):
            raise Unsupported('slice of a string')
        a, b = k.start or 0, k.stop
        i = cut_at(cs, a) if a >= 0 else len(cs) - cut_at(cs[::-1], -a)
        j = len(cs) if b is None else cut_at(cs, b) if b >= 0 else len(cs) - cut_at(cs[::-1], -b)
        return uncells(cs[i:j]) if j > i else ''
    if isinstance(k, int):
        i = cut_at(cs, k) if k >= 0 else len(cs) - cut_at(cs[::-1], -k)
        if i >= len(cs):
            raise PyRaise(IndexError, ('string index out of range',))
        if not isinstance(cs[i], str):
            raise Unsupported('character of a token')
        return cs[i]
    raise Unsupported('index of a string')


I.TYPE_INDEX.append((Fmt, fmt_getitem, None))


NUMERIC = set('0123456789+-.eE')


def contains(it, c, x):
    if not isinstance(c, Fmt) and not (isinstance(c, str) and isinstance(x, Fmt)):
        return NotImplemented
    if not isinstance(x, str):
        raise Unsupported('substring with unknown pieces')
    cs = cells(c)
    for i in range(len(cs) - len(x) + 1):
        if all(isinstance(a, str) and a == b for a, b in zip(cs[i:], x)):
            return True
    for t in cs:
        if not isinstance(t, str):
            if t.digits and not (set(x) & DIGITS):
                continue
            if isinstance(t, Num) and set(x) - NUMERIC and not any(set(x[:k]) <= NUMERIC or set(x[k:]) <= NUMERIC for k in range(1, len(x))):
                continue
            raise Unsupported('substring search through a token')
    return False


I.CONTAINS.append(contains)
I.LEN.append(lambda it, v: NotImplemented if not isinstance(v, Fmt) else rope_len(v))


def rope_len(v):
    w = width(cells(v))
    if w is None:
        raise Unsupported('length of a string with tokens of unknown width')
    return w


def m_replace(o, old, new, count=-1):
    if not isinstance(old, str) or len(old) != 1 or count != -1:
        raise Unsupported('replace')
    out = []
    for c in cells(o):
        if c == old:
            out.extend(cells(new))
        else:
            if not isinstance(c, str) and not (c.digits and not old.isdigit()) and not (isinstance(c, Num) and old not in NUMERIC and old not in getattr(c, 'chars', '')):
                raise Unsupported('replace in a token')
            out.append(c)
    return uncells(out)


METHODS['replace'] = m_replace
METHODS['format'] = lambda o, *a, **k: I.fmt_format(o, a, k)


# ---------------------------------------------------------------- files held in memory
class VFile:
    """a text file of the verifier: content is a list of lines (ropes ending in a newline)"""
    def __init__(self, name, lines, mode):
        self.name, self.lines, self.mode, self.pos, self.out, self.closed = name, lines, mode, 0, [], False

    def readlines(self):
        if not isinstance(self.lines, (list, tuple)):
            r, self.lines = self.lines, []
            return r
        r = list(self.lines[self.pos:])
        self.pos = len(self.lines)
        return r

    def readline(self):
        if self.pos >= len(self.lines):
            return ''
        self.pos += 1
        return self.lines[self.pos - 1]

    def read(self):
        return rope(*[p for l in self.readlines() for p in parts_of(l)])

    def write(self, s):
        if self.mode in ('r', 'rb'):
            raise PyRaise(OSError, ('not writable',))
        self.out.append(s)

    def writelines(self, xs):
        for s in xs:
            self.write(s)

    def close(self):
        self.closed = True

    vclose = close

    def tell(self):
        return self.pos

    def seek(self, p, whence=0):
        if whence or not isinstance(p, int):
            raise Unsupported('seek')
        self.pos = p

    def text(self):
        return rope(*[p for s in self.out for p in parts_of(s)])


def lines_of(s):
    """the lines of a text, each with its newline"""
    out, cur = [], []
    for p in parts_of(s):
        if isinstance(p, str):
            bits = p.split('\n')
            for b in bits[:-1]:
                out.append(rope(*cur, b + '\n'))
                cur = []
            cur.append(bits[-1])
        else:
            cur.append(p)
    last = rope(*cur)
    return out + ([last] if not isinstance(last, str) or last else [])


def vfile_attr(it, o, name):
    if name in ('readlines', 'readline', 'read', 'write', 'writelines', 'close', 'seek', 'tell', 'flush', 'getvalue'):
        return Model(lambda it, *a: None if name == 'flush' else (o.text() if o.mode == 'w' else rope(*[p for l in o.lines for p in parts_of(l)])) if name == 'getvalue' else getattr(o, name)(*a))
    if name in ('name', 'mode', 'closed'):
        return getattr(o, name)
    raise Unsupported(f'file attribute {name}')


I.TYPE_ATTRS.append((lambda o: isinstance(o, VFile), vfile_attr))
I.ITER.append(lambda it, v: v.readlines() if isinstance(v, VFile) else NotImplemented)


@I.model(next)
def b_next(it, v, *default):
    if isinstance(v, VFile):
        if v.pos >= len(v.lines):
            if default:
                return default[0]
            raise PyRaise(StopIteration, ())
        return v.readline()
    if not I.is_symbolic(v):
        return it.native(next, (v, *default), {})
    raise Unsupported('next')


OPEN = []


@I.model(open)
def b_open(it, path, mode='r', *a, **k):
    vfs = getattr(K.CTX, 'vfs', None)
    if vfs is None:
        raise Unsupported('open of a real file')
    p = path if isinstance(path, str) else repr(parts_of(path))
    for h in OPEN:
        f = h(it, p, mode, vfs)
        if f is not None:
            return f
    if 'w' in mode:
        f = VFile(p, [], mode)
        vfs.setdefault('written', []).append(f)
        vfs[p] = f
        return f
    if 'a' in mode or '+' in mode:
        raise Unsupported(f'open mode {mode}')
    if p not in vfs:
        raise PyRaise(FileNotFoundError, (p,))
    lines = vfs[p]
    if isinstance(lines, VFile):
        if not lines.closed:
            raise Unsupported('reading a file that is still being written')
        lines = lines_of(lines.text())
    f = VFile(p, lines, mode)
    vfs.setdefault('read', []).append(f)
    return f


I.FORCE_MODEL.add(open)
I.FORCE_MODEL.add(next)


import numpy as _np


@I.model(_np.fromstring)
def np_fromstring(it, s, dtype=float, count=-1, *, sep=None):
    if sep is None or not (isinstance(sep, str) and sep.isspace()) or count != -1 or dtype not in (float, _np.float64, 'float'):
        raise Unsupported('fromstring')
    from . import npmodel as N
    return N.as_arr([to_float(w) for w in m_split(s)])


import io as _io


@I.model(_io.StringIO)
def b_stringio(it, s='', newline='\n'):
    return VFile('StringIO', lines_of(s), 'r') if s != '' else VFile('StringIO', [], 'w')


I.FORCE_MODEL.add(_io.StringIO)


PCT = re.compile(r'%(?:\((\w+)\))?([-+ 0#]*)(\d+)?(?:\.(\d+))?([sdifFeEgGr%])')


def percent(template, args):
    """template % args for a literal template"""
    vals = list(args) if isinstance(args, tuple) else [args]
    out, pos, k = [], 0, 0
    for m in PCT.finditer(template):
        if '%' in template[pos:m.start()]:
            return Str('formatted')
        out.append([template[pos:m.start()]])
        pos = m.end()
        key, flags, w, prec, c = m.groups()
        if c == '%':
            out.append(['%'])
            continue
        if key is not None:
            if not isinstance(args, dict) or key not in args:
                return Str('formatted')
            v = args[key]
        else:
            if k >= len(vals):
                raise PyRaise(TypeError, ('not enough arguments for format string',))
            v = vals[k]
            k += 1
        if not I.is_symbolic(v):
            out.append([m.group(0).replace('(%s)' % key, '') % (v,)])
            continue
        if c in 'sr':
            if prec or flags not in ('', '-'):
                return Str('formatted')
            out.append(I.fmt_value(v, ('<' if flags else '>') + w if w else ''))
            continue
        if not isinstance(v, Sym) or '#' in flags or (c in 'di' and (v.s == 'f' or prec)):
            return Str('formatted')
        spec = ('<' if '-' in flags else '') + ('+' if '+' in flags else ' ' if ' ' in flags else '') + ('0' if '0' in flags and '-' not in flags else '') + (w or '') + \
            ('.' + prec if prec else '') + ('' if c in 'di' else c)
        out.append(I.fmt_value(v, spec) if spec else I.fmt_value(v))
    if '%' in template[pos:]:
        return Str('formatted')
    if k < len(vals) and not isinstance(args, dict):
        raise PyRaise(TypeError, ('not all arguments converted during string formatting',))
    out.append([template[pos:]])
    return I.fmt_join(out)


def h_percent(it, op, a, b):
    if isinstance(a, str) and isinstance(op, I.ast.Mod) and I.is_symbolic(b):
        return percent(a, b)
    return NotImplemented


I.BINOPS.insert(0, h_percent)
