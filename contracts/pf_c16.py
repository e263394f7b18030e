"""C16: rewriting an ACE file. A file is a header and any number of lines of white-space separated words, any number of words per line; which text
a word is, is not fixed. Replacing is stated over the occurrences of a sequence of whole words."""
import z3
from pyvc import core as K
from pyvc.core import dz
from pyvc.prove import Task

MOD = 'ASAPy.AceIO:'
CLS = MOD + 'WriteAce'
HEADS = ['2.0.1   92235.800nc  endfb71\n', '92235.80c  233.024800  2.5301E-08   12/19/12\n', '  1001.70c    0.999170  2.5301E-08   12/19/12\n',
         '100258.31c 255.0  2.5301E-08   12/19/12\n', ' 8016.00c   15.8  0.0\n']


def world(ctx):
    """a file with N words in L data lines"""
    from pyvc import text, words as W
    k = 0
    while k < len(HEADS) - 1 and not ctx.fork(f'header style {k}'):
        k += 1
    h = 15 if k == 0 else 12
    head = [HEADS[k]] + [text.rope(text.Field(f'header line {i}', None, 70), '\n') for i in range(1, h)]
    L = ctx.in_int('L', 1)
    N = ctx.in_int('N', 0, size=True)
    n, l = K.zi(N), K.zi(L)
    w = ctx.fresh_fn('word', K.I_, K.I_)
    off = ctx.fresh_fn('words before line', K.I_, K.I_)
    st, en = ctx.fresh_fn('line starts blank', K.I_, K.B_), ctx.fresh_fn('line ends blank', K.I_, K.B_)
    i = z3.Int('i!off')
    ctx.fact(z3.And(off(0) == 0, off(l) == n))
    ctx.axioms.append(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < l), off(i) <= off(i + 1)), patterns=[off(i)]))
    ctx.axioms.append(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < l - 1), en(i)), patterns=[en(i)]))
    line = lambda q: W.Words(w, off(q), off(q + 1), st(q), en(q), True, False)
    ctx.vfs = {'/in/a': W.FileLines(head, l, line)}
    return dict(kind=k, head=head, L=l, N=n, w=w, off=off, en=en, line=line)


class TextState:
    """the text gathered from the first i lines"""
    def __init__(self, ctx, o):
        self.ctx, self.o = ctx, o

    def havoc(self, i):
        from pyvc import words as W
        c, o = self.ctx, self.o
        end = c.fresh('end', K.B_)
        c.fact(z3.Implies(z3.And(i > 0, o['en'](i - 1)), end))
        return W.Words(o['w'], z3.IntVal(0), o['off'](i), c.fresh('start', K.B_), end, False, False)

    def establish(self, x, i, where):
        from pyvc import words as W
        c, o = self.ctx, self.o
        if x == '':
            return c.prove('the text holds the words of the lines so far ' + where, o['off'](i) == 0)
        if not isinstance(x, W.Words):
            raise K.Unsupported('text of the lines')
        q = c.fresh('q', K.I_)
        c.prove('the text holds the words of the lines so far ' + where, z3.And(x.n == o['off'](i), z3.Implies(z3.And(q >= 0, q < x.n), x.at(q) == o['w'](q)), z3.BoolVal(not x.nl)))
        c.prove('lines do not run together ' + where, z3.Implies(z3.And(i > 0, o['en'](i - 1)), x.end), kind='invariant')


def first(f, default):
    try:
        return f()
    except K.Unsupported:
        return default


def invariants(ctx, o):
    from pyvc import loops, words as W, interp as I

    def inv(it, fr, s, ordinal, spec):
        if spec is None:
            return False
        i = ctx.fresh('i', K.I_)
        x = spec.fn(i)
        names = it.assigned_names(s.body)
        here = {n: fr.env[n] for n in names if n in fr.env and not isinstance(fr.env[n], I.Conflict) and fr.env[n] is not I.UNDEF}
        xs = x if isinstance(x, tuple) else (x,)
        if any(isinstance(v, W.Words) for v in xs):
            texts = [n for n, v in here.items() if isinstance(v, (str, W.Words))]
            if len(texts) != 1:
                raise K.Unsupported('which variable gathers the text')
            loops.hoare(it, fr, s, spec, 'reading', {texts[0]: TextState(ctx, o)}, lambda v, g, i: [])
            return True
        if any(W.word_of(v) is not None for v in xs):
            counters = {n: 'i' for n, v in here.items() if K.isnum(v) and K.sort_of(v) == 'i'}
            f = ctx.vfs['written'][-1]
            before = list(f.out)
            word = [v for v in xs if W.word_of(v) is not None][0]

            def step(g, v, w, i):
                ev = W.events(f.out[len(before):])
                wd = ev[0] if ev else None
                idx = z3.substitute(W.word_of(word), (i0, i))
                ctx.prove('one word per column of twenty, right adjusted', z3.BoolVal(isinstance(wd, W.Pad) and wd.wid == 20 and wd.side == '>'))
                if isinstance(wd, W.Pad):
                    ctx.prove('the words are written in order', wd.e == idx)
                ctx.prove('four words per line', (i + 1) % 4 == 0 if ev[1:] == ['\n'] else (i + 1) % 4 != 0 if not ev[1:] else z3.BoolVal(False))
                del f.out[len(before):]
                return {}
            i0 = i
            loops.hoare(it, fr, s, spec, 'writing', counters, lambda v, g, i: [(f'{n} counts the words of the line', 0, lambda n=n: v[n] == i % 4) for n in counters], step=step)
            f.out[:] = before + [('rows', dz(spec.n), word, i0)]
            return True
        return False
    return inv


def writing_check(ctx, o, head, n, word, where=''):
    """what was written is the header and the words, four per line"""
    from pyvc import words as W
    files = ctx.vfs.get('written', [])
    ctx.prove('one file is written' + where, z3.BoolVal(len(files) == 1 and files[0].name == '/out/b' and files[0].closed))
    if not files:
        return
    out = files[0].out
    k = [q for q, e in enumerate(out) if isinstance(e, tuple)]
    if len(k) != 1:
        ctx.prove('the words are written' + where, z3.BoolVal(False))
        return
    ctx.prove('the header is kept' + where, z3.BoolVal(W.events(out[:k[0]]) == W.events(head)))
    _, rows, x, i0 = out[k[0]]
    q = ctx.fresh('q', K.I_)
    ctx.prove('every word is written' + where, z3.And(rows == n, z3.Implies(z3.And(q >= 0, q < n), z3.substitute(W.word_of(x), (i0, q)) == word(q))))
    tail = W.events(out[k[0] + 1:])
    ctx.prove('the last line ends once' + where, n % 4 != 0 if tail == ['\n'] else n % 4 == 0 if tail == [] else z3.BoolVal(False))


def reading(ctx, it):
    """the constructor, then write_ace: the file rewritten unmodified"""
    from pyvc import interp as I, words as W
    o = world(ctx)
    I.INVARIANTS['*'] = invariants(ctx, o)
    ob = it.call(it.load(CLS), ('/in/a',))
    t, h = it.getattr(ob, 'single_line'), it.getattr(ob, 'header_lines')
    if not isinstance(t, W.Words) or not isinstance(h, list):
        raise K.Unsupported('the way the file is held')
    q = ctx.fresh('q', K.I_)
    ctx.prove('all words of the data are held in order, separated by single blanks', z3.And(t.n == o['N'], z3.Implies(z3.And(q >= 0, q < t.n), t.at(q) == o['w'](q)), z3.BoolVal(t.norm and not t.nl)))
    ctx.prove('all header lines are held', z3.BoolVal(len(h) == len(o['head']) and all(a is b for a, b in zip(h, o['head']))))
    it.call(it.getattr(ob, 'write_ace'), ('/out/b',))
    writing_check(ctx, o, o['head'], o['N'], o['w'])


def held(ctx, it):
    """an object as the constructor or earlier replacements leave it"""
    from pyvc import interp as I, words as W, text
    N = ctx.in_int('N', 0, size=True)
    w = ctx.fresh_fn('word', K.I_, K.I_)
    tok = ctx.in_arr('tok', (N,))
    plain = ctx.in_arr('plain', (N,), 'b')
    other = ctx.fresh_fn('other text', K.I_, K.I_)
    q = z3.Int('q!tok')
    word = lambda q: z3.If(K.zb(plain.fn((q,))), W.number_word(tok.fn((q,)), '.11E'), other(q))
    t = W.Words(word, z3.IntVal(0), K.zi(N), ctx.fresh('start', K.B_), ctx.fresh('end', K.B_), False, True)
    head = [text.rope(text.Field(f'header line {i}', None, 70), '\n') for i in range(12)]
    return I.SObj(it.load(CLS), single_line=t, header_lines=head), t, head, K.zi(N)


def replacing(how):
    def f(ctx, it):
        from pyvc import words as W
        ob, t, head, n = held(ctx, it)
        nA = ctx.in_int('nA', 1, size=True)
        nR = nA if how == 'equal' else ctx.in_int('nR', 1, size=True)
        if how != 'equal':
            ctx.fact(K.zi(nA) != K.zi(nR))
        A, R = ctx.in_arr('arr', (nA,)), ctx.in_arr('new', (nR,))
        a0, r0 = A.snap(), R.snap()
        kw, mx = {}, z3.IntVal(1)
        if how == 'equal' and ctx.fork('max_replaces given'):
            m = ctx.in_int('max')
            kw, mx = {'max_replaces': m}, K.zi(m)
        arr = W.Words(lambda q: W.number_word(a0((q,)), '.11E'), z3.IntVal(0), K.zi(nA), W.FALSE, W.FALSE, False, True)
        new = lambda q: W.number_word(r0((q,)), '.11E')
        oc = W.occurrences(t, arr)
        same_text = lambda: (lambda x, q: z3.And(z3.BoolVal(isinstance(x, W.Words) and x.norm and not x.nl), x.n == n, z3.Implies(z3.And(q >= 0, q < n), x.at(q) == t.at(q))) if
                             isinstance(x, W.Words) else z3.BoolVal(False))(it.getattr(ob, 'single_line'), ctx.fresh('q', K.I_))
        try:
            it.call(it.getattr(ob, 'replace_array'), (A, R), kw)
        except K.PyRaise:
            ctx.prove('an error only for arrays of different length or an array that is not in the file', z3.BoolVal(True) if how != 'equal' else z3.Not(oc.found))
            ctx.prove('nothing changes after an error', z3.And(same_text(), z3.BoolVal(all(a is b for a, b in zip(it.getattr(ob, 'header_lines'), head)))))
            return
        ctx.prove('an error for arrays of different length', z3.BoolVal(how == 'equal'))
        ctx.prove('an error for an array that is not in the file', oc.found)
        x = it.getattr(ob, 'single_line')
        if not isinstance(x, W.Words):
            raise K.Unsupported('the way the file is held')
        q = ctx.fresh('q', K.I_)
        hit = z3.And(oc.cov(q), z3.Or(mx < 0, oc.rank(q) < mx))
        rng = z3.And(q >= 0, q < n)
        ctx.prove('the number of words is kept', z3.And(x.n == n, z3.BoolVal(x.norm and not x.nl)))
        ctx.prove('the first max_replaces occurrences become the new numbers', z3.Implies(z3.And(rng, hit), x.at(q) == new(q - oc.at(q))))
        ctx.prove('nothing else changes', z3.Implies(z3.And(rng, z3.Not(hit)), x.at(q) == t.at(q)))
        h = it.getattr(ob, 'header_lines')
        ctx.prove('the header is kept', z3.BoolVal(isinstance(h, list) and len(h) == len(head) and all(a is b for a, b in zip(h, head))))
        i = ctx.fresh('i', K.I_)
        ctx.prove('the arrays are kept', z3.And(z3.Implies(z3.And(i >= 0, i < K.zi(nA)), K.same(A.fn((i,)), a0((i,)))), z3.Implies(z3.And(i >= 0, i < K.zi(nR)), K.same(R.fn((i,)), r0((i,))))))
    return f


def after(ctx, it):
    """write_ace from any state"""
    from pyvc import interp as I
    ob, t, head, n = held(ctx, it)
    I.INVARIANTS['*'] = invariants(ctx, None)
    ctx.vfs = {}
    it.call(it.getattr(ob, 'write_ace'), ('/out/b',))
    writing_check(ctx, None, head, n, t.at)
    x = it.getattr(ob, 'single_line')
    ctx.prove('writing changes nothing', z3.BoolVal(x is t))


def header(new):
    from harness import ace
    from harness.rt import Rng
    lines, _ = ace.build(ace.random_spec(Rng(7), [102], n=3, header='new' if new else 'old'))
    return lines[:15 if new else 12]


def case_read(m):
    n = min(int(m.get('N', 9)), 300)
    return [{'kind': 'proof', 'header': header(new), 'tokens': ['%.11E' % (1.5 * q) for q in range(k)], 'ops': [], 'layout': lay}
            for new in (False, True) for k in sorted({max(n, 1), 1, 3, 4, 5, 8, 23}) for lay in ('std', 'tight', 'ragged', 'one', 'trail')]


def case_replace(m):
    import numpy as np
    n, a = min(int(m['N']), 300), min(int(m['nA']), 60)
    arr = [float('%.11E' % v) for v in np.ravel(m['arr'])[:a]] or [1.0]
    new = [float('%.11E' % v) for v in np.ravel(m.get('new', arr))[:int(m.get('nR', a))]] or [2.0]
    new = new + [3.0] * (int(m.get('nR', a)) - len(new))
    arr += [1.0] * (a - len(arr))
    out = []
    pat = ['%.11E' % v for v in arr]
    rep = ['%.11E' % v for v in new]
    toks = ['%.11E' % v if p else '%d' % (100 + q) for q, (v, p) in enumerate(zip(np.ravel(m.get('tok', []))[:n], np.ravel(m.get('plain', []))[:n]))]
    mx = m.get('max')
    for ts in (toks, pat + ['7'] + pat + pat + ['8'], ['7'] + pat, ['7'] * 5, pat[:-1] + ['2' + pat[-1]] + pat):
        for q in {None, None if mx is None else int(mx), 0, 2}:
            if q is None or q >= 0:
                out.append({'kind': 'proof', 'header': header(False), 'tokens': ts or ['1'], 'ops': [{'arr': arr, 'new': new, 'max': q}], 'layout': 'std'})
    return out


AS = ['a word is a non-empty text without white space; data lines contain no white space but blanks and line ends',
      'open/readlines give the lines of the file; what is written to a file is its content (executed by the bounded contract)',
      "format(v, '.11E') of a finite number is a word"]
RX = ["re: in a text whose words are separated by single blanks, (?<!\\S) + re.escape(words) + (?!\\S) matches exactly the occurrences of that sequence of whole words, and re.sub replaces "
      'the leftmost non-overlapping ones, at most count of them (all for count 0)']
TASKS = [Task('read and write back', [CLS + '.__init__', CLS + '._read_ace_to_a_line', CLS + '.write_ace'], reading, case=case_read, assumptions=AS),
         Task('write after replacements', [CLS + '.write_ace'], after, case=case_read, assumptions=AS),
         Task('replace_array', [CLS + '.replace_array', CLS + '.format_mcnp'], replacing('equal'), case=case_replace, assumptions=AS + RX),
         Task('replace_array, different lengths', [CLS + '.replace_array', CLS + '.format_mcnp'], replacing('different'), case=case_replace, assumptions=AS + RX)]
