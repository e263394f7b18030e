from contracts.acetab import *


def _tokens(text_lines, h):
    return ' '.join(text_lines[h:]).split()


def _check(path, header, tokens, what):
    with open(path) as f:
        lines = f.readlines()
    h = len(header)
    expect(lines[:h] == header, '{}: header changed', what)
    body = lines[h:]
    exp = []
    for i in range(0, len(tokens), 4):
        exp.append(''.join('%20s' % t for t in tokens[i:i + 4]) + '\n')
    if body != exp:
        for i in range(max(len(body), len(exp))):
            a = body[i] if i < len(body) else None
            b = exp[i] if i < len(exp) else None
            if a != b:
                raise Violation('%s: data line %d is %r, expected %r' % (what, i, a, b))


def _find(tokens, seq):
    """leftmost non-overlapping occurrences"""
    out = []
    i = 0
    while i + len(seq) <= len(tokens):
        if tokens[i:i + len(seq)] == seq:
            out.append(i)
            i += len(seq)
        else:
            i += 1
    return out


def run(c):
    with scratch() as d:
        p = os.path.join(d, 'a.ace')
        header = c['header']
        toks = list(c['tokens'])
        with open(p, 'w') as f:
            f.writelines(header)
            lay = c.get('layout', 'std')
            k = {'ragged': 3, 'one': 1}.get(lay, 4)
            fmt = {'std': lambda r: ''.join('%20s' % t for t in r), 'tight': ' '.join, 'ragged': '   '.join, 'one': ' '.join,
                   'trail': lambda r: ''.join('%-22s' % t for t in r)}[lay]
            for i in range(0, len(toks), k):
                f.write(fmt(toks[i:i + k]) + ('\n' if i + k < len(toks) or c.get('eol', True) else ''))
        raw = open(p, 'rb').read()
        w = call(need(AceIO, 'WriteAce'), p)
        out = os.path.join(d, 'out.ace')
        call(w.write_ace, out)
        _check(out, header, toks, 'unmodified rewrite')
        for o in c['ops']:
            arr = np.array(o['arr'], float) if not o.get('aslist') else list(o['arr'])
            new = np.array(o['new'], float) if not o.get('aslist') else list(o['new'])
            seq = ['%.11E' % v for v in o['arr']]
            rep = ['%.11E' % v for v in o['new']]
            kw = {} if o['max'] is None else {'max_replaces': o['max']}
            occ = _find(toks, seq)
            if len(seq) != len(rep):
                must_raise(w.replace_array, arr, new, **kw, _what='an error for arrays of different length')
            elif not occ:
                must_raise(w.replace_array, arr, new, **kw, _what='an error for an array that is not in the file')
            else:
                call(w.replace_array, arr, new, **kw)
                for i in occ[:1 if o['max'] is None else o['max']]:
                    toks[i:i + len(seq)] = rep
            call(w.write_ace, out)
            _check(out, header, toks, 'after replacing %s by %s (max %s)' % (seq[:4], rep[:4], o['max']))
        expect(open(p, 'rb').read() == raw, 'the input file was modified')


NUM = [1.0, -1.0, 2.0, 0.0, 1.5, 11.0, 1e-11, -1e-11, 1.00000000001, 1e100, 1e-100, 12.5, 2.5e-8]


def _case(rng, big=False):
    new_style = rng.chance(.5)
    lines, _ = ace.build(ace.random_spec(rng, [102], n=3, header='new' if new_style else 'old'))
    header = lines[:15 if new_style else 12]
    if rng.chance(.2):
        header = [h.rstrip('\n') + '  \n' for h in header]
    n = rng.pick([90, 200, 500] if big else [1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 23, 40])
    pool = [rng.pick(NUM) for _ in range(rng.int(1, 4))]
    toks = []
    for _ in range(n):
        r = rng.random()
        if r < .15:
            toks.append('%d' % rng.int(-5, 40))
        elif r < .2:
            toks.append(rng.pick(['1.234567-101', '1.0', '-0.0', '1.00000000000E+000', '+1.00000000000E+00']))
        elif r < .7:
            toks.append('%.11E' % rng.pick(pool))
        else:
            toks.append('%.11E' % rng.pick(NUM + [rng.normal()]))
    if rng.chance(.4) and n >= 6:
        k = rng.int(1, n // 3)
        a, b = sorted(rng.choice(n - k + 1, 2))
        toks[b:b + k] = toks[a:a + k]
        toks = toks[:n]
    ops = []

    def val(t):
        try:
            return float(t)
        except ValueError:
            return None
    for _ in range(rng.int(1, 4)):
        k = rng.int(1, min(60 if big else 6, len(toks)))
        i = rng.int(0, len(toks) - k)
        arr = [val(t) for t in toks[i:i + k]]
        if None in arr or rng.chance(.15):
            arr = [float(rng.pick(NUM + [99.0])) for _ in range(rng.int(1, 3))]
        new = [float(v) for v in rng.uniform(-5, 5, len(arr))]
        if rng.chance(.3):
            new = [float(rng.pick(NUM)) for _ in arr]
        if rng.chance(.1):
            new = new[:-1] if rng.chance(.5) else new + [1.0]
        ops.append({'arr': arr, 'new': new, 'max': rng.pick([None, None, 1, 2, 3, 9999, 0]), 'aslist': bool(rng.chance(.3))})
    return {'kind': 'new' if new_style else 'old', 'header': header, 'tokens': toks, 'ops': ops, 'eol': bool(rng.chance(.9)),
            'layout': rng.pick(['std', 'std', 'std', 'tight', 'ragged', 'one', 'trail'])}


def fixed(tier):
    rng = Rng(161)
    for _ in range(60):
        yield _case(rng)
    for _ in range(10):
        yield _case(rng, True)


def gen(rng, tier):
    return _case(rng, deep(rng, tier))
