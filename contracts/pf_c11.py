"""C11: the fixed-width matrix format. Files are sequences of 10-character fields (a blank or a minus sign and nine characters of an unsigned
number with any digits); the layouts are enumerated, the numbers and their digits are not. The assembly of the blocks is for every size."""
import z3
import numpy as np
from pyvc import core as K
from pyvc.core import same, dz
from pyvc.prove import Task

MOD = 'ASAPy.EndfToCov:'
CLS = MOD + 'read_boxer_out_matrix'


def field(ctx, name, sign):
    from pyvc import text
    v = ctx.in_float(name)
    ctx.fact(K.fl(v)[0] >= 0)
    t = text.Num(name, v, 9, 'unsigned')
    t.point = True
    return [sign, t], (K.neg(v) if sign == '-' else v)


def layout(ctx, c):
    """lines of the file and the values of the four blocks"""
    from pyvc import text
    lines = ['\n'] * c.get('lead', 0)
    vals, n = [], c['n']
    k = 0
    for b, cnt in enumerate((n + 1, n, n, n * n)[:c.get('nblocks', 4)]):
        lines.append('%s%d %s\n' % (' ' * c.get('indent', 0), b, 'u-238   9228   1 9228   1 239'))
        row, out = [], []
        for q in range(cnt):
            s = '-' if (k * 7 + k // 3) % c.get('neg', 3) == 0 and b > 0 else ' '
            k += 1
            p, v = field(ctx, f'v{b}_{q}', s)
            row += p
            out.append(v)
            if (q + 1) % c['per'][b] == 0 or q == cnt - 1:
                lines.append(text.rope(*row, *([] if c.get('nonl') and b == 3 and q == cnt - 1 else ['\n'])))
                row = []
        lines += ['\n'] * c['gap'][b]
        vals.append(out)
    if c.get('marker') is not None:
        lines.insert(min(c['marker'], len(lines)), ' ***ERROR IN BOXR*** 12\n')
    return lines, vals


def reading(ctx, it, c):
    lines, vals = layout(ctx, c)
    ctx.vfs = {'/in/m.txt': lines}
    bad = c.get('marker') is not None or c.get('nblocks', 4) < 4
    try:
        o = it.call(it.load(CLS), ('/in/m.txt',))
        r = it.call(it.getattr(o, 'get_block_data'), ())
    except K.PyRaise as ex:
        if not bad:
            raise
        ctx.prove('an error for a marked or incomplete file', z3.BoolVal(c.get('marker') is None or issubclass(ex.cls, RuntimeError)))
        return
    if bad:
        ctx.prove('an error for a marked or incomplete file', z3.BoolVal(False))
        return
    n = c['n']
    b, x, s, cov = r
    for nm, v in zip(('b', 'x', 's', 'cov'), r):
        ctx.result(nm, v)
    sh = lambda a, *w: z3.And(isinstance(a, K.Arr) and len(a.shape) == len(w), *[dz(p) == q for p, q in zip(a.shape, w)])
    ctx.prove('one number per field', z3.And(sh(b, n + 1), sh(x, n), sh(s, n), sh(cov, n, n)))
    at = lambda a, *i: a.fn(tuple(z3.IntVal(q) for q in i))
    num = lambda a, w: z3.And(K.fin(a), K.fl(a)[0] == K.fl(w)[0])
    ctx.prove('group bounds', z3.And(*[num(at(b, q), vals[0][q]) for q in range(n + 1)]))
    ctx.prove('cross sections', z3.And(*[num(at(x, q), vals[1][q]) for q in range(n)]))
    ctx.prove('standard deviation is the relative one times the cross section', z3.And(*[num(at(s, q), K.mul(vals[2][q], vals[1][q])) for q in range(n)]))
    ctx.prove('covariance in row-major order', z3.And(*[num(at(cov, p, q), vals[3][p * n + q]) for p in range(n) for q in range(n)]))


def assembly(ctx, it):
    """get_block_data for every number of groups, the blocks by contract"""
    from pyvc import interp as I
    import importlib
    G = ctx.in_int('G', 1, size=True)
    g = K.zi(G)
    arrs = [ctx.in_arr('bounds', (K.add(G, 1),)), ctx.in_arr('xsec', (G,)), ctx.in_arr('rel', (G,)), ctx.in_arr('cov', (K.mul(G, G),))]
    b0, x0, r0, c0 = [a.snap() for a in arrs]
    starts = [ctx.in_int(f's{k}', 0) for k in range(4)]
    L = ctx.in_int('L', 1)
    for a, b in zip(starts, starts[1:] + [L]):
        ctx.fact(K.zi(a) < K.zi(b))
    ask = []

    def block(it, args, kw):
        lo, hi = (list(args[1:]) + [kw.get('line_num_start'), kw.get('line_num_end')])[:2]
        for k in range(4):
            end = starts[k + 1] if k < 3 else L
            if ctx.valid(z3.And(K.zi(lo) == K.zi(starts[k]) + 1, K.zi(hi) == K.zi(end))):
                return K.Arr(arrs[k].shape, 'f', arrs[k].snap())
        raise K.Unsupported('other lines')
    I.CONTRACTS[CLS + '._block_lines_to_array'] = block
    cls = it.load(CLS)
    o = I.SObj(cls, lines=K.SList(L, lambda i: (_ for _ in ()).throw(K.Unsupported('text of a line'))), block_line_nums=list(starts))
    b, x, s, cov = it.call(it.getattr(o, 'get_block_data'), ())
    for nm, v in zip(('b', 'x', 's', 'cov'), (b, x, s, cov)):
        ctx.result(nm, v)
    i, j = ctx.fresh('i', K.I_), ctx.fresh('j', K.I_)
    ri, rj = z3.And(i >= 0, i < g), z3.And(j >= 0, j < g)
    ctx.prove('sizes', z3.And(dz(b.shape[0]) == g + 1, dz(x.shape[0]) == g, dz(s.shape[0]) == g, len(cov.shape) == 2, dz(cov.shape[0]) == g, dz(cov.shape[1]) == g))
    ctx.prove('group bounds', z3.Implies(z3.And(i >= 0, i <= g), same(b.fn((i,)), b0((i,)))))
    ctx.prove('cross sections', z3.Implies(ri, same(x.fn((i,)), x0((i,)))))
    ctx.prove('standard deviation is the relative one times the cross section', z3.Implies(ri, same(s.fn((i,)), K.mul(r0((i,)), x0((i,))))))
    ctx.prove('covariance in row-major order', z3.Implies(z3.And(ri, rj), same(cov.fn((i, j)), c0((i * g + j,)))))


def case(c):
    def f(m):
        n = c['n']
        k, out = 0, []
        for b, cnt in enumerate((n + 1, n, n, n * n)):
            row = []
            for q in range(cnt):
                neg = (k * 7 + k // 3) % c.get('neg', 3) == 0 and b > 0
                k += 1
                v = float('%.3E' % min(max(m.get(f'v{b}_{q}', 1.0), 0.0), 1e90))
                v = v if v == 0 or v >= 1e-90 else 0.0
                row.append(-v if neg else v)
            out.append(row)
        r = {x: c[x] for x in ('lead', 'indent', 'nonl', 'marker', 'nblocks', 'per', 'gap') if x in c}
        return dict(r, kind='proof', bounds=out[0], xsec=out[1], rel=out[2], cov=[out[3][i * n:i * n + n] for i in range(n)])
    return f


def whole(m):
    n = m['G']
    w = lambda v: [float('%.3E' % (x if 1e-90 < abs(x) < 1e90 else 0.0)) for x in np.ravel(v)]
    return {'kind': 'proof', 'bounds': w(m['bounds']), 'xsec': w(m['xsec']), 'rel': w(m['rel']), 'cov': np.reshape(w(m['cov']), (n, n)).tolist(), 'per': [8] * 4, 'gap': [0] * 4}


def pins(c):
    n = c['n']
    if n > 3 or c.get('nblocks', 4) < 4 or c.get('marker') is not None:
        return
    for q in range(2):
        yield {f'v{b}_{i}': [0.5, 2.0, 0.0, 16.0, 1e6, 0.125][(i * 5 + b + q) % 6] for b, cnt in enumerate((n + 1, n, n, n * n)) for i in range(cnt)}


def real(c):
    def f(p):
        import os, tempfile
        from ASAPy import EndfToCov as EC
        from contracts import rt_c11 as B
        with tempfile.TemporaryDirectory() as d:
            with open(os.path.join(d, 'm'), 'w') as fh:
                fh.write(B.text(case(c)(p)))
            return dict(zip(('b', 'x', 's', 'cov'), EC.read_boxer_out_matrix(os.path.join(d, 'm')).get_block_data()))
    return f


AS = ['a field is a blank or a minus sign followed by nine characters of an unsigned decimal number containing a point; int() of it raises ValueError',
      'leading zeros do not change the number a text denotes', 'open/readlines give the lines of the file']
TASKS = [Task('get_block_data, any number of groups', [CLS + '.get_block_data'], assembly, case=whole, assumptions=['_block_lines_to_array by contract, decided by the other tasks'])]
SHAPES = []
for n in (1, 2, 3):
    for per in ((8, 8, 8, 8), (1, 1, 1, 1), (3, 2, 1, 5)):
        for gap in ((0, 0, 0, 0), (1, 2, 0, 1)):
            SHAPES.append(dict(n=n, per=per, gap=gap, lead=len(SHAPES) % 3, indent=len(SHAPES) % 2, nonl=len(SHAPES) % 2 == 1, neg=2 + len(SHAPES) % 3))
for n in list(range(4, 18)):
    SHAPES.append(dict(n=n, per=(8, 8, 8, 8), gap=(0, 0, n % 2, 0), nonl=n % 3 == 0))
for n in (2, 3, 5):
    for a in range(1, 10):
        SHAPES.append(dict(n=n, per=(a, a % 5 + 1, 9 - a % 4, a % 7 + 1), gap=(a % 2, 0, 0, a % 3), lead=a % 2, neg=1 + a % 4))
for nb in range(4):
    SHAPES.append(dict(n=2, per=(8,) * 4, gap=(0, 1, 0, 0), nblocks=nb))
for mk in (0, 1, 2, 3, 5, 6, 8, 99):
    SHAPES.append(dict(n=2, per=(8,) * 4, gap=(0, 1, 0, 0), marker=mk))
for k, c in enumerate(SHAPES):
    c['per'], c['gap'] = list(c['per']), list(c['gap'])
    TASKS.append(Task('read_boxer_out_matrix layout %d: %s' % (k, ' '.join(f'{a}={b}' for a, b in c.items())), [CLS + '.__init__', CLS + '._find_block_line_nums', CLS + '._block_lines_to_array', CLS + '.get_block_data'],
                      lambda ctx, it, c=c: reading(ctx, it, c), lambda c=c: pins(c), real(c), case=case(c), assumptions=AS))
