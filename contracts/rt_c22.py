import numpy as np
from harness.rt import *
from ASAPy.data import data as D
from ASAPy.data import ace as AC

SYM = ('n H He Li Be B C N O F Ne Na Mg Al Si P S Cl Ar K Ca Sc Ti V Cr Mn Fe Co Ni Cu Zn Ga Ge As Se Br Kr Rb Sr Y Zr Nb Mo Tc Ru Rh Pd Ag '
       'Cd In Sn Sb Te I Xe Cs Ba La Ce Pr Nd Pm Sm Eu Gd Tb Dy Ho Er Tm Yb Lu Hf Ta W Re Os Ir Pt Au Hg Tl Pb Bi Po At Rn Fr Ra Ac Th Pa U Np '
       'Pu Am Cm Bk Cf Es Fm Md No Lr Rf Db Sg Bh Hs Mt Ds Rg Cn Nh Fl Mc Lv Ts Og').split()
STATES = list(range(0, 11)) + [15, 99]


def run(c):
    if c.get('zs'):
        for Z in c['zs']:
            run(dict(c, zs=None, Z=Z))
        return
    Z = c['Z']
    if c['kind'] == 'names':
        for A in c['A']:
            for m in c.get('states') or STATES:
                n = call(need(D, 'gnd_name'), Z, A, m)
                w = '%s%d%s' % (SYM[Z], A, '_m%d' % m if m else '')
                expect(n == w, 'gnd_name({}, {}, {}) = {!r} instead of {!r}', Z, A, m, n, w)
                r = call(need(D, 'zam'), n)
                expect(tuple(r) == (Z, A, m), 'zam({!r}) = {}', n, r)
            expect(call(D.gnd_name, Z, A) == SYM[Z] + str(A), 'gnd_name({}, {})', Z, A)
            # excited levels are written _eN
            r = call(D.zam, '%s%d_e3' % (SYM[Z], A))
            expect(tuple(r) == (Z, A, 3), 'zam of an excited level = {}', r)
        return
    g = need(AC, 'get_metadata')

    def chk(zaid, scheme, A, m, default=False):
        r = call(g, zaid, *([] if default else [scheme]))
        w = (SYM[Z] + str(A) + ('_m%d' % m if m else ''), SYM[Z], Z, A, m)
        expect(tuple(r) == w, 'get_metadata({}, {}) = {} instead of {}', zaid, scheme, tuple(r), w)
    for A in c['A']:
        # the mass numbers the folding by hundreds can tell apart
        if not (1 <= A <= min(3 * Z, 300) and A + 100 > 3 * Z):
            continue
        z = 1000 * Z + A
        am = (Z, A) == (95, 242)
        chk(z, 'nndc', A, 0)
        chk(z, 'nndc', A, 0, default=True)
        chk(z + 400, 'nndc', A, 1)
        chk(z, 'mcnp', A, 1 if am else 0)
        chk(z + 400, 'mcnp', A, 0 if am else 1)
        for s in c.get('shifts') or (1, 2, 3, 9):
            chk(1000000 * s + z, 'mcnp', A, 0 if (am and s == 1) else s)
        if c.get('bad'):
            for v in ('x', 1.5):
                try:
                    with quiet():
                        g(z, v)
                except Exception:
                    continue
                raise Violation('get_metadata accepts the scheme %r' % v)


def fixed(tier):
    for Z in range(0, 119):
        yield {'kind': 'names', 'Z': Z, 'A': list(range(1, 301))}
    for Z in range(1, 119):
        yield {'kind': 'zaid', 'Z': Z, 'A': list(range(1, 301)), 'bad': Z % 10 == 1}
