"""Specification side of the kinematics checks: textbook matrices as lists of polynomial normal forms."""
from .poly import Poly, sym, sin, cos, is_zero, PI
from .sympy_model import VMatrix


def P(x):
    return Poly.of(x)


def mm(*ms):
    r = ms[0]
    for m in ms[1:]:
        r = [[sum((P(a) * P(b) for a, b in zip(row, col)), Poly.const(0)) for col in zip(*m)] for row in r]
    return r


def tr(m):
    return [list(c) for c in zip(*m)]


def rotx(t):
    c, s = cos(P(t)), sin(P(t))
    return [[1, 0, 0], [0, c, -s], [0, s, c]]


def roty(t):
    c, s = cos(P(t)), sin(P(t))
    return [[c, 0, s], [0, 1, 0], [-s, 0, c]]


def rotz(t):
    c, s = cos(P(t)), sin(P(t))
    return [[c, -s, 0], [s, c, 0], [0, 0, 1]]


def hom(R, p=(0, 0, 0)):
    return [list(r) + [x] for r, x in zip(R, p)] + [[0, 0, 0, 1]]


def rot(T):
    return [r[:3] for r in T[:3]]


def pos(T):
    return [r[3] for r in T[:3]]


def link(al, a, d, th):
    """Craig's link transform: screw along x by (al, a), then along z by (th, d)"""
    return mm(hom(rotx(al)), hom(rotx(0), (a, 0, 0)), hom(rotx(0), (0, 0, d)), hom(rotz(th)))


def hinv(T):
    R = tr(rot(T))
    return hom(R, [-r[0] for r in mm(R, [[x] for x in pos(T)])])


def cross(a, b):
    return [P(a[1]) * b[2] - P(a[2]) * b[1], P(a[2]) * b[0] - P(a[0]) * b[2], P(a[0]) * b[1] - P(a[1]) * b[0]]


def rows(m):
    if isinstance(m, VMatrix):
        return m.rows
    return m


def same(m, spec):
    """entrywise identity of polynomial normal forms; None if equal, else the first difference"""
    if not isinstance(m, (VMatrix, list)):
        return 'not a matrix: %r' % (m,)
    m = rows(m)
    if len(m) != len(spec) or any(len(a) != len(b) for a, b in zip(m, spec)):
        return 'shape %dx%d, expected %dx%d' % (len(m), len(m[0]) if m else 0, len(spec), len(spec[0]))
    for i, (ra, rb) in enumerate(zip(m, spec)):
        for j, (a, b) in enumerate(zip(ra, rb)):
            try:
                z = is_zero(P(a) - P(b))
            except TypeError:
                return 'entry [%d,%d] is not an expression: %r' % (i, j, a)
            if not z:
                return 'entry [%d,%d] is %r, expected %r' % (i, j, a, b)
    return None


def dh_sym(n):
    """fully symbolic row n (1..6): distinct symbols, so no two columns or rows can be confused"""
    return [sym('al%d' % n), sym('a_%d' % (n - 1)), sym('d_%d' % n), sym('th_%d' % n)]


IDENT = [0, 0, 0, 0]


def robot(it, dh, vv=(1, 1, 1, 1, 1, 1), fk=True, params=()):
    k = it.import_module('ikbtbasics.kin_cl')
    m = it.call(it.getattr(k, 'mechanism'), [VMatrix([list(r) for r in dh]), list(params), list(vv)], {})
    if fk:
        it.call(it.getattr(m, 'forward_kinematics'), [], {})
    return m


def aliases(mech):
    """parameters introduced for cos/sin of a twist angle -> the function they are documented to hold"""
    import re
    from .sympy_model import _poly_str
    sub = {}
    for k, v in mech.d['pvals'].items():
        t = re.match(r'\s*np\.(cos|sin)\((.*)\)\s*$', str(v))
        if not t or P(k).as_atom() is None:
            continue
        arg = t.group(2)
        for r in rows(mech.d['DH']):
            if _poly_str(P(r[0])) == arg:
                sub[P(k).as_atom()] = (cos if t.group(1) == 'cos' else sin)(P(r[0]))
    return sub


def unalias(m, mech):
    """replace the parameters introduced for cos/sin of a twist angle by the function they are documented to hold"""
    sub = aliases(mech)
    return [[P(x).subs(sub) for x in r] for r in rows(m)]
