"""Equation shapes for the solver leaves: every combination of term kinds on the two sides, usable or not."""
from . import poly
from .leaf import *

u, v, w = sym('th_1'), sym('th_2'), sym('th_4')
d1, d2 = sym('d_1'), sym('d_2')
l1, l2, r11, r12, Px = map(sym, ('l_1', 'l_2', 'r_11', 'r_12', 'Px'))


def terms(x, y):
    """kinds of terms in the wanted unknown x and another unsolved unknown y"""
    sx, cx, sy, cy = sin(x), cos(x), sin(y), cos(y)
    return [('x', x), ('x^2', x * x), ('sin', sx), ('cos', cx), ('cos^2', cx * cx), ('sin cos', sx * cx), ('x sin', x * sx),
            ('x cos', x * cx), ('sin sin', sx * sy), ('cos cos', cx * cy), ('sin cos y', sx * cy), ('cos x sin y', cx * sy),
            ('x y', x * y), ('x sin y', x * sy), ('1/x', 1 / x), ('sqrt x', poly.sqrt(x)), ('1/sin', 1 / sx), ('y', y),
            ('sin y', sy), ('y^2', y * y), ('const', r12)]


def raw_terms(x, y):
    z = y + w
    return [('sin sum', poly.sin(x + z)), ('cos sum', poly.cos(x + z)), ('sin diff', poly.sin(x - w)), ('cos sum solved', poly.cos(x + w)),
            ('sin double', poly.sin(2 * x)), ('sin', poly.sin(x)), ('cos', poly.cos(x)), ('x', x)]


def mk(x, y, thorough=False):
    """one-equation shapes: (key, (lhs, rhs))"""
    T = terms(x, y)
    out = []
    for i, (n, t) in enumerate(T):
        for m, s in T:
            has = {a for p in (t, s) for a in p.symbols()}
            if x.as_atom() not in has:
                continue
            out.append(('%s = %s' % (n, m), (l1 * t, -2 * s + Px)))
            out.append(('0 = %s + %s' % (n, m), (Poly.const(0), l2 * cos(w) * t - s + r11)))
            if thorough:
                out.append(('%s + %s = 0' % (n, m), (t + 3 * s - l1, Poly.const(0))))
    return out


def mk_raw(x, y):
    T = raw_terms(x, y)
    out = []
    for n, t in T:
        for m, s in T + [('const', r12)]:
            out.append(('%s = %s' % (n, m), (l1 * t, -2 * s + Px)))
            out.append(('0 = %s + %s' % (n, m), (Poly.const(0), l2 * t - s + r11)))
    return out


def classify(eqs, unsolved):
    one, two, three = [], [], []
    for e in eqs:
        n = len(mentions(Poly.of(e[0]) - Poly.of(e[1]), unsolved) or mentions(e[0], unsolved) + mentions(e[1], unsolved))
        # count as the code base does: occurrences on either side
        k = len(set(mentions(e[0], unsolved)) | set(mentions(e[1], unsolved)))
        (one if k == 1 else two if k == 2 else three if k > 2 else []).append(e)
    return one, two, three


def scenes(thorough):
    """(key, target, other unsolved, equations)"""
    for x, y, nx, ny in ((u, v, 'th_1', 'th_2'), (d1, v, 'd_1', 'th_2')):
        S = mk(x, y, thorough)
        for k, e in S:
            yield 'one equation/%s/%s' % (nx, k), nx, ny, [e]
    x, y = u, v
    s1 = [('sin', (r12, l1 * sin(x))), ('cos', (Px, l2 * cos(x))), ('-sin', (r12, -l1 * sin(x) + 2)), ('sin cos', (r11, l1 * sin(x) * cos(x))),
          ('a sin + b cos', (r11, l1 * sin(x) + l2 * cos(x))), ('a cos - b sin', (Px, l1 * cos(x) - l2 * sin(x))),
          ('b sin - a cos', (-Px, -l1 * cos(x) + l2 * sin(x))), ('a cos + b sin', (Px, l1 * cos(x) + l2 * sin(x))),
          ('+ x', (Px, l1 * cos(x) - l2 * sin(x) + x)), ('+ cos^2', (r11, l1 * sin(x) + l2 * cos(x) + cos(x) ** 2)),
          ('+ sin cos', (Px, l1 * cos(x) - l2 * sin(x) + sin(x) * cos(x))), ('x', (r12, x + l1)), ('x sin', (r12, x * sin(x))),
          ('cos + x', (Px, l1 * cos(x) + x)), ('sin + x', (r12, l1 * sin(x) + x)),
          ('sin y factor', (r12, l1 * sin(x) * sin(y))), ('sin y factor cos', (Px, l2 * cos(x) * sin(y))), ('cos y factor', (Px, l2 * cos(x) * cos(y))),
          ('y factor', (Px, cos(x) * y)), ('y addend', (r12, l1 * sin(x) + y)), ('y sin addend', (Px, l1 * cos(x) + sin(y))),
          ('cos^2', (Px, cos(x) ** 2)), ('1/sin', (Px, l1 / sin(x))), ('zero', (Poly.const(0), l1 * sin(x))), ('zero cos', (Poly.const(0), l1 * cos(x)))]
    for a, ea in s1:
        for b, eb in s1:
            if a != b:
                yield 'two equations/%s, %s' % (a, b), 'th_1', 'th_2', [ea, eb]


def raw_scenes():
    poly.RAW = True
    try:
        S = list(mk_raw(u, v))
    finally:
        poly.RAW = False
    for k, e in S:
        yield 'sums kept/%s' % k, 'th_1', 'th_2', [e]


def tick_leaf(it, name, target, other, eqs, nticks=1):
    one, two, three = classify(eqs, [target, other])
    bb, R, UU = scene(it, target, [other, 'd_5'], ['th_4'], one, two, three)
    before = {n: snap(it, x) for n, x in UU.items() if n != target}
    t = bt.new_tree(it, group(it, name))
    st = None
    for _ in range(nticks):
        st, _x = bt.tick(it, t, bb)
    x = UU[target]
    return dict(status=st, solved=bool(it.getattr(x, 'solved')), solutions=[Poly.of(p) for p in it.tolist(it.getattr(x, 'solutions'))],
                count=it.getattr(x, 'nsolutions'), others=all(snap(it, y) == before[n] for n, y in UU.items() if n != target))
