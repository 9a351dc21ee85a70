"""A usable equation, or pair of equations, is found wherever it stands among unusable ones."""
from .. import poly
from ..leaf import *
from itertools import permutations, combinations

EXPLANATION = ('Every solver (identifier, solving leaf and, where two methods compete, the ranking leaf) is interpreted on equation lists that '
               'hold one equation, or one pair, of the form it solves among equations it cannot use: without the wanted unknown, without '
               'any unknown, in another function of it, of higher degree, with equal and opposite copies. The list is tried in every '
               'order. The unknown must end solved, by a solution of the usable equations, with the other equations unchanged.')
RULE = 'one obligation per list and order: solved with a success status, and the solution is one of the usable equations'
MIN_OBLIGATIONS = 100
S = {'algebra': 'ikbtleaves/algebra_solver.py', 'ranked': 'ikbtleaves/sincos_solver.py, tan_solver.py, rank_leaf.py',
     'sincos': 'ikbtleaves/sincos_solver.py', 'tan': 'ikbtleaves/tan_solver.py', 'simu': 'ikbtleaves/two_eqn_m7.py',
     'sinandcos': 'ikbtleaves/sinANDcos_solver.py', 'all': 'ikbtleaves'}
u, v, w, d1, d5 = sym('th_1'), sym('th_2'), sym('th_4'), sym('d_1'), sym('d_5')
l1, l2, r11, r12, Px, Pz = map(sym, ('l_1', 'l_2', 'r_11', 'r_12', 'Px', 'Pz'))
s, c = sin(u), cos(u)
Z = Poly.const(0)


def common(x):
    """equations no method can use for x"""
    return {'none': (Z, Z), 'known': (r11, l1 * cos(w)), 'one': (Poly.const(1), r11), 'other unknown': (r12, d5 + l1), 'other angle': (Pz, l1 * sin(v) + l2),
            'other pair': (Z, l1 * sin(v) + l2 * cos(v) - Px)}


def worlds():
    """(solver, target, usable equations, {name: unusable equation})"""
    for an, e in (('right', (r12, l1 * d1)), ('all right', (Z, l1 * d1 - r12)), ('left', (d1 * cos(w) - Px, l2))):
        yield 'algebra', 'd_1', an, [e], dict(common(d1), **{'sine': (r12, sin(d1) * l1), 'cosine': (Px, cos(d1) + d1), 'square': (Px, l1 * d1 * d1), 'square and linear': (Px, d1 * d1 + l1 * d1),
                                              'cancelled': (d1 + l1, d1 - r11), 'reciprocal': (r12, 1 / d1), 'root': (r12, poly.sqrt(d1) + d1), 'cube': (Z, d1 ** 3 - d1 * l1)})
    e = (r12, w + u)
    yield 'algebra', 'th_1', 'angle', [e], dict(common(u), **{'sine': (r12, s), 'cosine': (r12, l1 * c + u), 'both': (r11, s * l1 + c), 'square': (Px, u * u - u)})
    for fn_, f, g in (('sine', s, c), ('cosine', c, s)):
        for an, e in (('right', (r12, l1 * f)), ('left', (f * cos(w) - Px, l2))):
            yield 'sincos', 'th_1', fn_ + ' ' + an, [e], dict(common(u), **{'both': (r11, s * l1 + c * l2), 'product': (Pz, s * c * l1), 'linear': (r12, u + l1), 'square': (Px, u * u)})
    for an, es in (('right', [(r12, l1 * s), (Px, l2 * c)]), ('mixed', [(l1 * s - Px, l2), (Z, Pz + r11 * c)])):
        yield 'tan', 'th_1', an, es, dict(common(u), **{'both': (r11, s * l1 + c * l2), 'linear': (r12, u + l1), 'product': (Pz, s * c), 'sine squared': (r11, s * s), 'cosine squared': (Pz, l1 * c * c - l2),
                                          'sine with unknown': (r12, l1 * s + d5), 'cosine with unknown': (Pz, c * l2 + sin(v)), 'cosine times unknown': (Pz, c * d5 + l1),
                                          'reciprocal': (r11, 1 / s)})
    for an, e in (('right', (r12, l1 * s + l2 * c)), ('all right', (Z, l1 * s - l2 * c - Pz)), ('left', (s * cos(w) + c - Px, Z)), ('homogeneous', (Z, l1 * s + r11 * c))):
        yield 'sinandcos', 'th_1', an, [e], dict(common(u), **{'sine': (r12, l1 * s), 'cosine': (Px, c + l2), 'product': (r11, s * c * l1), 'squares': (r12, s * s + c),
                                                 'linear addend': (r11, s * l1 + c + u), 'linear factor': (r11, u * s + c), 'cancelled': (s + c * l1, s + r11 + c * l1), 'linear': (r12, u - l1)})
    for an, es in (('same', [(r12, l1 * s + l2 * c), (Pz, l1 * c - l2 * s)]), ('negated', [(Z, l1 * s - l2 * c - Px), (l2 * s + l1 * c, -Pz)]), ('sine, cosine', [(r12, l1 * s), (Pz, l1 * c)])):
        yield 'simu', 'th_1', an, es, dict(common(u), **{'linear': (r12, u + l1), 'same sign': (r11, l1 * c + l2 * s + 3), 'other lengths': (Px, r11 * c - l2 * s), 'copy': es[0], 'opposite copy': (-es[1][0], -es[1][1]),
                                           'product': (r11, s * c), 'square': (Pz, l1 * c * c - l2 * s), 'linear addend': (Pz, l1 * c - l2 * s + u)})


def lists(usable, bad, thorough):
    names = sorted(bad)
    sets = [()] + [(n,) for n in names] + list(combinations(names, 2))
    if thorough:
        sets += list(combinations(names, 3))
    for i, ns in enumerate(sets):
        items = [('+', e) for e in usable] + [(n, bad[n]) for n in ns]
        orders = list(permutations(range(len(items))))
        if len(items) > 3 and not thorough:
            orders = [orders[(7 * i) % len(orders)], orders[-1 - (5 * i) % len(orders)], orders[-1], tuple(range(2, len(items))) + (0, 1), (0,) + tuple(range(2, len(items))) + (1,)]
        elif len(items) > 4:
            orders = orders[i % 5::5]
        for o in dict.fromkeys(orders):
            yield [items[k] for k in o]


def one(ctx, name, target, label, usable, items):
    key = '%s/%s/%s/%s' % (name, target, label, ', '.join(n for n, _ in items))
    uns = [target, 'th_2' if target != 'th_2' else 'th_1', 'd_5']

    def body(it):
        l1_, l2_, l3_ = [], [], []
        for _, e in items:
            k = len(set(mentions(e[0], uns)) | set(mentions(e[1], uns)))
            (l1_ if k <= 1 else l2_ if k == 2 else l3_).append(e)
        bb, R, UU = scene(it, target, uns[1:], ['th_4'], l1_, l2_, l3_)
        st, _ = bt.tick(it, bt.new_tree(it, group(it, name)), bb)
        x = UU[target]
        return st, bool(it.getattr(x, 'solved')), [Poly.of(p) for p in it.tolist(it.getattr(x, 'solutions'))]
    for it, out in ctx.explore(body):
        if out[0] != 'return':
            ctx.ob(key, False, ctx.outcome_text(out), ctx.where(out))
            continue
        st, solved, sols = out[1]
        ranked = name in ('sincos', 'tan')       # these leave the decision to the ranking leaf
        if not ctx.ob(key, st == 'SUCCESS' and bool(sols) and (solved or ranked), 'status %s, solved %s, solutions %s' % (st, solved, sols), S[name]):
            continue
        for q in sols:
            if name == 'simu':
                continue                         # the two sides are consistent for the true angle only
            if name == 'tan':
                es = [Poly.of(a) - Poly.of(b) for a, b in usable]
                (ks, a), (kc, b) = [coef(e, f) for e, f in zip(es, (s, c))]
                r = sin(q) * a * kc - cos(q) * b * ks
                ctx.ob(key + '/source', is_zero(r), 'solution %s is not the one of the usable pair' % q, S[name])
                continue
            ctx.ob(key + '/source', satisfies(usable[0], target, q), 'solution %s leaves %s' % (q, residual(usable[0], target, q)), S[name])


def coef(e, f):
    """e = k + a f"""
    at = f.as_atom()
    k = e.subs({u.as_atom(): Z}) if f is s else e.subs({u.as_atom(): poly.PI / 2})
    a = (e - k) / f
    return k, a


def run(ctx):
    todo = []
    for name, target, label, usable, bad in worlds():
        for items in lists(usable, bad, ctx.thorough):
            todo.append((name, target, label, usable, items))
            if name in ('sincos', 'tan') and len(todo) % 3 == 0:
                todo.append(('ranked', target, label, usable[:1], items) if name == 'sincos' else (name, target, label, usable, items))
    ctx.each(todo, lambda x: one(ctx, *x))
