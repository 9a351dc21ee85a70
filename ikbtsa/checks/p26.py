"""Solver leaves: the assigned solutions are exactly the roots of the equation(s) that were solved."""
from ..leaf import *

EXPLANATION = ('Every solver (identifier and solving leaf, together with the ranking leaf where two methods compete) is '
               'interpreted on equations of its documented form with symbolic coefficients, in several arrangements of '
               'the two sides and between equations it cannot use. The solutions are substituted back: the residual '
               'must normalise to zero as a polynomial in sines, cosines and square roots, the solutions must be '
               'pairwise different and as many as the equation has roots.')
RULE = 'one obligation per equation and solver: solved, residual 0, distinct, number of roots, no other unknown touched'
MIN_OBLIGATIONS = 100
S = {'algebra': 'ikbtleaves/algebra_solver.py', 'ranked': 'ikbtleaves/sincos_solver.py, tan_solver.py, rank_leaf.py',
     'simu': 'ikbtleaves/two_eqn_m7.py', 'sinandcos': 'ikbtleaves/sinANDcos_solver.py', 'all': 'ikbtleaves'}
U = 'th_1'
u, v, w, d1 = sym('th_1'), sym('th_2'), sym('th_4'), sym('d_1')
l1, l2, r11, r12, Px, Pz = map(sym, ('l_1', 'l_2', 'r_11', 'r_12', 'Px', 'Pz'))
s, c = sin(u), cos(u)
sv, cv = sin(v), cos(v)
phi = w                       # a solved unknown used as "the true angle" of consistent pairs


def sides(a, b):
    """arrangements of a + b = 0, where a holds the unknown"""
    return [('right', (-b, a)), ('all right', (0, a + b)), ('left', (a, -b)), ('all left', (a + b, 0)), ('negated', (b, -a))]


def coefs(thorough):
    out = [('number', Poly.const(3)), ('negative number', Poly.const(-2)), ('one', Poly.const(1)), ('minus one', Poly.const(-1)),
           ('parameter', l1), ('negated parameter', -l1), ('product', l1 * cos(w)), ('sum', r11 * sin(w) - l2 * Px)]
    return out


def consts():
    return [('pose', r12), ('parameter and pose', Pz - l2), ('negative number', Poly.const(-1) / 2), ('mixed', l2 * r11 * cos(w) + 4)]


def cases(thorough):
    """(key, solver, target, unsolved, one-unknown equations, two-unknown equations, source equations, roots)"""
    C = coefs(thorough)
    for i, (cn, a) in enumerate(C):
        for j, (kn, b) in enumerate(consts()):
            if not thorough and (i + j) % 2:
                continue
            for an, e in sides(a * d1, b):
                yield ('linear/%s/%s/%s' % (cn, kn, an), 'algebra', 'd_1', [], [e], [], [e], 1)
            for f, fname in ((s, 'sin'), (c, 'cos')):
                for an, e in sides(a * f, b):
                    yield ('%s/%s/%s/%s' % (fname, cn, kn, an), 'ranked', U, [], [e], [], [e], 2)
    # sides exactly 0, 1 or -1, also as plain integers; the inverse functions of 0
    one = Poly.const(1)
    for cn, a in C:
        for zn, z in (('0', Poly.const(0)), ('1', one), ('-1', -one)):
            k = a * d1 + r12
            yield 'linear/%s/side %s/left' % (cn, zn), 'algebra', 'd_1', [], [(z, k)], [], [(z, k)], 1
            yield 'linear/%s/side %s/right' % (cn, zn), 'algebra', 'd_1', [], [(k, z)], [], [(k, z)], 1
        for f, fname in ((s, 'sin'), (c, 'cos')):
            for an, e in (('left', (Poly.const(0), a * f)), ('right', (a * f, Poly.const(0))), ('moved', (r12, r12 + a * f)), ('cancelled', (a * f - l2, -l2 + Poly.const(0)))):
                yield '%s/%s/zero argument/%s' % (fname, cn, an), 'ranked', U, [], [e], [], [e], 2
    prs = [(a, b) for k, a in enumerate(C) for m, b in enumerate(C) if thorough or (k + 2 * m) % 3 == 0]
    for (cn, a), (dn, b) in prs:
        for kn, k in consts():
            for an, e in sides(a * s + b * c, k)[:5 if thorough else 2]:
                yield ('sin and cos/%s,%s/%s/%s' % (cn, dn, kn, an), 'sinandcos', U, [], [e], [], [e], 2)
        e = (Poly.const(0), a * s + b * c)
        yield ('sin and cos/%s,%s/homogeneous' % (cn, dn), 'sinandcos', U, [], [e], [], [e], 2)
        # consistent pair: A1 sin u = A1 sin phi, A2 cos u = A2 cos phi
        for k in range(3):
            es = sides(a * s, -a * sin(phi))[k][1]
            ec = sides(b * c, -b * cos(phi))[(k + 1) % 5][1]
            yield ('tangent pair/%s,%s/%d' % (cn, dn, k), 'ranked', U, [], [es, ec], [], [es, ec], 1)
        x, y = Pz - l2, r12 * l2
        for g, gn in ((cv, 'cos'), (sv, 'sin')):
            es, ec = (y, a * s * g), (x, b * c * g)
            yield ('common factor %s/%s,%s' % (gn, cn, dn), 'ranked', U, ['th_2'], [], [es, ec], ('factor', a, b, x, y, g), 2)
            es, ec = (Poly.const(0), a * s * g - y), (-x, -b * c * g)
            yield ('common factor %s/%s,%s/moved' % (gn, cn, dn), 'ranked', U, ['th_2'], [], [ec, es], ('factor', a, b, x, y, g), 2)
    num = [(Poly.const(2), Poly.const(3)), (Poly.const(-1), Poly.const(2)), (Poly.const(4), Poly.const(-3)), (Poly.const(5), Poly.const(0)),
           (Poly.const(0), Poly.const(-2))]
    for a, b in num:
        cc, dd = a * sin(phi) + b * cos(phi), a * cos(phi) - b * sin(phi)
        for sg in (1, -1):
            for order in (0, 1):
                e1, e2 = (Poly.const(0), a * s + b * c - cc), (Poly.const(0), sg * (a * c - b * s - dd))
                es = [e1, e2] if order == 0 else [e2, e1]
                yield ('simultaneous/%s,%s/%d/%d' % (a, b, sg, order), 'simu', U, [], es, [], es, 1)
    zero = Poly.const(0)
    for a, b in ((l1, l2), (-l1, l2), (l1, -l2), (l1, zero), (zero, l2), (Poly.const(2), Poly.const(3))):
        for kn, cc, dd in (('C = 0', zero, Pz), ('D = 0', r12, zero), ('C = D', Pz, Pz), ('C = -D', Pz, -Pz), ('numbers', Poly.const(2), Poly.const(-2)), ('equal', Poly.const(1), Poly.const(1))):
            for sg in (1, -1):
                e1, e2 = (cc, a * s + b * c), (sg * dd, sg * (a * c - b * s))
                yield 'simultaneous sides/%s,%s/%s/%d' % (a, b, kn, sg), 'simu', U, [], [e1, e2][::sg], [], ('simu', a, b, cc, dd), 1
    for a, b in ((l1, l2), (-l1, l2), (l1, -l2), (r11 * cos(w), Px), (l1, Poly.const(0)), (Poly.const(0), l2), (l1 + r11, -Pz)):
        for sg in (1, -1):
            for order in (0, 1):
                e1, e2 = (r12, a * s + b * c), (sg * Pz, sg * (a * c - b * s))
                es = [e1, e2] if order == 0 else [e2, e1]
                yield ('simultaneous symbolic/%s,%s/%d/%d' % (a, b, sg, order), 'simu', U, [], es, [], ('simu', a, b, r12, Pz), 1)


def judge(ctx, key, name, target, unsolved, src, roots, res):
    st, solved, sols, ns, others, deps, assum = res
    w = S[name]
    if not ctx.ob(key + '/solved', st == 'SUCCESS' and solved, 'status %s, solved %s' % (st, solved), w):
        return
    ctx.ob(key + '/count', ns == len(sols) == roots, '%d solutions recorded as %s; the equation has %d roots: %s' % (len(sols), ns, roots, sols), w)
    ctx.ob(key + '/others', others, 'another unknown was changed', w)
    for x in sols:
        bad = mentions(x, [target] + unsolved)
        ctx.ob(key + '/closed form', not bad, 'solution %s contains %s' % (x, bad), w)
    if target.startswith('th'):
        ok = all(distinct_angles(a, b) for i, a in enumerate(sols) for b in sols[i + 1:])
        ctx.ob(key + '/distinct', ok, 'the solutions are not different angles: %s' % sols, w)
    if isinstance(src, list):
        for x in sols:
            for e in src:
                ctx.ob(key + '/residual', satisfies(e, target, x), 'solution %s leaves %s' % (x, residual(e, target, x)), w)
    elif src[0] == 'factor':
        _, a, b, x, y, g = src
        for q in sols:
            r = a * sin(q) * x - b * cos(q) * y
            ctx.ob(key + '/residual', is_zero(r), 'solution %s does not eliminate the common factor: %s' % (q, r), w)
        for q, t in zip(sols, assum):    # the recorded condition is the sign of the factor (up to the signs of y, b and a)
            f, at, ok = t.as_atom(), q.as_atom(), False
            if f is not None and f.name in ('Q.positive', 'Q.negative') and at is not None and at.name == 'atan2':
                ratio = at.args[1] * b * g / (x * f.args[0]) * (1 if f.name == 'Q.positive' else -1)
                ok = ratio.is_const() and ratio.constval() > 0
            ctx.ob(key + '/condition', ok, 'solution %s is recorded for %s' % (q, t), w)
        ctx.ob(key + '/conditions', len(assum) in (0, len(sols)), '%d conditions for %d solutions' % (len(assum), len(sols)), w)
        if len(sols) == 2:
            ctx.ob(key + '/antipodal', is_zero(sin(sols[0]) + sin(sols[1])) and is_zero(cos(sols[0]) + cos(sols[1])),
                   'the two solutions do not cover both signs of the factor: %s' % sols, w)
    elif src[0] == 'simu':
        _, a, b, cc, dd = src
        for q in sols:        # tan of the true angle is (A C - B D) / (A D + B C)
            r = sin(q) * (a * dd + b * cc) - cos(q) * (a * cc - b * dd)
            ctx.ob(key + '/residual', is_zero(r), 'solution %s has the wrong tangent: %s' % (q, r), w)


def run(ctx):
    def noted():                  # the unknown may carry the note of a transform which prepared its equation
        for i, x in enumerate(cases(ctx.thorough)):
            yield x[0], '', x
            if ctx.thorough or i % 5 == 0:
                yield x[0] + '/after a transform', 'x2z2 transform and ', x
    for key, note, (_, name, target, unsolved, one, two, src, roots) in noted():
        def body(it):
            bb, R, UU = scene(it, target, unsolved + ['d_5'], ['th_4'], one, two)
            before = {n: snap(it, x) for n, x in UU.items() if n != target}
            it.setattr(UU[target], 'solvemethod', note)
            t = bt.new_tree(it, group(it, name))
            st, _ = bt.tick(it, t, bb)
            x = UU[target]
            return (st, it.getattr(x, 'solved'), [Poly.of(p) for p in it.tolist(it.getattr(x, 'solutions'))], it.getattr(x, 'nsolutions'),
                    all(snap(it, y) == before[n] for n, y in UU.items() if n != target),
                    sorted(it.getattr(y, 'name') for y in it.tolist(it.getattr(x, 'dependencies'))), [Poly.of(p) for p in it.tolist(it.getattr(x, 'assumption'))])
        for it, out in ctx.explore(body):
            if out[0] != 'return':
                ctx.ob(key + '/solved', False, ctx.outcome_text(out), ctx.where(out))
                continue
            judge(ctx, key, name, target, unsolved, src, roots, out[1])
