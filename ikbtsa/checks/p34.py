"""Query helpers: which unknowns an expression contains and which equations contain an unknown."""
from ..leaf import *
from itertools import product, permutations
from ..sympy_model import VMatrix

EXPLANATION = ('The helper functions that every solver uses to ask which unknowns an expression contains, and the methods that '
               'list the equations of a matrix equation, are interpreted on expressions built from every subset of the '
               'unknowns (inside sines, products, powers and quotients, next to look-alike parameters) and for every subset of '
               'solved unknowns; the answers are compared with the set of symbols in the normal form.')
RULE = 'one obligation per helper, expression and solved subset'
MIN_OBLIGATIONS = 400
H = 'ikbtfunctions.helperfunctions'
NAMES = ['th_1', 'd_2', 'th_23']
CELLS = [(i, j) for i in range(3) for j in range(4)]


def exprs():
    """expressions by the unknowns they contain; symbols that only look alike (th_2, d_1, th_13) are parameters"""
    t1, d2, t23 = map(sym, NAMES)
    a, b, c, r = sym('th_2'), sym('d_1'), sym('th_13'), sym('r_11')
    return [((), [Poly.const(0), a * b + c, cos(a) * r - sin(c)]),
            (('th_1',), [t1, sin(t1) * a, r * cos(t1) - b, fn('atan2', r, cos(t1)) + c]),
            (('d_2',), [d2 * d2 - a, sin(a) * d2]),
            (('th_23',), [-t23, cos(t23) + cos(a)]),
            (('th_1', 'd_2'), [cos(t1) * d2 + r, t1 - d2]),
            (('th_1', 'th_23'), [sin(t1) * sin(t23), fn('atan2', sin(t1), cos(t23))]),
            (('d_2', 'th_23'), [d2 * cos(t23) - a]),
            (('th_1', 'd_2', 'th_23'), [sin(t1) * cos(t23) + d2 * sin(t23) * b])]


def unks_of(it, solved):
    us = [unknown(it, n, int(''.join(ch for ch in n if ch.isdigit()))) for n in NAMES]
    for u, s in zip(us, solved):
        it.setattr(u, 'solved', bool(s))
    return us


def nm(it, us):
    return [it.getattr(u, 'name') for u in it.tolist(us)]


def full(M):
    return VMatrix([list(map(Poly.of, r)) for r in M] + [[Poly.of(x) for x in (0, 0, 0, 1)]])


def meq(it, td, ts, aux=()):
    m = it.call(it.getattr(it.import_module('ikbtbasics.kin_cl'), 'matrix_equation'), [full(td), full(ts)], {})
    if aux:
        it.setattr(m, 'auxeqns', [keq(it, *e) for e in aux])
    return m


def read(it, L):
    return [(Poly.of(it.getattr(e, 'LHS')), Poly.of(it.getattr(e, 'RHS'))) for e in it.tolist(L)]


def same_eqs(got, want):
    got, want = list(got), list(want)
    if len(got) != len(want):
        return '%d equations instead of %d' % (len(got), len(want))
    for w in want:
        k = next((i for i, g in enumerate(got) if is_zero(g[0] - w[0]) and is_zero(g[1] - w[1])), None)
        if k is None:
            return 'missing %s = %s' % w
        del got[k]
    return None


def run(ctx):
    # -- expression queries
    def queries(it, solved, e):
        h = it.import_module(H)
        us = unks_of(it, solved)
        f = lambda n, *a: it.call(it.getattr(h, n), list(a), {})
        r = {'count_unknowns': f('count_unknowns', us, e), 'get_unknowns': nm(it, f('get_unknowns', us, e)),
             'get_variables': nm(it, f('get_variables', us, e))}
        return r, nm(it, us), [it.getattr(u, 'solved') for u in us]
    for solved in product((0, 1), repeat=3):
        for inside, es in exprs():
            for k, e in enumerate(es):
                uns = [n for n, s in zip(NAMES, solved) if n in inside and not s]
                for it, out in ctx.explore(lambda it: queries(it, solved, e)):
                    key = 'query/%s/solved %s/%d' % (','.join(inside) or 'none', ''.join(map(str, solved)), k)
                    if out[0] != 'return':
                        ctx.ob(key, False, ctx.outcome_text(out), ctx.where(out))
                        continue
                    r, n2, s2 = out[1]
                    ctx.ob(key + '/count', r['count_unknowns'] == len(uns), '%s unsolved unknowns counted in %s, expected %d' % (r['count_unknowns'], e, len(uns)), H + ' count_unknowns')
                    ctx.ob(key + '/unknowns', sorted(r['get_unknowns']) == sorted(uns), 'get_unknowns(%s) = %s, expected %s' % (e, r['get_unknowns'], uns), H + ' get_unknowns')
                    ctx.ob(key + '/variables', sorted(r['get_variables']) == sorted(inside), 'get_variables(%s) = %s' % (e, r['get_variables']), H + ' get_variables')
                    ctx.ob(key + '/frame', n2 == NAMES and list(map(bool, s2)) == list(map(bool, solved)), 'the unknowns were changed', H)
                # dependencies: the solved unknowns inside, or a stop when one of them is unsolved
                def deps(it):
                    return nm(it, list(it.iterate(it.call(it.getattr(it.import_module(H), 'get_deps'), [unks_of(it, solved), e], {}))))
                for it, out in ctx.explore(deps):
                    key = 'deps/%s/solved %s/%d' % (','.join(inside) or 'none', ''.join(map(str, solved)), k)
                    if uns:
                        ctx.ob(key, out[0] != 'return', 'dependencies %s accepted although %s unsolved' % (out[1], uns), H + ' get_deps')
                    else:
                        ctx.ob(key, out[0] == 'return' and sorted(out[1]) == sorted(inside), 'get_deps(%s): %s' % (e, ctx.outcome_text(out) if out[0] != 'return' else out[1]), H + ' get_deps')
    # -- lookup by symbol
    for name in NAMES + ['th_2', 'x']:
        def body(it):
            us = unks_of(it, (0, 1, 0))
            o = it.call(it.getattr(it.import_module(H), 'find_obj'), [sym(name), us], {})
            i = it.call(it.getattr(it.import_module('ikbtbasics.ik_classes'), 'get_variable_index'), [us, sym(name)], {}) if name in NAMES else None
            return (None if o is None else it.getattr(o, 'name')), any(o is u for u in us), i
        for it, out in ctx.explore(body):
            if out[0] != 'return':
                ctx.ob('find/' + name, False, ctx.outcome_text(out), ctx.where(out))
                continue
            n, own, i = out[1]
            ctx.ob('find/' + name, (n == name and own) if name in NAMES else n is None, 'find_obj(%s) = %s' % (name, n), H + ' find_obj')
            if name in NAMES:
                ctx.ob('index/' + name, i == int(''.join(ch for ch in name if ch.isdigit())), 'get_variable_index(%s) = %s' % (name, i), 'ikbtbasics/ik_classes.py get_variable_index')
    # -- the symbolic target pose
    def lhs(it):
        M = it.call(it.getattr(it.import_module(H), 'ik_lhs'), [], {})
        return [[Poly.of(it.getitem(M, (i, j))) for j in range(4)] for i in range(4)]
    want = [[sym('r_%d%d' % (i, j)) for j in (1, 2, 3)] + [sym(p)] for i, p in zip((1, 2, 3), ('Px', 'Py', 'Pz'))] + [[0, 0, 0, 1]]
    for it, out in ctx.explore(lhs):
        bad = [(i, j) for i in range(4) for j in range(4) if out[0] == 'return' and not is_zero(Poly.of(out[1][i][j]) - Poly.of(want[i][j]))]
        ctx.ob('pose', out[0] == 'return' and not bad, 'entries %s' % bad if out[0] == 'return' else ctx.outcome_text(out), H + ' ik_lhs')
    # -- the scalar equations of a matrix equation: all twelve, and the auxiliary ones
    aux = [(sym('th_23'), sym('th_2') + sym('th_3'))]
    A = [[sym('A%d%d' % c) for c in CELLS if c[0] == i] for i in range(3)]
    B = [[sym('B%d%d' % c) for c in CELLS if c[0] == i] for i in range(3)]
    for ax in ((), aux):
        for it, out in ctx.explore(lambda it: read(it, it.call(it.getattr(meq(it, A, B, ax), 'get_kequation_list'), [], {}))):
            d = ctx.outcome_text(out) if out[0] != 'return' else same_eqs(out[1], [(A[i][j], B[i][j]) for i, j in CELLS] + list(ax))
            ctx.ob('list/%d aux' % len(ax), d is None, d or '', 'ikbtbasics/kin_cl.py matrix_equation.get_kequation_list')
    # -- the equations that contain one unknown, and the grouping by number of unknowns, one non-constant cell at a time
    t1, d2 = sym('th_1'), sym('d_2')
    pairs = [(sym('Px'), t1), (d2 * sym('a'), sym('Py')), (sin(t1), cos(t1) * d2), (sym('r_11'), sym('l_1')), (cos(d2), sin(t1) * sin(sym('th_23'))),
             (Poly.const(0), cos(t1)), (cos(t1) * d2, Poly.const(0)), (t1, Poly.const(1)), (t1 + d2, d2 * sym('th_23'))]
    cells = CELLS
    for c, (l, r) in product(cells, pairs):
        z = lambda v: [[v if (i, j) == c else Poly.const(0) for j in range(4)] for i in range(3)]

        def body(it):
            us = unks_of(it, (0, 0, 0))
            m = meq(it, z(l), z(r))
            R = robot(it)
            g = it.tolist(it.call(it.getattr(R, 'scan_Mequation'), [m, us], {}))
            it.call(it.getattr(us[0], 'scan'), [m], {})
            return read(it, it.getattr(us[0], 'eqnlist')), [read(it, x) for x in g]
        for it, out in ctx.explore(body):
            key = 'cell %d,%d/%s = %s' % (c + (l, r))
            if out[0] != 'return':
                ctx.ob('scan/' + key, False, ctx.outcome_text(out), ctx.where(out))
                continue
            eqs, groups = out[1]
            has = [x for x in (l, r) if mentions(x, ['th_1'])]
            bad = not eqs if has else bool(eqs)
            bad = bad or any(not (is_zero(p[0] - l) and is_zero(p[1] - r)) and not (is_zero(p[0] - r) and is_zero(p[1] - l)) for p in eqs)
            ctx.ob('scan/' + key, not bad, 'equations of th_1: %s' % (eqs,), 'ikbtbasics/kin_cl.py unknown.scan')
            n = len(mentions(l, NAMES)) + len(mentions(r, NAMES))
            for k, gr in enumerate(groups):
                w = [(l, r)] if min(n, 3) == k + 1 else []
                d = same_eqs(gr, w)
                ctx.ob('group/%s/%d' % (key, k + 1), d is None, d or '', 'ikbtbasics/ik_classes.py Robot.scan_Mequation')
    # -- ranking of equations: a permutation, short equations first; equal sides and repeated equations are all kept
    S = lambda n: sym(n)
    q = [(S('Px'), S('l_1')), (S('Px'), S('a') + S('b')), (S('Py'), S('c') + S('d')), (S('Px') * S('a'), S('b') + S('c')),
         (S('Pz'), S('a') * S('b') * S('c') + S('d') * S('e') + S('f') * sin(S('g')))]
    q2 = [q[1], (S('r_11'), q[1][1]), q[1], (Poly.const(0), q[1][1]), q[0]]
    q3 = [(Poly.const(0), q[4][1]), q[4], (q[4][1], Poly.const(0)), (S('Px'), S('Px')), (S('Px'), S('Px'))]
    n_ops = {repr(q[3][0]): 1, repr(q[1][1]): 1, repr(q[2][1]): 1, repr(q[3][1]): 1, repr(q[4][1]): 6}       # everything else is a symbol or number
    ops = lambda e: sum(n_ops.get(repr(p), 0) for p in e)
    for tag, Q in (('different', q), ('equal right sides', q2), ('repeated', q3)):
        for perm in permutations(range(5)):
            def body(it):
                it.user['count_ops'] = lambda x: n_ops.get(repr(x), 0)
                L = [keq(it, *Q[k]) for k in perm]
                o = it.tolist(it.call(it.getattr(it.import_module('ikbtbasics.ik_classes'), 'erank'), [list(L)], {}))
                return [next((i for i, e in enumerate(L) if e is x), None) for x in o], read(it, o)
            for it, out in ctx.explore(body):
                key = 'rank/%s/%s' % (tag, perm)
                if out[0] != 'return':
                    ctx.ob(key, False, ctx.outcome_text(out), ctx.where(out))
                    continue
                o, eqs = out[1]
                ok = sorted(x for x in o if x is not None) == list(range(5)) == list(range(len(o)))
                ok = ok and all(is_zero(g[0] - Q[perm[i]][0]) and is_zero(g[1] - Q[perm[i]][1]) for g, i in zip(eqs, o))
                n = [ops(Q[perm[i]]) for i in o if i is not None]
                ctx.ob(key, ok and n == sorted(n), 'operations %s: %s' % (n, eqs), 'ikbtbasics/ik_classes.py erank')
