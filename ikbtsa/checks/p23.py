"""Identity of equations, unknowns and graph elements: equality, inequality and hashing agree with what they denote."""
from ..poly import Poly, sym, sin, cos
import ast
from itertools import product

EXPLANATION = ('The equality, inequality and hash methods of kequation, unknown, Node and Edge are interpreted on '
               'objects built from a pool of pairwise different symbolic expressions (including zero, numbers, '
               'negations, sums, and pairs whose two sides are exchanged or concatenate to the same text); each '
               'result is compared with the equality of what the objects denote, and equal objects must be '
               'interchangeable as members of sets and lists.')
RULE = 'one obligation per class and pair of objects: ==, != and hash agree with the denoted values'
MIN_OBLIGATIONS = 300


def run(ctx):
    a, b = sym('th_1'), sym('th_2')
    exprs = [Poly.const(0), Poly.const(1), a, b, -a, a + b, sin(a), cos(a), a * b]
    sides = [(l, r) for l in exprs for r in exprs]
    picks = sides if ctx.thorough else [p for i, p in enumerate(sides) if i % 2 == 0 or p[0] == p[1]]
    picks = [(p, 'new') for p in picks]
    # the same equations after they have been displayed or had a side put in place later (as the solvers do)
    small = [(Poly.const(0), a), (Poly.const(0), -a), (a + b, cos(a)), (sin(a), Poly.const(1)), (sin(a), Poly.const(-1)),
             (-sin(a), Poly.const(1)), (b, a * b), (b, -a * b)]
    picks += [(p, h) for p in small for h in ('new', 'displayed', 'aligned', 'side replaced', 'printed')]

    def judge(key, build, denote, values, where, none_too=True):
        def body(it):
            objs = [build(it, v) for v in values]
            objs2 = [build(it, v) for v in values]
            res = []
            for i, x in enumerate(objs):
                for j, y in enumerate(objs2):
                    e = it.truth(it.compare(ast.Eq(), x, y))
                    n = it.truth(it.compare(ast.NotEq(), x, y))
                    h = hash(x) == hash(y)
                    res.append((i, j, e, n, h))
            none = [(it.truth(it.compare(ast.Eq(), x, None)), it.truth(it.compare(ast.NotEq(), x, None))) for x in objs] if none_too else []
            return res, none
        for it, out in ctx.explore(body, fuel=6000000):
            if out[0] != 'return':
                ctx.ob(key, False, ctx.outcome_text(out), ctx.where(out))
                continue
            res, none = out[1]
            for i, j, e, n, h in res:
                want = denote(values[i]) == denote(values[j])
                t = '%s / %s' % (values[i], values[j])
                ctx.ob('%s/equality' % key, e == want, '%s: compare %s, expected %s' % (t, 'equal' if e else 'unequal', want), where)
                ctx.ob('%s/inequality' % key, n == (not want), '%s: != gives %s' % (t, n), where)
                if want:
                    ctx.ob('%s/hash' % key, h, '%s: equal objects hash differently' % t, where)
            ctx.ob('%s/None' % key, all(x == (False, True) for x in none), 'an object compares equal to None', where)

    def mod(it, name, cls):
        return it.getattr(it.import_module('ikbtbasics.' + name), cls)

    def keq(it, v):
        (l, r), history = v
        cls = mod(it, 'kin_cl', 'kequation')
        if history == 'side replaced':
            e = it.call(cls, [l, cos(b) + 5], {})
            it.setattr(e, 'RHS', r)
            return e
        e = it.call(cls, [l, r], {})
        if history == 'displayed':
            it.call(it.getattr(e, 'LaTexOutput'), [], {})
        elif history == 'aligned':
            it.call(it.getattr(e, 'LaTexOutput'), [True], {})
        elif history == 'printed':
            it.call(it.getattr(e, 'prt'), [], {})
        return e
    judge('kequation', keq, lambda v: v[0], picks, 'ikbtbasics/kin_cl.py kequation')
    names = ['th_1', 'th_2', 'd_1', 'th_12', 'th_123', 'th_11', 'th_4', 'd_4', 'x']

    def unk(it, v):
        return it.call(mod(it, 'kin_cl', 'unknown'), [sym(v)], {})

    def unk2(it, v):
        u = unk(it, v[0])
        it.setattr(u, 'solved', v[1])
        it.setattr(u, 'solveorder', v[2])
        it.setattr(u, 'n', v[3])
        if v[1]:
            it.getattr(u, 'solutions').append(sym('r_11') + v[2])
            it.getattr(u, 'dependencies').add(unk(it, 'th_9'))
        return u
    # the index of an unknown is filled in after it is made
    states = [(n, s, o, k) for n in names for s, o, k in ((False, 0, 0), (True, 2, 3), (False, 0, 3))]
    judge('unknown', unk2, lambda v: v[0], states, 'ikbtbasics/kin_cl.py unknown')
    judge('Node', lambda it, v: it.call(mod(it, 'solutionGraphV3', 'Node'), [unk2(it, v)], {}), lambda v: v[0], states,
          'ikbtbasics/solutionGraphV3.py Node')
    edges = list(product(['th_1', 'th_2', 'd_3'], ['th_1', 'th_2', 'd_3'], [1, 2]))

    def edge(it, v):
        e = mod(it, 'solutionGraphV3', 'Edge')
        return it.call(e, [unk(it, v[0]), unk(it, v[1])] + ([v[2]] if v[2] != 1 else []), {})
    judge('Edge', edge, lambda v: v, edges, 'ikbtbasics/solutionGraphV3.py Edge', none_too=False)
