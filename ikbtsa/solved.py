"""Fixture: a robot whose unknowns have been solved, with symbolic solution expressions and chosen dependencies."""
from .poly import Poly, sym, anyexpr, sin, cos
from . import kin


def new_robot(it, name='Robby', mech=None):
    m = it.import_module('ikbtbasics.ik_classes')
    r = it.call(it.getattr(m, 'Robot'), [], {'name': name})
    if mech is not None:
        it.setattr(r, 'Mech', mech)
    return r


def new_unknown(it, name):
    m = it.import_module('ikbtbasics.kin_cl')
    u = it.call(it.getattr(m, 'unknown'), [sym(name)], {})
    it.setattr(u, 'n', int(''.join(filter(str.isdigit, name)) or 0))
    return u


def solution(name, s, deps):
    """the s-th solution of unknown `name`: a term of its own plus a distinct function of every dependency"""
    e = sym('K_%s_%d' % (name, s)) + sym('r_11')
    for i, d in enumerate(deps):
        e = e + (2 + s + 3 * i) * sym(d)
    return e


def solve_all(it, robot, spec):
    """spec: list of (name, number of solutions, [names of dependencies]) in solution order"""
    unks = [new_unknown(it, n) for n, _, _ in spec]
    for u, (name, ns, deps) in zip(unks, spec):
        it.setattr(u, 'solutions', [solution(name, s, deps) for s in range(ns)])
        it.setattr(u, 'nsolutions', ns)
        it.setattr(u, 'solvemethod', 'algebra')
        it.call(it.getattr(u, 'set_solved'), [robot, unks], {})
    return unks


def expected_values(spec):
    """every choice of solutions: choice vector -> value of each unknown in terms of the pose"""
    from itertools import product
    out = {}
    for ch in product(*[range(ns) for _, ns, _ in spec]):
        vals = {}
        for (name, ns, deps), s in zip(spec, ch):
            e = solution(name, s, deps)
            vals[name] = e.subs({sym(d).as_atom(): vals[d] for d in deps})
        out[ch] = vals
    return out


def specs(thorough):
    from itertools import product, combinations
    names = ['th_1', 'd_2', 'th_3', 'th_4', 'th_5', 'th_6']
    out = []
    for n in (1, 2, 3):
        for ns in product((1, 2), repeat=n):
            edges = [(i, j) for j in range(n) for i in range(j)]
            for k in range(len(edges) + 1):
                for es in combinations(edges, k):
                    out.append([(names[j], ns[j], [names[i] for i, jj in es if jj == j]) for j in range(n)])
    for ns in product((1, 2), repeat=4):
        for dep in ('all', 'last', 'none'):
            out.append([(names[j], ns[j], names[:j] if dep == 'all' else names[max(0, j - 1):j] if dep == 'last' else [])
                        for j in range(4)])
    out.append([(n, 2 if i in (0, 2, 3) else 1, names[:i]) for i, n in enumerate(names)])
    out.append([(n, 2 if i in (1, 3, 5) else 1, names[:i]) for i, n in enumerate(names)])
    # other orders of solution, prismatic joints and sums of angles among the first ones
    for order in (['th_6', 'th_5', 'th_4', 'th_3', 'th_2', 'th_1'], ['d_3', 'th_23', 'th_2', 'th_1', 'd_6'], ['th_5', 'd_1', 'th_456', 'th_6', 'd_4'],
                  ['th_234', 'th_2', 'th_34', 'd_5', 'th_3']):
        out.append([(n, 1 + i % 2, order[:i]) for i, n in enumerate(order)])
        out.append([(n, 2 - i % 2, order[max(0, i - 1):i]) for i, n in enumerate(order)])
    # the first unknown may have more than two solutions
    for k in (3, 4, 5) if thorough else (3, 4):
        for ns in product((1, 2), repeat=2):
            out.append([('th_1', k, []), ('th_2', ns[0], ['th_1']), ('d_3', ns[1], ['th_1', 'th_2'])])
        out.append([('th_3', k, []), ('th_2', 2, []), ('th_1', 2, ['th_2'])])
    # eight and nine unknowns (six joints and sums of angles)
    order = ['th_1', 'th_5', 'th_6', 'th_234', 'th_3', 'th_2', 'th_23', 'th_4', 'th_56']
    for two in ((0, 1, 4), (6, 7), (5,)) if not thorough else combinations(range(9), 2):
        for n in (8, 9):
            out.append([(u, 2 if i in two else 1, order[:i]) for i, u in enumerate(order[:n])])
            out.append([(u, 2 if i in two else 1, order[max(0, i - 2):i]) for i, u in enumerate(order[:n])])
    if thorough:
        for ns in product((1, 2), repeat=5):
            out.append([(names[j], ns[j], names[:j]) for j in range(5)])
            out.append([(names[j], ns[j], names[max(0, j - 2):j]) for j in range(5)])
    return out
