"""Fixture: solver leaves ticked on abstract equation lists."""
from .interp import VInst
from .poly import Poly, sym, sin, cos, fn, is_zero, PI
from . import bt

MODS = {
    'algebra': ('ikbtleaves.algebra_solver', ['algebra_id', 'algebra_solve']),
    'sincos': ('ikbtleaves.sincos_solver', ['sincos_id', 'sincos_solve']),
    'tan': ('ikbtleaves.tan_solver', ['tan_id', 'tan_solve']),
    'sinandcos': ('ikbtleaves.sinANDcos_solver', ['sinandcos_id', 'sinandcos_solve']),
    'simu': ('ikbtleaves.two_eqn_m7', ['simu_id', 'simu_solver']),
    'rank': ('ikbtleaves.rank_leaf', ['rank']),
    'x2z2': ('ikbtleaves.x2y2_transform', ['x2z2_transform']),
    'sub': ('ikbtleaves.sub_transform', ['sub_transform']),
    'sum_id': ('ikbtleaves.sum_id', ['sum_id']),
    'updateL': ('ikbtleaves.updateL', ['updateL']),
    'comp': ('ikbtleaves.comp_detect', ['comp_det']),
    'assigner': ('ikbtleaves.assigner_leaf', ['assigner']),
}


def node(it, cls_mod, cls):
    n = it.call(it.getattr(it.import_module(cls_mod), cls), [], {})
    return n


def seq(it, name):
    """the identifier and solver of one method as a sequence (a single leaf as itself)"""
    mod, cs = MODS[name]
    ns = [node(it, mod, c) for c in cs]
    for n, c in zip(ns, cs):
        it.setattr(n, 'BHdebug', False)
    if len(ns) == 1:
        return ns[0]
    return it.call(it.getattr(it.import_module('b3'), 'Sequence'), [ns], {})


def group(it, name):
    b3 = it.import_module('b3')
    if name == 'ranked':                     # tangent and arcsine compete, the ranking leaf decides
        o = it.call(it.getattr(b3, 'OrNode'), [[seq(it, 'tan'), seq(it, 'sincos')]], {})
        return it.call(it.getattr(b3, 'Sequence'), [[o, seq(it, 'rank')]], {})
    if name == 'all':
        return it.call(it.getattr(b3, 'Priority'), [[group(it, g) for g in ('algebra', 'ranked', 'simu', 'sinandcos')]], {})
    return seq(it, name)


def keq(it, l, r):
    return it.call(it.getattr(it.import_module('ikbtbasics.kin_cl'), 'kequation'), [Poly.of(l), Poly.of(r)], {})


def unknown(it, name, n=0):
    u = it.call(it.getattr(it.import_module('ikbtbasics.kin_cl'), 'unknown'), [sym(name)], {})
    it.setattr(u, 'n', n)
    return u


def robot(it):
    return it.call(it.getattr(it.import_module('ikbtbasics.ik_classes'), 'Robot'), [], {})


def solve(it, R, unks, u, sols):
    it.setattr(u, 'solutions', list(sols))
    it.setattr(u, 'nsolutions', len(sols))
    it.setattr(u, 'solvemethod', 'algebra')
    it.call(it.getattr(u, 'set_solved'), [R, unks], {})


def snap(it, u):
    g = lambda n: it.getattr(u, n)
    return (g('solved'), tuple(map(str, map(Poly.of, it.tolist(g('solutions'))))), g('nsolutions'), g('solveorder'), tuple(g('versionNames')))


def scene(it, target, unsolved, solved, one, two=(), three=()):
    """blackboard with equation lists; returns (bb, R, {name: unknown})"""
    bt.b3(it)
    R = robot(it)
    U = {}
    unks = []
    for n in [target] + list(unsolved) + list(solved):
        U[n] = unknown(it, n, int(''.join(ch for ch in n if ch.isdigit()) or 0))
        unks.append(U[n])
    for n in solved:
        solve(it, R, unks, U[n], [sym('r_33') + sym('Px')])
    bb = bt.new_bb(it)
    put = it.getattr(bb, 'set')
    for k, v in (('Robot', R), ('unknowns', unks), ('curr_unk', U[target]), ('eqns_1u', [keq(it, *e) for e in one]),
                 ('eqns_2u', [keq(it, *e) for e in two]), ('eqns_3pu', [keq(it, *e) for e in three]), ('Tm', None)):
        it.call(put, [k, v], {})
    return bb, R, U


def residual(eqn, name, s):
    l, r = eqn
    e = Poly.of(l) - Poly.of(r)
    return e.subs({sym(name).as_atom(): s})


def satisfies(eqn, name, s):
    return is_zero(residual(eqn, name, s))


def mentions(p, names):
    ss = {a.name for a in Poly.of(p).symbols()}
    return sorted(ss & set(names))


def distinct_angles(a, b):
    return not (is_zero(sin(a) - sin(b)) and is_zero(cos(a) - cos(b)))
