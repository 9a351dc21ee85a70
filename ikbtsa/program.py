"""Fixture: a main program of the repository interpreted as a whole, on a modelled file system."""
import os
from .interp import VInst, PyRaise

PRE = '\\documentclass{article}\n\\begin{document}\n'
CLOSE = '\\end{document}\n'
SKIP = ('fk_eqns', 'logs', 'Test_pickles', '__pycache__', '.git')


def shipped_dirs(root):
    """directories of a fresh checkout (those programs create are left out)"""
    out = {''}
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if x not in SKIP and not x.startswith('.'))
        for x in ds:
            out.add(os.path.relpath(os.path.join(d, x), root))
    return out


def shipped_files(root, *names):
    return {n: open(os.path.join(root, n)).read() for n in names if os.path.isfile(os.path.join(root, n))}


def prepare(it, argv):
    it.user['argv'] = list(argv)
    it.user['printer'] = True
    it.user['fs'] = True
    it.user['dirs'] = shipped_dirs(it.project.root)
    for n in ('LaTex/IK_preamble.tex', 'LaTex/IK_close.tex'):
        p = os.path.join(it.project.root, n)
        if os.path.isfile(p):
            it.files[n] = [PRE if 'preamble' in n else CLOSE]




def robots(ctx):
    """names the catalogue accepts (see P18)"""
    from .checks.p18 import candidates
    src = ctx.project.find('ikbtfunctions.ik_robots')
    ctx.need(src is not None, 'ikbtfunctions/ik_robots.py is gone')
    out = []
    names, _ = candidates(src[0])
    for n in sorted(names):
        def body(it):
            m = it.import_module('ikbtfunctions.ik_robots')
            return it.tolist(it.call(it.getattr(m, 'robot_params'), [n], {}))
        for it, o in ctx.explore(body):
            if o[0] == 'return' and n and n not in out:
                out.append(n)
    return out


def forget(it, module):
    """the next import of this module starts it anew"""
    it.modules.pop(module, None)


SOA = {'ikbtbasics.ik_classes.Robot.sum_of_angles_transform': lambda it, f, a, k: None,
       'ikbtleaves.sum_id.sum_id.tick': lambda it, f, a, k: it.getattr(it.import_module('b3'), 'SUCCESS')}
SOA_EXTRA = {}                   # further interceptions of a check
ASSIGN = 'ikbtleaves.assigner_leaf.assigner.tick'


def solving(ctx, name, sums, again=False):
    """abstract paths of the IK program run for one robot: (it, outcome, state or None).
    sums: with the sum-of-angles transform (trigonometric simplification contracts), or without it;
    again: a second run follows on the files of the first, its result is in it.user['again']"""
    from . import poly
    from .checks.p27 import state

    def keep(it, f, a, k):
        it.user['bb'] = it.getattr(a[1], 'blackboard')
        return it.call_func(f, a, k)

    def once(it):
        poly.RAW = sums
        try:
            return it.import_module('ikSolver')
        finally:
            poly.RAW = False

    def body(it):
        prepare(it, ['ikSolver.py', name])
        it.user['contract'] = sums
        if again:
            try:
                once(it)
                it.user['again'] = state(it, snapshot(it))
            except PyRaise as e:
                if e.name() != 'AssertionError' or it.user.get('bb') is None:
                    raise
                it.user['again'] = state(it, snapshot(it))
            forget(it, 'ikSolver')
            it.user.pop('bb', None)
        return once(it)
    ics = dict({} if sums else SOA)
    ics[ASSIGN] = keep
    ics.update(SOA_EXTRA)
    for it, out in ctx.explore(body, fuel=10 ** 9, intercepts=ics):
        yield it, out, snapshot(it)


def snapshot(it):
    bb = it.user.get('bb')
    if bb is None:
        return None
    get = lambda n: it.call(it.getattr(bb, 'get'), [n], {})
    return {'R': get('Robot'), 'unks': it.tolist(get('unknowns')), 'bb': bb}


def continue_with(it, st, sums, tree, rounds=3):
    """tick tree(it) on the final blackboard (a transform only prepares equations for the next round)"""
    from . import poly
    poly.RAW = sums
    try:
        t = it.call(it.getattr(it.import_module('b3'), 'BehaviorTree'), [], {})
        it.setattr(t, 'root', tree(it))
        for _ in range(rounds):
            it.call(it.getattr(t, 'tick'), ['', st['bb']], {})
    finally:
        poly.RAW = False
