"""Whole program, every catalogue robot: it runs to its end, leaves nothing solvable unsolved and writes its outputs."""
import ast
import builtins
import math
from .. import program, leaf, bt
from ..kin import *
from ..poly import Poly, sym
from ..interp import PyRaise

EXPLANATION = ('ikSolver.py is interpreted from its first statement for every robot of the catalogue on a modelled file system. '
               'One obligation: no path ends in an exception before the outputs are written. The tree of solvers is then '
               'judged by its result, not its shape: a reference tree built from all solver leaves continues from the final '
               'state and must not be able to solve another unknown. The report, the Python file and the C++ file must be '
               'written under the name of the robot, and the Python file must assign every version of every solved unknown and use no name that it does not define. '
               'A second run finds the stored kinematics of the first and must solve the same unknowns with the same '
               'solutions. Three robots (thorough tier: all) are analysed again with the sum-of-angles transform.')
RULE = 'per robot: no exception, fixpoint of the reference tree, three files written, every version assigned, no undefined name, same result from stored kinematics'
MIN_OBLIGATIONS = 200
ASSUMPTIONS = ['simplification in sympy returns an equal expression, modelled (DESIGN.md)',
               'assertions of the program about the printed form of one solution (self test at the end of ikSolver.py) are left to the test run']
W = 'ikSolver.py'


AGAIN = ('Parkman13', 'Arm_3', 'Khat6DOF')            # robots with sums of angles, reachable in a short time


def reference(it):
    """all solver methods, as often as there is something to do"""
    b3 = it.import_module('b3')
    mk = lambda n, xs, *a: it.call(it.getattr(b3, n), [xs] + list(a), {})
    methods = [leaf.group(it, g) for g in ('algebra', 'ranked', 'simu', 'sinandcos', 'x2z2')]
    rnd = mk('RepeatUntilSuccess', mk('Sequence', [leaf.seq(it, 'assigner'), leaf.seq(it, 'sum_id'), mk('Priority', methods)]), 8)
    return mk('Sequence', [leaf.seq(it, 'updateL'), leaf.seq(it, 'sub'), rnd])


def state(it, st):
    g = it.getattr
    return {P(g(u, 'symbol')).as_atom().name: sorted(repr(P(s)) for s in it.tolist(g(u, 'solutions')))
            for u in st['unks'] if it.truth(g(u, 'solved'))}


def written(it, name):
    """(python text, C++ text, report text) of files named after the robot"""
    out = {}
    for k, v in it.files.items():
        base = k.rsplit('/', 1)[-1]
        if name in base or name.replace('-', '_') in base:
            for ext in ('.py', '.cpp', '.tex'):
                if base.endswith(ext) and not base.lower().startswith('fk'):
                    out[ext] = ''.join(str(x) for x in v)
    return [out.get(e) for e in ('.py', '.cpp', '.tex')]


def undefined(tree):
    """names a generated Python file reads without ever assigning, importing or receiving them"""
    have = set(dir(builtins)) | {'__name__', '__file__', 'XXXXX'}          # XXXXX: the marked place for the user's value
    for n in ast.walk(tree):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            have.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            have.add(n.name)
        elif isinstance(n, ast.arg):
            have.add(n.arg)
        elif isinstance(n, ast.Import):
            have |= {(a.asname or a.name).split('.')[0] for a in n.names}
        elif isinstance(n, ast.ImportFrom):
            for a in n.names:
                if a.name != '*':
                    have.add(a.asname or a.name)
                elif n.module in ('math', 'cmath'):
                    have |= set(dir(math))
                else:
                    return []                       # names of an unknown library
    return sorted({n.id for n in ast.walk(tree) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)} - have)


def run(ctx):
    def one(job):
        name, sums, again = job
        key = '%s%s' % (name, '/sums of angles' if sums else '')
        n = 0
        for it, out, st in program.solving(ctx, name, sums, again=again):
            n += 1
            ctx.need(n < 9, 'too many paths for ' + name)
            py, cpp, tex = written(it, name)
            selftest = out[0] == 'raise' and py is not None and 'AssertionError' in ctx.outcome_text(out) and 'ikSolver' in str(out[1].where)
            if not ctx.ob(key + '/runs', out[0] == 'return' or selftest, ctx.outcome_text(out), W):
                continue
            if not ctx.ob(key + '/ticks the tree', st is not None, 'no unknown is ever assigned', W):
                continue
            before = state(it, st)
            for t, x in (('Python', py), ('C++', cpp), ('report', tex)):
                ctx.ob('%s/%s written' % (key, t), bool(x and x.strip()), 'no %s file named after the robot' % t, W)
            if py:
                try:
                    got = {t.id for m in ast.walk(ast.parse(py)) if isinstance(m, ast.Assign) for t in m.targets if isinstance(t, ast.Name)}
                except SyntaxError as e:
                    got = None
                    ctx.ob(key + '/Python parses', False, e, W)
                if got is not None:
                    g = it.getattr
                    rows_ = [[P(g(e, 'LHS')).as_atom().name for e in it.tolist(r)] for r in it.tolist(g(st['R'], 'FinalEqnMatrix'))]
                    miss = sorted({v for r in rows_ for v in r} - got)
                    ctx.ob(key + '/Python complete', not miss, 'not assigned: %s' % miss, W)
                    miss = undefined(ast.parse(py))
                    ctx.ob(key + '/Python defined', not miss, 'the generated file uses names it never defines: %s' % miss, W)
                    ctx.ob(key + '/rows', all(len(set(r)) == len(before) for r in rows_) and bool(rows_) == bool(before),
                           '%d unknowns solved, rows %s' % (len(before), rows_[:2]), W)
            if 'again' in it.user:
                ctx.ob(key + '/stored kinematics', it.user['again'] == before, 'solved %r with stored kinematics, %r without' %
                       (sorted(it.user['again'].items()), sorted(before.items())), W)
            if len(before) < len(st['unks']):
                program.continue_with(it, st, sums, reference)
                more = sorted(set(state(it, st)) - set(before))
            else:
                more = []
            ctx.ob(key + '/nothing solvable left', not more, '%s stay unsolved although the solver leaves solve them' % more, W)
        ctx.ob(key + '/paths', n >= 1, 'no path', W)
    names = program.robots(ctx)
    jobs = [(r, False, True) for r in names]
    jobs += [(r, True, True) for r in names if ctx.thorough or r in AGAIN]
    ctx.each(jobs, one)
