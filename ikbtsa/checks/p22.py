"""Forward-kinematics-only program: generated Python and report give the forward kinematics of the robot."""
import ast
from .. import gen, tex, program, solved
from ..kin import *
from ..kin import robot as mech_of
from ..interp import VInst
from ..poly import Poly, sym, is_zero
from .p19 import Marks
from .p21 import parts, in_order, columns

EXPLANATION = ('The program fkOnly.py is interpreted from its first statement for every robot of the catalogue (file system '
               'modelled, sum-of-angles scan left to P25), and its two generators are interpreted on further robots '
               '(parameters without values, sums of angles and letters among the joint variables, prismatic joints, '
               'general twist angles). The Python file written is parsed and interpreted with symbolic joint variables: '
               'its T06 must be the product of the link transforms of the table with the parameter values inserted. The '
               'report is read back and must show the table, T_06 and the Jacobian.')
RULE = 'one obligation per robot: files written, Python parses and runs, names declared, T06 identity, report structure and matrices'
MIN_OBLIGATIONS = 150
ASSUMPTIONS = ['sympy prints an expression as equal Python text; trigsimp returns an equal expression (DESIGN.md)']
W = 'ikbtfunctions/output_python.py output_FK_python_code'
WL = 'ikbtfunctions/output_latex.py output_FK_equations'


class Joints(ast.NodeTransformer):
    """the constant given to a joint variable is a placeholder for any value"""
    def __init__(self, names):
        self.names = names

    def visit_Assign(self, n):
        v = n.value
        if isinstance(v, ast.UnaryOp):
            v = v.operand
        if isinstance(v, ast.Constant) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id in self.names:
            n.value = ast.copy_location(ast.Call(ast.copy_location(ast.Name('__param__', ast.Load()), n), [
                ast.copy_location(ast.Constant(n.targets[0].id), n)], []), n)
        return n


def execute(it, text, names):
    tree = Marks().visit(Joints(names).visit(ast.parse(text)))
    it.builtins['__param__'] = lambda n: sym(n)
    it.project.cache['ikbt_generated'] = (tree, '<generated>')
    try:
        return it.import_module('ikbt_generated')
    finally:
        del it.project.cache['ikbt_generated']


def expected(dh, values, joints):
    """textbook T_06 with parameter values; joints: symbols of sum variables -> their sum"""
    sub = {P(k).as_atom(): P(v) for k, v in values.items()}
    return mm(*[[[P(x).subs(sub).subs(joints) for x in r] for r in link(*row)] for row in dh])


def fk_file(ctx, key, it, text, dh, values, joints, sums):
    """values: known parameter values; joints: names of joint variables; sums: name -> list of joint names"""
    if not ctx.ob(key + '/file', text is not None, 'no forward kinematics file named after the robot is written', W):
        return
    try:
        ast.parse(text)
    except (SyntaxError, ValueError) as e:
        ctx.ob(key + '/valid Python', False, '%s at line %s: %s' % (e.msg, e.lineno, (e.text or '').strip()[:80]), W)
        return
    ctx.ob(key + '/valid Python', True)
    from ..interp import PyRaise
    it.user['printer'] = False
    try:
        mod = execute(it, text, [j for j in joints if j not in sums])
    except PyRaise as e:
        ctx.ob(key + '/runs', False, 'the generated program stops with %s' % (e.describe() if hasattr(e, 'describe') else e,), W)
        return
    ctx.ob(key + '/runs', True)
    for k, v in sorted(values.items(), key=lambda kv: str(kv[0])):
        n = P(k).as_atom().name
        ok = n in mod.ns and gen.same(P(mod.ns[n]), P(v))
        ctx.ob(key + '/value of ' + n, ok, '%s is %r, described as %r' % (n, mod.ns.get(n), v), W)
    js = {sym(n).as_atom(): sum((sym(x) for x in xs), Poly.const(0)) for n, xs in sums.items()}
    for j in joints:
        want = js[sym(j).as_atom()] if j in sums else sym(j)
        ok = j in mod.ns and gen.same(P(mod.ns[j]), want)
        ctx.ob(key + '/joint variable ' + j, ok, '%s is %r' % (j, mod.ns.get(j)), W)
    t = mod.ns.get('T06')
    ctx.ob(key + '/T06 given', t is not None, 'no T06 in the generated program', W)
    if t is not None:
        A = [it.tolist(r) for r in it.tolist(it.getattr(t, 'A'))]
        w = same(A, expected(dh, values, js))
        ctx.ob(key + '/T06', w is None, 'T06 %s' % w, W)


def fk_report(ctx, key, text, DH, T, J):
    if not ctx.ob(key + '/report', text is not None, 'no forward kinematics report named after the robot is written', WL):
        return
    try:
        envs, verb = parts(text)
        mats = [m for n, b in envs if n in tex.MATH for m in tex.matrices(b)]
    except tex.TexError as e:
        ctx.ob(key + '/report well-formed', False, e, WL)
        return
    ctx.ob(key + '/report well-formed', True)
    ok = in_order(mats, [rows(DH)] + columns(T) + columns(J)) or in_order(mats, [rows(DH), rows(T), rows(J)])
    ctx.ob(key + '/report matrices', ok, 'the report does not show the DH table, the columns of T_06 and of the Jacobian in order', WL)


def synthetic():
    h = PI / 2
    th = [sym('th_%d' % i) for i in range(7)]
    d3, l1, a2, d4, al = map(sym, 'd_3 l_1 a_2 d_4 al_4'.split())
    puma = [[0, 0, 0, th[1]], [-h, 0, 0, th[2]], [0, a2, d3, th[3]], [-h, l1, d4, th[4]], [h, 0, 0, th[5]], [-h, 0, 0, th[6]]]
    names = ['th_%d' % i for i in range(1, 7)]
    yield 'no values', 'Noval', puma, [1] * 6, ['a_2', 'd_3', 'd_4', 'l_1'], {}, names, {}
    yield 'some values', 'test: Some_val', puma, [1] * 6, ['a_2', 'd_3', 'd_4', 'l_1'], {'a_2': 5, 'l_1': Poly.const(1) / 2}, names, {}
    yield 'sum of angles listed', 'Soa', puma, [1] * 6, ['a_2', 'd_3', 'd_4', 'l_1'], {'a_2': 5}, names + ['th_23', 'th_234'], \
        {'th_23': ['th_2', 'th_3'], 'th_234': ['th_2', 'th_3', 'th_4']}
    yield 'sum of angles listed first', 'Soa2', puma, [1] * 6, ['a_2', 'd_3', 'd_4', 'l_1'], {'a_2': 5}, names + ['th_56', 'th_45'], \
        {'th_45': ['th_4', 'th_5'], 'th_56': ['th_5', 'th_6']}
    A, B, C = map(sym, 'ABC')
    yield 'letters', 'Letters', [[0, 0, 0, A], [-h, 0, 0, B], [h, 0, 0, C]] + [[0, 0, 0, 0]] * 3, [1] * 6, ['l_1'], {}, ['A', 'B', 'C'], {}
    d2 = sym('d_2')
    yield 'prismatic', 'Pris-m', [[0, 0, 0, th[1]], [h, l1, d2, 0], [0, 0, sym('d_3') + l1, h], [al, 0, 0, th[4]], [h, a2, 0, th[5]], [0, 0, 0, 0]], \
        [1, 0, 0, 1, 1, 1], ['l_1', 'a_2', 'al_4'], {'al_4': PI / 5, 'a_2': 3}, ['th_1', 'd_2', 'd_3', 'th_4', 'th_5'], {}
    yield 'twist angles', 'Twist', [[PI / 5, 0, 0, th[1]], [-PI / 7, l1, 0, th[2]], [al, 0, 0, th[3]]] + [[0, 0, 0, 0]] * 3, \
        [1] * 6, ['l_1', 'al_4'], {'al_4': PI / 9}, names[:3], {}
    yield 'nothing moves', 'Fixed', [[h, l1, d4, 0]] + [[0, 0, 0, 0]] * 5, [1] * 6, ['l_1', 'd_4'], {}, [], {}


def twisted(ctx, name):
    """some twist angle is no multiple of pi/2, so forward kinematics introduces parameters"""
    def body(it):
        m = it.import_module('ikbtfunctions.ik_robots')
        return rows(it.tolist(it.call(it.getattr(m, 'robot_params'), [name], {}))[0])
    for it, out in ctx.explore(body):
        return any(not is_zero(sin(2 * P(r[0]))) for r in out[1])


def run(ctx):
    ic = {'ikbtbasics.ik_classes.Robot.sum_of_angles_transform': lambda it, f, a, k: None}
    names = program.robots(ctx)
    ctx.need(len(names) >= 5, 'fewer than five robots in the catalogue')
    ctx.extra['robots'] = names

    def prog(item):
        name, again = item
        key = 'fkOnly %s%s' % (name, ' with stored kinematics' if again else '')

        def body(it):
            program.prepare(it, ['fkOnly.py', name])
            m = it.import_module('ikbtfunctions.ik_robots')
            dh, vv, params, pvals, unks = it.tolist(it.call(it.getattr(m, 'robot_params'), [name], {}))
            d = ([list(r) for r in rows(dh)], dict(pvals), [it.getattr(u, 'name') for u in it.tolist(unks)])
            main = it.import_module('fkOnly')
            if again:
                program.forget(it, 'fkOnly')
                for f in [f for f in it.files if f.endswith('.py') or 'fk_' in f and f.endswith('.tex')]:
                    del it.files[f]
                main = it.import_module('fkOnly')
            return d, main.ns.get('M')
        for it, out in ctx.explore(body, fuel=10 ** 8, intercepts=ic):
            if out[0] != 'return':
                ctx.ob(key + '/runs to the end', False, ctx.outcome_text(out), ctx.where(out))
                continue
            ctx.ob(key + '/runs to the end', True)
            (dh, pvals, joints), M = out[1]
            fk_file(ctx, key, it, gen.written(it, '.py', name)[1], dh, pvals, joints, {})
            fs = [f for f in it.files if f.endswith('.tex') and 'fk_' in f]
            ctx.need(isinstance(M, VInst) and 'T_06' in M.d, 'the program has no mechanism M')
            fk_report(ctx, key, ''.join(it.files[fs[0]]) if len(fs) == 1 else None, VMatrix([list(r) for r in dh]), M.d['T_06'], M.d['J66'])
    ctx.each([(n, False) for n in names] + [(n, True) for n in names if ctx.thorough or twisted(ctx, n) or n == names[0]], prog)

    def syn(item):
        what, name, dh, vv, params, vals, joints, sums = item

        def body(it):
            it.user['printer'] = True
            M = mech_of(it, dh, vv, False, [sym(p) for p in params])
            it.setattr(M, 'pvals', {sym(k): v for k, v in vals.items()})
            it.call(it.getattr(M, 'forward_kinematics'), [], {})
            R = solved.new_robot(it, name, M)
            it.setattr(R, 'params', it.getattr(M, 'params'))
            it.setattr(R, 'variables', [solved.new_unknown(it, j) for j in joints])
            it.files['LaTex/IK_preamble.tex'] = [program.PRE]
            it.files['LaTex/IK_close.tex'] = [program.CLOSE]
            gen.call_generator(it, 'ikbtfunctions.output_python', 'output_FK_python_code', R)
            gen.call_generator(it, 'ikbtfunctions.output_latex', 'output_FK_equations', R)
            return M
        for it, out in ctx.explore(body, fuel=10 ** 8):
            if out[0] != 'return':
                ctx.ob(what + '/generates', False, ctx.outcome_text(out), ctx.where(out))
                continue
            M = out[1]
            fk_file(ctx, what, it, gen.written(it, '.py', name)[1], dh, {sym(k): v for k, v in vals.items()}, joints, sums)
            fk_report(ctx, what, gen.written(it, '.tex', name)[1], VMatrix([list(r) for r in dh]), M.d['T_06'], M.d['J66'])
    ctx.each(list(synthetic()), syn)
