"""Generated Python: valid, complete, and guarded against asin/acos domain errors."""
import ast
from .. import gen
from ..interp import VFunc, VInst
from ..poly import Poly, sym
from ..sympy_model import VMatrix, f1

EXPLANATION = ('Robots with solved unknowns (every expression shape the solvers produce, every solve-method text, pairs of '
               'solutions, dependencies, sums of angles, parameters with and without a value, nothing solved) are handed to '
               'the Python generator, which is interpreted; expressions are printed as text in the style of sympy. The text '
               'written to the file is parsed, and the generated function is itself interpreted on a symbolic pose: each '
               'path either returns, in a fixed column order, exactly the combinations of solutions resolved to pose and '
               'parameters, with every asin/acos argument tested before use, or returns False because one such argument is '
               'out of range.')
RULE = 'one obligation per robot: file written, text parses, rows = combinations, arguments tested first, False only when out of range'
MIN_OBLIGATIONS = 200
W = 'ikbtfunctions/output_python.py output_python_code'


class Main(ast.NodeTransformer):
    """the file run as a program"""
    def visit_Name(self, n):
        return ast.copy_location(ast.Constant('__main__'), n) if n.id == '__name__' else n


class Marks(ast.NodeTransformer):
    """the deliberate placeholder XXXXX in `p = XXXXX` stands for the user's value of p"""
    def visit_Assign(self, n):
        if isinstance(n.value, ast.Name) and n.value.id == 'XXXXX' and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            n.value = ast.copy_location(ast.Call(ast.copy_location(ast.Name('__param__', ast.Load()), n), [
                ast.copy_location(ast.Constant(n.targets[0].id), n)], []), n)
        return n


def load(it, text, modname, main=False):
    tree = Marks().visit(ast.parse(text))
    if main:
        tree = Main().visit(tree)
    it.builtins['__param__'] = lambda n: sym(n)
    it.project.cache[modname] = (tree, '<generated>')
    try:
        return it.import_module(modname)
    finally:
        del it.project.cache[modname]


def pose():
    n = [['r_%d%d' % (i, j) for j in (1, 2, 3)] + ['P' + 'xyz'[i - 1]] for i in (1, 2, 3)]
    return VMatrix([[sym(x) for x in r] for r in n] + [[0, 0, 0, 1]], 'npm')


def guarded(it, m, bad):
    """asin/acos of the generated module: remember arguments not yet known to be in range"""
    def w(name):
        f = f1(name)

        def g(x, *a):
            x = Poly.of(x)
            if not x.is_const() and not any(it.memo.get(k) is False for k in gen.range_keys([x])):
                bad.append('%s(%s)' % (name, repr(x)[:120]))
            return f(x)
        return g
    for k, n in (('asin', 'asin'), ('acos', 'acos'), ('arcsin', 'asin'), ('arccos', 'acos')):
        if k in m.ns:
            m.ns[k] = w(n)


def run(ctx):
    mains = []

    def one(item):
        key, robot, spec = item
        exp, args = gen.combos(spec)
        keys = gen.range_keys(args)

        def body(it):
            R, unks, M = gen.build(it, robot, spec)
            it.call(it.getattr(R, 'make_LHS_versions'), [], {})
            gen.call_generator(it, 'ikbtfunctions.output_python', 'output_python_code', R, it.getattr(R, 'solutionSet'))
            fs, text = gen.written(it, '.py', robot)
            if text is None:
                return 'file', 'the generator wrote %s instead of one Python file for the robot' % (sorted(it.files) or 'no file'), None
            try:
                ast.parse(text)
            except (SyntaxError, ValueError) as e:
                return 'syntax', '%s at line %s: %s' % (e.msg, e.lineno, (e.text or '').strip()[:80]), None
            if key in mains:
                load(it, text, 'ikbt_generated_main', True)
            mod = load(it, text, 'ikbt_generated')
            fn = [v for k, v in sorted(mod.ns.items()) if isinstance(v, VFunc) and k.startswith('ikin')]
            if len(fn) != 1:
                return 'function', 'the file defines %d functions ikin...(T)' % len(fn), None
            bad = []
            guarded(it, mod, bad)
            r = it.call(fn[0], [pose()], {})
            return 'value', (r if r is False or r is None else [it.tolist(x) for x in it.tolist(r)]), bad
        nret = 0
        for it, out in ctx.explore(body):
            if out[0] != 'return':
                ctx.ob(key + '/generates and runs', False, ctx.outcome_text(out), ctx.where(out))
                continue
            kind, val, bad = out[1]
            if not ctx.ob(key + '/valid Python', kind == 'value', val if kind != 'value' else '', W):
                continue
            ctx.ob(key + '/arguments tested before use', not bad, 'evaluated without a test that the argument is in [-1, 1]: %s' % bad[:2], W)
            over = [k for k, v in it.memo.items() if k in keys and v]
            if val is False:
                ctx.ob(key + '/False only if out of range', bool(over) or not spec,
                       'False is returned although no asin/acos argument is out of range (decided: %s)' % [d for d in it.decided if d[0][0] == 'lt0'][-2:], W)
                continue
            nret += 1
            if over:
                ctx.ob(key + '/False when out of range', False, 'solutions are returned although |%s| > 1' % (keys[over[0]],), W)
                continue
            d = 'nothing is returned' if val is None else gen.match_rows(val, exp)
            ctx.ob(key + '/combinations', not d, d, W)
        ctx.ob(key + '/some path returns solutions', nret > 0 or not spec, 'no path of the generated function returns solutions', W)
    items = gen.specs(ctx.thorough)
    mains[:] = [k for k, _, _ in items if k in ('nothing solved', 'three letters', 'asin after asin pair', 'quotient by arcsin')]
    ctx.each(items, one)
