"""Generated C++: compiles once parameter values are given, complete, and guarded against asin/acos domain errors."""
from .. import gen
from ..poly import Poly, sym
from ..text import CParser, CRun, CArray, CError, SyntaxErr
from .p19 import pose

EXPLANATION = ('Robots with solved unknowns (the shapes of P19) are handed to the C++ generator, which is interpreted. The '
               'text written to the file is tokenised and parsed; the generated function is interpreted on a symbolic pose '
               'with C++ meaning (declarations, scopes, types, integer division, array bounds): each path either stores, in '
               'a fixed column order, exactly the combinations of solutions in the rows of the solution list and returns 1, '
               'with every asin/acos argument tested before use, or returns 0 because one such argument is out of range.')
RULE = 'one obligation per robot: file written, program is well formed, rows = combinations, arguments tested first, 0 only when out of range'
MIN_OBLIGATIONS = 200
W = 'ikbtfunctions/output_cpp.py output_cpp_code'


def params_symbolic(spec):
    """all parameters are the user's in the C++ file"""
    return gen.combos(spec, values=False)


def run(ctx):
    def one(item):
        key, robot, spec = item
        exp, args = params_symbolic(spec)
        keys = gen.range_keys(args)

        def body(it):
            R, unks, M = gen.build(it, robot, spec)
            it.call(it.getattr(R, 'make_LHS_versions'), [], {})
            gen.call_generator(it, 'ikbtfunctions.output_cpp', 'output_cpp_code', R, it.getattr(R, 'solutionSet'))
            fs, text = gen.written(it, '.cpp', robot)
            if text is None:
                return 'file', 'the generator wrote %s instead of one C++ file for the robot' % (sorted(it.files) or 'no file'), None
            bad = []

            def hook(n, vs):
                if n in ('asin', 'acos') and not vs[0].is_const() and \
                        not any(it.memo.get(k) is False for k in gen.range_keys(vs)):
                    bad.append('%s(%s)' % (n, repr(vs[0])[:120]))
            try:
                prog = CParser(text).program()
                run_ = CRun(it, prog, hook)
                fn = [d for n, d in run_.funcs.items() if n.startswith('ikin')]
                if 'main' not in run_.funcs or len(fn) != 1:
                    return 'syntax', 'the file must define main and one function ikin...', None
                it.user['c_result'] = lambda n: Poly.const(int(it.decide(('result', n))))
                run_.run('main', [])
                pars = fn[0][3]
                if len(pars) != 2 or any(not d for _, _, d in pars):
                    return 'syntax', 'the function must take the pose and the solution list', None
                T = CArray([4, 4], None)
                for i, r in enumerate(pose().rows):
                    for j, x in enumerate(r):
                        T.cells[i, j] = Poly.of(x)
                sols = CArray([run_.const_int(d, run_.globals) for d in pars[1][2]], None)
                v = run_.run(fn[0][2], [T, sols])
            except SyntaxErr as e:
                return 'syntax', 'the C++ text does not parse: %s' % e, None
            except CError as e:
                return 'syntax', 'the C++ program is not valid: %s' % e, None
            rws = []
            for i in sorted({i for i, j in sols.cells}):
                js = sorted(j for k, j in sols.cells if k == i)
                rws.append([sols.cells[i, j] for j in js])
                if js != list(range(len(js))) or i != len(rws) - 1:
                    return 'syntax', 'the solution list has gaps: row %d, columns %s' % (i, js), None
            return 'value', (v, rws), bad
        nret = 0
        for it, out in ctx.explore(body):
            if out[0] != 'return':
                ctx.ob(key + '/generates', False, ctx.outcome_text(out), ctx.where(out))
                continue
            kind, val, bad = out[1]
            if not ctx.ob(key + '/valid C++', kind == 'value', val if kind != 'value' else '', W):
                continue
            ctx.ob(key + '/arguments tested before use', not bad, 'evaluated without a test that the argument is in [-1, 1]: %s' % bad[:2], W)
            over = [k for k, v in it.memo.items() if k in keys and v]
            v, rws = val
            if v is None or not isinstance(v, (Poly, bool)) or not Poly.of(int(v) if isinstance(v, bool) else v).is_const():
                ctx.ob(key + '/returns 0 or 1', False, 'the function returns %r' % (v,), W)
                continue
            if not v:
                ctx.ob(key + '/0 only if out of range', bool(over) or not spec, 'returns 0 although no asin/acos argument is out of range', W)
                continue
            nret += 1
            if over:
                ctx.ob(key + '/0 when out of range', False, 'solutions are returned although |%s| > 1' % (keys[over[0]],), W)
                continue
            d = gen.match_rows(rws, exp)
            ctx.ob(key + '/combinations', not d, d, W)
        ctx.ob(key + '/some path returns solutions', nret > 0 or not spec, 'no path of the generated function returns solutions', W)
    ctx.each(gen.specs(ctx.thorough), one)
