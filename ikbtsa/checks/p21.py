"""LaTeX report: well-formed and complete."""
import re
from .. import gen, tex
from ..poly import Poly, sym, sin, cos, is_zero
from ..text import plain
from ..sympy_model import VMatrix

EXPLANATION = ('Robots with solved unknowns (the shapes of P19) are handed to the report generator, which is interpreted; '
               'expressions are printed as LaTeX in the style of sympy. The written text is read back: environments, braces, '
               'delimiters and math shifts must nest, and the listed unknowns, generic solutions, version equations, solution '
               'tuples, graph edges, the solution table, and the matrices (DH table, forward kinematics, Jacobian with '
               'abbreviations expanded) must be those of the robot.')
RULE = 'one obligation per robot and part of the report'
MIN_OBLIGATIONS = 500
W = 'ikbtfunctions/output_latex.py output_latex_solution'
PRE = '\\documentclass{article}\n\\begin{document}\n'
CLOSE = '\\end{document}\n'


def abbreviations():
    m = {}
    for n, f in (('s', sin), ('c', cos)):
        for i in range(1, 7):
            m[sym('%s%d' % (n, i)).as_atom()] = f(sym('th%d' % i))
            for j in range(i + 1, 7):
                m[sym('%s%d%d' % (n, i, j)).as_atom()] = f(sym('th%d' % i) + sym('th%d' % j))
    return m


def same_matrix(read, spec):
    ab = abbreviations()
    return len(read) == len(spec) and all(len(a) == len(b) and all(
        is_zero(x.subs(ab) - tex.canon_poly(plain(Poly.of(y)))) for x, y in zip(a, b)) for a, b in zip(read, spec))


def columns(M):
    return [[[r[j]] for r in M.rows] for j in range(len(M.rows[0]))]


def in_order(mats, wanted):
    """the wanted matrices occur in this order"""
    i = 0
    for w in wanted:
        while i < len(mats) and not same_matrix(mats[i], w):
            i += 1
        if i == len(mats):
            return False
        i += 1
    return True


def report(it, R, M, name, module, func, *args):
    it.files['LaTex/IK_preamble.tex'] = [PRE]
    it.files['LaTex/IK_close.tex'] = [CLOSE]
    gen.call_generator(it, module, func, R, *args)
    base = name.replace('test: ', '')
    fs = [f for f in it.files if f.endswith('.tex') and base in f]
    return ''.join(it.files[fs[0]]) if len(fs) == 1 else None


def parts(text):
    if not text.lstrip().startswith(PRE.split('\n')[0]):
        raise tex.TexError('the report does not start with the preamble')
    if not text.rstrip().endswith(CLOSE.strip()):
        raise tex.TexError('the report does not end with the closing text')
    rest, verb = tex.split_verbatim(text)
    envs = tex.structure(tex.strip_comments(rest))
    return envs, verb


def run(ctx):
    def one(item):
        key, robot, spec = item

        def body(it):
            R, unks, M = gen.build(it, robot, spec)
            text = report(it, R, M, robot, 'ikbtfunctions.output_latex', 'output_latex_solution', unks, it.getattr(R, 'solutionSet'))
            eqns = [(str(it.getattr(e, 'LHS')), it.getattr(e, 'RHS')) for row in it.tolist(it.getattr(R, 'FinalEqnMatrix')) for e in it.tolist(row)]
            tuples = [[str(x) for x in it.tolist(t)] for t in it.tolist(it.getattr(R, 'solutionSet'))]
            edges = [str(e) for e in it.tolist(it.getattr(R, 'notation_graph_edges'))]
            names = [[str(n) for n in it.tolist(it.getattr(u, 'solutionNames'))] for u in unks]
            return text, eqns, tuples, edges, names, M.d['T_06'], M.d['J66'], M.d['DH']
        for it, out in ctx.explore(body):
            if out[0] != 'return':
                ctx.ob(key + '/generates', False, ctx.outcome_text(out), ctx.where(out))
                continue
            text, eqns, tuples, edges, names, T, J, DH = out[1]
            if not ctx.ob(key + '/file', text is not None, 'no report file named after the robot is written', W):
                continue
            try:
                envs, verb = parts(text)
                eqs = tex.equations(envs)
                lists = tex.items(envs)
                tabs = tex.tables(envs)
                mats = [m for n, b in envs if n in tex.MATH for m in tex.matrices(b)]
            except tex.TexError as e:
                ctx.ob(key + '/well-formed', False, e, W)
                continue
            ctx.ob(key + '/well-formed', True)
            unk = [tex.canon(n) for n, _, _ in spec]
            ctx.ob(key + '/unknowns in solution order', (lists == [unk]) if unk else not lists, 'lists %s, solved unknowns %s' % (lists, unk), W)
            generic = [(tex.canon(n), tex.canon_poly(plain(s))) for (u, ss, _), ns in zip(spec, names) for n, s in zip(ns, ss)]
            versions = [(tex.canon(n), tex.canon_poly(plain(e))) for n, e in eqns]
            for what, want in (('generic solutions', generic), ('version equations', versions)):
                miss = [n for n, e in want if not any(n == m and gen.same(e, plain(x)) for m, x in eqs)]
                ctx.ob(key + '/' + what, not miss, 'missing or different in the report: %s' % miss[:4], W)
            wrong = [m for m, x in eqs if not any(n == m and gen.same(e, plain(x)) for n, e in generic + versions)]
            ctx.ob(key + '/no other equations', not wrong, 'the report gives equations that are no solutions: %s' % wrong[:4], W)
            twice = sorted({m for m, _ in eqs if sum(1 for n, _ in eqs if n == m) > 1})
            ctx.ob(key + '/each once', not twice, 'repeated: %s' % twice[:4], W)
            subs = [c.split('\n')[0] + ' '.join(c.split('\n')[1:]) for c in re.split(r'\\(?:sub)*section\b', text)]
            told = [(tex.canon(re.sub(r'[${}\s]', '', h)), ' '.join(c.split())) for c in subs for h in re.findall(r'^\{\s*(\$[^$]*\$)\s*\}', c)]
            lost = [n for n, _, method in spec if tex.canon(n) not in [h for h, _ in told] or any(h == tex.canon(n) and ' '.join(method.split()) not in c for h, c in told)]
            ctx.ob(key + '/methods', not lost, 'the solution method is not named for %s' % lost[:4], W)
            vt = '\n'.join(verb)
            lost = [t for t in tuples if not any(all(re.search(r'\b%s\b' % re.escape(x), l) for x in t) for l in vt.split('\n'))]
            ctx.ob(key + '/solution set', not lost, 'solution tuples not listed: %s' % lost[:2], W)
            want = sorted([tex.canon(x) for x in t] for t in tuples)
            ok = any(sorted(rows) == want and (not rows or {len(r) for r in rows} == {cols}) for cols, rows in tabs)
            ctx.ob(key + '/solution table', ok, 'table %s, solution set %s' % (str(tabs)[:200], str(want)[:200]), W)
            lost = [e for e in edges if e not in vt]
            ctx.ob(key + '/graph', not lost, 'graph edges not listed: %s' % lost[:2], W)
            fk = in_order(mats, [DH.rows] + columns(T) + columns(J)) or in_order(mats, [DH.rows, T.rows, J.rows])
            ctx.ob(key + '/kinematics', fk, 'the report does not show the DH table, the columns of T_06 and of the Jacobian in order', W)
    ctx.each(gen.specs(ctx.thorough), one)
