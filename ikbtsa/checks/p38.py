"""Generating outputs is repeatable and leaves the solved robot as it is."""
from itertools import permutations, product
from .. import gen
from .p21 import PRE, CLOSE
from .p37 import deep, differ

EXPLANATION = ('Frame analysis of the code generators. Solved robots (all shapes of P19 to P21) are handed to the report, Python and C++ generators '
               'in every order, repeatedly, after the outputs of other robots were generated in the same process, and after the versions or the '
               'solution set were built again. Every file must have the text that the generator writes when it is called alone on a fresh robot, '
               'and robot, unknowns and mechanism must be what they were. The same for the two forward-kinematics generators.')
RULE = 'one obligation per robot and history: no error, same files, robot unchanged'
MIN_OBLIGATIONS = 400
W = 'ikbtfunctions/output_latex.py, output_python.py, output_cpp.py, ikbtbasics/ik_classes.py'
GENS = {'report': ('ikbtfunctions.output_latex', 'output_latex_solution', '.tex'), 'python': ('ikbtfunctions.output_python', 'output_python_code', '.py'),
        'cpp': ('ikbtfunctions.output_cpp', 'output_cpp_code', '.cpp')}
SKIP = {'LHSversionNames', 'string'}        # scratch list of create_solution_set; display text kept by an equation


def state(it, R, unks, M):
    return deep(it, [R, unks, M])


def without(x):
    if isinstance(x, tuple):
        return tuple(without(y) for y in x if not (isinstance(y, tuple) and y and y[0] in SKIP))
    return x


def rest(it, R, unks, M):
    """the state apart from what building the versions adds"""
    it.setattr(R, 'FinalEqnMatrix', [])
    it.setattr(R, 'nversions', 0)
    return without(state(it, R, unks, M))


def generate(it, which, R, unks, robot):
    mod, func, ext = GENS[which]
    args = ([unks] if which == 'report' else []) + [it.getattr(R, 'solutionSet')]
    gen.call_generator(it, mod, func, R, *args)
    base = robot.replace('test: ', '')
    fs = sorted(f for f in it.files if f.endswith(ext) and base in f)
    return [(f, ''.join(str(x) for x in it.files[f])) for f in fs]


def fixture(it, robot, spec, versions=True):
    it.files['LaTex/IK_preamble.tex'] = [PRE]
    it.files['LaTex/IK_close.tex'] = [CLOSE]
    R, unks, M = gen.build(it, robot, spec)
    if versions:
        it.call(it.getattr(R, 'make_LHS_versions'), [], {})
    return R, unks, M


def histories(thorough, i):
    orders = list(permutations(GENS))
    out = list(orders)
    out += [(a, a, b) for a in GENS for b in GENS]
    out += [('again', 'report', 'python', 'cpp'), ('python', 'versions', 'cpp'), ('cpp', 'python', 'versions', 'report', 'python'), ('again', 'versions', 'python', 'cpp'),
            ('other', 'report', 'python', 'cpp'), ('report', 'other', 'python', 'cpp'), ('other', 'other', 'cpp', 'python')]
    return out if thorough else [out[(5 * i + k) % len(out)] for k in (0, 4, 9, 14)] + out[-7:]


def first_difference(a, b):
    for (f, x), (g, y) in zip(a, b):
        if f != g:
            return 'file %s, alone %s' % (g, f)
        for n, (p, q) in enumerate(zip(x.split('\n'), y.split('\n'))):
            if p != q:
                return '%s line %d: %s, alone %s' % (f, n + 1, q.strip()[:90], p.strip()[:90])
        if x != y:
            return '%s has %d lines, alone %d' % (f, y.count('\n'), x.count('\n'))
    return 'files %s, alone %s' % ([f for f, _ in b], [f for f, _ in a])



def run(ctx):
    S = gen.specs(False)
    other = [s for s in S if s[0] == 'eight unknowns with sums of angles'][0]
    keep = S if ctx.thorough else [s for i, s in enumerate(S) if i % 4 == 0 or not s[0].startswith('pose entry') and ' by ' not in s[0] and ' after ' not in s[0]]

    def one(job):
        (key, robot, spec), hs = job
        osp = other if key != other[0] else S[1]
        oname = osp[1] if osp[1] != robot else 'JennyGuoSp24'

        def body(it):
            alone = {}
            for g in GENS:
                R, unks, M = fixture(it, robot, spec)
                before = without(state(it, R, unks, M))
                alone[g] = generate(it, g, R, unks, robot)
                alone[g + '/state'] = before, without(state(it, R, unks, M))
            # the first report also builds the versions: everything else stays
            R, unks, M = fixture(it, robot, spec, False)
            before = rest(it, R, unks, M)
            generate(it, 'report', R, unks, robot)
            alone['first'] = before, rest(it, R, unks, M)
            res = []
            for h in hs:
                R, unks, M = fixture(it, robot, spec)
                before = without(state(it, R, unks, M))
                for step in h:
                    if step == 'again':
                        it.call(it.getattr(R, 'create_solution_set'), [], {})
                    elif step == 'versions':
                        it.call(it.getattr(R, 'make_LHS_versions'), [], {})
                    elif step == 'other':
                        R2, unks2, _ = fixture(it, oname, osp[2])
                        for g in GENS:
                            generate(it, g, R2, unks2, oname)
                    else:
                        t = generate(it, step, R, unks, robot)
                        res.append((h, step, '' if t == alone[step] else first_difference(alone[step], t)))
                after = without(state(it, R, unks, M))
                res.append((h, 'state', '' if after == before else differ(before, after).replace('with debugging', 'afterwards') or 'changed'))
            return alone, res
        for it, out in ctx.explore(body, fuel=20000000):
            if out[0] != 'return':
                ctx.ob(key, False, ctx.outcome_text(out), ctx.where(out))
                continue
            alone, res = out[1]
            for g in GENS:
                a, b = alone[g + '/state']
                ctx.ob('%s/%s/one file' % (key, g), len(alone[g]) == 1, 'files %s' % [f for f, _ in alone[g]], W)
                ctx.ob('%s/%s/robot' % (key, g), a == b, differ(a, b).replace('with debugging', 'afterwards'), W)
            a, b = alone['first']
            ctx.ob('%s/first report/robot' % key, a == b, differ(a, b).replace('with debugging', 'afterwards'), W)
            for h, step, d in res:
                ctx.ob('%s/%s/%s' % (key, ', '.join(h), step), not d, d, W)
    jobs = []
    for i, sp in enumerate(keep):
        n = 1
        for _, sols, _ in sp[2]:
            n *= len(sols)
        hs = histories(ctx.thorough and n < 40, i)
        if n >= 40:
            hs = [('report', 'python', 'cpp'), ('cpp', 'python', 'report'), ('again', 'versions', 'python')]
        step = 1 if n >= 40 else 6
        jobs += [(sp, hs[k:k + step]) for k in range(0, len(hs), step)]
    ctx.each(jobs, one)
    forward(ctx)


def forward(ctx):
    F = {'python': ('ikbtfunctions.output_python', 'output_FK_python_code', '.py'), 'report': ('ikbtfunctions.output_latex', 'output_FK_equations', '.tex')}
    robots = ['Puma', 'Chair_Helper', 'UR5', 'ArmRobo', 'Wrist'] if not ctx.thorough else None
    from .. import program
    names = robots or program.robots(ctx)

    def one(name):
        def body(it):
            def fresh(n):
                it.files['LaTex/IK_preamble.tex'] = [PRE]
                it.files['LaTex/IK_close.tex'] = [CLOSE]
                rb = it.import_module('ikbtfunctions.ik_robots')
                dh, vv, params, pvals, unks = it.tolist(it.call(it.getattr(rb, 'robot_params'), [n], {}))
                kc = it.import_module('ikbtbasics.kin_cl')
                M = it.call(it.getattr(kc, 'mechanism'), [dh, params, vv], {})
                it.setattr(M, 'pvals', pvals)
                it.user['printer'] = True
                it.call(it.getattr(M, 'forward_kinematics'), [], {})
                it.user['printer'] = False
                from .. import solved
                R = solved.new_robot(it, n, M)
                for k, v in (('Mech', M), ('params', it.getattr(M, 'params')), ('variables', unks), ('params', params)):
                    it.setattr(R, k, v)
                return R, unks, M

            def go(g, R, n):
                mod, func, ext = F[g]
                gen.call_generator(it, mod, func, R)
                fs = sorted(f for f in it.files if f.endswith(ext) and n in f)
                return [(f, ''.join(str(x) for x in it.files[f])) for f in fs]
            alone, res = {}, []
            for g in F:
                it.files.clear()
                R, unks, M = fresh(name)
                alone[g] = go(g, R, name)
            for h in (('python', 'report'), ('report', 'python'), ('python', 'python', 'report', 'report'), ('other', 'python', 'report'), ('report', 'other', 'python')):
                it.files.clear()
                R, unks, M = fresh(name)
                for step in h:
                    if step == 'other':
                        o = 'Stanford' if name != 'Stanford' else 'Puma'
                        R2, _, _ = fresh(o)
                        for g in F:
                            go(g, R2, o)
                    else:
                        t = go(step, R, name)
                        res.append((h, step, '' if t == alone[step] else first_difference(alone[step], t)))
            return alone, res
        key = 'forward/' + name
        for it, out in ctx.explore(body, fuel=20000000):
            if out[0] != 'return':
                ctx.ob(key, False, ctx.outcome_text(out), ctx.where(out))
                continue
            alone, res = out[1]
            for g in F:
                ctx.ob('%s/%s/one file' % (key, g), len(alone[g]) == 1, 'files %s' % [f for f, _ in alone[g]], W)
            for h, step, d in res:
                ctx.ob('%s/%s/%s' % (key, ', '.join(h), step), not d, d, W)
    ctx.each(names, one)
