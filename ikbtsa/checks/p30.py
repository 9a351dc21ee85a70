"""Whole program, every catalogue robot: each reported solution follows from equations true in every configuration."""
from .. import program
from ..kin import *
from ..poly import Poly, sym, sin, cos, is_zero, PI

EXPLANATION = ('ikSolver.py is interpreted from its first statement to the generated files for every robot of the catalogue '
               '(pose, parameters and joint variables symbolic; one abstract path per robot). In every solution recorded for '
               'an unknown the pose entries are replaced by the entries of the product of the link transforms, so that the '
               'claim becomes an identity in the joint variables, decided in polynomial normal form: the equations named as '
               'the source hold, an algebraic value is the joint variable, sine/cosine/tangent of a reported angle agree with '
               'those of the joint, no atan2 has two arguments that are always zero, and only the pose, parameters and '
               'earlier unknowns occur. The thorough tier repeats this with the sum-of-angles transform.')
RULE = 'per robot and unknown: source equations hold identically; value agrees with the joint variable; not degenerate; solvable in order'
MIN_OBLIGATIONS = 300
ASSUMPTIONS = ['simplification in sympy returns an equal expression; which equal form it returns is modelled, so another '
               'equation may be picked than in a real run (DESIGN.md)']
W = 'ikSolver.py with ikbtleaves'
POSE = {'r_%d%d' % (i, j) for i in (1, 2, 3) for j in (1, 2, 3)} | {'Px', 'Py', 'Pz'}


def fk_map(it, name, mech):
    """pose symbol -> entry of the product of link transforms; cos/sin parameters -> cos/sin of the twist"""
    rp = it.call(it.getattr(it.import_module('ikbtfunctions.ik_robots'), 'robot_params'), [name], {})
    dh = it.tolist(rp)[0]
    T = mm(*[link(*[P(x) for x in row]) for row in rows(dh)])
    sub = dict(aliases(mech))
    for i in range(3):
        for j in range(3):
            sub[sym('r_%d%d' % (i + 1, j + 1)).as_atom()] = P(T[i][j])
        sub[sym('P' + 'xyz'[i]).as_atom()] = P(T[i][3])
    return sub, dh


class Judge:
    def __init__(self, sub, aux):
        self.sub, self.aux, self.memo = sub, aux, {}

    def val(self, p):
        p = P(p)
        k = repr(p)
        if k not in self.memo:
            self.memo[k] = p.subs(self.aux).renorm().subs(self.sub)
        return self.memo[k]

    def zero(self, p):
        return is_zero(self.val(p))

    def claim(self, q, s):
        """(fault or None, branch): branch tells which part of the circle the expression covers, None when not judged"""
        s = P(s)
        q = P(q)
        fns = sorted((a for a in s.atoms(deep=False) if a.kind == 'fn' and a.name in INV), key=repr)
        if not any(a.kind == 'fn' and a.name in INV + ('sqrt',) for a in s.atoms()):
            return (None if self.zero(s - q) else '%r is not %r' % (s, q)), ('all',)
        roots = [any(a.kind == 'fn' and a.name == 'sqrt' for x in f.args for a in P(x).atoms()) for f in fns]
        if len(fns) == 2 and sorted(roots) == [False, True] and all(f.name == 'atan2' for f in fns):
            return self.two_tangents(q, s, fns[roots.index(False)], fns[roots.index(True)])
        if len(fns) != 1 or any(roots):
            return None, None
        f = fns[0]
        for sg in (1, -1):
            rest = s - sg * Poly.atom(f)
            if not P(rest / PI).is_const():
                continue
            a = (q - rest) * sg                 # s = sg*f + rest, rest a multiple of pi: f must be an angle equal to a
            if f.name == 'atan2':
                vy, vx = self.val(f.args[0]), self.val(f.args[1])
                if is_zero(vy) and is_zero(vx):
                    return None, ('nothing',)
                e = vy * self.val(cos(a)) - vx * self.val(sin(a))
                k = vy * self.val(sin(a)) + vx * self.val(cos(a))
                return (None if is_zero(e) else 'the tangent of %r is not the quotient in %r' % (q, s)), ('half', k)
            g = sin if f.name == 'asin' else cos
            e = self.val(f.args[0]) - self.val(g(a))
            if f.name == 'asin':                # asin(x) and pi - asin(x); acos(x) and -acos(x)
                side = sg if is_zero(rest) == (sg == 1) else 0
            else:
                side = sg if is_zero(rest) else 0
            return (None if is_zero(e) else 'the %sine of %r is not the argument in %r' % ('' if g is sin else 'co', q, s)), (f.name, side)
        return None, None

    def two_tangents(self, q, s, f, h):
        """q = atan2(A, B) + atan2(+-sqrt(D), C), the solutions of B cos q + A sin q = C"""
        if not is_zero(s - Poly.atom(f) - Poly.atom(h)):
            return None, None
        (A, B), (S, C) = [[P(x) for x in g.args] for g in (f, h)]
        r = S.as_atom()
        sg = 1
        if r is None:
            r, sg = (-S).as_atom(), -1
        if r is None or r.kind != 'fn' or r.name != 'sqrt':
            return None, None
        if self.zero(A) and self.zero(B):
            return None, ('nothing',)
        D = P(r.args[0])
        if not is_zero(D - (A * A + B * B - C * C)) and not self.zero(D - (A * A + B * B - C * C)):
            return None, None
        e = self.val(C) - self.val(B) * self.val(cos(q)) - self.val(A) * self.val(sin(q))
        return (None if is_zero(e) else '%r does not solve its equation in every configuration' % (s,)), ('root', sg)


INV = ('atan2', 'asin', 'acos')


def odd(k, joints):
    """k takes both signs: moving one revolute joint by half a turn negates it"""
    for a in joints:
        if a.name.startswith('d_') or a not in k.atoms():
            continue
        if is_zero(k + k.subs({a: Poly.atom(a) + PI}).renorm()):
            return a
    return None


def uncovered(branches, joints):
    """reason why the true value of the joint is not always among the solutions, or None"""
    bs = [b for b in branches if b is not None]
    if len(bs) < len(branches) or not bs or any(b[0] in ('all', 'nothing') for b in bs):
        return None
    kinds = {b[0] for b in bs}
    if kinds & {'asin', 'acos', 'root'}:
        for n in ('asin', 'acos', 'root'):
            sides = {b[1] for b in bs if b[0] == n}
            if {1, -1} <= sides:
                return None
        return 'only one of the two angles with this %s is reported' % ('sine' if 'asin' in kinds else 'cosine')
    ks = [b[1] for b in bs]
    for i, x in enumerate(ks):
        for y in ks[:i]:
            if is_zero(x + y):
                return None
    for k in ks:
        if k.is_const():
            if k.t.get((), 0) > 0:
                return None
        elif odd(k, joints) is None:
            return None                  # not shown to change sign
    return 'both arguments of the atan2 carry the factor %r, which can be negative' % (ks[0],)


def equations(it, u):
    for n in ('eqntosolve', 'secondeqn'):
        try:
            e = it.getattr(u, n)
            l, r = P(it.getattr(e, 'LHS')), P(it.getattr(e, 'RHS'))
        except Exception:
            continue
        yield n, l, r


def run(ctx):
    def one(job):
        name, sums = job
        k0 = '%s%s' % (name, '/sums of angles' if sums else '')
        n = 0
        for it, out, st in program.solving(ctx, name, sums):
            n += 1
            ctx.need(n < 9, 'too many paths for ' + name)
            if not ctx.ob(k0 + '/reaches the solver', st is not None, ctx.outcome_text(out), W):
                continue
            R, unks = st['R'], st['unks']
            g = it.getattr
            sub, dh = fk_map(it, name, g(R, 'Mech'))
            aux = {}
            for q in it.tolist(g(R, 'kequation_aux_list')):
                a = P(g(q, 'LHS')).as_atom()
                if a is not None:
                    aux[a] = P(g(q, 'RHS'))
            ctx.ob(k0 + '/sum variables', all(not (x.symbols() & set(aux)) for x in aux.values()), 'defined by each other: %r' % aux, W)
            J = Judge(sub, aux)
            for i, q in enumerate(it.tolist(g(R, 'kequation_aux_list'))):
                l, r = P(g(q, 'LHS')), P(g(q, 'RHS'))
                ctx.ob('%s/added equation %d' % (k0, i + 1), J.zero(l - r), '%r = %r does not hold in every configuration' % (l, r), W)
            given = POSE | {a.name for r in rows(dh) for x in r for a in P(x).symbols()} | {a.name for a in sub}
            jn = {P(g(u, 'symbol')).as_atom().name for u in unks}
            given -= jn
            done = set()
            for u in sorted((u for u in unks if it.truth(g(u, 'solved'))), key=lambda u: g(u, 'solveorder')):
                q = P(g(u, 'symbol'))
                key = '%s/%r' % (k0, q)
                for en, l, r in equations(it, u):
                    ctx.ob('%s/%s' % (key, en), J.zero(l - r), '%r = %r does not hold in every configuration' % (l, r), W)
                sols = it.tolist(g(u, 'solutions'))
                ctx.ob(key + '/has a value', len(sols) > 0, 'marked solved without a solution', W)
                branches = []
                for i, s in enumerate(sols):
                    c, b = J.claim(q, s)
                    branches.append(b)
                    ctx.ob('%s/solution %d' % (key, i + 1), c is None, c, W)
                    bad = {a.name for a in P(s).symbols()} - given - done - {'pi'}
                    ctx.ob('%s/solution %d in order' % (key, i + 1), not bad, '%r uses %s, not known before' % (s, sorted(bad)), W)
                ctx.ob(key + '/determined', ('nothing',) not in branches,
                       'atan2 of two expressions that are zero in every configuration: %r' % (sols[:1],), W)
                c = uncovered(branches, [sym(x).as_atom() for x in sorted(jn)])
                ctx.ob(key + '/complete', c is None, '%r: %s' % (sols, c), W)
                done.add(q.as_atom().name)
        ctx.ob(k0 + '/paths', n >= 1, 'no path', W)
    jobs = [(r, False) for r in program.robots(ctx)]
    if ctx.thorough:
        jobs += [(r, True) for r in program.robots(ctx)]
    ctx.each(jobs, one)
