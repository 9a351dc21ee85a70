"""Stand-alone kinematics scripts: they complete and show the kinematics of the robot they describe."""
import re
from .. import program
from ..kin import *
from ..interp import VInst
from ..poly import is_zero, sym
from .p16 import geometric

EXPLANATION = ('The stand-alone scripts of the top directory are interpreted from their first statement (with every robot of '
               'the catalogue where they take one; file system modelled, sum-of-angles scan left to P25). They must end '
               'normally; the mechanism they leave must have the described table and its transforms, and every matrix '
               'they display - abbreviations expanded by their names - is compared with the textbook transform, velocity or '
               'Jacobian of that robot.')
RULE = 'one obligation per script and robot: end of the script, T_06, displayed matrices'
MIN_OBLIGATIONS = 60
SCRIPTS = {'fk_EE543': False, 'foward_kin': False, 'forward_kin2': True}        # name -> takes a robot
ASSUMPTIONS = ['sympy prints what it is given (DESIGN.md)']


def expand(x):
    x = P(x)
    sub = {}
    for a in x.symbols():
        t = re.match(r'([sc])_?(\d+)$', a.name)
        if t:
            sub[a] = (sin if t.group(1) == 's' else cos)(sum((sym('th_' + d) for d in t.group(2)), Poly.const(0)))
    return x.subs(sub)


def velocities(dh, vv, n):
    """textbook (v; w) of frame n in frame n, and its n columns"""
    J = geometric([link(*r) for r in dh[:n]] + [hom(rotx(0))] * (6 - n), list(vv[:n]) + [2] * (6 - n))
    cols = J[:n]
    qd = [sym('qd_%d' % (i + 1)) for i in range(n)]
    tot = [[x] for x in [sum((P(c[i]) * q for c, q in zip(cols, qd)), Poly.const(0)) for i in range(6)]]
    return tot[:3], tot[3:], tr(cols)


def run(ctx):
    ic = {'ikbtbasics.ik_classes.Robot.sum_of_angles_transform': lambda it, f, a, k: None}
    names = program.robots(ctx)
    ctx.need(len(names) >= 5, 'fewer than five robots in the catalogue')
    ctx.extra['scripts'] = sorted(SCRIPTS)

    def one(item):
        script, name, again = item
        key = '%s%s%s' % (script, ' ' + name if name else '', ' with stored kinematics' if again else '')

        def body(it):
            argv = [script + '.py'] + ([name] if name else [])
            program.prepare(it, argv)
            it.user['printer'] = False
            it.user['shown'] = []
            m = it.import_module(script)
            if again:
                program.forget(it, script)
                it.user['shown'] = []
                m = it.import_module(script)
            cat = None
            if SCRIPTS[script]:
                c = it.import_module('ikbtfunctions.ik_robots')
                cat = it.tolist(it.call(it.getattr(c, 'robot_params'), [name or 'Wrist'], {}))
            return m, cat
        for it, out in ctx.explore(body, fuel=10 ** 8, intercepts=ic):
            W = script + '.py'
            if out[0] != 'return':
                ctx.ob(key + '/runs to the end', False, ctx.outcome_text(out), ctx.where(out))
                continue
            ctx.ob(key + '/runs to the end', True)
            m, cat = out[1]
            mechs = [v for v in m.ns.values() if isinstance(v, VInst) and v.cls.name == 'mechanism']
            if not ctx.ob(key + '/mechanism', len(mechs) >= 1 and all('T_06' in x.d for x in mechs),
                          'the script leaves no mechanism with its forward kinematics', W):
                continue
            M = mechs[0]
            dh, vv = ([list(r) for r in rows(cat[0])], it.tolist(cat[1])) if cat else \
                ([list(r) for r in rows(m.ns['dh'])], it.tolist(m.ns['vv'])) if 'dh' in m.ns and 'vv' in m.ns else \
                ([list(r) for r in rows(M.d['DH'])], it.tolist(M.d['vv']))
            joints = {it.getattr(u, 'symbol').as_atom() for u in it.tolist(cat[4] if cat else m.ns.get('variables', []))}
            kinds = [0 if joints & set(P(r[2]).symbols()) else 1 if joints & set(P(r[3]).symbols()) else None for r in dh]
            ctx.ob(key + '/joint types', all(k is None or (i < len(vv) and vv[i] == k) for i, k in enumerate(kinds)),
                   'joint types are %s, the joint variables of the table are %s' % (vv, kinds), W)
            vv = [(vv[i] if i < len(vv) else 1) if k is None else k for i, k in enumerate(kinds)]
            d = same(M.d['DH'], dh)
            ctx.ob(key + '/table', d is None, 'DH table of the mechanism: %s' % d, W)
            back = {}                        # symbols for twist angles
            for i, r in enumerate(dh):
                back[sym('ca%d' % i).as_atom()], back[sym('sa%d' % i).as_atom()] = cos(P(r[0])), sin(P(r[0]))
            plain = lambda mat: [[P(x).subs(back) for x in r] for r in rows(mat)]
            T = mm(*[link(*r) for r in dh])
            d = same(plain(M.d['T_06']), T)
            ctx.ob(key + '/T_06', d is None, 'T_06 of the mechanism: %s' % d, W)
            shown = [x for x in it.user['shown'] if isinstance(x, VMatrix)]
            if SCRIPTS[script]:
                continue
            vec, jac = [], []
            for n in range(1, 7):
                v, w, J = velocities(dh, vv, n)
                vec += [v, w]
                jac.append(J)
            wants = {(4, 4): [T], (3, 1): vec}
            for i, x in enumerate(shown):
                got = [[expand(c) for c in r] for r in rows(x)]
                shape = (len(got), len(got[0]) if got else 0)
                cand = wants.get(shape) or [J for J in jac if shape == (6, len(J[0]))]
                if shape == (6, 4):
                    cand = cand + [dh]
                diffs = [same(got, c) for c in cand]
                ctx.ob('%s/matrix displayed %d' % (key, i + 1), any(d is None for d in diffs),
                       'a displayed %dx%d matrix is not of the kinematics of the robot: %s' % (shape + (diffs[0] if diffs else 'of no such shape',)), W)
            if script == 'fk_EE543':
                kinds = sorted({(len(rows(x)), len(rows(x)[0])) for x in shown})
                ctx.ob(key + '/shows', kinds == [(3, 1), (4, 4), (6, 3)], 'displayed are matrices of the shapes %s only' % kinds, W)

    items = []
    for s, takes in sorted(SCRIPTS.items()):
        if not ctx.project.find(s):
            continue
        items += [(s, None, False)] + [(s, n, a) for n in names if takes for a in ((False, True) if ctx.thorough or n == names[0] else (False,))]
    ctx.need(items, 'no stand-alone kinematics script left')
    ctx.each(items, one)
