"""Homogeneous inverse: inverts every rigid transform."""
from ..kin import *
from ..poly import sym

EXPLANATION = ('The inverse functions are interpreted on the general rigid transform (rotation by three independent '
               'symbolic angles, which reaches every rotation, and a symbolic displacement), on '
               'products of two link transforms and on special rotations with every pattern of vanishing displacements; both products with the argument must reduce to the identity matrix as trigonometric '
               'polynomial normal forms, and the argument must be left unchanged.')
RULE = 'one obligation per function, argument family and side of the product'
MIN_OBLIGATIONS = 8


def run(ctx):
    a, b, c = [sym(n) for n in ('al', 'be', 'ga')]
    p = [sym('px'), sym('py'), sym('pz')]
    general = hom(mm(rotz(a), roty(b), rotx(c)), p)
    two = mm(link(sym('al_0'), sym('a_0'), sym('d_1'), sym('th_1')), link(PI / 2, 0, sym('d_2'), 0))
    I4 = hom(rotx(0))
    families = [('general rigid transform', general), ('two links', two)]
    # displacements and rotations with vanishing components, in every combination
    rots = [('no rotation', rotx(0)), ('about x', rotx(a)), ('about y', roty(a)), ('about z', rotz(a)), ('z then x', mm(rotz(a), rotx(b))),
            ('general rotation', mm(rotz(a), roty(b), rotx(c))), ('quarter turn about x', rotx(PI / 2)), ('half turn about z', rotz(PI)),
            ('axes exchanged', mm(rotz(PI / 2), rotx(PI / 2)))]
    for m in range(8):
        for rn, r in rots:
            families.append(('%s/displacement %s' % (rn, ''.join(n if m >> i & 1 else '0' for i, n in enumerate('xyz'))),
                             hom(r, [x if m >> i & 1 else 0 for i, x in enumerate(p)])))
    for fname, kind in (('H_inv_S', 'sp'), ('H_inv_N', 'npm')):
        for label, T in families:
            def body(it):
                m = it.import_module('ikbtbasics.pykinsym')
                arg = VMatrix([list(r) for r in T], kind)
                res = it.call(it.getattr(m, fname), [arg], {})
                return rows(res), arg.rows
            for it, out in ctx.explore(body):
                key = '%s/%s' % (fname, label)
                where = 'ikbtbasics/pykinsym.py ' + fname
                if out[0] != 'return':
                    ctx.ob(key, False, ctx.outcome_text(out), ctx.where(out))
                    continue
                inv, arg = out[1]
                if len(inv) != 4 or any(len(r) != 4 for r in inv):
                    ctx.ob(key, False, 'the inverse is not a 4x4 matrix', where)
                    continue
                d = same(mm(inv, T), I4)
                ctx.ob(key + '/left', d is None, 'inverse times transform: %s' % d, where)
                d = same(mm(T, inv), I4)
                ctx.ob(key + '/right', d is None, 'transform times inverse: %s' % d, where)
                ctx.ob(key + '/argument', same(arg, T) is None, 'the argument was modified', where)
