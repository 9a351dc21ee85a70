"""Elementary transforms: closed forms of the symbolic functions, and their numeric siblings."""
from ..kin import *
from ..poly import sym, anyexpr

EXPLANATION = ('Each transform function is interpreted once on symbolic arguments; every matrix entry it returns is '
               'compared as a trigonometric polynomial normal form with the textbook product it stands for. The '
               'numeric variants are interpreted with numpy replaced by the same algebra, so they are compared as '
               'formulas, not on sample numbers.')
RULE = 'one obligation per function (and variant): all entries identical as normal forms'
MIN_OBLIGATIONS = 20


def run(ctx):
    t, r, p, y, al, a, d = [sym(n) for n in ('t', 'r', 'p', 'y', 'al', 'a', 'd')]
    v = [sym('v0'), sym('v1'), sym('v2')]
    rpy = mm(rotz(y), roty(p), rotx(r))
    spec = {
        'Link': ([al, a, d, t], link(al, a, d, t)),
        'RotX': ([t], rotx(t)), 'RotY': ([t], roty(t)), 'RotZ': ([t], rotz(t)),
        'RotX4': ([t], hom(rotx(t))), 'RotY4': ([t], hom(roty(t))), 'RotZ4': ([t], hom(rotz(t))),
        'RPY3': ([r, p, y], rpy), 'RPY4': ([r, p, y], hom(rpy)),
        'Trans4': ([v], hom(rotx(0), v)),
    }
    for name, (args, want) in sorted(spec.items()):
        for suffix in ('_S', '_N'):
            def body(it):
                m = it.import_module('ikbtbasics.pykinsym')
                return it.call(it.getattr(m, name + suffix), list(args), {})
            for it, out in ctx.explore(body):
                key = name + suffix
                if out[0] != 'return':
                    ctx.ob(key, False, ctx.outcome_text(out), ctx.where(out))
                    continue
                diff = same(out[1], want)
                ctx.ob(key, diff is None, diff or '', 'ikbtbasics/pykinsym.py ' + key)
