"""Solutions never mention their own or another unsolved unknown."""
from ..shapes import *

EXPLANATION = ('Every solver and the whole priority selection is interpreted on every combination of term kinds on the two sides '
               'of one equation and on pairs of equations, usable or not. On every path the target ends either solved, with at '
               'least one solution, the recorded count equal to the number of solutions, none of which contains the target or '
               'an unsolved unknown, and a success status; or unsolved.')
RULE = 'one obligation per path: solved implies success, count right, solutions closed in solved unknowns; failure implies unsolved'
MIN_OBLIGATIONS = 100
GROUPS = ('algebra', 'ranked', 'sinandcos', 'simu', 'all')
W = 'ikbtleaves'


def run(ctx):
    def one(case):
        key, target, other, eqs = case
        poly.RAW = key.startswith('sums kept')
        try:
            for g in (GROUPS if ctx.thorough or not poly.RAW else ('all',)):
                if g == 'all' and not ctx.thorough and not poly.RAW:
                    continue
                for it, out in ctx.explore(lambda it: tick_leaf(it, g, target, other, eqs)):
                    k = '%s/%s' % (g, key)
                    if out[0] != 'return':
                        continue                                # aborts are reported by P09
                    r = out[1]
                    if not r['solved']:
                        ctx.ob(k, r['status'] != 'SUCCESS' or g == 'ranked' or g == 'all', 'unsolved but status %s' % r['status'], W)
                        continue
                    ctx.ob(k, r['status'] == 'SUCCESS', 'solved but status %s' % r['status'], W)
                    ctx.ob(k + '/count', r['count'] == len(r['solutions']) >= 1, 'count %s, solutions %s' % (r['count'], r['solutions']), W)
                    for p in r['solutions']:
                        bad = mentions(p, [target, other, 'd_5'])
                        ctx.ob(k + '/closed', not bad, '%s solved as %s, which contains %s' % (target, p, bad), W)
        finally:
            poly.RAW = False
    ctx.each(list(scenes(ctx.thorough)) + list(raw_scenes()), one)
