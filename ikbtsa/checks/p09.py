"""Solver leaves decline what they cannot solve."""
from ..shapes import *

EXPLANATION = ('Every solver (identifier, solving leaf and, where two methods compete, the ranking leaf) and the whole priority '
               'selection is interpreted on every combination of term kinds on the two sides of one equation, and on pairs of '
               'equations, usable or not. No path may raise an exception, fail an assertion or stop the program; every path '
               'ends with success or failure and leaves every other unknown untouched.')
RULE = 'one obligation per solver and equation shape: no exception or exit on any path, status success or failure, frame'
MIN_OBLIGATIONS = 100
GROUPS = ('algebra', 'ranked', 'sinandcos', 'simu', 'all')
W = 'ikbtleaves'


def run(ctx):
    def one(case):
        key, target, other, eqs = case
        poly.RAW = key.startswith('sums kept')
        try:
            for g in (GROUPS if ctx.thorough or not poly.RAW else ('all',)):
                if g == 'all' and not ctx.thorough and not poly.RAW:
                    continue
                for it, out in ctx.explore(lambda it: tick_leaf(it, g, target, other, eqs)):
                    k = '%s/%s' % (g, key)
                    if out[0] != 'return':
                        ctx.ob(k, False, ctx.outcome_text(out) + ' for %s' % (eqs,), ctx.where(out))
                        continue
                    r = out[1]
                    ctx.ob(k, r['status'] in ('SUCCESS', 'FAILURE'), 'status %s' % r['status'], W)
                    ctx.ob(k + '/frame', r['others'], 'another unknown was changed', W)
        finally:
            poly.RAW = False
    ctx.each(list(scenes(ctx.thorough)) + list(raw_scenes()), one)
