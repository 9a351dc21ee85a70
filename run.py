#!/usr/bin/env python3
"""run.py PROPERTY [--tier quick|thorough] [--repo DIR]

Decides one property from /repo's current source (static analysis only; no repository code is imported or run),
writes evidence/<id>.json and prints VIOLATION / KNOWN-FINDING lines.
exit 0: every obligation discharged (or listed as a known finding); 1: violation; 2: the analysis itself is broken.
"""
import argparse
import importlib
import json
import os
import sys
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--repo', default=os.environ.get('IKBT_REPO', '/repo'))
    ap.add_argument('--out', default=os.path.join(HERE, 'evidence'))
    a = ap.parse_args()
    from ikbtsa.ctx import Ctx
    t0 = time.time()
    os.makedirs(a.out, exist_ok=True)
    mod = importlib.import_module('ikbtsa.checks.' + a.prop.lower())
    ctx = Ctx(a.prop, a.tier, a.repo)
    known = load_known(a.prop)
    ctx.known = set(known)
    broken = ['the analysis did not end within %d s' % ctx.limit_s]

    def work():
        broken[0] = decide(mod, ctx)
    sys.setrecursionlimit(60000)
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=work, daemon=True)
    t.start()
    t.join(ctx.limit_s)
    rc = report(a, mod, ctx, known, broken[0], t0)
    sys.stdout.flush()
    os._exit(rc)


def load_known(prop):
    known = {}
    path = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('known: property=%s ' % prop):
                rest = line[len('known: property=%s ' % prop):]
                key, _, desc = rest.partition(' :: ')
                known[key.replace('key=', '', 1).strip()] = desc
    return known


def decide(mod, ctx):
    """runs the analysis; returns why it is incomplete, if it is"""
    from ikbtsa.ctx import Broken, Enough
    from ikbtsa.interp import Unsupported
    broken = None
    try:
        mod.run(ctx)
        need = getattr(mod, 'MIN_OBLIGATIONS', 1)
        if not ctx.violations() and len(ctx.obls) < need:
            broken = 'only %d obligations, at least %d were confirmed by hand (a vanished anchor?)' % (len(ctx.obls), need)
    except (Unsupported, Broken) as e:
        broken = '%s: %s' % (type(e).__name__, e)
        if os.environ.get('IKBT_TRACE'):
            traceback.print_exc()
    except Enough:
        broken = 'stopped after a violation was established'
    except Exception:
        broken = traceback.format_exc()
    return broken


def report(a, mod, ctx, known, broken, t0):
    bad = ctx.violations()
    new = [o for o in bad if o['key'] not in known]
    seen = sorted({o['key'] for o in bad if o['key'] in known})
    replay = os.path.join(a.out, a.prop + '.replay.json')
    with open(replay, 'w') as f:
        json.dump({'property': a.prop, 'violations': new, 'known': seen, 'broken': broken}, f, indent=1, default=str)
    cov = {
        'explanation': mod.EXPLANATION,
        'rule': getattr(mod, 'RULE', ''),
        'obligations': len(ctx.obls),
        'discharged': sum(1 for o in ctx.obls if o['ok']),
        'abstract_paths': ctx.npaths,
        'functions_analysed': sorted(ctx.functions),
        'modules': dict(sorted(ctx.project.consulted.items())),
        'samples': [{'obligation': o['key'], 'ok': o['ok'], 'detail': o['msg']} for o in ctx.sample_obls()],
        'unmodelled_library_calls': sorted(ctx.imprecise),
    }
    cov.update(ctx.extra)
    with open(os.path.join(a.out, a.prop + '.json'), 'w') as f:
        json.dump({'property': a.prop, 'tier': a.tier if a.tier in ('quick', 'thorough') else 'quick',
                   'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': getattr(mod, 'LEVEL', 'other'),
                   'coverage': cov, 'assumptions': getattr(mod, 'ASSUMPTIONS', []),
                   'wall_s': round(time.time() - t0, 3), 'violations': len(new)}, f, indent=1, default=str)
    print('%s: %d obligations, %d discharged, %d abstract paths, %d functions, %.1fs' % (
        a.prop, len(ctx.obls), cov['discharged'], ctx.npaths, len(ctx.functions), time.time() - t0))
    for k in seen:
        print('KNOWN-FINDING: property=%s %s %s' % (a.prop, k, known[k]))
    shown = set()
    for o in new:
        if o['key'] in shown:
            continue
        shown.add(o['key'])
        if len(shown) <= 12:
            print('  violated: %s -- %s%s' % (o['key'], o['msg'], ' [%s]' % o['where'] if o['where'] and o['where'] not in o['msg'] else ''))
    if new:
        print('VIOLATION property=%s replay=%s' % (a.prop, replay))
        return 1
    if broken:
        print('ANALYSIS-BROKEN property=%s %s' % (a.prop, broken))
        return 2
    return 0


if __name__ == '__main__':
    main()
