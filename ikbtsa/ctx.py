"""Obligation bookkeeping shared by the checks."""
import mmap
import os
import pickle
import signal
import sys
import time
import traceback
from . import interp as I
from .project import Project


class Broken(Exception):
    pass


class Enough(BaseException):
    """a violation is established and the time for collecting more of them is over"""


class OutOfTime(BaseException):
    pass


def _alarm(*a):
    raise OutOfTime('time limit of the analysis')


class Ctx:
    def __init__(self, prop, tier, root):
        self.prop, self.tier = prop, tier
        self.project = Project(root)
        self.obls = []
        self.npaths = 0
        self.functions = set()
        self.imprecise = set()
        self.extra = {}
        self.known = set()
        self.t0 = time.time()
        self.collect_s = 300 if tier == 'thorough' else 45     # once a violation is known, stop after this time
        self.limit_s = int(os.environ.get('IKBT_LIMIT', 840))                                 # hard limit of the analysis
        self.flag = mmap.mmap(-1, 1)                            # shared with the workers: a new violation is known

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def ob(self, key, ok, msg='', where=''):
        self.obls.append({'key': key, 'ok': bool(ok), 'msg': str(msg)[:600], 'where': str(where)[:400]})
        if not ok and key not in self.known:
            self.flag[0] = 1
        self.enough()
        return ok

    def enough(self):
        if self.flag[0] and time.time() - self.t0 > self.collect_s:
            raise Enough()

    def violations(self):
        return [o for o in self.obls if not o['ok']]

    def sample_obls(self):
        n = len(self.obls)
        idx = sorted({0, n // 4, n // 2, 3 * n // 4, n - 1} & set(range(n)))
        return [self.obls[i] for i in idx]

    def explore(self, run, **kw):
        """abstract paths of run(interp); counts coverage"""
        for it, out in I.explore(self.project, run, **kw):
            self.npaths += 1
            self.functions |= it.funcs_seen
            self.imprecise |= it.imprecise
            self.enough()
            yield it, out
        I.CUR = None

    def each(self, items, fn, workers=None):
        """fn(item) for every item, spread over forked workers; obligations come back in item order"""
        items = list(items)
        n = min(workers or os.cpu_count() or 1, len(items), 8)
        if n <= 1 or os.environ.get('IKBT_SERIAL'):
            for x in items:
                fn(x)
            return
        sys.stdout.flush()
        kids = []
        for k in range(n):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 0
                res, i = [], None
                try:
                    os.close(r)
                    signal.signal(signal.SIGALRM, _alarm)
                    signal.alarm(max(1, int(self.t0 + self.limit_s - 40 - time.time())))
                    self.functions, self.imprecise, base = set(), set(), self.npaths
                    for i in range(k, len(items), n):
                        self.obls = []
                        fn(items[i])
                        res.append((i, self.obls))
                    signal.alarm(0)
                    data = pickle.dumps(('ok', res, self.npaths - base, self.functions, self.imprecise))
                except BaseException as e:
                    signal.alarm(0)
                    if os.environ.get('IKBT_TRACE'):
                        traceback.print_exc()
                    if i is not None and (not res or res[-1][0] != i):
                        res.append((i, self.obls))      # what was decided before the analysis stopped
                    name = type(e).__name__
                    data = pickle.dumps(('error', res, name, str(e) if name in ('Unsupported', 'Broken', 'Enough', 'OutOfTime')
                                         else traceback.format_exc()))
                try:
                    with os.fdopen(w, 'wb') as f:
                        f.write(data)
                finally:
                    os._exit(code)
            os.close(w)
            kids.append((pid, r))
        got, err = [], None
        for pid, r in kids:
            with os.fdopen(r, 'rb') as f:
                data = f.read()
            os.waitpid(pid, 0)
            d = pickle.loads(data) if data else ('error', [], 'Broken', 'a worker died')
            got += d[1]
            if d[0] == 'error':
                if d[2] != 'Enough':
                    err = err or d
                continue
            self.npaths += d[2]
            self.functions |= d[3]
            self.imprecise |= d[4]
        for _, obls in sorted(got, key=lambda t: t[0]):
            self.obls += obls
        if err:
            raise Broken('%s: %s' % (err[2], err[3]))
        self.enough()

    def outcome_text(self, out):
        if out[0] == 'raise':
            return 'raises %s at %s' % (out[1].text(), out[1].where)
        if out[0] == 'diverge':
            return 'does not terminate within the step bound'
        return 'returns %r' % (out[1],)

    def where(self, out):
        return out[1].where if out[0] == 'raise' else ''

    def need(self, cond, msg):
        if not cond:
            raise Broken(msg)
