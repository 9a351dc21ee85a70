"""Model of trigonometric simplification: products of sines and cosines of two angles are contracted to sines and cosines
of their sum or difference wherever that makes an expression shorter."""
from . import poly
from .poly import Poly, Atom, sym


def _angles(p):
    """(symbols occurring only inside sin/cos of themselves, in order; pairs that share a monomial)"""
    trig, other, pairs = set(), set(), set()
    for m in p.t:
        here = set()
        for a, e in m:
            if a.kind == 'fn' and a.name in ('sin', 'cos'):
                x = a.args[0].as_atom()
                if x is not None and x.kind == 'sym' and x.name != 'pi':
                    trig.add(x)
                    here.add(x)
                    continue
            for s in Poly.atom(a).symbols():
                other.add(s)
        for x in here:
            for y in here:
                if x.name < y.name:
                    pairs.add((x, y))
    return [(x, y) for x, y in sorted(pairs, key=lambda t: (t[0].name, t[1].name)) if x not in other and y not in other]


_memo = {}


def contract(p):
    p = Poly.of(p)
    k = p.key()
    if k in _memo:
        return _memo[k]
    raw = poly.RAW
    poly.RAW = False
    try:
        q = p.renorm()
        sums = {}
        while True:
            best = None
            for a, b in _angles(q):
                for sg in (1, -1):
                    S = Atom('sym', '_s%d' % len(sums))
                    B = (Poly.atom(S) - Poly.atom(a)) * sg       # S = a + sg*b
                    c = q.subs({b: B})
                    if len(c.t) < len((best or (q,))[0].t):
                        best = (c, S, Poly.atom(a) + sg * Poly.atom(b))
            if best is None:
                break
            q = best[0]
            sums[best[1]] = best[2].subs(sums)
    finally:
        poly.RAW = raw
    if sums:
        poly.RAW = True
        try:
            q = q.subs(sums)
        finally:
            poly.RAW = raw
    _memo[k] = q
    return q
