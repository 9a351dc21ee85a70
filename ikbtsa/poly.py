"""Polynomial normal forms: the value-numbering domain of the analyser.

A `Poly` is an element of Q[a1^±1, a2^±1, ...] where the atoms are named symbols, metavariables that
stand for an arbitrary expression, or applications of an uninterpreted / partially interpreted function
(sin, cos, sqrt, atan2, asin, acos, ...).  Normalisation uses only ring rules and
  sin(-x) = -sin x, cos(-x) = cos x, angle addition, shifts by multiples of pi/2, sin^2 = 1 - cos^2,
  sqrt(p)^2 = p, sin/cos of asin, acos and atan2.
No solver, no numeric evaluation.
"""
from fractions import Fraction


RAW = False         # keep sin/cos of sums unexpanded (syntactic view); see renorm()


class Atom:
    """kind: 'sym' (a concrete symbol: distinct names are distinct values), 'any' (metavariable),
    'fn' (head, args)."""
    __slots__ = ('kind', 'name', 'args', '_h', '_r')
    _pool = {}

    def __new__(cls, kind, name, args=()):
        k = (kind, name, args)
        a = cls._pool.get(k)
        if a is None:
            a = object.__new__(cls)
            a.kind, a.name, a.args = kind, name, args
            a._h = hash(k)
            a._r = name if kind != 'fn' else name + '(' + ','.join(repr(x) for x in args) + ')'
            cls._pool[k] = a
        return a

    def __hash__(self):
        return self._h

    def __repr__(self):
        return self._r

    def __lt__(self, o):
        return (self.kind, self._r) < (o.kind, o._r)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def _mono_mul(m1, m2):
    d = dict(m1)
    for a, e in m2:
        e2 = d.get(a, 0) + e
        if e2:
            d[a] = e2
        else:
            d.pop(a, None)
    return tuple(sorted(d.items(), key=lambda t: (t[0].kind, t[0]._r)))


def _num(x):
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, (int, Fraction)):
        return Fraction(x)
    if isinstance(x, float):
        return Fraction(repr(x)) if x == x and abs(x) != float('inf') else None
    return None


class Poly:
    __slots__ = ('t', '_h', '_k')

    def __init__(self, terms, reduced=False):
        if not reduced:
            terms = _reduce(terms)
        self.t = terms
        self._h = None
        self._k = None

    # -- construction
    @staticmethod
    def const(c):
        c = Fraction(c)
        return Poly({(): c} if c else {}, True)

    @staticmethod
    def of(x):
        if isinstance(x, Poly):
            return x
        c = _num(x)
        if c is None:
            raise TypeError('not an expression: %r' % (x,))
        return Poly.const(c)

    @staticmethod
    def atom(a):
        return Poly({((a, 1),): Fraction(1)})

    # -- queries
    def key(self):
        if self._k is None:
            self._k = tuple(sorted(((m, c) for m, c in self.t.items()), key=lambda x: repr(x[0])))
        return self._k

    def __hash__(self):
        if self._h is None:
            if not self.t:
                self._h = hash(0)
            elif len(self.t) == 1 and () in self.t:
                self._h = hash(self.t[()])
            else:
                self._h = hash(frozenset(self.t.items()))
        return self._h

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def constval(self):
        return self.t.get((), Fraction(0))

    def __eq__(self, o):                       # normal-form identity (host containers use this)
        if not isinstance(o, Poly):
            c = _num(o)
            return c is not None and self.is_const() and self.constval() == c
        return self.t == o.t

    def __ne__(self, o):
        return not self.__eq__(o)

    def as_atom(self):
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return m[0][0]
        return None

    def atoms(self, deep=True, acc=None):
        acc = set() if acc is None else acc
        for m in self.t:
            for a, _ in m:
                if a in acc:
                    continue
                acc.add(a)
                if deep and a.kind == 'fn':
                    for x in a.args:
                        if isinstance(x, Poly):
                            x.atoms(True, acc)
        return acc

    def symbols(self):
        return {a for a in self.atoms() if a.kind == 'sym'}

    def has_any(self):
        return any(a.kind == 'any' for a in self.atoms())

    def monomials(self):
        return [Poly({m: c}, True) for m, c in sorted(self.t.items(), key=lambda x: repr(x[0]))]

    # -- arithmetic
    def __add__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        t = dict(self.t)
        for m, c in o.t.items():
            c2 = t.get(m, 0) + c
            if c2:
                t[m] = c2
            else:
                t.pop(m, None)
        return Poly(t, True)
    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()}, True)

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = _coerce(o)
        return o if o is NotImplemented else self + (-o)

    def __rsub__(self, o):
        o = _coerce(o)
        return o if o is NotImplemented else o + (-self)

    def __mul__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        if len(self.t) * len(o.t) > 400000:
            raise OverflowError('polynomial too large')
        t = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = _mono_mul(m1, m2)
                c = t.get(m, 0) + c1 * c2
                if c:
                    t[m] = c
                else:
                    t.pop(m, None)
        return Poly(t)
    __rmul__ = __mul__

    def inverse(self):
        if len(self.t) == 1:
            (m, c), = self.t.items()
            return Poly({tuple((a, -e) for a, e in m): 1 / c})
        if not self.t:
            raise ZeroDivisionError('division by zero')
        # common monomial first, then canonical sign/scale so that (-p)^-1 == -(p^-1)
        com = _content(self)
        p = self if not com else Poly({_mono_mul(m, tuple((a, -e) for a, e in com)): c
                                       for m, c in self.t.items()})
        if len(p.t) == 1:
            return p.inverse() * Poly({tuple((a, -e) for a, e in com): Fraction(1)})
        (m0, c0) = p.key()[0]
        q = Poly({m: c / c0 for m, c in p.t.items()}, True)
        return Poly({_mono_mul(((Atom('fn', 'inv', (q,)), 1),), tuple((a, -e) for a, e in com)): 1 / c0})

    def __truediv__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        if len(o.t) > 1 and len(self.t) > 1:
            q = exact_div(self, o)
            if q is not None:
                return q
        return self * o.inverse()

    def __rtruediv__(self, o):
        o = _coerce(o)
        return o if o is NotImplemented else o / self

    def __pow__(self, e):
        if isinstance(e, Poly):
            if not e.is_const():
                return fn('pow', self, e)
            e = e.constval()
        e = _num(e)
        if e.denominator == 1:
            n = int(e)
            if n < 0:
                return (self ** (-n)).inverse()
            r = Poly.const(1)
            for _ in range(n):
                r = r * self
            return r
        if e.denominator == 2:
            return sqrt(self) ** int(e.numerator)
        return fn('pow', self, Poly.const(e))

    def __rpow__(self, b):
        return Poly.of(b) ** self

    def subs(self, mapping):
        """mapping: Atom -> Poly; substitutes everywhere and renormalises."""
        out = Poly.const(0)
        for m, c in self.t.items():
            term = Poly.const(c)
            for a, e in m:
                if a in mapping:
                    v = mapping[a]
                elif a.kind == 'fn':
                    v = fn(a.name, *[x.subs(mapping) if isinstance(x, Poly) else x for x in a.args])
                else:
                    v = Poly.atom(a)
                term = term * v ** e
            out = out + term
        return out

    def renorm(self):
        """rebuild (expands sines and cosines of sums that were kept unexpanded)"""
        return self.map_atoms(lambda a: None)

    def map_atoms(self, f):
        """replace atoms bottom up: f(atom) -> Poly, or None to keep it (function arguments are rebuilt)"""
        out = Poly.const(0)
        for m, c in self.t.items():
            term = Poly.const(c)
            for a, e in m:
                v = f(a)
                if v is None:
                    if a.kind == 'fn':
                        args = [x.map_atoms(f) if isinstance(x, Poly) else x for x in a.args]
                        v = fn(a.name, *args)
                    else:
                        v = Poly.atom(a)
                term = term * v ** e
            out = out + term
        return out

    def subs_compound(self, old, new):
        """syntactic replacement of a sum (all its terms present, or all negated) or of a product"""
        def inner(a):
            if a.kind != 'fn':
                return None
            args = [x.subs_compound(old, new) if isinstance(x, Poly) else x for x in a.args]
            return None if all(x is y or x == y for x, y in zip(args, a.args)) else fn(a.name, *args)
        p = self
        if any(a.kind == 'fn' for a in p.atoms(deep=False)):
            q = Poly.const(0)
            for m, c in p.t.items():
                term = Poly.const(c)
                for a, e in m:
                    v = inner(a)
                    term = term * (Poly.atom(a) if v is None else v) ** e
                q = q + term
            p = q
        if len(old.t) > 1:
            if all(p.t.get(m) == c for m, c in old.t.items()):
                return p - old + new
            if all(p.t.get(m) == -c for m, c in old.t.items()):
                return p + old - new
            return p
        if not old.t:
            return p
        (om, oc), = old.t.items()
        if not om:
            return p
        out = Poly.const(0)
        for m, c in p.t.items():
            k = _divide(m, om)
            if k is None or (oc not in (1, -1) and c != oc):
                out = out + Poly({m: c}, True)
            elif oc in (1, -1):
                out = out + Poly({k: c * oc}) * new
            else:
                out = out + Poly({k: Fraction(1)}) * new
        return out

    def contains_compound(self, q):
        """syntactic occurrence of a sum or product anywhere"""
        def here(p):
            if len(q.t) > 1:
                return all(p.t.get(m) == c for m, c in q.t.items())
            if not q.t:
                return not p.t
            (qm, qc), = q.t.items()
            if not qm:
                return any((c == qc and m) or (p.is_const() and c == qc) for m, c in p.t.items()) or p == q \
                    or (p.t.get(()) == qc)
            for m, c in p.t.items():
                if (qc == 1 or c == qc) and _divide(m, qm) is not None:
                    return True
            return False
        if here(self):
            return True
        return any(x.contains_compound(q) for a in self.atoms(deep=False) if a.kind == 'fn' for x in a.args if isinstance(x, Poly))

    def multiple_inside(self, q):
        """monomial k with every term of k*q among the terms of self (self == k*q + rest), or None"""
        if len(q.t) < 2:
            return None
        qm = min(q.t, key=len)
        for m, c in self.t.items():
            k = _divide(m, qm)
            if not k:
                continue
            mono = Poly({k: c / q.t[qm]})
            if all(self.t.get(x) == v for x, v in (mono * q).t.items()):
                return mono
        return None

    def derivative(self, atom):
        """partial derivative with respect to a symbol atom; None if an unknown function is in the way"""
        out = Poly.const(0)
        for m, c in self.t.items():
            for i, (a, e) in enumerate(m):
                rest = Poly({m[:i] + m[i + 1:]: c * e}) * (Poly.atom(a) ** (e - 1) if e != 1 else 1)
                if a is atom:
                    out = out + rest
                elif a.kind == 'fn':
                    if not any(isinstance(x, Poly) and atom in x.atoms() for x in a.args):
                        continue
                    if a.name not in ('sin', 'cos'):
                        return None
                    inner = a.args[0].derivative(atom)
                    if inner is None:
                        return None
                    o = cos(a.args[0]) if a.name == 'sin' else -sin(a.args[0])
                    out = out + rest * o * inner
        return out

    def __repr__(self):
        if not self.t:
            return '0'
        out = []
        for m, c in self.key():
            s = '*'.join(repr(a) if e == 1 else '%r**%s' % (a, e) for a, e in m)
            if not m:
                s = str(c)
            elif c == -1:
                s = '-' + s
            elif c != 1:
                s = '%s*%s' % (c, s)
            out.append(s)
        return ' + '.join(out).replace('+ -', '- ')

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def _content(p):
    """largest monomial of function/symbol atoms (of any sign of exponent) common to all terms"""
    it = iter(p.t)
    com = dict(next(it))
    for m in it:
        d = dict(m)
        for a in list(com):
            e, f = com[a], d.get(a, 0)
            if e > 0 and f > 0:
                com[a] = min(e, f)
            elif e < 0 and f < 0:
                com[a] = max(e, f)
            else:
                del com[a]
        if not com:
            return ()
    return tuple(sorted(com.items(), key=lambda t: (t[0].kind, t[0]._r)))


def _raw_mul(t1, t2):
    t = {}
    for m1, c1 in t1.items():
        for m2, c2 in t2.items():
            m = _mono_mul(m1, m2)
            c = t.get(m, 0) + c1 * c2
            if c:
                t[m] = c
            else:
                t.pop(m, None)
    return t


def _raw_div(t, d):
    names = sorted({a for x in (t, d) for m in x for a, _ in m}, key=lambda a: (a.kind, a._r))
    pos = {a: i for i, a in enumerate(names)}

    def vec(m):
        v = [0] * len(names)
        for a, e in m:
            v[pos[a]] = e
        return v
    ld = max(d, key=vec)
    rem, q = dict(t), {}
    for _ in range(60):
        if not rem:
            return q
        lr = max(rem, key=vec)
        m = _divide(lr, ld)
        if m is None:
            return None
        c = rem[lr] / d[ld]
        q[m] = q.get(m, 0) + c
        for k, v in _raw_mul({m: c}, d).items():
            n = rem.get(k, 0) - v
            if n:
                rem[k] = n
            else:
                rem.pop(k, None)
    return None


def _unreduce(t, sines):
    """cos(x)^2k -> (1 - sin(x)^2)^k for the given sine atoms (not normalised)"""
    for sa in sines:
        ca = Atom('fn', 'cos', sa.args)
        out = {}
        for m, c in t.items():
            e = dict(m).get(ca, 0)
            k = e // 2 if e > 0 else 0
            part = {_mono_mul(m, ((ca, -2 * k),)): c}
            for _ in range(k):
                part = _raw_mul(part, {(): Fraction(1), ((sa, 2),): Fraction(-1)})
            for n, v in part.items():
                v = out.get(n, 0) + v
                if v:
                    out[n] = v
                else:
                    out.pop(n, None)
        t = out
    return t


def exact_div(p, d):
    """q with p == q*d when the leading-term division comes out even (a sufficient test), else None"""
    if len(p.t) > 400 or not d.t:
        return None
    q = _raw_div(p.t, d.t)
    if q is None:
        da = {a for m in d.t for a, _ in m}
        sines = sorted((a for a in da if a.kind == 'fn' and a.name == 'sin'
                        and Atom('fn', 'cos', a.args) not in da), key=lambda a: a._r)
        if sines:
            q = _raw_div(_unreduce(p.t, sines), _unreduce(d.t, sines))
    return None if q is None else Poly(q)


def _divide(m, d):
    """monomial m / d, or None when some factor of d is missing"""
    md = dict(m)
    for a, e in d:
        h = md.get(a, 0)
        if e > 0 and h < e or e < 0 and h > e:
            return None
        md[a] = h - e
    return tuple(sorted(((a, e) for a, e in md.items() if e), key=lambda t: (t[0].kind, t[0]._r)))


def _coerce(o):
    if isinstance(o, Poly):
        return o
    c = _num(o)
    return NotImplemented if c is None else Poly.const(c)


def _reduce(terms):
    """apply sin^2 -> 1-cos^2, sqrt(p)^2 -> p (positive powers), sqrt(p)^-2 -> p^-1 when p is a monomial"""
    work = {m: c for m, c in terms.items() if c}
    out = {}
    stack = list(work.items())
    while stack:
        m, c = stack.pop()
        for i, (a, e) in enumerate(m):
            if a.kind == 'fn' and a.name == 'sin' and e >= 2:
                rest = m[:i] + m[i + 1:]
                if e > 2:
                    rest = _mono_mul(rest, ((a, e - 2),))
                ca = Atom('fn', 'cos', a.args)
                stack.append((rest, c))
                stack.append((_mono_mul(rest, ((ca, 2),)), -c))
                break
            if a.kind == 'fn' and a.name == 'sqrt' and e >= 2:
                rest = m[:i] + m[i + 1:]
                if e > 2:
                    rest = _mono_mul(rest, ((a, e - 2),))
                for m2, c2 in a.args[0].t.items():
                    stack.append((_mono_mul(rest, m2), c * c2))
                break
            if a.kind == 'fn' and a.name == 'inv' and e < 0:
                rest = m[:i] + m[i + 1:]
                if e < -1:
                    rest = _mono_mul(rest, ((a, e + 1),))
                for m2, c2 in a.args[0].t.items():
                    stack.append((_mono_mul(rest, m2), c * c2))
                break
        else:
            c2 = out.get(m, 0) + c
            if c2:
                out[m] = c2
            else:
                out.pop(m, None)
    return out


def is_zero(p):
    """ring test modulo the relations: clears inverse atoms (sqrt^-k, inv(q), cos^-k, ...) first"""
    p = Poly.of(p)
    for _ in range(60):
        if not p.t:
            return True
        neg = {}
        for m in p.t:
            for a, e in m:
                if a.kind == 'fn' and a.name == 'inv' and e > 0:
                    neg[a] = max(neg.get(a, 0), e)
                elif e < 0:
                    neg[a] = max(neg.get(a, 0), -e)
        if not neg:
            return False
        a, e = sorted(neg.items(), key=lambda t: (t[0]._r))[0]
        mul = a.args[0] ** e if a.name == 'inv' and a.kind == 'fn' else None
        out = Poly.const(0)
        for m, c in p.t.items():
            if mul is None:
                out = out + Poly({_mono_mul(m, ((a, e),)): c})
            else:
                d = dict(m)
                have = d.pop(a, 0)
                mm = tuple(sorted(d.items(), key=lambda t: (t[0].kind, t[0]._r)))
                out = out + Poly({mm: c}) * a.args[0] ** (e - have)
        p = out
    return False


# ---- functions -----------------------------------------------------------------------------------------
PI = Poly.atom(Atom('sym', 'pi'))


def sym(name):
    return Poly.atom(Atom('sym', name))


def anyexpr(name):
    return Poly.atom(Atom('any', name))


def _leading_negative(p):
    return bool(p.t) and p.key()[0][1] < 0


def sqrt(p):
    p = Poly.of(p)
    if p.is_const():
        c = p.constval()
        if c >= 0:
            import math
            n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if n * n == c.numerator and d * d == c.denominator:
                return Poly.const(Fraction(n, d))
    return Poly.atom(Atom('fn', 'sqrt', (p,)))


def _split_pi(p):
    """p = rest + k*pi/2 (integer k) -> (rest, k)"""
    pim = ((PI.as_atom(), 1),)
    c = p.t.get(pim)
    if c is None:
        return p, 0
    k2 = c * 2
    k = int(k2 // 1)
    t = dict(p.t)
    r = k2 - k
    if r:
        t[pim] = r / 2
    else:
        t.pop(pim)
    return Poly(t, True), k


def _trig(which, p):
    p = Poly.of(p)
    p, k = _split_pi(p)
    k %= 4
    if k:
        s, c = _trig('sin', p), _trig('cos', p)
        if which == 'sin':
            return {1: c, 2: -s, 3: -c}[k]
        return {1: -s, 2: -c, 3: s}[k]
    if not p.t:
        return Poly.const(0 if which == 'sin' else 1)
    if len(p.t) > 1 and RAW:
        if _leading_negative(p):
            r = Poly.atom(Atom('fn', which, (-p,)))
            return -r if which == 'sin' else r
        return Poly.atom(Atom('fn', which, (p,)))
    if len(p.t) > 1:
        ms = p.monomials()
        a, b = ms[0], sum(ms[1:], Poly.const(0))
        if which == 'sin':
            return _trig('sin', a) * _trig('cos', b) + _trig('cos', a) * _trig('sin', b)
        return _trig('cos', a) * _trig('cos', b) - _trig('sin', a) * _trig('sin', b)
    (m, c), = p.t.items()
    if c < 0:
        r = _trig(which, -p)
        return -r if which == 'sin' else r
    if c.denominator == 1 and 2 <= c <= 6 and not RAW:
        h = Poly({m: Fraction(1)}, True)
        return _mult(which, h, int(c))
    at = p.as_atom()
    if at is not None and at.kind == 'fn':
        x = at.args
        if at.name == 'asin':
            return x[0] if which == 'sin' else sqrt(1 - x[0] * x[0])
        if at.name == 'acos':
            return x[0] if which == 'cos' else sqrt(1 - x[0] * x[0])
        if at.name == 'atan2':
            rho = sqrt(x[0] * x[0] + x[1] * x[1])
            return (x[0] if which == 'sin' else x[1]) / rho
    return Poly.atom(Atom('fn', which, (p,)))




def _mult(which, h, n):
    if n == 1:
        return _trig(which, h)
    s1, c1 = _mult('sin', h, n - 1), _mult('cos', h, n - 1)
    s, c = _trig('sin', h), _trig('cos', h)
    return s1 * c + c1 * s if which == 'sin' else c1 * c - s1 * s


def sin(p):
    return _trig('sin', p)


def cos(p):
    return _trig('cos', p)


def fn(name, *args):
    args = tuple(Poly.of(a) if not isinstance(a, Poly) and _num(a) is not None else a for a in args)
    if name == 'sin':
        return sin(args[0])
    if name == 'cos':
        return cos(args[0])
    if name == 'tan':
        return sin(args[0]) / cos(args[0])
    if name == 'sqrt':
        return sqrt(args[0])
    if name == 'inv':
        return args[0].inverse()
    if name == 'pow' and isinstance(args[1], Poly) and args[1].is_const():
        e = args[1].constval()
        if e.denominator in (1, 2):
            return args[0] ** e
    if name == 'abs' and len(args[0].t) == 1:
        m, c = next(iter(args[0].t.items()))
        if c < 0:
            return fn('abs', -args[0])
        if all(a is PI.as_atom() or a == PI.as_atom() for a, _ in m):
            return args[0]
    if name == 'atan2' and args[0].is_const() and args[1].is_const():
        y, x = args[0].constval(), args[1].constval()
        if y == 0 and x > 0:
            return Poly.const(0)
        if x == 0 and y != 0:
            return PI / 2 * (1 if y > 0 else -1)
        if y == 0 and x < 0:
            return PI
    return Poly.atom(Atom('fn', name, args))
