"""Models of the sympy / numpy surface the repository uses, over polynomial normal forms and small matrices."""
from . import interp as I
from .interp import Native, OpaqueModule, Cond, PyRaise, Unsupported, hole, VInst
from fractions import Fraction
import itertools

from .poly import _divide, Poly, Atom, PI, sym, anyexpr, fn, is_zero


def _poly_str(p):
    if p.is_const():
        c = p.constval()
        return str(int(c)) if c.denominator == 1 else '%s/%s' % (c.numerator, c.denominator)
    a = p.as_atom()
    if a is not None and a.kind == 'sym':
        return a.name
    if _printing():
        from .text import py_text
        return py_text(p)
    return hole(repr(p))


def _printing():
    return I.CUR is not None and I.CUR.user.get('printer')


def _code(kind):
    def g(x, assign_to=None, **k):
        if not _printing():
            return hole(kind + ':' + _plain(x))
        from . import text
        if kind == 'latex' and isinstance(x, VMatrix):
            return text.latex.matrix(x)
        if isinstance(x, str):
            return x
        t = {'latex': text.latex.of, 'c': text.c_text, 'py': text.code_text}[kind](Poly.of(x))
        return t if assign_to is None else '%s = %s;' % (assign_to, t)
    return g


Poly.__str__ = _poly_str
Poly.__format__ = lambda p, spec: format(_poly_str(p), spec) if not spec or spec[-1] not in 'fdeg' else _poly_str(p)
Poly.__bool__ = lambda p: bool(p.t)
Poly.__int__ = lambda p: int(p.constval()) if p.is_const() else _uns('int() of %r' % p)
Poly.__float__ = lambda p: float(p.constval()) if p.is_const() else _uns('float() of %r' % p)
Poly.__abs__ = lambda p: fn('abs', p) if not p.is_const() else Poly.const(abs(p.constval()))


NOATTR = object()
DUMMIES = set()


def _dummy(n):
    DUMMIES.add('_' + n)
    return sym('_' + n)


def _uns(m):
    raise Unsupported(m)


class TypeTag(Native):
    def __init__(self, name, pred, make=None):
        self.name, self.pred, self.make = name, pred, make

    def _isinstance(self, x):
        return self.pred(x)

    def __call__(self, *a, **k):
        if self.make is None:
            raise Unsupported('call of type %s' % self.name)
        return self.make(*a, **k)

    def __repr__(self):
        return '<type %s>' % self.name

    def __deepcopy__(self, m):
        return self


def type_of(x):
    a = x.as_atom()
    if x.is_const():
        return T_INT if x.constval().denominator == 1 else T_RAT
    if a is not None and a.kind == 'sym':
        return T_SYM
    if a is not None and a.kind == 'any':
        return OpaqueModule('type(%r)' % x)
    if I.CUR is not None and not I.CUR.modules.get('sympy', None) is None:
        return func_of(x)
    return T_EXPR


def _issym(x):
    if not isinstance(x, Poly):
        return False
    a = x.as_atom()
    if a is None:
        return False
    if a.kind == 'any':
        return I.cur().decide(('issymbol', a.name))
    return a.kind == 'sym' and a.name not in ('pi', 'I')


def _const(x):
    return isinstance(x, Poly) and x.is_const()


class OpTag(TypeTag):
    """Add, Mul, Pow: the class of an expression and its constructor"""
    def make_args(self, o):
        return tuple(args_of(Poly.of(o))) if self.pred(Poly.of(o)) else (Poly.of(o),)


class FnTag(TypeTag):
    """sin, cos, ...: the class of an application and its constructor"""
    def __init__(self, name, n):
        self.name, self.n, self.head = name, n, name
        self.__name__ = name

    def pred(self, x):
        a = x.as_atom() if isinstance(x, Poly) else None
        return a is not None and a.kind == 'fn' and a.name == self.head

    def __call__(self, x, *a, **k):
        if any(isinstance(v, OpaqueModule) for v in (x,) + a):
            return OpaqueModule('%s(%r)' % (self.head, x))
        try:
            return fn(self.head, *[Poly.of(v) for v in ((x,) + a)[:self.n]])
        except TypeError as e:
            I.cur().throw(TypeError('%s: %s' % (self.head, e)))


T_SYM = TypeTag('Symbol', _issym, lambda n, **k: make_symbol(n, **k))
T_NUM = TypeTag('Number', _const)
T_INT = TypeTag('Integer', lambda x: _const(x) and x.constval().denominator == 1, lambda x: Poly.of(int(x)))
T_FLT = TypeTag('Float', lambda x: _const(x) and x.constval().denominator != 1, lambda x, *a: Poly.of(float(x)) if isinstance(x, str) else Poly.of(x))
T_RAT = TypeTag('Rational', _const, lambda a, b=1: Poly.of(Fraction(a)) if isinstance(a, str) else Poly.of(a) / Poly.of(b))
T_FUN = TypeTag('Function', lambda x: isinstance(x, Poly) and _isfun(x))
T_ADD = OpTag('Add', lambda x: isinstance(x, Poly) and len(x.t) > 1, lambda *a, **k: sum(a, Poly.const(0)))
T_MUL = OpTag('Mul', lambda x: isinstance(x, Poly) and _ismul(x), lambda *a, **k: _mul(*a))
T_POW = OpTag('Pow', lambda x: isinstance(x, Poly) and _ispow(x), lambda a, b, **k: Poly.of(a) ** b)
T_EXPR = TypeTag('Expr', lambda x: isinstance(x, Poly))


def names_of(spec):
    if isinstance(spec, str):
        multi = ',' in spec or ' ' in spec.strip()
        out = []
        for part in spec.replace(',', ' ').split():
            if ':' in part:
                a, b = part.split(':')
                i = len(a)
                while i and a[i - 1].isdigit():
                    i -= 1
                lo = int(a[i:]) if a[i:] else 0
                out += [a[:i] + str(j) for j in range(lo, int(b))]
                multi = True
            else:
                out.append(part)
        return out, multi
    out = []
    for s in I.cur().iterate(spec):
        if isinstance(s, Poly):
            s = str(s)
        out += names_of(s)[0]
    return out, True


def make_symbol(n, **k):
    """symbols with other assumptions are other symbols"""
    k = {a: v for a, v in k.items() if v is not None and a != 'commutative'}
    return Poly.atom(Atom('sym', n, tuple('%s=%s' % x for x in sorted(k.items())))) if k else sym(n)


def symbols(spec, cls=None, seq=False, **k):
    ns, multi = names_of(spec)
    if cls is not None and cls is not T_SYM:
        r = tuple(I.cur().call(cls, [n], k) for n in ns)
    else:
        r = tuple(make_symbol(n, **k) for n in ns)
    multi = multi or seq
    if isinstance(spec, list):
        return list(r)
    return r if multi else r[0]


def _var(sc, spec, **k):
    r = symbols(spec, **k)
    for n, x in zip(names_of(spec)[0], r if isinstance(r, (tuple, list)) else [r]):
        sc.globals[n] = x
    return r


_var._wants_scope = True


class VMatrix(Native):
    def __init__(self, rows, kind='sp'):
        self.rows = [list(r) for r in rows]
        self.kind = kind

    @property
    def shape(self):
        return (len(self.rows), len(self.rows[0]) if self.rows else 0)

    @property
    def T(self):
        return VMatrix([list(c) for c in zip(*self.rows)], self.kind)

    def transpose(self):
        return self.T

    @property
    def cols(self):
        return self.shape[1]

    def __len__(self):
        r, c = self.shape
        return r * c if self.kind == 'sp' else r

    def _flat(self):
        return [x for r in self.rows for x in r]

    def __iter__(self):
        if self.kind == 'sp':
            return iter(self._flat())
        return iter([r[0] if False else VMatrix([r], self.kind) for r in self.rows])

    def _ix(self, k, n):
        if isinstance(k, slice):
            return list(range(n))[k]
        if isinstance(k, list):
            return k
        if isinstance(k, (Poly, float)):
            raise Unsupported('matrix index %r' % (k,))
        if not -n <= k < n:
            raise IndexError('Index out of range: a[%s]' % k)
        return k

    def __getitem__(self, k):
        r, c = self.shape
        if isinstance(k, tuple):
            i, j = self._ix(k[0], r), self._ix(k[1], c)
            if isinstance(i, list) or isinstance(j, list):
                il = i if isinstance(i, list) else [i]
                jl = j if isinstance(j, list) else [j]
                return VMatrix([[self.rows[a][b] for b in jl] for a in il], self.kind)
            return self.rows[i][j]
        if self.kind == 'sp':
            f = self._flat()
            k = self._ix(k, len(f))
            return [f[i] for i in k] if isinstance(k, list) else f[k]
        k = self._ix(k, r)
        if isinstance(k, list):
            return VMatrix([self.rows[i] for i in k], self.kind)
        if self.kind == 'npa' and c == 1 and getattr(self, 'vec', False):
            return self.rows[k][0]
        return Row(self, k)

    def __setitem__(self, k, v):
        r, c = self.shape
        if isinstance(v, str):
            if self.kind != 'sp':
                raise ValueError('could not convert string to float')
            v = sym(v)
        if isinstance(k, tuple):
            i, j = self._ix(k[0], r), self._ix(k[1], c)
            if isinstance(i, list) or isinstance(j, list):
                il = i if isinstance(i, list) else [i]
                jl = j if isinstance(j, list) else [j]
                vm = v if isinstance(v, VMatrix) else None
                for a, x in enumerate(il):
                    for b, y in enumerate(jl):
                        self.rows[x][y] = vm.rows[a][b] if vm else v
                return
            self.rows[i][j] = v
            return
        if self.kind == 'sp' or getattr(self, 'vec', False):
            k = self._ix(k, r * c)
            self.rows[k // c][k % c] = v
            return
        k = self._ix(k, r)
        self.rows[k] = list(v.rows[0]) if isinstance(v, VMatrix) else list(v)

    def _new(self, rows):
        m = VMatrix(rows, self.kind)
        if getattr(self, 'vec', False) and m.shape[1] == 1:
            m.vec = True
        return m

    def _ew(self, o, f):
        if isinstance(o, VMatrix):
            if o.shape != self.shape:
                raise TypeError('ShapeError: %s %s' % (self.shape, o.shape))
            return self._new([[f(a, b) for a, b in zip(x, y)] for x, y in zip(self.rows, o.rows)])
        return self._new([[f(a, o) for a in x] for x in self.rows])

    def __add__(self, o):
        if not isinstance(o, VMatrix) and self.kind == 'sp':
            raise TypeError('cannot add matrix and scalar')
        return self._ew(o, lambda a, b: a + b)
    __radd__ = __add__

    def __sub__(self, o):
        if not isinstance(o, VMatrix) and self.kind == 'sp':
            raise TypeError('cannot subtract matrix and scalar')
        return self._ew(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return (-self) + o

    def __neg__(self):
        return self._new([[-a for a in r] for r in self.rows])

    def matmul(self, o):
        if self.shape[1] != o.shape[0]:
            raise TypeError('ShapeError: Matrix size mismatch: %s * %s' % (self.shape, o.shape))
        ot = list(zip(*o.rows))
        out = []
        for r in self.rows:
            row = []
            for c in ot:
                s = Poly.const(0)
                for a, b in zip(r, c):
                    s = s + a * b
                row.append(s)
            out.append(row)
        return self._new(out)

    def __mul__(self, o):
        if isinstance(o, VMatrix):
            if self.kind == 'npa':
                return self._ew(o, lambda a, b: a * b)
            return self.matmul(o)
        if isinstance(o, (VInst, str, list)):
            raise TypeError('unsupported matrix operand')
        return self._new([[a * o for a in r] for r in self.rows])

    def __rmul__(self, o):
        return self._new([[o * a for a in r] for r in self.rows])

    def __matmul__(self, o):
        return self.matmul(o)

    def dot(self, o):
        if self.kind == 'sp':
            return sum((a * b for a, b in zip(self._flat(), o._flat())), Poly.const(0))
        return self.matmul(o)

    def multiply(self, o):
        return self.matmul(o)

    def __truediv__(self, o):
        return self._new([[a / o for a in r] for r in self.rows])

    def __pow__(self, e):
        if e == -1:
            return self.inv()
        if isinstance(e, int) and e >= 0:
            m = eye(self.shape[0])
            for _ in range(e):
                m = m * self
            return m
        raise Unsupported('matrix power')

    def __eq__(self, o):
        return isinstance(o, VMatrix) and self.shape == o.shape and \
            all(is_zero(Poly.of(a) - Poly.of(b)) for a, b in zip(self._flat(), o._flat()))

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(tuple(self._flat()))

    def copy(self):
        return self._new(self.rows)

    def row_join(self, o):
        if self.kind != 'sp':
            raise AttributeError('row_join')
        if self.shape[0] != o.shape[0]:
            raise TypeError('ShapeError: row_join')
        return self._new([a + b for a, b in zip(self.rows, o.rows)])

    def col_join(self, o):
        if self.shape[1] != o.shape[1]:
            raise TypeError('ShapeError: col_join')
        return self._new(self.rows + o.rows)

    def row(self, i):
        return self._new([self.rows[i]])

    def col(self, j):
        return self._new([[r[j]] for r in self.rows])

    def applyfunc(self, f):
        return self._new([[I.cur().call(f, [a], {}) for a in r] for r in self.rows])

    def subs(self, *a):
        return self._new([[poly_attr(I.cur(), Poly.of(x), 'subs')(*a) for x in r] for r in self.rows])

    def simplify(self, *a, **k):
        self.rows = simp(self).rows

    def doit(self):
        return self
    evalf = n = expand = lambda self, *a, **k: self

    def tolist(self):
        return self._flat() if getattr(self, 'vec', False) else [list(r) for r in self.rows]

    def reshape(self, *sh):
        if len(sh) == 1:
            sh = sh[0]
        f = self._flat()
        r, c = sh
        if r * c != len(f):
            raise ValueError('bad reshape')
        return self._new([f[i * c:(i + 1) * c] for i in range(r)])

    def det(self):
        n = self.shape[0]
        if n == 1:
            return self.rows[0][0]
        s = Poly.const(0)
        for j in range(n):
            m = VMatrix([[x for k, x in enumerate(r) if k != j] for r in self.rows[1:]])
            s = s + (-1) ** j * self.rows[0][j] * m.det()
        return s

    def inv(self, *a, **k):
        n = self.shape[0]
        d = self.det()
        def minor(i, j):
            return VMatrix([[x for c, x in enumerate(r) if c != j] for q, r in enumerate(self.rows) if q != i])
        return self._new([[(-1) ** (i + j) * Poly.of(minor(j, i).det()) / d for j in range(n)] for i in range(n)])

    def cross(self, o):
        a, b = self._flat(), o._flat()
        v = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
        return self._new([[x] for x in v] if self.shape[1] == 1 else [v])

    def jacobian(self, xs):
        xs = xs._flat() if isinstance(xs, VMatrix) else I.cur().tolist(xs)
        return self._new([[diff(f, x) for x in xs] for f in self._flat()])

    def __repr__(self):
        return 'Matrix(%r)' % (self.rows,)

    def __str__(self):
        if _printing():
            rows = ['[' + ', '.join(str(x) for x in r) + ']' for r in self.rows]
            return 'Matrix([%s])' % rows[0] if len(rows) == 1 else 'Matrix([\n%s])' % ',\n'.join(rows)
        return hole('matrix')

    def __format__(self, s):
        return str(self)

    def __deepcopy__(self, memo):
        m = VMatrix(self.rows, self.kind)
        return m

    @property
    def free_symbols(self):
        out = set()
        for x in self._flat():
            out |= {Poly.atom(a) for a in Poly.of(x).symbols() if a.name not in ('pi', 'I')}
        return out


class Row(Native):
    """M[i] of a numpy matrix: supports M[i][j] reads and writes"""
    def __init__(self, m, i):
        self.m, self.i = m, i

    def __getitem__(self, j):
        return self.m.rows[self.i][j]

    def __setitem__(self, j, v):
        self.m.rows[self.i][j] = v

    def __len__(self):
        return len(self.m.rows[self.i])

    def __iter__(self):
        return iter(self.m.rows[self.i])


def diff(f, *xs):
    f = Poly.of(f)
    seq = []
    for x in xs:
        seq += seq[-1:] * (x - 1) if isinstance(x, int) else [x]
    for x in seq:
        a = x.as_atom()
        r = f.derivative(a)
        if r is None:
            raise Unsupported('derivative of %r' % f)
        f = r
    return f


def _rows(args, kind='sp'):
    it = I.cur()
    if len(args) == 1:
        a = args[0]
        if isinstance(a, VMatrix):
            return VMatrix(a.rows, kind)
        a = it.tolist(a)
        if a and isinstance(a[0], VMatrix):
            return VMatrix([r for m in a for r in m.rows], kind)
        if a and isinstance(a[0], (list, tuple, Row)):
            rows = [[sym(x) if isinstance(x, str) else x for x in it.tolist(r)] for r in a]
            if len({len(r) for r in rows}) != 1:
                raise ValueError('ragged matrix')
            return VMatrix(rows, kind)
        if kind == 'sp':
            return VMatrix([[x] for x in a], kind)
        if kind == 'npm':
            return VMatrix([a], kind)
        m = VMatrix([[x] for x in a], kind)
        if kind == 'npa':
            m.vec = True
        return m
    if len(args) == 0:
        return VMatrix([], kind)
    r, c = args[0], args[1]
    if len(args) == 2:
        raise Unsupported('Matrix(r, c)')
    f = args[2]
    if callable(f):
        return VMatrix([[it.call(f, [i, j], {}) for j in range(c)] for i in range(r)], kind)
    f = it.tolist(f)
    if len(f) != r * c:
        raise ValueError('List length should be equal to rows*columns')
    return VMatrix([f[i * c:(i + 1) * c] for i in range(r)], kind)


def zeros(*a, kind='sp', val=0):
    if len(a) == 1 and isinstance(a[0], (tuple, list)):
        a = tuple(a[0])
    if len(a) == 1:
        if kind == 'npa':
            m = VMatrix([[val] for _ in range(a[0])], kind)
            m.vec = True
            return m
        a = (a[0], a[0])
    return VMatrix([[val] * a[1] for _ in range(a[0])], kind)


def eye(n, *m, kind='sp', **k):
    return VMatrix([[1 if i == j else 0 for j in range(n)] for i in range(n)], kind)


class MatTag(TypeTag):
    def eye(self, *a):
        return eye(*a)

    def zeros(self, *a):
        return zeros(*a)

    def ones(self, *a):
        return zeros(*a, val=1)

    def hstack(self, *ms):
        r = ms[0]
        for m in ms[1:]:
            r = r.row_join(m)
        return r

    def vstack(self, *ms):
        r = ms[0]
        for m in ms[1:]:
            r = r.col_join(m)
        return r

    def diag(self, *a):
        return diag(*a)


def diag(*a):
    if len(a) == 1 and isinstance(a[0], (list, tuple)):
        a = a[0]
    ms = [x if isinstance(x, VMatrix) else VMatrix([[x]]) for x in a]
    w = sum(m.shape[1] for m in ms)
    out, at = [], 0
    for m in ms:
        for r in m.rows:
            out.append([0] * at + list(r) + [0] * (w - at - len(r)))
        at += m.shape[1]
    return VMatrix(out)


T_MAT = MatTag('Matrix', lambda x: isinstance(x, VMatrix), lambda *a, **k: _rows(a))


def rot_axis(n, sgn):
    def g(t):
        t = Poly.of(t) * sgn
        c, s_ = fn('cos', t), fn('sin', t)
        return VMatrix({3: [[c, s_, 0], [-s_, c, 0], [0, 0, 1]], 2: [[c, 0, -s_], [0, 1, 0], [s_, 0, c]],
                        1: [[1, 0, 0], [0, c, s_], [0, -s_, c]]}[n])
    return g


def mat_attr(it, o, name):
    """attributes of a sympy matrix beyond VMatrix's own methods"""
    if name == 'rows':
        return o.shape[0]
    if name == 'is_square':
        return o.shape[0] == o.shape[1]
    if name == 'is_Matrix':
        return True
    if name in ('is_zero_matrix', 'is_zero'):
        return all(is_zero(Poly.of(x)) for x in o._flat())
    if name in ('as_mutable', 'as_immutable', 'as_explicit'):
        return lambda: VMatrix(o.rows, o.kind)
    if name == 'flat':
        return lambda: list(o._flat())
    if name in ('row_insert', 'row_del', 'col_insert', 'col_del', 'row_swap', 'col_swap'):
        def ins(i, m=None):
            col = name.startswith('col')
            t = o.T if col else o
            rows = [list(r) for r in t.rows]
            if name.endswith('insert'):
                rows[i:i] = [list(r) for r in (m.T if col else m).rows]
                r = VMatrix(rows, o.kind)
                return r.T if col else r
            if name.endswith('del'):
                del rows[i]
            else:
                rows[i], rows[m] = rows[m], rows[i]
            r = VMatrix(rows, o.kind)
            o.rows = (r.T if col else r).rows
        return ins
    if name == 'extract':
        return lambda rs, cs: VMatrix([[o.rows[i][j] for j in it.tolist(cs)] for i in it.tolist(rs)], o.kind)
    if name == 'trace':
        return lambda: sum((o.rows[i][i] for i in range(o.shape[0])), Poly.const(0))
    if name == 'has':
        return lambda *xs: any(it.truth(poly_attr(it, Poly.of(x), 'has')(*xs)) for x in o._flat())
    if name in ('atoms', 'find'):
        return lambda *xs: set().union(*[poly_attr(it, Poly.of(x), name)(*xs) for x in o._flat()])
    if name in ('diff', 'xreplace', 'replace', 'collect', 'rewrite', 'trigsimp', 'factor'):
        return lambda *a, **k: o._new([[poly_attr(it, Poly.of(x), name)(*a, **k) for x in r] for r in o.rows])
    if name in ('minor', 'cofactor', 'minor_submatrix'):
        def minor(i, j, *a):
            m = VMatrix([[x for c, x in enumerate(r) if c != j] for q, r in enumerate(o.rows) if q != i])
            return m if name == 'minor_submatrix' else (m.det() * ((-1) ** (i + j) if name == 'cofactor' else 1))
        return minor
    if name == 'adjugate':
        return lambda *a: o.inv() * o.det()
    if name == 'norm':
        return lambda *a: fn('sqrt', sum((x * x for x in o._flat()), Poly.const(0)))
    if name == 'is_symbolic':
        return lambda: bool(o.free_symbols)
    if name == 'values':
        return lambda: [x for x in o._flat() if not is_zero(Poly.of(x))]
    if name == 'multiply_elementwise':
        return lambda m: o._ew(m, lambda a, b: a * b)
    if name == 'vec':
        return lambda: VMatrix([[x] for x in o.T._flat()], o.kind)
    if name == 'equals':
        return lambda m, *a: o == m
    return NOATTR


def ident(x, *a, **k):
    return x


def simp(x, *a, **k):
    """simplification: any equal expression; either the identity or (user['contract']) contraction of sums of angles"""
    if I.CUR is None or not I.CUR.user.get('contract'):
        return x
    from .contract import contract
    if isinstance(x, VMatrix):
        return VMatrix([[contract(v) for v in r] for r in x.rows], x.kind)
    return contract(x)


def f1(name):
    return FnTag(name, 1)


def f2(name):
    return FnTag(name, 2)


def _subs_pairs(a):
    it = I.cur()
    if len(a) == 2:
        return [(a[0], a[1])]
    if isinstance(a[0], dict):
        return list(a[0].items())
    return [tuple(it.tolist(p)) for p in it.iterate(a[0])]


def poly_attr(it, o, name):
    if name == 'subs' or name == 'xreplace':
        def subs(*a, **k):
            r = o
            pairs = _subs_pairs(a)
            if k.get('simultaneous') or name == 'xreplace':
                return r.subs({_key_atom(x): Poly.of(_expr(y)) for x, y in pairs})
            for x, y in pairs:
                if isinstance(x, Poly) and x.as_atom() is None:
                    k = r.multiple_inside(x) if it.user.get('contract') is not None else None
                    if k is not None:
                        r = r - k * x + k * Poly.of(_expr(y))
                    else:
                        r = r.subs_compound(x, Poly.of(_expr(y)))
                    continue
                at = _key_atom(x)
                r = r.subs({at: Poly.of(_expr(y))})
            return r
        return subs
    if name == 'has':
        def has(*xs):
            for x in xs:
                if hasattr(x, 'head'):
                    if any(a.kind == 'fn' and a.name == x.head for a in o.atoms()):
                        return True
                    continue
                if not isinstance(x, Poly):
                    continue
                at = x.as_atom()
                if at is None:
                    if o.contains_compound(x) or (it.user.get('contract') is not None and o.multiple_inside(x) is not None):
                        return True         # simplified expressions keep common factors outside
                    continue
                ats = o.atoms()
                if at in ats:
                    return True
                anys = sorted(a.name for a in ats if a.kind == 'any')
                for n in anys:
                    if it.decide(('has', n, repr(x))):
                        return True
            return False
        return has
    if name == 'match':
        return lambda pat, *a, **k: match(it, o, Poly.of(pat))
    if name == 'find':
        def find(q, *a):
            so, it.set_orders = it.set_orders, False        # whether something matches does not depend on how
            try:
                return _find(q)
            finally:
                it.set_orders = so

        def _find(q):
            return {Poly.atom(x) for x in o.atoms() if x.kind in ('fn', 'sym') and
                    ((hasattr(q, 'head') and x.kind == 'fn' and x.name == q.head) or
                     (isinstance(q, TypeTag) and q.pred(Poly.atom(x))) or
                     (isinstance(q, Poly) and match(it, Poly.atom(x), q) is not None))}
        return find
    if name == 'atoms':
        def atoms(*ts):
            if not ts:
                return {Poly.atom(x) for x in o.symbols()}
            return {Poly.atom(x) for x in o.atoms() if any((hasattr(t, 'head') and x.kind == 'fn' and x.name == t.head) or
                                                         (isinstance(t, TypeTag) and t.pred(Poly.atom(x))) for t in ts)}
        return atoms
    if name == 'args':
        return args_of(o)
    if name == 'func':
        return func_of(o)
    if name == 'is_Add':
        return len(o.t) > 1
    if name == 'is_Mul':
        return _ismul(o)
    if name == 'is_Pow':
        return _ispow(o)
    if name == 'is_Function':
        return _isfun(o)
    if name == 'is_polynomial':
        return lambda *xs: all(x.as_atom() is not None and _degree(o, x.as_atom()) is not None for x in xs)
    if name == 'as_independent':
        def indep(*xs, **k):
            def dep(m):
                q = Poly({m: 1}, True)
                return any(q.contains_compound(x) if x.as_atom() is None else x.as_atom() in q.atoms() for x in xs)
            if len(o.t) == 1:
                (m, c), = o.t.items()
                i = Poly.const(c)
                d = Poly.const(1)
                for a, e in m:
                    f = Poly({((a, e),): 1})
                    if any(x.as_atom() in f.atoms() for x in xs):
                        d = d * f
                    else:
                        i = i * f
                return (i, d) if any(x.as_atom() in o.atoms() for x in xs) or not k.get('as_Add', True) else (o, Poly.const(0)) if k.get('as_Add') else (i, d)
            d = {m: c for m, c in o.t.items() if dep(m)}
            i = {m: c for m, c in o.t.items() if m not in d}
            return Poly(i, True), Poly(d, True)
        return indep
    if name in ('as_ordered_terms', 'as_terms'):
        return lambda *a: o.monomials() or [Poly.const(0)]
    if name == 'as_ordered_factors':
        return lambda *a: list(args_of(o)) if len(o.t) == 1 and not _ispow(o) and o.as_atom() is None else [o]
    if name == 'as_coeff_Mul':
        def acm(*a):
            if len(o.t) == 1:
                (m, c), = o.t.items()
                return Poly.const(c), Poly({m: 1})
            return Poly.const(1), o
        return acm
    if name == 'as_coefficients_dict':
        return lambda *a: {Poly({m: 1}): c for m, c in o.t.items()}
    if name == 'could_extract_minus_sign':
        return lambda: bool(o.t) and o.key()[0][1] < 0
    if name == 'equals':
        return lambda x: it.compare_eq(o, x)
    if name == 'count_ops':
        return lambda *a, **k: it.user.get('count_ops', _count_ops)(o)
    if name == 'collect':
        return lambda *a, **k: o
    if name == 'as_numer_denom':
        return lambda: numer_denom(o)
    if name == 'count':
        return lambda q: sum(1 for x in preorder(o) if (q.pred(x) if isinstance(q, TypeTag) else x == q))
    if name == 'as_base_exp':
        return lambda: base_exp(o)
    if name in ('base', 'exp') and _ispow(o):
        return base_exp(o)[name == 'exp']
    if name == 'as_coeff_Add':
        return lambda *a: (Poly.const(o.constval()), o - o.constval())
    if name == 'as_coeff_mul':
        return lambda *a: (lambda q: (q[0], args_of(q[1]) if _ismul(q[1]) else (q[1],)))(poly_attr(it, o, 'as_coeff_Mul')())
    if name in ('as_two_terms', 'as_real_imag', 'series', 'limit', 'integrate', 'as_poly') and name != 'as_poly':
        return NOATTR
    if name == 'as_poly':
        return lambda *g: PolyObj(o, *g)
    if name == 'p' and o.is_const():
        return o.constval().numerator
    if name == 'q' and o.is_const():
        return o.constval().denominator
    if name == 'is_commutative':
        return True
    if name == 'as_dummy':
        return lambda: o
    if name == 'is_Atom':
        return not args_of(o)
    if name == 'is_Rational' or name == 'is_rational':
        return o.is_const()
    if name == 'is_Float':
        return False
    if name == 'is_Matrix':
        return False
    if name == 'replace':
        def replace(q, v, *a, **k):
            if hasattr(q, 'head'):
                def f(at):
                    if at.kind == 'fn' and at.name == q.head:
                        return Poly.of(it.call(v, [Poly.of(x).map_atoms(f) for x in at.args], {}))
                    return None
                return o.map_atoms(f)
            if isinstance(q, Poly) and not _wilds(q):
                return poly_attr(it, o, 'subs')(q, v)
            raise Unsupported('replace(%r)' % (q,))
        return replace
    if name in ('is_finite',):
        return None
    if name in ('simplify', 'trigsimp'):
        return lambda *a, **k: simp(o)
    if name in ('expand', 'evalf', 'doit', 'factor', 'rewrite', 'n', 'nsimplify', 'together', 'cancel', 'ratsimp', 'radsimp', 'powsimp'):
        return lambda *a, **k: o
    if name == 'free_symbols':
        return {Poly.atom(a) for a in o.symbols() if a.name not in ('pi', 'I')}
    if name == 'name':
        a = o.as_atom()
        if a is not None and a.kind == 'sym':
            return a.name[1:] if a.name in DUMMIES else a.name
        if a is not None and a.kind == 'wild':
            return a.name
        if a is not None and a.kind == 'any':
            raise Unsupported('name of %r' % o)
        I.cur().throw(AttributeError('name'))
    if name in ('is_Symbol', 'is_symbol'):
        return _issym(o)
    if name in ('is_Integer', 'is_integer') and o.is_const():
        return o.constval().denominator == 1
    if name in ('is_number', 'is_Number', 'is_constant', 'is_Integer', 'is_real'):
        return True if o.is_const() else (False if not o.has_any() else Cond((name, repr(o))))
    if name == 'is_zero':
        return o.constval() == 0 if o.is_const() else None
    if name == 'diff':
        return lambda *xs: diff(o, *xs)
    if name == 'coeff':
        def coeff(x, n=1):
            at = x.as_atom()
            out = Poly.const(0)
            for m, c in o.t.items():
                d = dict(m)
                if d.get(at, 0) == n:
                    d.pop(at, None)
                    out = out + Poly({tuple(sorted(d.items(), key=lambda t: (t[0].kind, t[0]._r))): c})
            return out
        return coeff
    if name == 'is_positive' or name == 'is_negative':
        return None if not o.is_const() else (o.constval() > 0 if name == 'is_positive' else o.constval() < 0)
    if name == 'transpose' or name == 'T':
        return o
    if name in ('__hash__', '__repr__', '__str__', '__eq__', '__ne__', '__add__', '__radd__', '__sub__', '__mul__',
                '__rmul__', '__neg__', '__bool__', '__pow__'):
        return getattr(o, name)
    return NOATTR


def _ispow(o):
    if len(o.t) != 1:
        return False
    (m, c), = o.t.items()
    return c == 1 and len(m) == 1 and (m[0][1] != 1 or (m[0][0].kind == 'fn' and m[0][0].name in ('sqrt', 'inv', 'pow')))


def _isfun(o):
    a = o.as_atom()
    return a is not None and a.kind == 'fn' and a.name not in ('sqrt', 'inv', 'pow')


def _ismul(o):
    return len(o.t) == 1 and not o.is_const() and not _ispow(o) and o.as_atom() is None


def base_exp(o):
    if not _ispow(o):
        return o, Poly.const(1)
    (m, c), = o.t.items()
    a, e = m[0]
    if a.kind == 'fn' and a.name == 'sqrt':
        return a.args[0], Poly.const(e) / 2
    if a.kind == 'fn' and a.name == 'inv':
        return a.args[0], Poly.const(-e)
    if a.kind == 'fn' and a.name == 'pow':
        return a.args[0], a.args[1] * e
    return Poly.atom(a), Poly.const(e)


def numer_denom(o):
    # common denominator of the terms
    den = {}
    scale = 1
    for m, c in o.t.items():
        scale = scale * c.denominator // _gcd(scale, c.denominator)
        for a, e in m:
            if e < 0:
                den[a] = max(den.get(a, 0), -e)
            elif a.kind == 'fn' and a.name == 'inv':
                den[a] = max(den.get(a, 0), e)
    d = Poly.const(scale)
    for a, e in sorted(den.items(), key=lambda t: t[0]._r):
        d = d * ((a.args[0] if a.kind == 'fn' and a.name == 'inv' else Poly.atom(a)) ** e)
    return o * d, d


def _gcd(a, b):
    while b:
        a, b = b, a % b
    return a


def preorder(o):
    yield o
    if isinstance(o, Poly):
        for x in args_of(o):
            for y in preorder(Poly.of(x)):
                yield y


def solve(it, e, x, **k):
    if isinstance(e, (list, tuple)) or isinstance(x, (list, tuple)):
        raise Unsupported('solve of a system')
    if isinstance(e, Eqn):
        e = e.lhs - e.rhs
    e, at = Poly.of(e), Poly.of(x).as_atom()
    e = numer_denom(e)[0] if any(a is at and v < 0 for m in e.t for a, v in m) else e
    d = _degree(e, at) if at is not None else None
    co = [poly_attr(it, e, 'coeff')(Poly.atom(at), i) for i in range((d or 0) + 1)] if d is not None else []
    if d == 1:
        return [-co[0] / co[1]]
    if d == 2:
        r = fn('sqrt', co[1] * co[1] - 4 * co[0] * co[2])
        return [(-co[1] - r) / (2 * co[2]), (-co[1] + r) / (2 * co[2])]
    if d == 0:
        return []
    raise Unsupported('solve of %r for %r' % (e, x))


class Eqn(Native):
    """sympy's Eq: an equation object; its truth is that of the equality"""
    def __init__(self, lhs, rhs):
        self.lhs, self.rhs = Poly.of(lhs), Poly.of(rhs)
        self.args = (self.lhs, self.rhs)

    def __bool__(self):
        return I.cur().truth(I.cur().compare_eq(self.lhs, self.rhs))

    def __eq__(self, o):
        return (isinstance(o, Eqn) and self.args == o.args) or (isinstance(o, bool) and (self.lhs == self.rhs) == o)

    def __hash__(self):
        return hash(self.args)

    def subs(self, *a):
        return Eqn(*[poly_attr(I.cur(), x, 'subs')(*a) for x in self.args])

    def has(self, *a):
        return any(I.cur().truth(poly_attr(I.cur(), x, 'has')(*a)) for x in self.args)

    @property
    def free_symbols(self):
        return poly_attr(I.cur(), self.lhs, 'free_symbols') | poly_attr(I.cur(), self.rhs, 'free_symbols')

    def __str__(self):
        return 'Eq(%s, %s)' % self.args


def flatten(it, xs, **k):
    out = []
    for x in it.iterate(xs):
        out += flatten(it, x) if isinstance(x, (list, tuple, set)) else [x]
    return out


def parse(s):
    import ast

    def ev(n):
        if isinstance(n, ast.Expression):
            return ev(n.body)
        if isinstance(n, ast.Constant):
            return Poly.of(n.value)
        if isinstance(n, ast.Name):
            return PI if n.id == 'pi' else sym(n.id)
        if isinstance(n, ast.UnaryOp):
            return -ev(n.operand) if isinstance(n.op, ast.USub) else ev(n.operand)
        if isinstance(n, ast.BinOp):
            a, b = ev(n.left), ev(n.right)
            op = type(n.op).__name__
            if op in ('Add', 'Sub', 'Mult', 'Div', 'Pow', 'BitXor'):
                return {'Add': lambda: a + b, 'Sub': lambda: a - b, 'Mult': lambda: a * b, 'Div': lambda: a / b,
                        'Pow': lambda: a ** b, 'BitXor': lambda: a ** b}[op]()
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
            f = getattr(I.cur().import_module('sympy'), n.func.id)
            return f(*[ev(x) for x in n.args])
        raise Unsupported('sympify(%r)' % s)
    return ev(ast.parse(s, mode='eval'))


def sympify(x, **k):
    if isinstance(x, str):
        return parse(x)
    if isinstance(x, (list, tuple)):
        return type(x)(sympify(y) for y in x)
    return x if isinstance(x, (VMatrix, Eqn)) else Poly.of(x)


class PolyObj(Native):
    """sympy's Poly in one generator"""
    def __init__(self, e, *gens):
        self.e = Poly.of(e)
        self.at = (Poly.of(gens[0]) if gens else sorted(poly_attr(I.cur(), self.e, 'free_symbols'), key=repr)[0]).as_atom()
        self.d = _degree(self.e, self.at)
        if self.d is None or len(gens) > 1:
            raise Unsupported('Poly(%r)' % e)

    def degree(self, *a):
        return self.d

    def all_coeffs(self):
        return [poly_attr(I.cur(), self.e, 'coeff')(Poly.atom(self.at), i) for i in range(self.d, -1, -1)]

    def coeffs(self):
        return [c for c in self.all_coeffs() if c.t]

    def as_expr(self):
        return self.e

    def nth(self, n):
        return poly_attr(I.cur(), self.e, 'coeff')(Poly.atom(self.at), n)

    def LC(self):
        return self.all_coeffs()[0]


def mod2(a, b):
    a, b = Poly.of(a), Poly.of(b)
    return Poly.const(a.constval() % b.constval()) if a.is_const() and b.is_const() else _uns('Mod(%r, %r)' % (a, b))


def extremum(f):
    def g(*a):
        a = [Poly.of(x) for x in a]
        return f(a, key=lambda x: x.constval()) if all(x.is_const() for x in a) else _uns('Max/Min of expressions')
    return g


for _n, _f in (('mod', mod2), ('floordiv', lambda a, b: Poly.const(Poly.of(a).constval() // Poly.of(b).constval())
                               if Poly.of(a).is_const() and Poly.of(b).is_const() else _uns('// of expressions'))):
    setattr(Poly, '__%s__' % _n, lambda a, b, f=_f: f(a, b))
    setattr(Poly, '__r%s__' % _n, lambda a, b, f=_f: f(b, a))


def args_of(o):
    """children of an expression as sympy's tree shows them"""
    if len(o.t) > 1:
        return tuple(o.monomials())
    if not o.t:
        return ()
    (m, c), = o.t.items()
    if not m:
        return ()
    if len(m) == 1 and c == 1:
        a, e = m[0]
        if _ispow(o):
            return base_exp(o)
        return a.args if a.kind == 'fn' else ()
    return tuple(([Poly.const(c)] if c != 1 else []) + [Poly({((a, e),): 1}) for a, e in m])


def func_of(o):
    mod = I.cur().import_module('sympy')
    a = o.as_atom()
    if len(o.t) > 1:
        return mod.Add
    if _ispow(o):
        return mod.Pow
    if a is not None and a.kind == 'fn':
        return getattr(mod, {'abs': 'Abs'}.get(a.name, a.name))
    return mod.Mul if not o.is_const() and a is None else type_of(o)


def _degree(o, at):
    """degree of an expression in an atom; None if the atom also occurs inside another function or denominator"""
    d = 0
    for m in o.t:
        for a, e in m:
            if a is at:
                if e < 0:
                    return None
                d = max(d, e)
            elif a.kind == 'fn' and any(isinstance(x, Poly) and at in x.atoms() for x in a.args):
                return None
    return d


def wild(name, exclude=(), properties=(), **k):
    if properties or k:
        raise Unsupported('Wild with properties')
    return Poly.atom(Atom('wild', name, tuple(Poly.of(x) for x in I.cur().iterate(exclude))))


def _admits(w, v):
    for x in w.args:
        if v.contains_compound(x) if x.as_atom() is None else x.as_atom() in v.atoms():
            return False
    return True


def _wilds(p):
    return [a for a in p.atoms() if a.kind == 'wild']


def match(it, e, pat):
    """bindings of the wildcards of a pattern that make it equal to an expression, or None.

    Where the pattern admits several readings (wildcards without exclusions) each one is a possible outcome."""
    ws = _wilds(pat)
    if not ws:
        return {} if e == pat else None
    at = pat.as_atom()
    if at is not None and at.kind == 'wild':
        return {pat: e} if _admits(at, e) else None
    if at is not None and at.kind == 'fn':
        ea = e.as_atom()
        if ea is None or ea.kind != 'fn' or ea.name != at.name or len(ea.args) != len(at.args):
            return None
        out = {}
        for x, y in zip(ea.args, at.args):
            d = match(it, x, y)
            if d is None or any(k in out and out[k] != v for k, v in d.items()):
                return None
            out.update(d)
        return out
    terms = sorted(pat.t.items(), key=lambda t: repr(t[0]))
    bare = all(len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'wild' and c == 1 for m, c in terms)
    if bare:
        wl = [m[0][0] for m, _ in terms]
        parts = e.monomials()
        while len(parts) > len(wl):
            parts = [parts[0] + parts[1]] + parts[2:]
        if it.set_orders and len(wl) > 1 and len(parts) > 1:
            # which wildcard receives which term is unspecified (but repeatable): every rotation is a possible outcome
            parts = parts + [Poly.const(0)] * (len(wl) - len(parts))
            memo = it.__dict__.setdefault('match_memo', {})
            k = (repr(e), repr(pat))
            if k not in memo:
                memo[k] = it.choose(range(len(wl)), 'match')
            wl = wl[memo[k]:] + wl[:memo[k]]
            got = dict(zip(wl, parts))
            out = {Poly.atom(w): got[w] for w in sorted(wl, key=lambda w: w.name, reverse=True)}
        else:
            parts = [Poly.const(0)] * (len(wl) - len(parts)) + parts
            out = {Poly.atom(w): p for w, p in zip(wl, parts)}
        return out if all(_admits(k.as_atom(), v) for k, v in out.items()) else None
    # thx + sgn*thy
    single = [m for m, c in terms if len(m) == 1 and m[0][0].kind == 'wild' and c == 1]
    double = [m for m, c in terms if len(m) == 2 and all(a.kind == 'wild' and x == 1 for a, x in m) and c == 1]
    if len(single) == 1 and len(double) == 1 and len(terms) == 2:
        parts = e.monomials()
        last = parts[-1] if parts else Poly.const(0)
        first = sum(parts[:-1], Poly.const(0))
        (m, c), = last.t.items() if last.t else (((), 0),)
        (w1, _), (w2, _) = double[0]
        # the wildcard that sympy binds to the number is the multiplier (alphabetically first)
        return {Poly.atom(single[0][0][0]): first, Poly.atom(w1): Poly.const(c), Poly.atom(w2): Poly({m: 1}) if last.t else Poly.const(0)}
    # sum of (wildcard * cofactor), at most one cofactor 1
    slots = []
    const = None
    for m, c in terms:
        w = [a for a, x in m if a.kind == 'wild']
        if len(w) > 1 or any(a.kind == 'wild' and x != 1 for a, x in m) or any(a.kind != 'wild' and _wilds(Poly.atom(a)) for a, x in m):
            raise Unsupported('pattern %r' % pat)
        cof = Poly({tuple((a, x) for a, x in m if a.kind != 'wild'): c})
        if not w:
            e = e - cof
        elif cof.is_const() and const is None:
            const = (w[0], cof)
        elif cof.is_const():
            raise Unsupported('pattern %r' % pat)
        else:
            slots.append((w[0], cof))
    vals = {w: Poly.const(0) for w, _ in slots}
    rest = Poly.const(0)
    for m, c in e.t.items():
        t = Poly({m: c}, True)
        for w, cof in slots:
            (cm, cc), = cof.t.items()
            k = _divide(m, cm)
            if k is None:
                continue
            v = Poly({k: c / cc})
            if _admits(w, v):
                vals[w] = vals[w] + v
                break
        else:
            rest = rest + t
    res = None
    if const is None:
        if not rest.t:
            res = {Poly.atom(w): v for w, v in vals.items()}
    elif _admits(const[0], rest / const[1]):
        res = {Poly.atom(w): v for w, v in vals.items()}
        res[Poly.atom(const[0])] = rest / const[1]
    # degenerate reading: the whole expression over the cofactor, possible when the wildcard may contain it
    if const is not None and e.t:
        for w, cof in slots:
            v = e / cof
            if not e.is_const() and v != vals[w] and _admits(w, v) and any(a in v.atoms() for a in cof.atoms()) \
                    and it.decide(('match', repr(e), repr(pat), w.name)) is False:
                res = {Poly.atom(x): Poly.const(0) for x, _ in slots}
                res[Poly.atom(const[0])] = Poly.const(0)
                res[Poly.atom(w)] = v
                break
    return res


def _key_atom(x):
    if isinstance(x, str):
        return Atom('sym', x)
    at = Poly.of(x).as_atom()
    if at is None:
        raise Unsupported('substitution of a compound expression %r' % (x,))
    return at


def _expr(y):
    if isinstance(y, str):
        return sym(y)
    return y


class _Q(Native):
    def __getattr__(self, k):
        if k.startswith('_'):
            raise AttributeError(k)
        return lambda *a: Poly.atom(Atom('fn', 'Q.' + k, tuple(Poly.of(x) for x in a)))


def module(it):
    from .builtin_models import NS

    class _SNS(NS):
        def __call__(self, x, **k):
            return sympify(x)
    d = dict(
        symbols=symbols, var=_var, Wild=wild, Q=_Q(), Dummy=lambda n='Dummy', **k: _dummy(n), Symbol=T_SYM, Expr=T_EXPR, Basic=T_EXPR, Number=T_NUM,
        sin=f1('sin'), cos=f1('cos'), tan=f1('tan'), asin=f1('asin'), acos=f1('acos'), atan=f1('atan'),
        atan2=f2('atan2'), sqrt=f1('sqrt'), Abs=f1('abs'), sign=f1('sign'), pi=PI, I=sym('I'),
        exp=f1('exp'), log=f1('log'), cot=lambda x: fn('cos', Poly.of(x)) / fn('sin', Poly.of(x)),
        sec=lambda x: 1 / fn('cos', Poly.of(x)), csc=lambda x: 1 / fn('sin', Poly.of(x)),
        Integer=T_INT, Float=T_FLT, Rational=T_RAT,
        S=_SNS('sympy.S', Pi=PI, Zero=Poly.const(0), One=Poly.const(1), Half=Poly.const(1) / 2, NegativeOne=Poly.const(-1)),
        sympify=sympify, flatten=lambda xs, **k: flatten(it, xs), prod=lambda xs, *a: _mul(*it.tolist(xs)),
        preorder_traversal=lambda e, **k: iter(list(preorder(e))), postorder_traversal=lambda e, **k: iter(list(preorder(e))[::-1]),
        solve=lambda e, x, **k: solve(it, e, x, **k), fraction=lambda e, **k: numer_denom(Poly.of(e)),
        numer=lambda e: numer_denom(Poly.of(e))[0], denom=lambda e: numer_denom(Poly.of(e))[1],
        Poly=PolyObj, degree=lambda e, *g: PolyObj(e, *g).degree(), Max=extremum(max), Min=extremum(min), Mod=mod2,
        rot_axis1=rot_axis(1, 1), rot_axis2=rot_axis(2, 1), rot_axis3=rot_axis(3, 1),
        rad=lambda x: Poly.of(x) * PI / 180, deg=lambda x: Poly.of(x) * 180 / PI,
        simplify=simp, trigsimp=simp, expand=ident, factor=ident, expand_trig=ident, together=ident, cancel=ident,
        collect=ident, nsimplify=ident, radsimp=ident, powsimp=ident, N=ident, expand_mul=ident, fu=ident,
        Matrix=T_MAT, MutableDenseMatrix=T_MAT, ImmutableMatrix=T_MAT, zeros=zeros, eye=eye,
        ones=lambda *a: zeros(*a, val=1), diff=diff,
        Function=T_FUN, pprint=lambda *a, **k: it.user['shown'].extend(a) if 'shown' in it.user else None, init_printing=lambda *a, **k: None,
        latex=_code('latex'),
        count_ops=lambda x, **k: it.user.get('count_ops', _count_ops)(x),
        pretty=lambda *a, **k: '', preview=lambda *a, **k: None,
        diag=diag,
        sstr=str, srepr=str, ccode=_code('c'), cxxcode=_code('c'),
        pycode=_code('py'), octave_code=lambda x, **k: hole('m:' + _plain(x)),
        Eq=lambda a, b=0, **k: it.compare_eq(a, b) if isinstance(a, VMatrix) else Eqn(a, b), Equality=Eqn, Add=T_ADD, Mul=T_MUL, Pow=T_POW,
    )
    # the global context of assumptions: nothing in the model queries it
    ga = NS('sympy.global_assumptions', add=lambda *a: None, discard=lambda *a: None, remove=lambda *a: None, clear=lambda: None)
    assume = NS('sympy.assumptions.assume', global_assumptions=ga)
    n = NS('sympy', assumptions=NS('sympy.assumptions', assume=assume, global_assumptions=ga, Q=d['Q']), **d)
    return n


def _mul(*a):
    r = Poly.const(1)
    for x in a:
        r = r * x
    return r


def _plain(x):
    s = str(x)
    return s.replace(I.HOLE_L, '').replace(I.HOLE_R, '')


def _count_ops(x):
    return len(repr(x))


def _stack(ms, axis):
    ms = [m if isinstance(m, VMatrix) else _rows((m,), 'npa') for m in ms]
    kind = 'npm' if any(m.kind == 'npm' for m in ms) else 'npa'
    ms = [m.T if getattr(m, 'vec', False) else m for m in ms]
    if len({m.shape[1 - axis] for m in ms}) != 1:
        raise ValueError('all the input array dimensions must match exactly')
    if axis == 0:
        return VMatrix([r for m in ms for r in m.rows], kind)
    return VMatrix([sum(rs, []) for rs in zip(*[m.rows for m in ms])], kind)


def np_attr(it, o, name):
    if name in ('flatten', 'ravel'):
        def flat(*a):
            m = VMatrix([[x] for x in o._flat()], o.kind)
            m.vec = True
            return m
        return flat
    if name == 'size':
        return len(o._flat())
    if name == 'ndim':
        return 1 if getattr(o, 'vec', False) else 2
    if name == 'shape' and getattr(o, 'vec', False):
        return (len(o.rows),)
    if name in ('sum', 'max', 'min', 'mean'):
        return lambda: np_reduce(it, name, o._flat())
    if name == 'A':
        return VMatrix(o.rows, 'npa')
    if name == 'I':
        return o.inv()
    if name == 'item':
        return lambda *a: o[a if len(a) > 1 else a[0]] if a else o._flat()[0]
    if name == 'astype':
        return lambda *a, **k: o
    if name == 'rows':
        return _uns('rows of a numpy array')
    return NOATTR


def np_reduce(it, name, xs):
    if name in ('sum', 'mean'):
        r = sum(xs, Poly.const(0))
        return r if name == 'sum' else r / len(xs)
    return it.builtins[name](xs)


def np_items(it, x):
    return x._flat() if isinstance(x, VMatrix) else flatten(it, x) if isinstance(x, (list, tuple)) else [x]


def close(it, a, b, rtol=1e-5, atol=1e-8):
    ok = True
    a, b = np_items(it, a), np_items(it, b)
    n = max(len(a), len(b))
    for x, y in zip(a * (n if len(a) == 1 else 1), b * (n if len(b) == 1 else 1)):
        d = Poly.of(x) - Poly.of(y)
        if not d.is_const():
            if not it.truth(it.compare_eq(x, y)):
                ok = False
        elif abs(d.constval()) > 1e-8 + 1e-5 * abs(float(Poly.of(y).constval()) if Poly.of(y).is_const() else 0):
            ok = False
    return ok


def clip(x, lo, hi):
    x = Poly.of(x)
    if not x.is_const():
        return fn('clip', x, Poly.of(lo), Poly.of(hi))
    return min(max(x.constval(), lo), hi)


def numpy_module(it):
    from .builtin_models import NS
    def ew(f):
        return lambda x, *a, **k: x._new([[f(v, *a) for v in r] for r in x.rows]) if isinstance(x, VMatrix) else f(x, *a)
    d = dict(
        sin=f1('sin'), cos=f1('cos'), tan=f1('tan'), arcsin=f1('asin'), arccos=f1('acos'), arctan=f1('atan'),
        arctan2=f2('atan2'), sqrt=f1('sqrt'), pi=PI, abs=abs, fabs=lambda x: fn('abs', Poly.of(x)),
        array=lambda x, *a, **k: _rows((x,), 'npa'), matrix=lambda x, *a, **k: _rows((x,), 'npm'),
        mat=lambda x: _rows((x,), 'npm'), asarray=lambda x, *a, **k: _rows((x,), 'npa'),
        zeros=lambda *a, **k: zeros(a[0], kind='npa'), eye=lambda n, **k: eye(n, kind='npa'),
        identity=lambda n: eye(n, kind='npa'), ones=lambda *a, **k: zeros(a[0], kind='npa', val=1),
        dot=lambda a, b: a.matmul(b), matmul=lambda a, b: a.matmul(b), cross=lambda a, b: a.cross(b),
        transpose=lambda a: a.T, vstack=lambda xs: _stack(it.tolist(xs), 0), hstack=lambda xs: _stack(it.tolist(xs), 1),
        concatenate=lambda xs, axis=0: _stack(it.tolist(xs), axis),
        block=lambda xs: _stack([_stack(it.tolist(r), 1) for r in it.tolist(xs)], 0),
        float64=lambda x: x, copy=lambda m: m.copy(), shape=lambda m: m.shape,
        linalg=NS('numpy.linalg', inv=lambda m: m.inv(), det=lambda m: m.det(), norm=lambda m: fn('sqrt', sum((Poly.of(x) ** 2 for x in np_items(it, m)), Poly.const(0)))),
        ndarray=TypeTag('ndarray', lambda x: isinstance(x, VMatrix) and x.kind != 'sp'),
        hypot=lambda a, b: fn('sqrt', Poly.of(a) ** 2 + Poly.of(b) ** 2), round=ew(lambda x, n=0: it.builtins['round'](x, n)),
        around=ew(lambda x, n=0: it.builtins['round'](x, n)), isclose=lambda a, b, **k: close(it, a, b), allclose=lambda a, b, **k: close(it, a, b),
        sum=lambda x, **k: np_reduce(it, 'sum', np_items(it, x)), max=lambda x: np_reduce(it, 'max', np_items(it, x)),
        min=lambda x: np_reduce(it, 'min', np_items(it, x)), reshape=lambda m, sh: _rows((m,), 'npa').reshape(sh) if not isinstance(m, VMatrix) else VMatrix(m.rows, m.kind).reshape(sh),
        diag=lambda x: VMatrix(diag(*np_items(it, x)).rows, 'npa'), degrees=lambda x: Poly.of(x) * 180 / PI, radians=lambda x: Poly.of(x) * PI / 180,
        ravel=lambda m: np_attr(it, m, 'ravel')(), sign=f1('sign'), clip=ew(clip), float_=lambda x: x, power=lambda a, b: Poly.of(a) ** b,
        square=lambda x: Poly.of(x) ** 2, multiply=lambda a, b: a * b, add=lambda a, b: a + b, subtract=lambda a, b: a - b,
        divide=lambda a, b: Poly.of(a) / b, negative=lambda a: -a, outer=lambda a, b: VMatrix([[x * y for y in np_items(it, b)] for x in np_items(it, a)], 'npa'),
        ndindex=lambda *a: [tuple(i) for i in itertools.product(*(range(n) for n in (it.tolist(a[0]) if len(a) == 1 and isinstance(a[0], (tuple, list)) else a)))],
        ndenumerate=lambda m: [((i, j), x) for i, r in enumerate(m.rows) for j, x in enumerate(r)],
        set_printoptions=lambda *a, **k: None, deg2rad=lambda x: x * PI / 180, rad2deg=lambda x: x * 180 / PI,
    )
    return NS('numpy', **d)
