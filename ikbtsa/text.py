"""Source text of expressions: printers in the style of sympy's str(), ccode() and latex(), used when the analysed code
writes expressions into generated files, and readers that turn generated text back into normal forms."""
import re
from fractions import Fraction
from . import poly
from .poly import Poly, Atom, sym, fn


def sq(p):
    """an expression the printers show as a power of a bracket, (p)**2"""
    return Poly.atom(Atom('fn', 'sq', (Poly.of(p),)))


def plain(p):
    """the same expression with the printed powers multiplied out"""
    return p.map_atoms(lambda a: (lambda x: x * x)(plain(a.args[0])) if a.kind == 'fn' and a.name == 'sq' else None)


def _factors(m, c):
    num, den = [], []
    for a, e in m:
        if a.kind == 'fn' and a.name == 'inv':
            (den if e > 0 else num).append((a.args[0], abs(e), True))
        else:
            (num if e > 0 else den).append((a, abs(e), False))
    return num, den


class Printer:
    def atom(self, a):
        if a.kind != 'fn':
            return a.name
        if a.name == 'sq':
            return self.power('(' + self.of(a.args[0]) + ')', 2)
        return self.head(a.name) + '(' + ', '.join(self.of(x) for x in a.args) + ')'

    def head(self, n):
        return {'abs': 'Abs'}.get(n, n)

    def power(self, b, e):
        return '%s**%d' % (b, e)

    def factor(self, f):
        a, e, bracket = f
        s = '(' + self.of(a) + ')' if bracket else self.atom(a)
        return s if e == 1 else self.power(s, e)

    def coeff(self, c, num, den):
        """(prefix list, numerator factors, denominator factors)"""
        n, d = abs(c.numerator), c.denominator
        ns = ([str(n)] if n != 1 or not num else []) + [self.factor(f) for f in num]
        ds = ([str(d)] if d != 1 else []) + [self.factor(f) for f in den]
        return ns, ds

    def term(self, m, c):
        num, den = _factors(m, c)
        ns, ds = self.coeff(c, num, den)
        s = '*'.join(ns)
        if len(ds) == 1 and not (ds[0].find('*') >= 0 and '**' not in ds[0]):
            s += '/' + ds[0]
        elif ds:
            s += '/(' + '*'.join(ds) + ')'
        return s

    def of(self, p):
        p = Poly.of(p)
        out = ''
        for m, c in p.key():
            t = self.term(m, c)
            if c < 0:
                out += ' - ' + t if out else '-' + t
            else:
                out += ' + ' + t if out else t
        return out or '0'


class CPrinter(Printer):
    def head(self, n):
        return {'abs': 'fabs', 'pi': 'M_PI'}.get(n, n)

    def atom(self, a):
        return 'M_PI' if a.kind == 'sym' and a.name == 'pi' else Printer.atom(self, a)

    def power(self, b, e):
        if b[0] == '(' and b[-1] == ')':
            b = b[1:-1]
        return 'pow(%s, %d)' % (b, e)

    def coeff(self, c, num, den):
        n, d = abs(c.numerator), c.denominator
        ns = [self.factor(f) for f in num]
        if d != 1:
            ns = ['(%d.0/%d.0)' % (n, d)] + ns
        elif n != 1 or not ns:
            ns = [str(n) if not den or ns else '%d.0' % n] + ns
        return ns, [self.factor(f) for f in den]


class PyCode(Printer):
    def head(self, n):
        return 'abs' if n == 'abs' else 'math.' + n

    def atom(self, a):
        return 'math.pi' if a.kind == 'sym' and a.name == 'pi' else Printer.atom(self, a)


class Latex(Printer):
    def name(self, n):
        if n == 'pi':
            return r'\pi'
        base, _, sub = n.partition('_')
        if not sub:
            k = re.match(r'^([a-zA-Z]+)([0-9]+)$', base)
            if k:
                base, sub = k.group(1), k.group(2)
        return base + ('_{' + sub.replace('_', ' ') + '}' if sub else '')

    def call(self, a, power=''):
        x = r'{\left(' + ','.join(self.of(y) for y in a.args) + r' \right)}'
        n = a.name
        h = '\\' + n if n in ('sin', 'cos', 'tan', 'log') else r'\operatorname{atan}_{2}' if n == 'atan2' else r'\operatorname{%s}' % n
        return h + power + x

    def atom(self, a):
        if a.kind != 'fn':
            return self.name(a.name)
        if a.name == 'sq':
            return r'\left(' + self.of(a.args[0]) + r'\right)^{2}'
        if a.name == 'sqrt':
            return r'\sqrt{' + self.of(a.args[0]) + '}'
        if a.name == 'abs':
            return r'\left|{' + self.of(a.args[0]) + r'}\right|'
        return self.call(a)

    def factor(self, f):
        a, e, bracket = f
        if bracket:
            s = r'\left(' + self.of(a) + r'\right)'
            return s if e == 1 else s + '^{%d}' % e
        if e == 1:
            return self.atom(a)
        if a.kind == 'fn' and a.name not in ('sq', 'sqrt', 'abs'):
            return self.call(a, '^{%d}' % e)
        if a.kind == 'fn':
            return r'\left(' + self.atom(a) + r'\right)^{%d}' % e
        return self.atom(a) + '^{%d}' % e

    def term(self, m, c):
        num, den = _factors(m, c)
        ns, ds = self.coeff(c, num, den)
        if ds:
            return r'\frac{' + ' '.join(ns) + '}{' + ' '.join(ds) + '}'
        return ' '.join(ns)

    def matrix(self, M):
        return r'\left[\begin{matrix}' + r'\\'.join(' & '.join(self.of(x) for x in r) for r in M.rows) + r'\end{matrix}\right]'


py_text, c_text, code_text, latex = Printer().of, CPrinter().of, PyCode().of, Latex()


# ---------------------------------------------------------------- C expressions and programs

class SyntaxErr(Exception):
    pass


C_TOKEN = re.compile(r'\s*(?:(//[^\n]*|/\*.*?\*/)|(\d+\.\d*(?:[eE][-+]?\d+)?|\.\d+|\d+)|([A-Za-z_]\w*(?:::[A-Za-z_]\w*)*)|'
                     r'("(?:\\.|[^"\\\n])*")|(<<|>>|&&|\|\||[<>=!]=|\+\+|--|[-+*/]=|[-+*/%<>=!(){}\[\];,?:&]))', re.S)


def c_tokens(src):
    out, i = [], 0
    src = re.sub(r'^[ \t]*#[^\n]*$', '', src, flags=re.M)
    src = re.sub(r'\\\n', '', src)
    while True:
        m = re.compile(r'\s*').match(src, i)
        i = m.end()
        if i >= len(src):
            return out
        m = C_TOKEN.match(src, i)
        if not m:
            raise SyntaxErr('stray %r in line %d' % (src[i:i + 20].split('\n')[0], src.count('\n', 0, i) + 1))
        line = src.count('\n', 0, m.end()) + 1
        i = m.end()
        if m.group(1):
            continue
        if m.group(2):
            out.append(('num', m.group(2), line))
        elif m.group(3):
            out.append(('id', m.group(3), line))
        elif m.group(4):
            out.append(('str', m.group(4), line))
        else:
            out.append(('op', m.group(5), line))


class CParser:
    """statements and expressions of the generated C++ as nested tuples"""
    TYPES = {'double': 'double', 'float': 'double', 'int': 'int', 'bool': 'int'}

    def __init__(self, src):
        self.t = c_tokens(src)
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ('eof', '', self.t[-1][2] if self.t else 0)

    def next(self):
        x = self.peek()
        self.i += 1
        return x

    def is_(self, v, k=0):
        return self.peek(k)[0] in ('op', 'id') and self.peek(k)[1] == v

    def accept(self, v):
        if self.is_(v):
            self.i += 1
            return True
        return False

    def expect(self, v):
        x = self.next()
        if x[0] not in ('op', 'id') or x[1] != v:
            raise SyntaxErr('%r expected before %r in line %d' % (v, x[1], x[2]))
        return x

    def ident(self):
        x = self.next()
        if x[0] != 'id':
            raise SyntaxErr('name expected before %r in line %d' % (x[1], x[2]))
        return x[1]

    def program(self):
        out = []
        while self.peek()[0] != 'eof':
            if self.accept(';'):
                continue
            if self.is_('using'):
                while not self.accept(';'):
                    self.next()
                continue
            out.append(self.toplevel())
        return out

    def qualifiers(self):
        while self.peek()[1] in ('const', 'static', 'inline', 'extern'):
            self.next()

    def toplevel(self):
        self.qualifiers()
        ty = self.ident()
        if ty not in self.TYPES and ty != 'void':
            raise SyntaxErr('unknown type %r in line %d' % (ty, self.peek(-1)[2]))
        if self.peek(1)[1] == '(' and self.peek()[0] == 'id':
            name = self.ident()
            self.expect('(')
            pars = []
            while not self.accept(')'):
                self.qualifiers()
                pt = self.ident()
                pn = self.ident() if self.peek()[0] == 'id' else ''
                pars.append((pt, pn, self.dims()))
                if not self.is_(')'):
                    self.expect(',')
            if self.accept(';'):
                return ('proto', ty, name, pars)
            return ('func', ty, name, pars, self.block())
        return self.decl(ty)

    def dims(self):
        d = []
        while self.accept('['):
            d.append(None if self.is_(']') else self.expr())
            self.expect(']')
        return d

    def decl(self, ty):
        ds = []
        while True:
            n = self.ident()
            d = self.dims()
            init = None
            if self.accept('='):
                init = self.init()
            ds.append((n, d, init))
            if not self.accept(','):
                break
        ln = self.peek()[2]
        self.expect(';')
        return ('decl', self.TYPES.get(ty, ty), ds, ln)

    def init(self):
        if self.accept('{'):
            xs = []
            while not self.accept('}'):
                xs.append(self.init())
                if not self.is_('}'):
                    self.expect(',')
            return ('list', xs)
        return self.expr()

    def block(self):
        self.expect('{')
        out = []
        while not self.accept('}'):
            if self.peek()[0] == 'eof':
                raise SyntaxErr('missing } at the end of the file')
            out.append(self.stmt())
        return ('block', out)

    def stmt(self):
        k, v, ln = self.peek()
        if v == '{':
            return self.block()
        if self.accept(';'):
            return ('block', [])
        if v == 'if':
            self.next()
            self.expect('(')
            c = self.expr()
            self.expect(')')
            a = self.stmt()
            b = self.stmt() if self.accept('else') else None
            return ('if', c, a, b)
        if v == 'return':
            self.next()
            e = None if self.is_(';') else self.expr()
            self.expect(';')
            return ('return', e)
        if v in ('for', 'while', 'do', 'switch', 'goto'):
            raise NotImplementedError('C++ statement %r' % v)
        self.qualifiers()
        if self.peek()[1] in self.TYPES:
            return self.decl(self.next()[1])
        e = self.expr()
        if self.is_('='):
            self.next()
            r = self.expr()
            self.expect(';')
            return ('assign', e, r, ln)
        self.expect(';')
        return ('expr', e)

    PREC = [['||'], ['&&'], ['==', '!='], ['<', '>', '<=', '>='], ['<<', '>>'], ['+', '-'], ['*', '/', '%']]

    def expr(self, lvl=0):
        if lvl == len(self.PREC):
            return self.unary()
        e = self.expr(lvl + 1)
        while self.peek()[0] == 'op' and self.peek()[1] in self.PREC[lvl]:
            o = self.next()
            e = ('bin', o[1], e, self.expr(lvl + 1), o[2])
        if lvl == 0 and self.accept('?'):
            a = self.expr()
            self.expect(':')
            e = ('cond', e, a, self.expr())
        return e

    def unary(self):
        if self.peek()[0] == 'op' and self.peek()[1] in ('-', '+', '!'):
            o = self.next()[1]
            return ('un', o, self.unary())
        return self.postfix()

    def postfix(self):
        k, v, ln = self.next()
        if k == 'num':
            e = ('num', v)
        elif k == 'str':
            e = ('str', v)
        elif k == 'id':
            e = ('name', v, ln)
        elif v == '(':
            if self.peek()[1] in self.TYPES and self.is_(')', 1):
                ty = self.TYPES[self.next()[1]]
                self.next()
                return ('cast', ty, self.unary())
            e = self.expr()
            self.expect(')')
        else:
            raise SyntaxErr('expression expected before %r in line %d' % (v, ln))
        while True:
            if self.accept('['):
                e = ('index', e, self.expr(), ln)
                self.expect(']')
            elif self.accept('('):
                a = []
                while not self.accept(')'):
                    a.append(self.expr())
                    if not self.is_(')'):
                        self.expect(',')
                e = ('call', e, a, ln)
            else:
                return e


C_MATH = {'sin': 1, 'cos': 1, 'tan': 1, 'asin': 1, 'acos': 1, 'atan': 1, 'atan2': 2, 'sqrt': 1, 'pow': 2, 'fabs': 1, 'abs': 1, 'exp': 1, 'log': 1}


class CError(Exception):
    """the generated program does not compile or has no defined meaning"""


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class CArray:
    def __init__(self, dims, fill):
        self.dims = dims
        self.cells = {}
        self.fill = fill


class CRun:
    """abstract interpretation of the generated C++ over normal forms.  `it` decides undecided comparisons."""

    def __init__(self, it, prog, hook=None):
        self.it, self.hook = it, hook
        self.funcs = {}
        self.protos = {}
        self.globals = [{}]
        self.prog = prog
        for d in prog:
            if d[0] in ('func', 'proto'):
                self.protos.setdefault(d[2], d)
                if d[0] == 'func':
                    if d[2] in self.funcs:
                        raise CError('function %s is defined twice' % d[2])
                    self.funcs[d[2]] = d
        for d in prog:
            if d[0] == 'decl':
                self.stmt(d, self.globals)

    def lookup(self, n, env, ln=0):
        for s in reversed(env):
            if n in s:
                return s[n]
        raise CError('%s is not declared (line %s)' % (n, ln))

    def const_int(self, e, env):
        v, ty = self.expr(e, env)
        if not (isinstance(v, Poly) and v.is_const() and v.constval().denominator == 1):
            raise CError('array size or index is not an integer constant')
        return int(v.constval())

    def stmt(self, s, env):
        k = s[0]
        if k == 'block':
            e2 = env + [{}]
            for x in s[1]:
                self.stmt(x, e2)
        elif k == 'decl':
            for n, dims, init in s[2]:
                if n in env[-1]:
                    raise CError('%s is declared twice in one scope (line %s)' % (n, s[3]))
                if dims:
                    a = CArray([self.const_int(d, env) for d in dims], Poly.const(0) if init is not None else None)
                    if init is not None:
                        self.fill(a, init, env, ())
                    env[-1][n] = ['array', a]
                elif init is None:
                    env[-1][n] = [s[1], None]
                elif init == ('name', 'XXXXX', init[2] if len(init) > 2 else 0):
                    env[-1][n] = [s[1], sym(n)]
                else:
                    v = self.convert(s[1], self.expr(init, env), s[3])
                    if isinstance(v, Poly) and v.is_const() and s[1] == 'double' and abs(v.constval() - Fraction('3.14159265358979')) < Fraction(1, 10 ** 6):
                        v = poly.PI
                    env[-1][n] = [s[1], v]
        elif k == 'assign':
            v = self.expr(s[2], env)
            if s[1][0] == 'name':
                c = self.lookup(s[1][1], env, s[3])
                if c[0] == 'array':
                    raise CError('assignment to the array %s (line %s)' % (s[1][1], s[3]))
                c[1] = self.convert(c[0], v, s[3])
            elif s[1][0] == 'index':
                a, ix = self.place(s[1], env)
                a.cells[ix] = self.convert('double', v, s[3])
            else:
                raise CError('not assignable (line %s)' % s[3])
        elif k == 'if':
            c, ty = self.expr(s[1], env)
            if self.it.truth(c):
                self.stmt(s[2], env + [{}])
            elif s[3] is not None:
                self.stmt(s[3], env + [{}])
        elif k == 'return':
            raise Ret(None if s[1] is None else self.expr(s[1], env)[0])
        elif k == 'expr':
            self.expr(s[1], env)

    def fill(self, a, init, env, ix):
        if init[0] == 'list':
            for i, x in enumerate(init[1]):
                if len(ix) >= len(a.dims) or i >= a.dims[len(ix)]:
                    raise CError('too many initialisers')
                self.fill(a, x, env, ix + (i,))
        else:
            ix = ix + (0,) * (len(a.dims) - len(ix))
            a.cells[ix] = self.convert('double', self.expr(init, env), 0)

    def convert(self, ty, v, ln):
        v, t = v
        if t == 'other':
            raise CError('a value of the wrong type is assigned (line %s)' % ln)
        if ty == 'int' and t == 'double':
            raise CError('a real value is truncated to an int variable (line %s)' % ln)
        return v

    def place(self, e, env):
        ix = []
        while e[0] == 'index':
            ix.insert(0, self.const_int(e[2], env))
            ln = e[3]
            e = e[1]
        if e[0] != 'name':
            raise CError('not an array (line %s)' % ln)
        c = self.lookup(e[1], env, ln)
        if c[0] != 'array':
            raise CError('%s is not an array (line %s)' % (e[1], ln))
        a = c[1]
        if len(ix) != len(a.dims) or any(d is not None and not 0 <= i < d for i, d in zip(ix, a.dims)):
            raise CError('%s[%s] is outside the declared size %s (line %s)' % (e[1], ']['.join(map(str, ix)), a.dims, ln))
        return a, tuple(ix)

    def expr(self, e, env):
        k = e[0]
        if k == 'num':
            return Poly.const(Fraction(e[1])), 'int' if e[1].isdigit() else 'double'
        if k == 'str':
            return e[1], 'other'
        if k == 'name':
            if e[1] in ('M_PI', 'M_PI_2', 'M_PI_4'):
                return poly.PI / {'M_PI': 1, 'M_PI_2': 2, 'M_PI_4': 4}[e[1]], 'double'
            if e[1] in ('true', 'false'):
                return Poly.const(int(e[1] == 'true')), 'int'
            if e[1] in ('std::cout', 'std::endl', 'cout', 'endl'):
                return e[1], 'other'
            c = self.lookup(e[1], env, e[2])
            if c[0] == 'array':
                return c[1], 'other'
            if c[1] is None:
                raise CError('%s is used before it is assigned (line %s)' % (e[1], e[2]))
            return c[1], c[0]
        if k == 'index':
            a, ix = self.place(e, env)
            v = a.cells.get(ix, a.fill)
            if v is None:
                raise CError('element %s is used before it is assigned (line %s)' % (ix, e[3]))
            return v, 'double'
        if k == 'cast':
            return self.convert(e[1], self.expr(e[2], env), 0), e[1]
        if k == 'un':
            v, t = self.expr(e[2], env)
            if e[1] == '!':
                return (not self.it.truth(v)), 'int'
            return (-v if e[1] == '-' else v), t
        if k == 'cond':
            return self.expr(e[2] if self.it.truth(self.expr(e[1], env)[0]) else e[3], env)
        if k == 'bin':
            return self.binary(e, env)
        if k == 'call':
            return self.call(e, env)
        raise CError('expression %r' % (e,))

    def num(self, v):
        return Poly.const(int(v)) if isinstance(v, bool) else v

    def binary(self, e, env):
        import ast
        o, ln = e[1], e[4]
        if o in ('&&', '||'):
            a = self.it.truth(self.expr(e[2], env)[0])
            if a == (o == '||'):
                return a, 'int'
            return self.it.truth(self.expr(e[3], env)[0]), 'int'
        (a, ta), (b, tb) = self.expr(e[2], env), self.expr(e[3], env)
        if o == '<<':
            return a, 'other'
        if 'other' in (ta, tb):
            raise CError('operator %s on a value that is no number (line %s)' % (o, ln))
        if o in ('<', '>', '<=', '>=', '==', '!='):
            op = {'<': ast.Lt, '>': ast.Gt, '<=': ast.LtE, '>=': ast.GtE, '==': ast.Eq, '!=': ast.NotEq}[o]()
            return self.it.truth(self.it.compare(op, self.num(a), self.num(b))), 'int'
        a, b = self.num(a), self.num(b)
        t = 'int' if ta == tb == 'int' else 'double'
        if o == '/':
            if t == 'int' and not (a.is_const() and b.is_const() and b.t and (a / b).constval().denominator == 1):
                raise CError('integer division %s / %s (line %s)' % (a, b, ln))
            return a / b, t
        if o == '%':
            raise CError('operator %% (line %s)' % ln)
        return {'+': a + b, '-': a - b, '*': a * b}[o], t

    def call(self, e, env):
        f, ln = e[1], e[3]
        if f[0] != 'name':
            raise CError('call of an expression (line %s)' % ln)
        n = f[1].replace('std::', '')
        args = [self.expr(a, env) for a in e[2]]
        if n in C_MATH:
            if len(args) != C_MATH[n] or any(t == 'other' for _, t in args):
                raise CError('wrong arguments of %s (line %s)' % (n, ln))
            vs = [self.num(v) for v, _ in args]
            if self.hook:
                self.hook(n, vs)
            if n in ('fabs', 'abs'):
                return abs(vs[0]), 'double'
            return fn(n, *vs), 'double'
        if f[1] in self.funcs:
            if n not in self.protos:
                raise CError('%s is called before it is declared' % n)
            if len(args) != len(self.funcs[f[1]][3]):
                raise CError('wrong number of arguments of %s (line %s)' % (n, ln))
            for (pt, pn, dims), (v, t) in zip(self.funcs[f[1]][3], args):
                if bool(dims) != isinstance(v, CArray):
                    raise CError('wrong argument type for %s (line %s)' % (n, ln))
                if dims and [self.const_int(d, self.globals) for d in dims[1:] if d is not None] != v.dims[1:]:
                    raise CError('array argument of %s has the wrong size (line %s)' % (n, ln))
            return self.it.user['c_result'](n), 'int'
        raise CError('%s is not declared (line %s)' % (f[1], ln))

    def run(self, name, args):
        f = self.funcs[name]
        env = self.globals + [{}]
        for (ty, pn, dims), a in zip(f[3], args):
            if pn:
                env[-1][pn] = ['array', a] if isinstance(a, CArray) else [CParser.TYPES.get(ty, ty), a]
        try:
            for s in f[4][1]:
                self.stmt(s, env)
        except Ret as r:
            return r.v
        return None
