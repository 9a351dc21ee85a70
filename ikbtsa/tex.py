"""Reader for the generated LaTeX reports: structure (groups, environments, math) and equations back to normal forms."""
import re
from . import poly
from .poly import Poly, sym, fn


class TexError(Exception):
    pass


def canon(name):
    """symbol names compare without underscores and braces: th_1v2, \\theta_{1v2} -> th1v2"""
    return re.sub(r'[_{}\s]', '', name.replace(r'\theta', 'th'))


def canon_poly(p):
    return p.map_atoms(lambda a: sym(canon(a.name)) if a.kind == 'sym' and a.name not in ('pi', 'I') else None)


def strip_comments(text):
    return re.sub(r'(?<!\\)%[^\n]*', '', text)


VERB = re.compile(r'\\begin\{verbatim\}(.*?)\\end\{verbatim\}', re.S)


def split_verbatim(text):
    """(text without verbatim blocks, [blocks])"""
    blocks = VERB.findall(text)
    rest = VERB.sub(' ', text)
    if r'\begin{verbatim}' in rest or r'\end{verbatim}' in rest:
        raise TexError('a verbatim environment is not closed')
    return rest, blocks


TOK = re.compile(r'\\(?:begin|end)\s*\{([a-zA-Z]+\*?)\}|\\left\s*|\\right\s*|\\\\|\\[a-zA-Z]+\*?|\\.|[{}$^_&]|[^\\{}$^_&]+', re.S)


INMATH = ('matrix', 'bmatrix', 'pmatrix', 'array', 'aligned', 'split', 'cases')
ALIGN = INMATH + ('align', 'align*', 'tabular', 'tabular*', 'longtable', 'eqnarray', 'eqnarray*', 'alignat', 'flalign', 'flalign*', 'dmath', 'tabularx')
LITERAL = ('\\label', '\\ref', '\\input', '\\include', '\\includegraphics', '\\url', '\\href', '\\cite', '\\usepackage', '\\verb', '\\path', '\\bibliography')


def structure(text):
    """environments, braces, \\left/\\right and $ must nest; returns [(environment, body)] in order of their end"""
    stack, out = [], []
    i, last = 0, ''
    while i < len(text):
        m = TOK.match(text, i)
        t = m.group(0)
        top = stack[-1] if stack else None
        if t.startswith(r'\begin'):
            stack.append(('env', m.group(1), m.end()))
        elif t.startswith(r'\end'):
            if not top or top[0] != 'env' or top[1] != m.group(1):
                raise TexError(r'\end{%s} closes %s' % (m.group(1), top and top[1] or 'nothing'))
            stack.pop()
            out.append((top[1], text[top[2]:m.start()]))
        elif t == '{':
            stack.append(('group', '{' + last, i))
        elif t == '}':
            if not top or top[0] != 'group':
                raise TexError('} without { near %r' % text[max(0, i - 30):i + 5])
            stack.pop()
        elif t.startswith(r'\left') and t.strip() == r'\left':
            stack.append(('left', r'\left', i))
        elif t.startswith(r'\right') and t.strip() == r'\right':
            if not top or top[0] != 'left':
                raise TexError(r'\right without \left near %r' % text[max(0, i - 30):i + 10])
            stack.pop()
        elif t == '$':
            if top and top[0] == 'math':
                stack.pop()
            else:
                stack.append(('math', '$', i))
        elif t in (r'\[', ):
            stack.append(('disp', r'\[', i))
        elif t == r'\]':
            if not top or top[0] != 'disp':
                raise TexError(r'\] without \[')
            stack.pop()
        elif t in ('_', '^'):
            if not any(k in ('math', 'disp', 'left') or k == 'env' and n in MATH + INMATH or k == 'group' and n[1:] in LITERAL for k, n, _ in stack):
                raise TexError('%s outside of mathematics near %r' % (t, text[max(0, i - 30):i + 10]))
        elif t == '&':
            if not any(k == 'env' and n in ALIGN for k, n, _ in stack):
                raise TexError('& outside of an alignment near %r' % text[max(0, i - 30):i + 10])
        last = t if t[0] == '\\' else last if re.fullmatch(r'\s*(\[[^\]]*\])?\s*', t) else ''
        i = m.end()
    if stack:
        raise TexError('%s is not closed' % stack[-1][1])
    return out


MATRIX = re.compile(r'\\left\s*\[\s*\\begin\{matrix\}(.*?)\\end\{matrix\}\s*\\right\s*\]', re.S)


def matrices(body):
    out = []
    for m in MATRIX.finditer(body):
        out.append([[expr(c) for c in r.split('&')] for r in m.group(1).split(r'\\')])
    return out


ETOK = re.compile(r'\s*(\\operatorname\s*\{[a-zA-Z0-9]+\}|\\left\s*[(\[|.]|\\right\s*[)\]|.]|\\[a-zA-Z]+|\\.|\d+\.\d+|\d+|[A-Za-z]+|.)', re.S)
FUNCS = ('sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'atan2', 'sqrt', 'log', 'arcsin', 'arccos')


class _E:
    def __init__(self, s):
        s = re.sub(r'\\(?:quad|qquad|,|;|!|displaystyle)(?![a-zA-Z])', ' ', s)
        self.t = [x for x in ETOK.findall(s) if x.strip()]
        self.t = [re.sub(r'\s', '', x) for x in self.t]
        self.i = 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else ''

    def next(self):
        x = self.peek()
        self.i += 1
        return x

    def expect(self, v):
        x = self.next()
        if x != v:
            raise TexError('%r expected, found %r in %s' % (v, x, ' '.join(self.t)[:80]))

    def sum(self):
        r = None
        while True:
            t = self.peek()
            neg = False
            if t in ('+', '-'):
                self.next()
                neg = t == '-'
            elif r is not None:
                return r
            x = self.term()
            x = -x if neg else x
            r = x if r is None else r + x

    def starts(self):
        t = self.peek()
        return bool(t) and (t[0].isalnum() or t in ('{', r'\left(', r'\left|') or
                            (t[0] == '\\' and t[1:].isalpha()) or t.startswith(r'\operatorname'))

    def term(self):
        if not self.starts():
            raise TexError('term expected, found %r in %s' % (self.peek(), ' '.join(self.t)[:80]))
        r = Poly.const(1)
        while self.starts():
            if self.peek() in (r'\cdot', r'\times'):
                self.next()
                continue
            r = r * self.factor()
        return r

    def group(self):
        if self.peek() == '{':
            self.next()
            r = self.sum()
            self.expect('}')
            return r
        return self.factor()

    def power(self):
        if self.peek() == '^':
            self.next()
            e = self.group()
            if not e.is_const():
                raise TexError('symbolic exponent')
            return int(e.constval())
        return None

    def subscript(self):
        if self.peek() != '_':
            return ''
        self.next()
        if self.peek() != '{':
            return self.next()
        self.next()
        s = ''
        while self.peek() != '}':
            if not self.peek():
                raise TexError('open subscript')
            s += self.next()
        self.next()
        return s

    def args(self):
        br = self.peek() == '{'
        if br:
            self.next()
        if self.peek() not in (r'\left(', '('):
            return [self.group()] if not br else self._close([self.sum()], br)
        self.next()
        a = [self.sum()]
        while self.peek() == ',':
            self.next()
            a.append(self.sum())
        x = self.next()
        if x not in (r'\right)', ')'):
            raise TexError('argument list not closed: %r' % x)
        return self._close(a, br)

    def _close(self, a, br):
        if br:
            self.expect('}')
        return a

    def factor(self):
        t = self.next()
        m = re.match(r'\\operatorname\{(\w+)\}', t)
        name = m.group(1) if m else t[1:] if t[0] == '\\' and t[1:] in FUNCS else t if t in FUNCS and t not in ('sin', 'cos') else None
        if t == r'\sqrt':
            r = poly.sqrt(self.group())
        elif t == r'\frac':
            a = self.group()
            r = a / self.group()
        elif name:
            s = self.subscript()
            name = name + s if s == '2' else name
            if name not in FUNCS:
                raise TexError('unknown function %s' % name)
            e = self.power()
            a = self.args()
            r = fn({'arcsin': 'asin', 'arccos': 'acos'}.get(name, name), *a)
            if e is not None:
                r = r ** e
        elif t == r'\left(':
            r = self.sum()
            self.expect(r'\right)')
        elif t == r'\left|':
            r = abs(self.group())
            self.expect(r'\right|')
        elif t == '{':
            r = self.sum()
            self.expect('}')
        elif t[0].isdigit():
            from fractions import Fraction
            r = Poly.const(Fraction(t))
        elif t == r'\pi':
            r = poly.PI
        elif t[0] == '\\' or t[0].isalpha():
            base = {'theta': 'th'}.get(t[1:], t[1:]) if t[0] == '\\' else t
            r = sym(canon(base + self.subscript()))
        else:
            raise TexError('unexpected %r in %s' % (t, ' '.join(self.t)[:80]))
        e = self.power()
        return r if e is None else r ** e


def expr(s):
    e = _E(s)
    r = e.sum()
    if e.i < len(e.t):
        raise TexError('unexpected %r after an expression: %s' % (e.peek(), s.strip()[:80]))
    return r


MATH = ('align', 'align*', 'dmath', 'dmath*', 'equation', 'equation*', 'eqnarray', 'gather', 'gather*')


def equations(envs):
    """[(canonical left-hand name, right-hand side)] of all displayed equations without matrices"""
    out = []
    for n, body in envs:
        if n in MATH and r'\begin{matrix}' not in body:
            for line in body.split(r'\\'):
                line = line.replace('&', ' ')
                if not line.strip():
                    continue
                l, eq, r = line.partition('=')
                if not eq:
                    raise TexError('no equation: %s' % line.strip()[:80])
                out.append((canon(l.strip()), expr(r)))
    return out


def items(envs):
    """list items as canonical names"""
    out = []
    for n, body in envs:
        if n in ('enumerate', 'itemize'):
            parts = re.split(r'\\item\b', body)
            if parts[0].strip():
                raise TexError('text before the first \\item')
            if len(parts) == 1:
                raise TexError('a list without items')
            out.append([canon(re.sub(r'[${}\s]', '', p)) for p in parts[1:]])
    return out


def tables(envs):
    """(number of columns, rows of canonical cells)"""
    out = []
    for n, body in envs:
        if n == 'tabular':
            m = re.match(r'\s*\{([^}]*)\}', body)
            if not m:
                raise TexError('tabular without columns')
            cols = len(re.findall(r'[lcr]', m.group(1)))
            body = body[m.end():].replace(r'\hline', ' ')
            rows = [[canon(c.replace('$', '')) for c in r.split('&')] for r in body.split(r'\\') if r.strip()]
            out.append((cols, rows))
    return out
