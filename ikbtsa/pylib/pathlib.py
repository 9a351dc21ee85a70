import os


class PurePath:
    def __init__(self, *parts):
        s = ''
        for p in parts:
            p = str(p)
            s = p if p.startswith('/') or not s else s + '/' + p
        root = '/' if s.startswith('/') else ''
        self._s = root + '/'.join(x for x in s.split('/') if x not in ('', '.')) or '.'

    def __str__(self):
        return self._s

    __fspath__ = __str__
    as_posix = __str__

    def __repr__(self):
        return 'PosixPath(%r)' % self._s

    def __eq__(self, o):
        return isinstance(o, PurePath) and o._s == self._s

    def __hash__(self):
        return hash(self._s)

    def __lt__(self, o):
        return self._s < o._s

    def __truediv__(self, o):
        return type(self)(self._s, o)

    def __rtruediv__(self, o):
        return type(self)(o, self._s)

    def joinpath(self, *o):
        return type(self)(self._s, *o)

    @property
    def parts(self):
        p = self._s.split('/')
        return tuple((['/'] if p[0] == '' else []) + [x for x in p if x and x != '.'])

    @property
    def name(self):
        return '' if self._s in ('.', '/') else self._s.rsplit('/', 1)[-1]

    @property
    def suffix(self):
        n = self.name
        i = n.rfind('.')
        return n[i:] if 0 < i < len(n) - 1 else ''

    @property
    def stem(self):
        n = self.name
        return n[:len(n) - len(self.suffix)]

    @property
    def parent(self):
        if '/' not in self._s:
            return type(self)('.')
        return type(self)(self._s.rsplit('/', 1)[0] or '/')

    @property
    def parents(self):
        r, p = [], self
        while p.parent != p:
            p = p.parent
            r.append(p)
        return r

    def with_suffix(self, s):
        return type(self)(str(self)[:len(self._s) - len(self.suffix)] + s)

    def with_name(self, n):
        return self.parent / n

    def with_stem(self, n):
        return self.parent / (n + self.suffix)

    def is_absolute(self):
        return self._s.startswith('/')

    def relative_to(self, o):
        o = str(type(self)(o))
        if o == '.':
            return self
        if not self._s.startswith(o + '/'):
            raise ValueError('%r is not in the subpath of %r' % (self._s, o))
        return type(self)(self._s[len(o) + 1:])


class Path(PurePath):
    @classmethod
    def cwd(cls):
        return cls(os.getcwd())

    def resolve(self, strict=False):
        return self

    absolute = expanduser = resolve

    def exists(self):
        return os.path.exists(self._s)

    def is_file(self):
        return os.path.isfile(self._s)

    def is_dir(self):
        return os.path.isdir(self._s)

    def mkdir(self, mode=511, parents=False, exist_ok=False):
        if parents:
            os.makedirs(self._s, exist_ok=exist_ok)
        elif not (exist_ok and self.is_dir()):
            os.mkdir(self._s)

    def unlink(self, missing_ok=False):
        try:
            os.remove(self._s)
        except FileNotFoundError:
            if not missing_ok:
                raise

    def rename(self, t):
        os.rename(self._s, str(t))
        return Path(t)

    replace = rename

    def touch(self, mode=438, exist_ok=True):
        if not self.exists():
            open(self._s, 'w').close()

    def open(self, mode='r', *a, **k):
        return open(self._s, mode, *a, **k)

    def read_text(self, *a, **k):
        with open(self._s) as f:
            return f.read()

    def read_bytes(self):
        with open(self._s, 'rb') as f:
            return f.read()

    def write_text(self, s, *a, **k):
        with open(self._s, 'w') as f:
            f.write(s)
        return len(s)

    def write_bytes(self, s):
        with open(self._s, 'wb') as f:
            f.write(s)
        return len(s)

    def iterdir(self):
        return iter([self / n for n in os.listdir(self._s)])


PosixPath = PurePosixPath = Path
