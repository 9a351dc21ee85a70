class StringIO:
    def __init__(self, initial_value='', newline='\n'):
        self.buf = initial_value
        self.pos = 0
        self.closed = False

    def _open(self):
        if self.closed:
            raise ValueError('I/O operation on closed file')

    def write(self, s):
        self._open()
        if not isinstance(s, str):
            raise TypeError('string argument expected, got %r' % type(s).__name__)
        self.buf = self.buf[:self.pos] + s + self.buf[self.pos + len(s):]
        self.pos += len(s)
        return len(s)

    def writelines(self, xs):
        for x in xs:
            self.write(x)

    def getvalue(self):
        self._open()
        return self.buf

    def read(self, n=-1):
        self._open()
        r = self.buf[self.pos:] if n is None or n < 0 else self.buf[self.pos:self.pos + n]
        self.pos += len(r)
        return r

    def readline(self):
        i = self.buf.find('\n', self.pos)
        return self.read() if i < 0 else self.read(i + 1 - self.pos)

    def readlines(self):
        return self.read().splitlines(True)

    def __iter__(self):
        return iter(self.readlines())

    def seek(self, p, whence=0):
        self.pos = p if whence == 0 else len(self.buf) + p if whence == 2 else self.pos + p
        return self.pos

    def tell(self):
        return self.pos

    def truncate(self, n=None):
        self.buf = self.buf[:self.pos if n is None else n]

    def flush(self):
        pass

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


open = open
TextIOWrapper = TextIOBase = IOBase = StringIO
