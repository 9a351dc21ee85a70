"""Source access: parses /repo's working tree; nothing is imported or executed."""
import ast
import hashlib
import os
import warnings


class Project:
    def __init__(self, root='/repo'):
        self.root = root
        self.cache = {}
        self.consulted = {}

    def path_of(self, name):
        rel = name.replace('.', '/')
        for cand in (rel + '.py', rel + '/__init__.py'):
            p = os.path.join(self.root, cand)
            if os.path.isfile(p):
                return p
        return None

    def is_local(self, name):
        return os.path.exists(os.path.join(self.root, name.split('.')[0])) or \
            os.path.exists(os.path.join(self.root, name.split('.')[0] + '.py'))

    def find(self, name):
        if name in self.cache:
            return self.cache[name]
        p = self.path_of(name)
        if p is None:
            self.cache[name] = None
            return None
        with open(p, 'rb') as f:
            src = f.read()
        self.consulted[os.path.relpath(p, self.root)] = hashlib.sha256(src).hexdigest()[:16]
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            tree = ast.parse(src, p)
        r = (tree, os.path.relpath(p, self.root))
        self.cache[name] = r
        return r

    def all_modules(self, packages=('b3', 'ikbtbasics', 'ikbtfunctions', 'ikbtleaves'), extra=('ikSolver', 'fkOnly')):
        out = []
        for pk in packages:
            for d, dirs, files in os.walk(os.path.join(self.root, pk)):
                dirs.sort()
                for f in sorted(files):
                    if f.endswith('.py'):
                        rel = os.path.relpath(os.path.join(d, f), self.root)[:-3]
                        m = rel.replace('/', '.')
                        if m.endswith('.__init__'):
                            m = m[:-9]
                        out.append(m)
        return out + [e for e in extra if self.path_of(e)]
