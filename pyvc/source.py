"""Mechanical extraction: the functions that are verified are parsed from the
files of /repo on every run.  Dropped: docstrings and decorators that only
document or log (listed in DROPPED_DECORATORS); everything else is executed
by the symbolic interpreter as written."""
import ast
import builtins
import os

REPO = os.environ.get('NIMBLE_REPO', '/repo')


class ClassInfo:
    def __init__(self, node, module):
        self.node, self.module, self.name = node, module, node.name
        self.methods = {}
        self.attrs = {}
        for st in node.body:
            if isinstance(st, ast.FunctionDef):
                # keep a property's getter and its setter apart
                setter = any(isinstance(d, ast.Attribute)
                             and d.attr == 'setter'
                             for d in st.decorator_list)
                self.methods[st.name + ('.setter' if setter else '')] = st
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = st.value
        self._mro = None

    def bases(self, loader):
        out = []
        for b in self.node.bases:
            r = loader.resolve_expr(self.module, b)
            out.append(r)
        return out

    def mro(self, loader):
        if self._mro is None:
            seqs = []
            bases = self.bases(loader)
            for b in bases:
                if isinstance(b, ClassInfo):
                    seqs.append(list(b.mro(loader)))
                else:
                    seqs.append([b])
            seqs.append(list(bases))
            res = [self]
            while True:
                seqs = [s for s in seqs if s]
                if not seqs:
                    break
                for s in seqs:
                    c = s[0]
                    if not any(_in(c, t[1:]) for t in seqs):
                        break
                else:
                    c = seqs[0][0]
                res.append(c)
                for s in seqs:
                    if _same(s[0], c):
                        del s[0]
            self._mro = res
        return self._mro

    def __repr__(self):
        return f'<class {self.module.name}.{self.name}>'


def _same(a, b):
    return a is b or (isinstance(a, tuple) and a == b)


def _in(c, lst):
    return any(_same(c, x) for x in lst)


class Module:
    def __init__(self, name, path):
        self.name, self.path = name, path
        with open(path) as f:
            self.text = f.read()
        self.tree = ast.parse(self.text)
        self.defs = {}
        self.imports = {}
        self.assigns = {}
        self._scan(self.tree.body)
        self.cache = {}

    def _scan(self, body):
        for st in body:
            if isinstance(st, ast.FunctionDef):
                self.defs[st.name] = st
            elif isinstance(st, ast.ClassDef):
                self.defs[st.name] = ClassInfo(st, self)
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        self.imports[a.asname] = (a.name, None)
                    else:
                        self.imports[a.name.split('.')[0]] = (
                            a.name.split('.')[0], None)
            elif isinstance(st, ast.ImportFrom):
                base = self.relbase(st)
                for a in st.names:
                    self.imports[a.asname or a.name] = (base, a.name)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name) and not (
                            isinstance(st.value, ast.Name)
                            and st.value.id == t.id):
                        self.assigns[t.id] = st.value
            elif isinstance(st, (ast.If, ast.Try)):
                self._scan(st.body)

    def relbase(self, st):
        mod = st.module or ''
        if st.level:
            pkg = self.name.split('.')
            isinit = os.path.basename(self.path) == '__init__.py'
            up = st.level - (1 if isinit else 0)
            if up:
                pkg = pkg[:-up]
            mod = '.'.join(pkg + ([mod] if mod else []))
        return mod


class Loader:
    def __init__(self):
        self.mods = {}

    def path(self, name):
        p = os.path.join(REPO, *name.split('.'))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, '__init__.py')):
            return os.path.join(p, '__init__.py')
        if os.path.exists(p + '.py'):
            return p + '.py'
        return None

    def module(self, name):
        if name not in self.mods:
            p = self.path(name)
            self.mods[name] = Module(name, p) if p else None
        return self.mods[name]

    def lookup(self, mod, name, depth=0):
        """-> ('func', Module, node) | ClassInfo | ('mod', Module) |
        ('ext', dotted) | ('expr', Module, ast) | None"""
        if depth > 12:
            return None
        if name in mod.defs:
            d = mod.defs[name]
            return d if isinstance(d, ClassInfo) else ('func', mod, d)
        if name in mod.assigns:
            return ('expr', mod, mod.assigns[name], name)
        if name in mod.imports:
            base, attr = mod.imports[name]
            if attr is None:
                m = self.module(base) if self.path(base) else None
                return ('mod', m) if m else ('ext', base)
            if self.path(base):
                m = self.module(base)
                r = self.lookup(m, attr, depth + 1)
                if r is not None:
                    return r
                if self.path(base + '.' + attr):
                    return ('mod', self.module(base + '.' + attr))
                return ('ext', base + '.' + attr)
            return ('ext', base + '.' + attr)
        if self.path(mod.name + '.' + name) and \
                os.path.basename(mod.path) == '__init__.py':
            return ('mod', self.module(mod.name + '.' + name))
        return None

    def resolve_expr(self, mod, node):
        if isinstance(node, ast.Name):
            r = self.lookup(mod, node.id)
            if r is not None:
                return r
            if hasattr(builtins, node.id):
                return ('builtin', node.id)
            return ('ext', node.id)
        if isinstance(node, ast.Attribute):
            b = self.resolve_expr(mod, node.value)
            if isinstance(b, tuple) and b[0] == 'mod':
                return self.lookup(b[1], node.attr) or \
                    ('ext', b[1].name + '.' + node.attr)
            if isinstance(b, tuple) and b[0] == 'ext':
                return ('ext', b[1] + '.' + node.attr)
        return ('ext', ast.dump(node))

    def target(self, spec):
        """'nimble.core.tune:KFoldIterator.makeFoldList' -> (mod, cls, node)"""
        modname, path = spec.split(':')
        mod = self.module(modname)
        if mod is None:
            raise KeyError(f'module {modname} not in the repository')
        parts = path.split('.')
        if len(parts) == 1:
            r = self.lookup(mod, parts[0])
            if isinstance(r, tuple) and r[0] == 'func':
                return r[1], None, r[2]
            raise KeyError(spec)
        cls = mod.defs.get(parts[0])
        if not isinstance(cls, ClassInfo):
            raise KeyError(spec)
        node = cls.methods.get(parts[1])
        if node is None:
            # defined by a base class since: find it through the mro
            for c in cls.mro(self)[1:]:
                if isinstance(c, ClassInfo) and parts[1] in c.methods:
                    return c.module, c, c.methods[parts[1]]
            raise KeyError(spec)
        return mod, cls, node
