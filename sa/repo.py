"""Loads /repo/PyNite from source (ast only - nothing is imported or executed)."""
import ast, os, hashlib, glob

ROOT = os.environ.get('PYNITE_ROOT', '/repo')
PKG = 'PyNite'


class AnalysisBroken(Exception):
    pass


class Func:
    __slots__ = ('qual', 'name', 'node', 'mod', 'cls', 'static', 'prop', 'classm')

    def __init__(self, qual, node, mod, cls=None):
        self.qual, self.name, self.node, self.mod, self.cls = qual, node.name, node, mod, cls
        d = [dec(x) for x in node.decorator_list]
        self.static = 'staticmethod' in d
        self.classm = 'classmethod' in d
        self.prop = 'property' in d or any(x in ('cached_property', 'functools.cached_property') for x in d)

    def __repr__(self):
        return '<%s>' % self.qual

    @property
    def where(self):
        return '%s:%d' % (self.mod.path, self.node.lineno)


def dec(x):
    try:
        return ast.unparse(x)
    except Exception:
        return '?'


class Class:
    def __init__(self, name, node, mod):
        self.name, self.node, self.mod = name, node, mod
        self.bases = [dec(b).split('.')[-1] for b in node.bases]
        self.methods = {}
        self.consts = {}
        for s in node.body:
            if isinstance(s, ast.FunctionDef):
                if any(dec(d).endswith('.setter') or dec(d).endswith('.deleter') for d in s.decorator_list):
                    self.methods[s.name + '.setter'] = Func('%s.%s.setter' % (name, s.name), s, mod, self)
                    continue
                self.methods[s.name] = Func('%s.%s' % (name, s.name), s, mod, self)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.consts[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                self.consts[s.target.id] = s.value


class Module:
    def __init__(self, name, path, tree, src):
        self.name, self.path, self.tree, self.src = name, path, tree, src
        self.funcs, self.classes, self.imports, self.consts = {}, {}, {}, {}
        for s in self._top(tree.body):
            if isinstance(s, ast.FunctionDef):
                self.funcs[s.name] = Func('%s.%s' % (name, s.name), s, self)
            elif isinstance(s, ast.ClassDef):
                self.classes[s.name] = Class(s.name, s, self)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    self.imports[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
            elif isinstance(s, ast.ImportFrom):
                for a in s.names:
                    base = s.module or ''
                    if s.level:
                        base = PKG + ('.' + base if base else '')
                    self.imports[a.asname or a.name] = base + '.' + a.name
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.consts[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                self.consts[s.target.id] = s.value

    def _top(self, body):
        for s in body:
            if isinstance(s, (ast.If, ast.Try)):
                yield from self._top(s.body)
                yield from self._top(s.orelse)
                for h in getattr(s, 'handlers', ()):
                    yield from self._top(h.body)
            else:
                yield s


class Repo:
    def __init__(self, root=None):
        self.root = root or ROOT
        self.modules, self.classes = {}, {}
        self.digest = hashlib.sha256()
        pk = os.path.join(self.root, PKG)
        if not os.path.isdir(pk):
            raise AnalysisBroken('package directory %s not found' % pk)
        for p in sorted(glob.glob(os.path.join(pk, '**', '*.py'), recursive=True)):
            rel = os.path.relpath(p, self.root)
            name = os.path.splitext(os.path.relpath(p, pk))[0].replace(os.sep, '.')
            if not all(x.isidentifier() for x in name.split('.')):
                continue  # "Plastic Beam.py" is a scratch script that cannot be imported
            with open(p, encoding='utf-8') as f:
                src = f.read()
            self.digest.update(src.encode())
            try:
                import warnings
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    tree = ast.parse(src, rel)
            except SyntaxError as e:
                raise AnalysisBroken('cannot parse %s: %s' % (rel, e))
            m = Module(name, rel, tree, src)
            self.modules[name] = m
            for c in m.classes.values():
                if c.name in self.classes and name == 'MITC4':
                    continue
                self.classes[c.name] = c
        self.nfuncs = sum(len(m.funcs) + sum(len(c.methods) for c in m.classes.values()) for m in self.modules.values())

    def add_spec(self, name):
        """Load a reference definition (/verif/spec/<name>.py) next to the repository's modules."""
        key = 'spec_' + name
        if key not in self.modules:
            p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec', name + '.py')
            with open(p) as f:
                src = f.read()
            self.modules[key] = Module(key, 'spec/%s.py' % name, ast.parse(src, p), src)
        return key

    def mro(self, cls):
        out, todo = [], [cls]
        while todo:
            c = todo.pop(0)
            k = self.classes.get(c)
            if k is None or k in out:
                continue
            out.append(k)
            todo.extend(k.bases)
        return out

    def method(self, cls, name):
        for c in self.mro(cls):
            if name in c.methods:
                return c.methods[name]
        return None

    def has(self, qual):
        try:
            return self.need(qual) is not None
        except AnalysisBroken:
            return False

    def need(self, qual):
        """The Func named 'Class.method' or 'Module.function'; a vanished anchor is an analysis error."""
        a, b = qual.split('.')
        if a in self.classes:
            f = self.method(a, b)
            if f is not None:
                return f
        if a in self.modules:
            m = self.modules[a]
            if b in m.funcs:
                return m.funcs[b]
            # re-exported / moved module-level function
            t = m.imports.get(b)
            if t and t.startswith(PKG + '.'):
                mm, ff = t.split('.')[-2:]
                if mm in self.modules and ff in self.modules[mm].funcs:
                    return self.modules[mm].funcs[ff]
        raise AnalysisBroken('anchor %s not found in %s' % (qual, self.root))

    def is_a(self, cls, base):
        return any(c.name == base for c in self.mro(cls))
