"""Program model of /repo/dcf: modules, imports, classes, MRO, functions.

Everything is read from the syntax trees of the current sources; nothing is
imported or executed."""
import ast
import os


class AnalysisBroken(Exception):
    """an anchor of the analysis vanished: no verdict is possible"""


class Func(object):
    def __init__(self, node, module, cls=None, kind='func'):
        self.node, self.module, self.cls, self.kind = node, module, cls, kind
        self.name = node.name if hasattr(node, 'name') else '<lambda>'
        self.qual = (cls.name + '.' if cls else '') + self.name

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    def where(self, node=None):
        n = node or self.node
        return '%s:%d' % (self.module.rel, n.lineno)

    def __repr__(self):
        return '<Func %s>' % self.qual


class Class(object):
    def __init__(self, node, module, outer=None):
        self.node, self.module, self.outer = node, module, outer
        self.name = (outer.name + '.' if outer else '') + node.name
        self.methods, self.props, self.setters = {}, {}, {}
        self.attrs, self.inner = {}, {}
        self.base_nodes = node.bases
        self.bases = []

    def where(self):
        return '%s:%d' % (self.module.rel, self.node.lineno)


class Module(object):
    def __init__(self, name, path, rel, tree, src):
        self.name, self.path, self.rel = name, path, rel
        self.tree, self.src = tree, src
        self.names = {}     # name -> Func | Class | ('const', node) |
        #                             ('ref', module, name) | ('mod', name)


MUTATORS = {'append', 'extend', 'insert', 'pop', 'remove', 'sort', 'reverse',
            'update', 'clear', 'setdefault', 'add', 'discard'}


class Program(object):
    _mutators = None

    def mutators(self):
        """names of functions that may change a container they are given"""
        if self._mutators is None:
            out, fns = set(), []
            for m in self.modules.values():
                fns += [n for n in ast.walk(m.tree)
                        if isinstance(n, ast.FunctionDef)]

            def root(e):
                while isinstance(e, ast.Subscript):
                    e = e.value
                return e.id if isinstance(e, ast.Name) else None

            def changes(f):
                ps = {x.arg for x in f.args.posonlyargs + f.args.args +
                      f.args.kwonlyargs} - {'self', 'cls'}
                for n in ast.walk(f):
                    if isinstance(n, ast.Subscript) and not isinstance(
                            n.ctx, ast.Load) and root(n) in ps:
                        return True
                    if not isinstance(n, ast.Call):
                        continue
                    if isinstance(n.func, ast.Attribute) and \
                            n.func.attr in MUTATORS and \
                            root(n.func.value) in ps:
                        return True
                    g = n.func.id if isinstance(n.func, ast.Name) else \
                        n.func.attr if isinstance(n.func, ast.Attribute) \
                        else None
                    if g in out and any(root(a) in ps for a in n.args +
                                        [k.value for k in n.keywords]):
                        return True
                return False
            todo = True
            while todo:
                todo = False
                for f in fns:
                    if f.name not in out and f.name != '__init__' and \
                            changes(f):
                        out.add(f.name)
                        todo = True
            self._mutators = out
        return self._mutators

    def __init__(self, root, package='dcf'):
        self.root, self.package = root, package
        self.modules, self.classes, self.funcs = {}, {}, []
        base = os.path.join(root, package)
        if not os.path.isdir(base):
            raise AnalysisBroken('package directory %s is missing' % base)
        for d, dirs, files in os.walk(base):
            dirs.sort()
            if '__pycache__' in dirs:
                dirs.remove('__pycache__')
            for f in sorted(files):
                if f.endswith('.py'):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, root)
                    mod = rel[:-3].replace(os.sep, '.')
                    if mod.endswith('.__init__'):
                        mod = mod[:-9]
                    src = open(p, encoding='utf-8').read()
                    try:
                        tree = ast.parse(src, p)
                    except SyntaxError as e:
                        raise AnalysisBroken('%s does not parse: %s' % (p, e))
                    self.modules[mod] = Module(mod, p, rel, tree, src)
        for m in self.modules.values():
            self._collect(m)
        for c in list(self.classes.values()):
            for b in c.base_nodes:
                r = self.resolve_expr(c.module, b)
                if isinstance(r, Class):
                    c.bases.append(r)
                else:
                    c.bases.append(ast.unparse(b))

    # ------------------------------------------------------------ collect --
    def _collect(self, m):
        def imports(node):
            if isinstance(node, ast.Import):
                for a in node.names:
                    m.names[a.asname or a.name.split('.')[0]] = (
                        'mod', a.name if a.asname else a.name.split('.')[0])
            elif isinstance(node, ast.ImportFrom):
                src = node.module or ''
                if node.level:
                    parts = m.name.split('.')
                    ispkg = m.path.endswith('__init__.py')
                    up = node.level - (1 if ispkg else 0)
                    parts = parts[:len(parts) - up]
                    src = '.'.join(parts + ([src] if src else []))
                for a in node.names:
                    m.names[a.asname or a.name] = ('ref', src, a.name)

        def top(body):
            for n in body:
                if isinstance(n, (ast.Import, ast.ImportFrom)):
                    imports(n)
                elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    f = Func(n, m)
                    m.names[n.name] = f
                    self.funcs.append(f)
                elif isinstance(n, ast.ClassDef):
                    m.names[n.name] = self._class(n, m)
                elif isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Name):
                            m.names[t.id] = ('const', n.value)
                        elif isinstance(t, ast.Tuple):
                            for i, e in enumerate(t.elts):
                                if isinstance(e, ast.Name):
                                    m.names[e.id] = ('const', n.value)
                elif isinstance(n, ast.AnnAssign):
                    if isinstance(n.target, ast.Name) and n.value:
                        m.names[n.target.id] = ('const', n.value)
                elif isinstance(n, ast.Try):
                    top(n.body)
                    for h in n.handlers:
                        for x in h.body:
                            if isinstance(x, (ast.Import, ast.ImportFrom)):
                                imports(x)
                    top(n.orelse)
                    top(n.finalbody)
                elif isinstance(n, ast.If):
                    top(n.body)
                    top(n.orelse)
        top(m.tree.body)

    def _class(self, n, m, outer=None):
        c = Class(n, m, outer)
        self.classes[c.name] = c
        for x in n.body:
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                kind = 'method'
                for d in x.decorator_list:
                    t = ast.unparse(d)
                    if t == 'property':
                        kind = 'property'
                    elif t == 'staticmethod':
                        kind = 'static'
                    elif t == 'classmethod':
                        kind = 'classmethod'
                    elif t.endswith('.setter'):
                        kind = 'setter'
                    else:
                        kind = 'decorated'
                f = Func(x, m, c, kind)
                self.funcs.append(f)
                if kind == 'property':
                    c.props[x.name] = f
                elif kind == 'setter':
                    c.setters[x.name] = f
                else:
                    c.methods[x.name] = f
            elif isinstance(x, ast.Assign):
                for t in x.targets:
                    if isinstance(t, ast.Name):
                        c.attrs[t.id] = x.value
            elif isinstance(x, ast.AnnAssign):
                if isinstance(x.target, ast.Name) and x.value:
                    c.attrs[x.target.id] = x.value
            elif isinstance(x, ast.ClassDef):
                c.inner[x.name] = self._class(x, m, c)
        return c

    def digest(self):
        import hashlib
        h = hashlib.sha256()
        for k in sorted(self.modules):
            if k.startswith(self.package):
                h.update(self.modules[k].src.encode())
        return h.hexdigest()[:16]

    def byname(self):
        if getattr(self, '_byname', None) is None:
            self._byname = {}
            for f in self.funcs:
                self._byname.setdefault(f.name, []).append(f)
        return self._byname

    # ------------------------------------------------------------ resolve --
    def lookup(self, module, name, depth=0):
        if depth > 10:
            return None
        v = module.names.get(name)
        if isinstance(v, tuple) and v[0] == 'ref':
            src = self.modules.get(v[1])
            if src is not None:
                sub = self.modules.get(v[1] + '.' + v[2])
                if sub is not None and src.names.get(v[2]) in (
                        None, ('ref', v[1], v[2])):
                    return ('repomod', sub)
                if v[2] in src.names:
                    return self.lookup(src, v[2], depth + 1)
                sub = self.modules.get(v[1] + '.' + v[2])
                if sub is not None:
                    return ('repomod', sub)
                return None
            sub = self.modules.get(v[1] + '.' + v[2])
            if sub is not None:
                return ('repomod', sub)
            return ('ext', v[1] + '.' + v[2])
        if isinstance(v, tuple) and v[0] == 'mod':
            sub = self.modules.get(v[1])
            if sub is not None:
                return ('repomod', sub)
            return ('extmod', v[1])
        if isinstance(v, tuple) and v[0] == 'const':
            return ('const', v[1], module)
        return v

    def resolve_expr(self, module, node):
        if isinstance(node, ast.Name):
            return self.lookup(module, node.id)
        if isinstance(node, ast.Attribute):
            b = self.resolve_expr(module, node.value)
            if isinstance(b, tuple) and b[0] == 'repomod':
                return self.lookup(b[1], node.attr)
            if isinstance(b, Class):
                return b.inner.get(node.attr)
        return None

    def mro(self, c):
        """linearisation (C3) over the resolved repository classes"""
        def merge(seqs):
            out = []
            seqs = [list(s) for s in seqs if s]
            while seqs:
                for s in seqs:
                    h = s[0]
                    if not any(h in t[1:] for t in seqs):
                        break
                else:
                    raise AnalysisBroken('inconsistent MRO of %s' % c.name)
                out.append(h)
                seqs = [[x for x in t if x is not h] for t in seqs]
                seqs = [t for t in seqs if t]
            return out
        bases = [b for b in c.bases if isinstance(b, Class)]
        return [c] + merge([self.mro(b) for b in bases] + [bases])

    def external_bases(self, c):
        out = set()
        for k in self.mro(c):
            for b in k.bases:
                if not isinstance(b, Class) and b != 'object':
                    out.add(b)
        return out

    def find(self, c, name, after=None):
        """first definition of attribute name in the MRO of c"""
        mro = self.mro(c)
        if after is not None:
            mro = mro[mro.index(after) + 1:]
        for k in mro:
            for tab, tag in ((k.props, 'property'), (k.methods, 'method'),
                             (k.attrs, 'attr'), (k.inner, 'inner')):
                if name in tab:
                    return tag, k, tab[name]
        return None

    def find_setter(self, c, name):
        for k in self.mro(c):
            if name in k.setters:
                return k, k.setters[name]
        return None

    def cls(self, name):
        if name not in self.classes:
            raise AnalysisBroken('class %s is missing' % name)
        return self.classes[name]

    def subclass(self, c, names):
        for k in self.mro(c):
            if k.name in names:
                return True
        return bool(self.external_bases(c) & set(names))

    def instance_attrs(self, c):
        """names of attributes stored on self somewhere in the MRO"""
        out = set()
        for k in self.mro(c):
            for f in list(k.methods.values()) + list(k.setters.values()):
                if not f.params():
                    continue
                s = f.params()[0]
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Attribute) and isinstance(
                            n.ctx, ast.Store) and isinstance(
                            n.value, ast.Name) and n.value.id == s:
                        out.add(n.attr)
        return out

    def func(self, modname, name):
        """function or class.method anchor"""
        m = self.modules.get(modname)
        if m is None:
            raise AnalysisBroken('module %s is missing' % modname)
        if '.' in name:
            cn, fn = name.rsplit('.', 1)
            c = self.cls(cn)
            r = self.find(c, fn)
            if r is None or r[0] not in ('method', 'property'):
                raise AnalysisBroken('%s.%s is missing' % (modname, name))
            return r[2]
        f = self.lookup(m, name)
        if not isinstance(f, Func):
            raise AnalysisBroken('%s.%s is missing' % (modname, name))
        return f
