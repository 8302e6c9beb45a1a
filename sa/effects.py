"""Interprocedural write effects over the syntax trees.

Every expression is abstracted to the roots (parameters, module variables,
classes) it may be part of; writes to rooted objects are events with the
statement they happen in, summaries are propagated over the call graph to a
fixpoint (class hierarchy analysis by method name)."""
import ast

from model import Class, Func

FRESH = {'list', 'tuple', 'sorted', 'set', 'dict', 'zip', 'map', 'filter',
         'reversed', 'enumerate', 'frozenset', 'iter', 'OrderedDict',
         'deque', 'defaultdict', 'chain'}
PICK = {'max', 'min', 'next', 'getattr', 'vars', 'sum'}
MUTATORS = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'update',
            'sort', 'setdefault', 'add', 'reverse', 'popitem', 'discard',
            'appendleft', 'popleft', '__setitem__', '__delitem__',
            '__setattr__', 'difference_update', 'intersection_update'}
NONE = (frozenset(), frozenset())


def join(a, b):
    if a is b or b == NONE:
        return a
    if a == NONE:
        return b
    return a[0] | b[0], a[1] | b[1]


def elem(a):
    return a[0] | a[1], frozenset()


class Event(object):
    def __init__(self, root, attr, node, stmts, func, via=None, base=None,
                 path=(), val=NONE):
        self.val = val
        self.root, self.attr, self.node = root, attr, node
        self.stmts, self.func, self.via = stmts, func, via
        self.base, self.path = base, path

    def where(self):
        return '%s:%s line %d' % (self.func.module.rel, self.func.qual,
                                  self.node.lineno)


class Effects(object):
    def __init__(self, prog):
        self.p = prog
        self.writes = {}        # Func -> {(param, attr): Event}
        self.events = {}        # Func -> [Event]
        self.shallow = {}       # Func -> keys of writes to the very argument
        self.rets = {}          # Func -> AbsVal over 'p:x' roots
        self.methods = {}       # name -> [Func]
        self.props = {}
        self.stored = {n.attr for m in prog.modules.values()
                       for n in ast.walk(m.tree)
                       if isinstance(n, ast.Attribute) and
                       isinstance(n.ctx, ast.Store)}
        self.subs = {}
        for c in prog.classes.values():
            for n, f in c.methods.items():
                self.methods.setdefault(n, []).append(f)
            for n, f in c.props.items():
                self.props.setdefault(n, []).append(f)
            for k in prog.mro(c):
                self.subs.setdefault(k, []).append(c)
        self.filter = None      # Func, [Event] -> [Event] kept in summary
        self.fix()

    def fix(self):
        fs = self.p.funcs
        for f in fs:
            self.writes[f], self.rets[f] = {}, NONE
        for i in range(12):
            changed = False
            for f in fs:
                ev, ret = Walk(self, f).run()
                self.events[f] = ev
                w = {}
                deep, own = set(), set(f.params()) - {
                    n.id for n in ast.walk(f.node) if isinstance(n, ast.Name)
                    and isinstance(n.ctx, ast.Store)}
                for e in unprotected(self, f, ev):
                    w.setdefault((e.root, e.attr), e)
                    if e.via is not None or not isinstance(
                            e.base, ast.Name) or e.base.id not in own or \
                            e.root != 'p:' + e.base.id:
                        deep.add((e.root, e.attr))
                self.shallow[f] = set(w) - deep
                if set(w) != set(self.writes[f]) or ret != self.rets[f]:
                    changed = True
                self.writes[f], self.rets[f] = w, ret
            if not changed:
                break

    def callees(self, walk, node, env):
        """[(func, receiver AbsVal or None, skip first param?)], class"""
        p, f = self.p, walk.f
        fn = node.func
        if isinstance(fn, ast.Name):
            if fn.id in env and not isinstance(env.get(fn.id), tuple):
                return [], None
            if fn.id in walk.locals:
                return [(m, env.get(fn.id, NONE), True)
                        for m in self.methods.get('__call__', ())], None
            r = p.lookup(f.module, fn.id)
            if isinstance(r, Func):
                return [(r, None, False)], None
            if isinstance(r, Class):
                return [], r
            return [], None
        if isinstance(fn, ast.Attribute):
            b = fn.value
            if isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and \
                    b.func.id == 'super' and f.cls is not None:
                r = p.find(f.cls, fn.attr, after=f.cls)
                if r and r[0] in ('method', 'property'):
                    return [(r[2], walk.selfval(env), True)], None
                return [], None
            r = p.resolve_expr(f.module, fn)
            if isinstance(r, Func):
                return [(r, None, False)], None
            if isinstance(r, Class):
                return [], r
            rv = p.resolve_expr(f.module, b) if isinstance(
                b, (ast.Name, ast.Attribute)) else None
            if isinstance(rv, Class) and not (
                    isinstance(b, ast.Name) and b.id in walk.locals):
                m = p.find(rv, fn.attr)
                if m and m[0] == 'method':
                    return [(m[2], None, m[2].kind == 'classmethod')], None
            v = walk.expr(b, env)
            if isinstance(b, ast.Name) and f.cls is not None and \
                    f.params() and b.id == f.params()[0] and \
                    f.kind in ('method', 'property', 'setter'):
                ks = self.subs.get(f.cls, [f.cls])
                out = []
                for k in ks:
                    m = p.find(k, fn.attr)
                    if m and m[0] == 'method' and m[2] not in out:
                        out.append(m[2])
                return [(m, v, m.kind != 'static') for m in out], None
            return [(m, v, m.kind != 'static')
                    for m in self.methods.get(fn.attr, ())], None
        return [], None


class Walk(object):
    def __init__(self, eff, func):
        self.e, self.f = eff, func
        self.events, self.ret = [], NONE
        self.stack = []
        self.depth = 0
        self.locals = {n.id for n in ast.walk(func.node)
                       if isinstance(n, ast.Name) and isinstance(
                           n.ctx, ast.Store)}
        a = func.node.args
        self.params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        for x in (a.vararg, a.kwarg):
            if x is not None:
                self.params.append(x.arg)
        self.locals |= set(self.params)
        self.globals = {g for n in ast.walk(func.node)
                        if isinstance(n, ast.Global) for g in n.names}
        self.locals -= self.globals

    def selfval(self, env):
        ps = self.f.params()
        return env.get(ps[0], NONE) if ps else NONE

    def run(self):
        env = {}
        for x in self.params:
            env[x] = (frozenset(['p:' + x]), frozenset())
        a = self.f.node.args
        for x in (a.vararg, a.kwarg):
            if x is not None:       # own container, caller's elements
                env[x.arg] = (frozenset(), frozenset(['p:' + x.arg]))
        self.block(self.f.node.body, env)
        return self.events, self.ret

    # ------------------------------------------------------------ events --
    def event(self, roots, attr, node, via=None, base=None, path=(),
              val=NONE):
        for r in roots:
            self.events.append(Event(r, attr, node, tuple(self.stack),
                                     self.f, via, base, path, val))

    def write(self, t, val, env):
        if isinstance(t, ast.Name):
            if t.id in self.globals:
                self.event(['g:' + t.id], '=', t)
            env[t.id] = val
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.write(x, elem(val) if not isinstance(
                    x, ast.Starred) else (frozenset(), elem(val)[0]), env)
        elif isinstance(t, ast.Starred):
            self.write(t.value, val, env)
        elif isinstance(t, ast.Attribute):
            b = self.expr(t.value, env)
            self.event(b[0], t.attr, t, base=t.value, val=val)
            self.expand(t.value, b, val, env)
        elif isinstance(t, ast.Subscript):
            b = self.expr(t.value, env)
            self.expr(t.slice, env)
            self.event(b[0], self.sub(t.value), t, base=t.value)
            self.expand(t.value, b, val, env)

    def expand(self, node, b, val, env):
        """a fresh local container now holds val"""
        while isinstance(node, (ast.Attribute, ast.Subscript)):
            node = node.value
        if isinstance(node, ast.Name) and node.id in env and isinstance(
                env[node.id], tuple) and (val[0] or val[1]):
            v = env[node.id]
            if not v[0]:
                env[node.id] = v[0], v[1] | val[0] | val[1]

    @staticmethod
    def sub(node):
        if isinstance(node, ast.Attribute):
            return node.attr + '[]'
        return '[]'

    # ------------------------------------------------------- expressions --
    def expr(self, n, env):
        if n is None or isinstance(n, ast.Constant):
            return NONE
        m = getattr(self, 'x_' + type(n).__name__, None)
        if m is not None:
            return m(n, env)
        out = NONE
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.expr):
                out = join(out, self.expr(c, env))
        return out

    def x_Name(self, n, env):
        v = env.get(n.id)
        if v is None:
            if n.id in self.locals:
                return NONE
            r = self.e.p.lookup(self.f.module, n.id)
            if isinstance(r, tuple) and r[0] == 'const':
                return frozenset(['g:' + n.id]), frozenset()
            if isinstance(r, Class):
                return frozenset(['g:' + r.name]), frozenset()
            return NONE
        if not isinstance(v, tuple):        # closure: its effects happen here
            self.closure(v, env)
            return NONE
        return v

    def closure(self, node, env):
        if self.depth > 3:
            return
        self.depth += 1
        e = dict(env)
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            e[x.arg] = NONE
        if isinstance(node, ast.Lambda):
            self.expr(node.body, e)
        else:
            keep = self.ret
            stack, self.stack = self.stack, list(self.stack)
            self.block(node.body, e, push=False)
            self.stack = stack
            self.ret = keep
        self.depth -= 1

    def x_Lambda(self, n, env):
        self.closure(n, env)
        return NONE

    def x_Attribute(self, n, env):
        b = self.expr(n.value, env)
        if n.attr == '__class__' and b[0]:
            return frozenset('c:' + r for r in b[0]), frozenset()
        out = NONE
        for f in self.e.props.get(n.attr, ()):
            out = join(out, self.apply(f, [b], {}, n))
        if n.attr in self.e.props and n.attr not in self.e.stored:
            return out
        return b[0] | b[1], frozenset()

    def x_Subscript(self, n, env):
        b = self.expr(n.value, env)
        self.expr(n.slice, env)
        if b[0]:
            for f in self.e.methods.get('__getitem__', ()):
                self.apply(f, [b], {}, n)
        if isinstance(n.slice, ast.Slice):
            return b[0], b[0] | b[1]
        return elem(b)

    def x_Starred(self, n, env):
        return self.expr(n.value, env)

    def disp(self, elts, env):
        out = NONE
        for x in elts:
            v = self.expr(x, env)
            out = join(out, v)
        return frozenset(), out[0] | out[1]

    def x_List(self, n, env):
        return self.disp(n.elts, env)
    x_Tuple = x_Set = x_List

    def x_Dict(self, n, env):
        return self.disp([k for k in n.keys if k] + n.values, env)

    def comp(self, n, elts, env):
        e = dict(env)
        for g in n.generators:
            v = self.expr(g.iter, e)
            self.write(g.target, elem(v), e)
            for i in g.ifs:
                self.expr(i, e)
        return self.disp(elts, e)

    def x_ListComp(self, n, env):
        return self.comp(n, [n.elt], env)
    x_SetComp = x_GeneratorExp = x_ListComp

    def x_DictComp(self, n, env):
        return self.comp(n, [n.key, n.value], env)

    def x_BinOp(self, n, env):
        a, b = self.expr(n.left, env), self.expr(n.right, env)
        return frozenset(), a[0] | a[1] | b[0] | b[1]

    def x_Compare(self, n, env):
        self.expr(n.left, env)
        for c in n.comparators:
            self.expr(c, env)
        return NONE

    def x_UnaryOp(self, n, env):
        self.expr(n.operand, env)
        return NONE

    def x_JoinedStr(self, n, env):
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                self.expr(v.value, env)
        return NONE

    def x_IfExp(self, n, env):
        self.expr(n.test, env)
        return join(self.expr(n.body, env), self.expr(n.orelse, env))

    def x_NamedExpr(self, n, env):
        v = self.expr(n.value, env)
        self.write(n.target, v, env)
        return v

    def x_Yield(self, n, env):
        v = self.expr(n.value, env) if n.value else NONE
        self.ret = join(self.ret, (frozenset(), v[0] | v[1]))
        return NONE

    def x_YieldFrom(self, n, env):
        v = self.expr(n.value, env)
        self.ret = join(self.ret, (frozenset(), v[0] | v[1]))
        return NONE

    def x_Call(self, n, env):
        args = [self.expr(a, env) for a in n.args]
        kws = {k.arg: self.expr(k.value, env) for k in n.keywords}
        allv = NONE
        for v in list(args) + list(kws.values()):
            allv = join(allv, v)
        name = n.func.id if isinstance(n.func, ast.Name) else None
        if name is not None and name in env and not isinstance(
                env[name], tuple):
            self.closure(env[name], env)
            return NONE
        if isinstance(n.func, ast.Attribute):
            recv = self.expr(n.func.value, env)
            if n.func.attr in MUTATORS:
                self.event(recv[0], self.sub(n.func.value)[:-2] + '.' +
                           n.func.attr, n, base=n.func.value)
                self.expand(n.func.value, recv, allv, env)
        elif name is None:
            recv = self.expr(n.func, env)
        else:
            recv = NONE
        if name == 'setattr' and len(n.args) == 3:
            a = n.args[1]
            self.event(args[0][0], a.value if isinstance(
                a, ast.Constant) else '?', n, base=n.args[0])
            return NONE
        if name == 'delattr':
            self.event(args[0][0], '?', n, base=n.args[0])
            return NONE
        if name in FRESH and name not in self.locals:
            return frozenset(), allv[0] | allv[1]
        if name in PICK and name not in self.locals:
            return elem(allv)
        fs, cls = self.e.callees(self, n, env)
        if cls is not None:
            r = self.e.p.find(cls, '__init__')
            if r and r[0] == 'method':
                self.apply(r[2], [NONE] + args, kws, n)
            return frozenset(), allv[0] | allv[1]
        out = NONE
        for f, rv, skip in fs:
            if skip is False:
                for x, v in zip(f.params(), n.args):
                    if any(r == 'p:' + x for r, _ in self.e.shallow.get(
                            f, ())):
                        self.expand(v, self.expr(v, env), allv, env)
            out = join(out, self.apply(
                f, ([rv if rv is not None else NONE] if skip else []) + args,
                kws, n))
        if isinstance(n.func, ast.Attribute) and n.func.attr in (
                'get', 'values', 'items', 'keys', 'copy', '__getitem__',
                'setdefault', 'pop'):
            # may hand out parts of the receiver
            return join(out, elem(recv))
        return out

    def apply(self, f, args, kws, node):
        """effects of calling f with these arguments"""
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        m = {}
        for i, v in enumerate(args):
            if i < len(names):
                m[names[i]] = v
            elif a.vararg:
                m[a.vararg.arg] = join(m.get(a.vararg.arg, NONE), v)
        for k, v in kws.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                m[k] = v
            elif a.kwarg:
                m[a.kwarg.arg] = join(m.get(a.kwarg.arg, NONE), v)
        if f is not self.f:
            for (root, attr), ev in self.e.writes[f].items():
                if root.startswith('p:'):
                    v = m.get(root[2:], NONE)
                    rs = v[0] if (root, attr) in self.e.shallow.get(
                        f, ()) else v[0] | v[1]
                    self.event(rs, attr, node, via=ev)
                elif root.startswith('c:p:'):
                    v = m.get(root[4:], NONE)
                    self.event(['c:' + r for r in v[0]], attr, node, via=ev)
                else:
                    self.event([root], attr, node, via=ev)
        own, el = frozenset(), frozenset()
        ro, re = self.e.rets[f]
        for r in ro:
            v = m.get(r[2:], NONE) if r.startswith('p:') else (
                frozenset([r]), frozenset())
            own |= v[0] | v[1]
        for r in re:
            v = m.get(r[2:], NONE) if r.startswith('p:') else (
                frozenset([r]), frozenset())
            el |= v[0] | v[1]
        return own, el

    # -------------------------------------------------------- statements --
    def block(self, body, env, push=True):
        for i, s in enumerate(body):
            if push:
                self.stack.append((body, i, s))
            self.stmt(s, env, push)
            if push:
                self.stack.pop()

    def stmt(self, s, env, push=True):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            env[s.name] = s
            self.locals.add(s.name)
            return
        if isinstance(s, ast.Assign):
            if isinstance(s.value, ast.Lambda):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        env[t.id] = s.value
                return
            v = self.expr(s.value, env)
            for t in s.targets:
                if isinstance(t, (ast.Tuple, ast.List)) and isinstance(
                        s.value, (ast.Tuple, ast.List)) and len(
                        t.elts) == len(s.value.elts):
                    for x, y in zip(t.elts, s.value.elts):
                        self.write(x, self.expr(y, env), env)
                else:
                    self.write(t, v, env)
        elif isinstance(s, ast.AnnAssign):
            if s.value:
                self.write(s.target, self.expr(s.value, env), env)
        elif isinstance(s, ast.AugAssign):
            v = self.expr(s.value, env)
            t = s.target
            if isinstance(t, ast.Name):
                o = env.get(t.id, NONE)
                if isinstance(o, tuple):
                    if isinstance(s.value, (ast.List, ast.ListComp)) or (
                            isinstance(s.value, ast.Call) and isinstance(
                                s.value.func, ast.Name) and
                            s.value.func.id in FRESH):
                        self.event(o[0], '+=', t, base=t)
                    env[t.id] = o[0], o[1] | v[0] | v[1]
                if t.id in self.globals:
                    self.event(['g:' + t.id], '=', t)
            else:
                self.write(t, v, env)
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, (ast.Attribute, ast.Subscript)):
                    b = self.expr(t.value, env)
                    self.event(b[0], t.attr if isinstance(
                        t, ast.Attribute) else self.sub(t.value), t,
                        base=t.value)
        elif isinstance(s, ast.Return):
            if isinstance(s.value, ast.Name) and not isinstance(
                    env.get(s.value.id, NONE), tuple):
                self.closure(env[s.value.id], env)
            else:
                self.ret = join(self.ret, self.expr(s.value, env))
        elif isinstance(s, ast.If):
            self.expr(s.test, env)
            a, b = dict(env), dict(env)
            self.block(s.body, a, push)
            self.block(s.orelse, b, push)
            self.merge(env, a, b)
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            it = self.expr(s.iter, env)
            for _ in range(2):
                a = dict(env)
                self.write(s.target, elem(it), a)
                self.block(s.body, a, push)
                self.merge(env, env, a)
            self.block(s.orelse, env, push)
        elif isinstance(s, ast.While):
            for _ in range(2):
                self.expr(s.test, env)
                a = dict(env)
                self.block(s.body, a, push)
                self.merge(env, env, a)
            self.block(s.orelse, env, push)
        elif isinstance(s, ast.Try):
            a = dict(env)
            self.block(s.body, a, push)
            self.merge(env, env, a)
            for h in s.handlers:
                b = dict(env)
                self.block(h.body, b, push)
                self.merge(env, env, b)
            self.block(s.orelse, env, push)
            self.block(s.finalbody, env, push)
        elif isinstance(s, ast.With):
            for i in s.items:
                v = self.expr(i.context_expr, env)
                if i.optional_vars is not None:
                    self.write(i.optional_vars, elem(v), env)
            self.block(s.body, env, push)
        elif isinstance(s, (ast.Expr, ast.Assert, ast.Raise)):
            for c in ast.iter_child_nodes(s):
                if isinstance(c, ast.expr):
                    self.expr(c, env)
        elif isinstance(s, ast.ClassDef):
            env[s.name] = NONE

    @staticmethod
    def merge(env, a, b):
        for k in set(a) | set(b):
            x, y = a.get(k), b.get(k)
            if x is None or y is None:
                env[k] = x if y is None else y
            elif isinstance(x, tuple) and isinstance(y, tuple):
                env[k] = join(x, y)
            else:
                env[k] = x if not isinstance(x, tuple) else y


# ------------------------------------------------------------ protection ---
def stores_of(body, attr):
    """assignments to .attr inside a statement list"""
    out = []
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Attribute) and t.attr == attr:
                        out.append((t, n.value, n))
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and \
                    n.func.id == 'setattr' and len(n.args) == 3 and \
                    isinstance(n.args[1], ast.Constant) and \
                    n.args[1].value == attr:
                out.append((n.args[0], n.args[2], n))
    return out


def calls_writing(eff, walkfunc, body, attr):
    """calls in body to package functions that write .attr"""
    out = []
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Call):
                nm = n.func.id if isinstance(n.func, ast.Name) else \
                    n.func.attr if isinstance(n.func, ast.Attribute) else None
                for f in eff.p.byname().get(nm, ()):
                    if any(a == attr for _, a in eff.writes.get(f, ())):
                        out.append(n)
    return out


def nested_calls_writing(func, body, attr):
    """calls in body of nested functions of func that write .attr"""
    inner = {n.name: n for n in ast.walk(func.node)
             if isinstance(n, ast.FunctionDef) and n is not func.node}
    out = []
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and \
                    n.func.id in inner and stores_of(
                        inner[n.func.id].body, attr):
                out.append(n)
    return out


def saved_names(func, attr):
    """local names derived from a read of .attr (or getattr(.., attr))"""
    names = set()

    def reads(n):
        for x in ast.walk(n):
            if isinstance(x, ast.Attribute) and x.attr == attr and \
                    isinstance(x.ctx, ast.Load):
                return True
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and \
                    x.func.id == 'getattr' and len(x.args) > 1 and \
                    isinstance(x.args[1], ast.Constant) and \
                    x.args[1].value == attr:
                return True
            if isinstance(x, ast.Name) and x.id in names:
                return True
        return False

    def bind(t):
        for x in ast.walk(t):
            if isinstance(x, ast.Name):
                names.add(x.id)
    while True:
        k = len(names)
        for n in ast.walk(func.node):
            if isinstance(n, ast.Assign) and reads(n.value):
                for t in n.targets:
                    if isinstance(t, (ast.Name, ast.Tuple, ast.List)):
                        bind(t)
                    elif isinstance(t, ast.Subscript):
                        bind(t.value)
            elif isinstance(n, (ast.For, ast.comprehension)) and \
                    reads(n.iter):
                bind(n.target)
            elif isinstance(n, ast.Call) and isinstance(
                    n.func, ast.Attribute) and n.func.attr in (
                    'append', 'add', 'insert', 'extend') and any(
                    reads(a) for a in n.args) and isinstance(
                    n.func.value, ast.Name):
                names.add(n.func.value.id)
        if len(names) == k:
            return names


def harmless(s):
    """a statement that cannot raise for reasons of the data"""
    if isinstance(s, ast.Pass):
        return True
    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
        return True
    if isinstance(s, ast.Assign):
        return all(isinstance(t, ast.Name) for t in s.targets) and isinstance(
            s.value, (ast.Name, ast.Constant, ast.Tuple, ast.List, ast.Call)
        ) and not any(
            isinstance(x, ast.Call) and not (
                isinstance(x.func, ast.Name) and x.func.id in (
                    'list', 'dict', 'set', 'tuple') and not x.args)
            for x in ast.walk(s.value))
    return isinstance(s, (ast.FunctionDef,))


def restores(eff, func, tr, attr):
    """does the finally block of tr restore .attr?  True/False/None"""
    st = stores_of(tr.finalbody, attr)
    if not st:
        if calls_writing(eff, func, tr.finalbody, attr) or \
                nested_calls_writing(func, tr.finalbody, attr):
            return True
        return False
    saved = saved_names(func, attr)
    for t, v, n in st:
        if isinstance(v, ast.Constant) and v.value is None:
            if guarded_setter(eff.p, attr):
                continue
            return False
        if not any(isinstance(x, ast.Name) and x.id in saved
                   for x in ast.walk(v)):
            return False
    return True


def guarded_setter(prog, attr):
    """setters of attr refuse to replace a value that is set"""
    fs = [c.setters[attr] for c in prog.classes.values() if attr in c.setters]
    if not fs:
        return False
    for f in fs:
        if not any(isinstance(n, ast.Raise) for n in ast.walk(f.node)):
            return False
    return True


def protected(eff, func, ev):
    """is the event undone on every exit of the function?"""
    base = ev.attr.replace('[]', '').split('.')[0]
    if base and base != ev.attr and ev.via is None:
        # inside the object that stands in for .base meanwhile
        e = Event(ev.root, base, ev.node, ev.stmts, ev.func)
        return protected(eff, func, e)
    st = ev.stmts
    for body, i, s in reversed(st):
        if not isinstance(s, ast.Try):
            continue
        k = st.index((body, i, s))
        inner = st[k + 1][0] if k + 1 < len(st) else None
        if inner is s.finalbody and s.finalbody:
            # the restoring write itself
            if ev.via is not None:
                return True
            if restores(eff, func, s, ev.attr):
                return True
        elif s.finalbody and restores(eff, func, s, ev.attr):
            return True
    # directly in front of such a try
    if st:
        body, i, s = st[-1]
        j = i + 1
        while j < len(body) and harmless(body[j]):
            j += 1
        if j < len(body) and isinstance(body[j], ast.Try) and \
                body[j].finalbody and restores(eff, func, body[j], ev.attr):
            return True
    return False


def unprotected(eff, func, events):
    return [e for e in events if not (
        e.root.startswith('p:') and protected(eff, func, e))]
