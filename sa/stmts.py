"""Value graph builder: statements and stores."""
import ast

from terms import *
import terms as T
from graph import Frame, St, S, N, top, lst
from calls import Calls
from expr import IGNORED_MODS
from model import Func


class Stmts(Calls):

    def block(self, body, st):
        """execute statements; returns the live state or None"""
        for n in body:
            if st is None:
                return None
            m = getattr(self, 's_' + type(n).__name__, None)
            if m is None:
                self.exit(st, self.site('statement ' + type(n).__name__, n))
                return None
            st = m(n, st)
        return st

    def exit(self, st, value):
        st.exits.append((st.pc, value, st.heap, st.env))

    # -------------------------------------------------------------- simple
    def s_Pass(self, n, st):
        return st

    s_Global = s_Nonlocal = s_Pass

    def s_Import(self, n, st):
        for a in n.names:
            st.env[a.asname or a.name.split('.')[0]] = Leaf(
                V('mod', a.name if a.asname else a.name.split('.')[0]))
        return st

    def s_ImportFrom(self, n, st):
        for a in n.names:
            if n.level or (n.module or '').split('.')[0] == self.p.package:
                src = n.module or ''
                if n.level:
                    parts = st.frame.module.name.split('.')
                    up = n.level - (1 if st.frame.module.path.endswith(
                        '__init__.py') else 0)
                    src = '.'.join(parts[:len(parts) - up] +
                                   ([src] if src else []))
                m = self.p.modules.get(src)
                r = m and self.p.lookup(m, a.name)
                v = self.resolved(r, a.name, n) if r else \
                    self.site('import', n)
            else:
                v = Leaf(V('bi', self.extname(n.module + '.' + a.name)))
            st.env[a.asname or a.name] = v
        return st

    def s_FunctionDef(self, n, st):
        if n.decorator_list:
            st.env[n.name] = self.site('decorated closure', n)
        else:
            st.env[n.name] = self.closure(n, st)
        return st

    def s_ClassDef(self, n, st):
        st.env[n.name] = self.site('local class', n)
        return st

    def s_Expr(self, n, st):
        e = n.value
        if isinstance(e, ast.Constant):
            return st
        if isinstance(e, ast.Yield):
            v = NONE if e.value is None else self.expr(e.value, st)
            st.env['#yield'] = tmap(self.cat1, st.env['#yield'], lst(v))
            return st
        if isinstance(e, ast.YieldFrom):
            v = tmap(self.tolist1, tmap(lambda x: self.iter1(x, st),
                                        self.expr(e.value, st)))
            st.env['#yield'] = tmap(self.cat1, st.env['#yield'], v)
            return st
        v = self.expr(e, st)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and \
                isinstance(e.func.value, ast.Name) and isinstance(
                    st.env.get(e.func.value.id), (Leaf, Node)) and \
                self.foreign(st.env[e.func.value.id]):
            # a library object changed in place becomes the changed object
            st.env[e.func.value.id] = v
        return self.raising(v, st)

    def foreign(self, t):
        """made by a library constructor"""
        out = []

        def f(v):
            b = v.bare() if isinstance(v, R) else None
            while b is not None and b.kind == 'mcall' and isinstance(
                    b.args[0], R):
                b = b.args[0].bare()
            out.append(b is not None and b.kind == 'call' and isinstance(
                b.args[0], str) and b.args[0].startswith('businessdate.'))
            return v
        tmap(f, t)
        return all(out)

    def raising(self, v, st):
        """leave the function where a statement value raises"""
        has = []
        tmap(lambda x: has.append(x) or x if isinstance(x, V) and
             x.kind in ('raise', 'top') else x, v)
        if not has:
            return st
        c = tmap(lambda x: T.bool_(isinstance(x, V) and
                                   x.kind in ('raise', 'top')), v)
        s = st.fork(tand(st.pc, c))
        self.exit(s, tmap(lambda x: x if isinstance(x, V) and
                          x.kind in ('raise', 'top') else V('any'), v))
        if c is TRUE:
            return None
        st.pc = tand(st.pc, tnot(c))
        return st

    def s_Return(self, n, st):
        v = NONE if n.value is None else self.expr(n.value, st)
        self.exit(st, v)
        return None

    def s_Raise(self, n, st):
        name = 'Exception'
        e = n.exc
        if isinstance(e, ast.Call):
            f = self.raiser(e.func, st)
            if f is not None:
                return self.raised(n, e, st)
            e = e.func
        elif isinstance(e, ast.Name) and e.id in st.env:
            return self.raised(n, e, st)
        if isinstance(e, ast.Name):
            name = e.id
        elif isinstance(e, ast.Attribute):
            name = e.attr
        self.exit(st, Leaf(V('raise', name)))
        return None

    def raiser(self, f, st):
        """a function of the package that makes the exception"""
        if isinstance(f, ast.Name):
            if f.id in st.env:
                return f
            r = self.p.lookup(st.frame.module, f.id)
            return f if isinstance(r, Func) else None
        if isinstance(f, ast.Attribute) and isinstance(
                f.value, ast.Name) and f.value.id in st.env:
            return f
        return None

    def raised(self, n, e, st):
        """the exception is the value of an expression"""
        def one(v):
            if isinstance(v, V):
                if v.kind in ('raise', 'top'):
                    return v
                if v.kind == 'bi':
                    return V('raise', v.args[0])
                if v.kind == 'exc':
                    return V('raise', v.args[0])
                if v.kind == 'cls':
                    return V('raise', v.args[0])
            b = v.bare() if isinstance(v, R) else None
            if b is not None and b.kind in ('call', 'new'):
                return V('raise', b.args[0])
            return V('top', 'raised value')
        self.exit(st, tmap(one, self.expr(e, st)))
        return None

    def s_Assert(self, n, st):
        c = self.truth(self.expr(n.test, st))
        if c is TRUE:
            return st
        s = st.fork(tand(st.pc, tnot(c)))
        self.exit(s, Leaf(V('raise', 'AssertionError')))
        if c is FALSE:
            return None
        st.pc = tand(st.pc, c)
        return st

    def s_Delete(self, n, st):
        for t in n.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            else:
                self.exit(st, self.site('del', n))
                return None
        return st

    def s_Assign(self, n, st):
        v = self.expr(n.value, st)
        for t in n.targets:
            self.note_alias(t, n.value, v, st)
            self.bind_target(t, v, st)
        return st

    def note_alias(self, t, src, v, st):
        """names that denote the same mutable container"""
        if not isinstance(t, ast.Name):
            return
        al = st.env.setdefault('#alias', {})
        if not isinstance(al, dict):
            return
        al = dict(al)
        st.env['#alias'] = al
        al.pop(t.id, None)
        for k in [k for k, x in al.items() if x == ('name', t.id)]:
            al.pop(k)
        if isinstance(src, ast.Name) and src.id in st.env:
            al[t.id] = ('name', src.id)
        elif isinstance(src, ast.Attribute):
            al[t.id] = ('attr', src)

    def s_AnnAssign(self, n, st):
        if n.value is not None:
            self.bind_target(n.target, self.expr(n.value, st), st)
        return st

    def s_AugAssign(self, n, st):
        op = self.OPS.get(type(n.op), '?')
        t = n.target
        load = ast.copy_location(
            ast.Name(id=t.id, ctx=ast.Load()) if isinstance(t, ast.Name)
            else ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load())
            if isinstance(t, ast.Attribute) else
            ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load()), n)
        old = self.expr(load, st)
        new = self.expr(n.value, st)
        if op == '+':
            new = tmap(lambda a, b: self.tolist1(b) if self.listy(a)
                       else Leaf(b), old, new)
        v = self.op(op, old, new, st, n)
        self.bind_target(t, v, st)
        return st

    # --------------------------------------------------------------- stores
    def assign_to(self, t, v, st):
        if isinstance(t, ast.Attribute):
            o = self.expr(t.value, st)
            if isinstance(o, Leaf):
                return self.setattr1(o.v, t.attr, v, st, t)
            if self.condstore(o, t.attr, v, st):
                return None
            st.env['#broken'] = self.site('store to conditional object', t)
            self.exit(st.fork(st.pc), st.env['#broken'])
            return None
        if isinstance(t, ast.Subscript):
            if isinstance(t.slice, ast.Slice):
                return self.broken(st, 'slice store', t)
            base = self.expr(t.value, st)
            key = self.expr(t.slice, st)
            if isinstance(base, Leaf) and isinstance(base.v, V) and \
                    base.v.kind == 'super':
                self.itemstore(base.v.args[1], '__setitem__', [key, v], st, t)
                return None
            objs = []
            tmap(lambda b: objs.append(b) or b, base)
            if all(isinstance(b, V) and b.kind == 'dict' or
                   isinstance(b, R) and self.typ(b) == 'dict'
                   for b in objs):
                new = tmap(lambda b, k: self.dictset(b, k, v)
                           if isinstance(b, V) else
                           self.dictset(V('dict', (), b), k, v), base, key)
                return self.assign_back(t.value, new, st)
            if all(isinstance(b, V) and b.kind in ('list', 'seq', 'cat') or
                   isinstance(b, R) and self.typ(b) == 'list'
                   for b in objs):
                new = tmap(lambda b, k: self.listset(b, k, v), base, key)
                return self.assign_back(t.value, new, st)
            if isinstance(base, Leaf) and isinstance(base.v, R):
                c = self.cls_of(base.v)
                if c is not None:
                    r = self.p.find(c, '__setitem__')
                    if r and '__setitem__' not in self.o.cuts:
                        self.invoke(r[2], base.v, [key, v], {}, st, t)
                        return None
                self.itemstore(base.v, '__setitem__', [key, v], st, t)
                return None
            return self.broken(st, 'item store', t)
        return self.broken(st, 'store', t)

    def condstore(self, o, attr, v, st):
        objs = []
        tmap(lambda b: objs.append(b) or b, o)
        if not all(isinstance(b, R) for b in objs):
            return False
        for b in set(objs):
            c = tmap(lambda x: T.bool_(x is b), o)
            self.setattr1(b, attr, self.gam(c, v, self.attr1(b, attr, st)),
                          st)
        return True

    def broken(self, st, why, node):
        t = self.site(why, node)
        self.exit(st.fork(st.pc), t)
        return None

    def setattr1(self, o, name, v, st, node=None):
        if isinstance(o, V):
            if o.kind == 'raise':
                return None
            return self.broken(st, 'attribute store on ' + o.kind, node)
        c = self.cls_of(o)
        if c is not None:
            r = self.p.find_setter(c, name)
            if r is not None and name not in self.o.cuts:
                self.inline(r[1], [Leaf(o), v], {}, st, node)
                return None
        st.heap[(o, name)] = v
        return None

    def itemstore(self, o, name, args, st, node=None):
        """ordered effects on a container object"""
        if self.store(o, name, args, st):
            return NONE
        key = (o, '#items')
        old = st.heap.get(key, lst())
        entry = lst(S(name), *[self.escape(a, st) for a in args])
        st.heap[key] = tmap(self.cat1, old, lst(entry))
        return NONE

    def listset(self, b, k, v):
        if isinstance(b, V) and b.kind == 'list' and isinstance(k, R) and \
                k.const() is not None:
            j = int(k.const())
            if -len(b.args[0]) <= j < len(b.args[0]):
                es = [Leaf(x) for x in b.args[0]]
                es[j] = v
                return lst(*es)
            return Leaf(V('raise', 'IndexError'))
        if isinstance(b, V) and b.kind in ('top', 'raise'):
            return Leaf(b)
        if isinstance(b, V) and b.kind == 'seq' or isinstance(b, R):
            q = self.as_seq(b)
            if q and q[0] == 'seq' and isinstance(k, R):
                i = fresh('i')
                t = q[2](ratom(i))
                if self.singles(t):
                    if k.const() is not None and k.const() < 0:
                        k = q[1] + k
                    return self.mkseq(q[1], i, sign_node(
                        ratom(i) - k, t, lst(v), t))
        return top('list store')

    def store_slot(self, o, attr, new, st):
        if not (isinstance(o, Leaf) and isinstance(o.v, R)):
            return False
        c = self.cls_of(o.v)
        name = self.slot(c, attr) if c is not None else attr
        if name is not None:
            st.heap[(o.v, name)] = new
        return True

    def slot(self, c, attr, depth=0):
        """attribute that holds the container found at a name: properties
        may hand out one of the object's own or a new one (None)"""
        r = self.p.find(c, attr)
        if r is None or r[0] != 'property' or depth > 4:
            return attr
        f = r[2].node
        own = f.args.args[0].arg if f.args.args else None
        rets = [n.value for n in ast.walk(f) if isinstance(n, ast.Return)
                and n.value is not None]
        one = {n.attr if isinstance(n, ast.Attribute) and isinstance(
            n.value, ast.Name) and n.value.id == own else None for n in rets}
        if len(one) == 1 and None not in one:
            return self.slot(c, one.pop(), depth + 1)

        def new(n):
            if isinstance(n, ast.Name):
                src = [a.value for a in ast.walk(f)
                       if isinstance(a, ast.Assign) and any(
                           isinstance(t, ast.Name) and t.id == n.id
                           for t in a.targets)]
                return bool(src) and all(not isinstance(x, ast.Name) and
                                         new(x) for x in src)
            return isinstance(n, (ast.Call, ast.List, ast.Dict, ast.ListComp,
                                  ast.DictComp, ast.BinOp))
        return None if rets and all(new(n) for n in rets) else attr

    def assign_back(self, node, new, st):
        """store a changed container to the place it was read from"""
        if isinstance(node, ast.Name):
            al = st.env.get('#alias') or {}
            n = node.id
            if n in st.env or not st.frame.parent:
                st.env[n] = new
                if n in al:
                    k, x = al[n]
                    if k == 'name':
                        st.env[x] = new
                    else:
                        o = self.expr(x.value, st)
                        self.store_slot(o, x.attr, new, st)
                for k, x in al.items():
                    if x == ('name', n):
                        st.env[k] = new
                return None
            p = st.frame.parent
            while p is not None:
                if n in p[0]:
                    p[0][n] = new
                    return None
                p = p[1].parent
            return None
        if isinstance(node, ast.Attribute):
            o = self.expr(node.value, st)
            if self.store_slot(o, node.attr, new, st):
                return None
        if isinstance(node, ast.Subscript):
            return self.assign_to(node, new, st)
        if isinstance(node, ast.Call):
            return None     # mutation of a temporary
        return self.broken(st, 'container store', node)

    def mutation(self, f, base, args, kwargs, st, e):
        """container methods that change their receiver"""
        vals = []
        tmap(lambda b: vals.append(b) or b, base)

        def container(b):
            if isinstance(b, V):
                return b.kind in ('list', 'seq', 'cat', 'dict')
            if self.cls_of(b) is not None:
                return False
            t = self.typ(b)
            if t in ('list', 'dict'):
                return True
            x = b.bare()
            if x is not None and x.kind == 'call' and x.args[0] in (
                    'set', 'dict'):
                return True
            return x is not None and f.attr in (
                'append', 'extend', 'update', 'pop', 'reverse', 'sort') and \
                t is None
        for b in vals:
            if isinstance(b, V) and b.kind in ('top', 'raise'):
                return Leaf(b)
            if isinstance(b, R):
                c = self.cls_of(b)
                if c is not None and self.p.find(c, f.attr):
                    return None
                if c is not None and self.p.external_bases(c):
                    if isinstance(base, Leaf):
                        return self.itemstore(b, f.attr, args, st, e)
        if any(isinstance(b, V) and b.kind == 'super' for b in vals):
            return None
        if not all(container(b) for b in vals):
            return None
        if any(isinstance(a, tuple) for a in args):
            return self.site('starred mutation', e)
        new = tmap(lambda b: self.mut1(b, f.attr, args, kwargs, st, e)[0],
                   base)
        res = tmap(lambda b: self.mut1(b, f.attr, args, kwargs, st, e)[1],
                   base)
        self.assign_back(f.value, new, st)
        return res

    def mut1(self, v, name, args, kw, st, node):
        """-> (new container tree, result tree)"""
        isdict = isinstance(v, V) and v.kind == 'dict' or \
            isinstance(v, R) and (self.typ(v) == 'dict' or
                                  name in ('update',)) or \
            name == 'setdefault'
        x = v.bare() if isinstance(v, R) else None
        if x is not None and x.kind == 'call' and x.args[0] == 'set':
            if name == 'add':
                old = lst() if not x.args[1] else Leaf(x.args[1][0])
                return (tmap(lambda a: ratom(Atom('call', 'set', (a,))),
                             tmap(self.cat1, old, lst(args[0]))), NONE)
            if name == 'update':
                old = lst() if not x.args[1] else Leaf(x.args[1][0])
                for a in args:
                    old = tmap(self.cat1, old, tmap(self.tolist1, a))
                return (tmap(lambda a: ratom(Atom('call', 'set', (a,))),
                             old), NONE)
            return self.site('set ' + name, node), NONE
        if isdict or (name == 'pop' and args and not (
                isinstance(v, V) or self.typ(v) == 'list') and isinstance(
                    args[0], Leaf) and isinstance(args[0].v, V)):
            d = v if isinstance(v, V) else V('dict', (), v)
            if name == 'update':
                t = Leaf(d)
                for a in args:
                    t = tmap(lambda p, q: self.dictupdate(p, q), t, a)
                for k in kw:
                    t = tmap(lambda p: self.dictset(p, V('str', k), kw[k]),
                             t)
                return t, NONE
            if name == 'pop':
                key = args[0]
                dflt = args[1] if len(args) > 1 else \
                    Leaf(V('raise', 'KeyError'))

                def f(k):
                    items = tuple((a, b) for a, b in d.args[0] if a is not k)
                    base = d.args[1]
                    if base is not None and not (
                            any(a is k for a, _ in d.args[0]) and
                            base is None):
                        base = V('popped', base, k)
                    return V('dict', items, base)
                return (tmap(f, key),
                        tmap(lambda k: self.dictget(d, k, dflt), key))
            if name == 'clear':
                return Leaf(V('dict', (), None)), NONE
            if name == 'setdefault':
                key, dv = args[0], args[1] if len(args) > 1 else NONE

                def g(k):
                    if d.args[1] is None and isinstance(k, V) and \
                            k.kind == 'str':
                        if any(a is k for a, _ in d.args[0]):
                            return Leaf(d)
                        return self.dictset(d, k, dv)
                    return top('setdefault')
                return (tmap(g, key),
                        tmap(lambda k: self.dictget(d, k, dv), key))
            return self.site('dict ' + name, node), NONE
        if name == 'append':
            return tmap(lambda a: self.cat1(v, V('list', (a,))),
                        args[0]), NONE
        if name == 'extend':
            return tmap(lambda a: self.cat1(v, a), tmap(
                self.tolist1, tmap(lambda q: self.iter1(q, st), args[0]))), \
                NONE
        if name == 'insert':
            if isinstance(args[0], Leaf) and args[0].v is ZERO:
                return tmap(lambda a: self.cat1(V('list', (a,)), v),
                            args[1]), NONE
            if isinstance(v, V) and v.kind == 'list' and isinstance(
                    args[0], Leaf) and isinstance(args[0].v, R) and \
                    args[0].v.const() is not None:
                k = int(args[0].v.const())
                es = [Leaf(y) for y in v.args[0]]
                es.insert(k, args[1])
                return lst(*es), NONE
            return self.site('insert', node), NONE
        if name == 'pop':
            if not args:
                return (self.slice1(v, None, num(-1), None),
                        self.index1(v, num(-1)))
            if isinstance(args[0], Leaf) and args[0].v is ZERO:
                return (self.slice1(v, num(1), None, None),
                        self.index1(v, ZERO))
            return (tmap(lambda k: ratom(Atom('call', 'list.pop', (v, k))),
                         args[0]),
                    tmap(lambda k: self.index1(v, k), args[0]))
        if name == 'remove':
            return (tmap(lambda k: ratom(Atom('call', 'list.remove',
                                              (v, k))), args[0]), NONE)
        if name == 'sort':
            return self.b_sorted([Leaf(v)], kw, st, node), NONE
        if name == 'reverse':
            return self.slice1(v, None, None, num(-1)), NONE
        if name == 'clear':
            return lst(), NONE
        return self.site('mutation ' + name, node), NONE

    # ----------------------------------------------------------------- if
    def s_If(self, n, st):
        c, st = self.decided(self.truth(self.expr(n.test, st)), st)
        if st is None:
            return None
        return self.branch(c, st, lambda s: self.block(n.body, s),
                           lambda s: self.block(n.orelse, s))

    def decided(self, c, st):
        """leave where the test raises"""
        bad = []
        tmap(lambda v: bad.append(v) or v if not T.is_bool(v) else v, c)
        if bad:
            st = self.raising(tmap(
                lambda v: v if isinstance(v, V) and v.kind in (
                    'raise', 'top') else V('none')
                if T.is_bool(v) else V('top', 'condition'), c), st)
            if st is None:
                return c, None
            c = tmap(lambda v: v if T.is_bool(v) else FALSE.v, c)
        return c, st

    def branch(self, c, st, f, g):
        if c is TRUE:
            return f(st)
        if c is FALSE:
            return g(st)
        p, q = tand(st.pc, c), tand(st.pc, tnot(c))
        if p is FALSE:
            return g(st)
        if q is FALSE:
            return f(st)
        a = f(st.fork(p))
        b = g(st.fork(q))
        return self.merge(c, a, b, st)

    def merge(self, c, a, b, st):
        if a is None:
            return b
        if b is None:
            return a
        out = st.fork(tor(a.pc, b.pc))
        env = {}
        for k in list(a.env) + [k for k in b.env if k not in a.env]:
            if k == '#alias':
                d = dict(b.env.get(k) or {})
                d.update(a.env.get(k) or {})
                env[k] = d
                continue
            x = a.env.get(k, Leaf(V('raise', 'UnboundLocalError')))
            y = b.env.get(k, Leaf(V('raise', 'UnboundLocalError')))
            env[k] = x if x is y else self.gam(c, x, y)
        out.env = env
        out.heap = self.merge_heap(c, a.heap, b.heap)
        return out

    # ---------------------------------------------------------------- try
    def s_Try(self, n, st):
        if n.handlers:
            r = self.try_import(n, st)
            if r is not False:
                return r
            if self.harmless_handlers(n):
                body = st
                live = self.block(n.body, body)
                if live is not None and n.orelse:
                    live = self.block(n.orelse, live)
                return self.finally_(n, live, st, 0)
            r = self.try_key(n, st)
            if r is not False:
                return r
            self.exit(st, self.site('try with handlers', n))
            return None
        k = len(st.exits)
        live = self.block(n.body, st)
        return self.finally_(n, live, st, k)

    def finally_(self, n, live, st, k):
        if not n.finalbody:
            return live
        ex = st.exits[k:]
        del st.exits[k:]
        for pc, v, heap, env in ex:
            s = St(st.frame, dict(env), dict(heap), pc)
            s.exits = st.exits
            l = self.block(n.finalbody, s)
            if l is not None:
                l.exits = st.exits
                self.exit(l, v)
        if live is not None:
            live = self.block(n.finalbody, live)
        return live

    def harmless_handlers(self, n):
        """handlers that only raise again (maybe with another type)"""
        return all(len(h.body) and isinstance(h.body[-1], ast.Raise) and all(
            isinstance(x, (ast.Expr, ast.Raise)) for x in h.body)
            for h in n.handlers) and all(
                h.body[-1].exc is None for h in n.handlers)

    def try_import(self, n, st):
        """try: import x ... except ImportError: ..."""
        if not n.body or not isinstance(n.body[0], (ast.Import,
                                                    ast.ImportFrom)):
            return False
        if len(n.handlers) != 1 or n.finalbody:
            return False
        h = n.handlers[0]
        if not (isinstance(h.type, ast.Name) and h.type.id in (
                'ImportError', 'ModuleNotFoundError')):
            return False
        i = n.body[0]
        name = i.module if isinstance(i, ast.ImportFrom) else i.names[0].name
        c = T.bnode(Atom('importable', name))
        return self.branch(c, st, lambda s: self.block(
            list(n.body) + list(n.orelse), s),
            lambda s: self.block(h.body, s))

    def try_key(self, n, st):
        """try: <single expression> except KeyError/...: handler, for
        expressions whose failure is a term"""
        if len(n.handlers) != 1 or n.finalbody or len(n.body) != 1:
            return False
        h = n.handlers[0]
        if not isinstance(h.type, ast.Name):
            return False
        names = {h.type.id}
        if h.type.id == 'LookupError':
            names |= {'KeyError', 'IndexError'}
        b = n.body[0]
        if not (isinstance(b, (ast.Return, ast.Assign)) and
                b.value is not None):
            return False
        was, self.keyed = self.keyed, 'KeyError' in names
        v = self.expr(b.value, st)
        self.keyed = was

        def fails(x):
            return isinstance(x, V) and x.kind == 'raise' and \
                x.args[0] in names
        hit = []
        tmap(lambda x: hit.append(fails(x)) or x, v)
        if not any(hit):
            return False
        c = tmap(lambda x: T.bool_(fails(x)), v)

        def ok(s):
            w = tmap(lambda x: V('any') if fails(x) else x, v)
            if isinstance(b, ast.Return):
                self.exit(s, w)
                return None
            for t in b.targets:
                self.bind_target(t, w, s)
            return self.block(n.orelse, s)
        return self.branch(c, st, lambda s: self.block(h.body, s), ok)

    def s_With(self, n, st):
        self.exit(st, self.site('with', n))
        return None
