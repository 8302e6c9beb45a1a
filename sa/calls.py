"""Value graph builder: calls, builtins, inlining."""
import ast

from terms import *
import terms as T
from model import Func, Class, Module
from graph import Frame, St, S, N, top, lst
from expr import Exprs, BUILTINS, EXCS, PYTYPES, MUT, IGNORED_MODS, bi


# methods of builtin containers and strings
CONTAINER = {n for t in (dict, list, str, set, tuple) for n in dir(t)
             if not n.startswith('__')}


# attributes that hold plain dictionaries
MAPPINGS = ('fixings', '_flows', 'INTERPOLATIONS', 'DAY_COUNT')

class Kw(object):
    pass


def isleft(t):
    """an exit that stands for runs left out or not modelled"""
    return isinstance(t, Leaf) and isinstance(t.v, V) and t.v.kind in (
        'any', 'top')


class Calls(Exprs):

    def e_Call(self, e, st):
        self.sites += 1
        # arguments
        args, kwargs = [], {}
        ok = True
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.expr(a.value, st)
                if isinstance(v, Leaf) and isinstance(v.v, V) and \
                        v.v.kind == 'list':
                    args.extend(Leaf(x) for x in v.v.args[0])
                else:
                    args.append(('*', v))
            else:
                args.append(self.expr(a, st))
        for k in e.keywords:
            v = self.expr(k.value, st)
            if k.arg is None:
                if isinstance(v, Leaf) and isinstance(v.v, V) and \
                        v.v.kind == 'dict' and v.v.args[1] is None and all(
                            isinstance(x, V) and x.kind == 'str'
                            for x, _ in v.v.args[0]):
                    for x, y in v.v.args[0]:
                        kwargs[x.args[0]] = Leaf(y)
                else:
                    kwargs['**'] = v
            else:
                kwargs[k.arg] = v
        f = e.func
        if isinstance(f, ast.Name):
            al = (st.env.get('#alias') or {}).get(f.id)
            if al and al[0] == 'attr' and self.named_method(
                    st.env.get(f.id), al[1].attr):
                f = al[1]
        if isinstance(f, ast.Name) and f.id == 'super' and \
                'super' not in st.env:
            return self.super_(args, st, e)
        if isinstance(f, ast.Attribute) and f.attr != '__class__':
            base = self.expr(f.value, st)
            if f.attr in MUT:
                r = self.mutation(f, base, args, kwargs, st, e)
                if r is not None:
                    return r

            def one(v):
                return self.method(v, f.attr, args, kwargs, st, e)
            return tmap(one, base)
        fv = self.expr(f, st)
        return tmap(lambda v: self.apply(v, args, kwargs, st, e), fv)

    def named_method(self, t, name):
        """is the value a method taken from a container or an object?"""
        ok = []

        def one(v):
            b = v.bare() if isinstance(v, R) else None
            ok.append(isinstance(v, V) and v.kind == 'bm' and
                      v.args[1] == name or b is not None and
                      b.kind == 'attr' and b.args[1] == name)
            return v
        if t is None:
            return False
        tmap(one, t)
        return bool(ok) and all(ok)

    def super_(self, args, st, e):
        fr = st.frame
        while fr.cls is None and fr.parent is not None:
            fr = fr.parent[1]
        if args:
            c, o = args[0], args[1]
            return tmap(lambda a, b: V('super', a.args[0], b)
                        if isinstance(a, V) and a.kind == 'cls'
                        else V('top', 'super'), c, o)
        if fr.cls is None or fr.recv is None:
            return self.site('super', e)
        return tmap(lambda b: V('super', fr.cls.name, b), fr.recv)

    # --------------------------------------------------------------- apply
    def apply(self, v, args, kwargs, st, node=None):
        """call of value v"""
        if isinstance(v, V):
            k = v.kind
            if k in ('top', 'raise', 'any'):
                return Leaf(v)
            if k == 'bi':
                return self.builtin(v.args[0], args, kwargs, st, node)
            if k == 'fn':
                return self.callfn(v.args[0], args, kwargs, st, node)
            if k == 'cls':
                return self.construct(v, args, kwargs, st, node)
            if k == 'bm':
                return self.method(v.args[0], v.args[1], args, kwargs, st,
                                   node)
            if k == 'clo':
                return self.call_closure(v, args, kwargs, st, node)
            if k == 'lam' and all(isinstance(a, (Leaf, Node)) for a in args):
                return aplam(v, *args)
            if k == 'none':
                return Leaf(V('raise', 'TypeError'))
            return self.site('call of ' + k, node)
        c = self.cls_of(v)
        if c is not None and self.p.find(c, '__call__'):
            x = self.atnode(v, args)
            if x is not None:
                return x
            return self.method(v, '__call__', args, kwargs, st, node)
        b = v.bare()
        if b is not None and b.kind == 'attr' and isinstance(
                b.args[1], str) and isinstance(b.args[0], R) and \
                b.args not in st.heap:
            c = self.cls_of(b.args[0])
            if c is None or self.p.find(c, b.args[1]) is None and \
                    b.args[1] not in self.p.instance_attrs(c):
                # a method read first and called later
                return self.method(b.args[0], b.args[1], args, kwargs, st,
                                   node)
        return self.opaque('call', v, None, args, kwargs, st, node)

    def callfn(self, fn, args, kwargs, st, node=None):
        name = fn.name
        if name in self.o.summaries and fn.cls is None:
            r = self.o.summaries[name](self, args, kwargs, st)
            if r is not None:
                return r
        if fn.cls is None and (name in self.o.cuts or
                               self.looping(fn, args, kwargs) or
                               len(self.stack) > self.o.depth):
            return self.opaque('call', None, fn, args, kwargs, st, node)
        return self.inline(fn, args, kwargs, st, node)

    def method(self, v, name, args, kwargs, st, node=None):
        if isinstance(v, V):
            k = v.kind
            if k in ('top', 'raise', 'any'):
                return Leaf(v)
            if k == 'mod':
                f = self.attr1(v, name, st, node)
                return tmap(lambda x: self.apply(x, args, kwargs, st, node),
                            f)
            if k == 'super':
                c = self.super_cls(v)
                r = self.p.find(c, name, after=self.p.cls(v.args[0]))
                if name in self.o.supercuts:
                    return self.opaque('mcall', self.superval(v), name,
                                       args, kwargs, st, node)
                if r is not None and r[0] == 'method':
                    return self.invoke(r[2], v.args[1], args, kwargs, st,
                                       node, cut=False)
                if self.store(v.args[1], name, args, st):
                    return NONE
                if name == '__init__':
                    return NONE
                if name in ('__setitem__', 'update', '__delitem__', 'pop',
                            'clear', 'setdefault'):
                    return self.itemstore(v.args[1], name, args, st, node)
                self.cur = st
                d = self.payload(v.args[1])
                if d is not None:
                    if name == '__getitem__' and len(args) == 1:
                        return tmap(lambda x: self.index1(d, x), args[0])
                    return self.bimethod(d, name, args, kwargs, st, node)
                return self.opaque('mcall', self.superval(v), name, args,
                                   kwargs, st, node)
            if k == 'cls':
                c = self.p.classes.get(v.args[0])
                r = c and self.p.find(c, name)
                if r and r[0] == 'method':
                    f = r[2]
                    if f.kind == 'classmethod':
                        return self.invoke(f, v, args, kwargs, st, node)
                    if f.kind == 'static':
                        return self.callfn2(f, args, kwargs, st, node)
                    if args and isinstance(args[0], (Leaf, Node)):
                        return tmap(lambda x: self.invoke(
                            f, x, args[1:], kwargs, st, node, cut=False),
                            args[0])
                f = self.attr1(v, name, st, node)
                return tmap(lambda x: self.apply(x, args, kwargs, st, node)
                            if not (isinstance(x, V) and x.kind == 'bm')
                            else self.site('class call ' + name, node), f)
            if k in ('list', 'seq', 'cat', 'dict', 'str', 'none'):
                return self.bimethod(v, name, args, kwargs, st, node)
            self.cur = st
            if k == 'bi' and v.args[0] == 'dict' and args and \
                    isinstance(args[0], Leaf) and \
                    self.store(args[0].v, name, args[1:], st):
                return NONE
            if k == 'bi' and v.args[0] == 'dict' and args and \
                    isinstance(args[0], Leaf) and \
                    self.payload(args[0].v) is not None:
                return self.bimethod(self.payload(args[0].v), name, args[1:],
                                     kwargs, st, node)
            if k == 'bi' and v.args[0] == 'dict' and name == 'fromkeys':
                if len(args) != 1 or kwargs:
                    return self.site('fromkeys', node)
                return tmap(lambda x: self.unique(x),
                            tmap(lambda x: self.iter1(x, st), args[0]))
            if k == 'bi' and v.args[0] in IGNORED_MODS:
                return NONE
            if k == 'bi' and v.args[0].startswith('businessdate.'):
                return self.builtin(v.args[0] + '.' + name, args, kwargs,
                                    st, node)
            return self.site('method of ' + k, node)
        if (v, name) in st.heap:
            return tmap(lambda x: self.apply(x, args, kwargs, st, node),
                        st.heap[(v, name)])
        if name == 'get_forward_price':
            x = self.atnode(v, args)
            if x is not None:
                return x
        c = self.cls_of(v)
        if c is not None:
            r = self.p.find(c, name)
            if r is not None:
                tag, k, f = r
                if tag == 'method':
                    if f.kind == 'static':
                        return self.callfn2(f, args, kwargs, st, node)
                    if f.kind == 'classmethod':
                        return self.invoke(f, V('cls', c.name), args, kwargs,
                                           st, node)
                    return self.invoke(f, v, args, kwargs, st, node)
                fv = self.attr1(v, name, st, node)
                return tmap(lambda x: self.apply(x, args, kwargs, st, node),
                            fv)
            if name in self.p.instance_attrs(c):
                fv = self.attr1(v, name, st, node)
                return tmap(lambda x: self.apply(x, args, kwargs, st, node),
                            fv)
        self.cur = st
        d = self.payload(v)
        if d is not None:
            return self.bimethod(d, name, args, kwargs, st, node)
        r = self.rmethod(v, name, args, kwargs, st, node)
        if r is not None:
            return r
        return self.opaque('mcall', v, name, args, kwargs, st, node)

    def callfn2(self, f, args, kwargs, st, node):
        if f.name in self.o.cuts:
            return self.opaque('call', None, f, args, kwargs, st, node)
        return self.inline(f, args, kwargs, st, node)

    def invoke(self, f, recv, args, kwargs, st, node=None, cut=True):
        """method f on receiver value recv"""
        if cut and f.name in self.o.summaries:
            r = self.o.summaries[f.name](self, [Leaf(recv)] + list(args),
                                         kwargs, st)
            if r is not None:
                return r
        if (cut and (f.name in self.o.cuts or f.cls is not None and
                     f.qual in self.o.cuts)) or \
                self.looping(f, [Leaf(recv)] + list(args), kwargs) or \
                len(self.stack) > self.o.depth:
            if f.name == '__getitem__' and len(args) == 1 and isinstance(
                    args[0], (Leaf, Node)) and not self.snap(f.name, st):
                return tmap(lambda k: ratom(Atom('index', recv, k)),
                            self.escape(args[0], st))
            return self.opaque('mcall', recv, f, args, kwargs, st, node)
        return self.inline(f, [Leaf(recv)] + list(args), kwargs, st, node,
                           recv=Leaf(recv))

    def looping(self, f, args, kwargs):
        """is a call of f a recursion; a call that supplies an argument its
        caller left None is not"""
        if sum(x is f for x in self.stack) <= self.o.recurse:
            return False
        k = max(i for i, x in enumerate(self.stack) if x is f)
        outer = self.stackenv[k]
        b = self.bind(f, args, kwargs)
        if b is None:
            return True
        return not any(outer.get(p) is NONE and b[p] is not NONE or
                       p in outer and self.descends(outer[p], b[p])
                       for p in b)

    def descends(self, a, b):
        """a is a list and b one of its scalar elements"""
        if not (isinstance(a, Leaf) and isinstance(b, Leaf)):
            return False
        x, y = a.v, b.v
        if self.o.dictstate and isinstance(x, V) and x.kind == 'str' and \
                isinstance(y, V) and y.kind == 'list':
            return self.fixed(y)
        lx = isinstance(x, V) and x.kind in ('list', 'seq', 'cat') or \
            isinstance(x, R) and self.typ(x) in ('list', 'tuple')
        return lx and isinstance(y, R) and (
            self.typ(y) in ('date', 'num', 'int'))

    # -------------------------------------------------------------- opaque
    def bind(self, fn, args, kwargs, skip=0):
        """bind arguments to the parameters of fn -> dict or None"""
        a = fn.node.args
        params = [x.arg for x in a.posonlyargs + a.args][skip:]
        out = {}
        pos = []
        for x in args:
            if isinstance(x, tuple):
                kwo = [k for k in kwargs if k in params]
                room = len(params) - (len(args) - 1) - len(kwo)
                if room < 0 or a.vararg:
                    return None
                for j in range(room):
                    pos.append(tmap(lambda b: self.index1(b, num(j)), x[1]))
            else:
                pos.append(x)
        if len(pos) > len(params):
            if not a.vararg:
                return None
            out[a.vararg.arg] = lst(*pos[len(params):])
            pos = pos[:len(params)]
        elif a.vararg:
            out[a.vararg.arg] = lst()
        for p, v in zip(params, pos):
            out[p] = v
        rest = {}
        kwonly = [x.arg for x in a.kwonlyargs]
        for k, v in kwargs.items():
            if k == '**':
                if a.kwarg:
                    rest = v
                    continue
                rest = None
                continue
            if k in out:
                return None
            if k in params or k in kwonly:
                out[k] = v
            elif a.kwarg:
                if isinstance(rest, dict):
                    rest[k] = v
                else:
                    return None
            else:
                return None
        if rest is None:
            return None
        defaults = dict(zip([x.arg for x in a.posonlyargs + a.args][
            len(a.posonlyargs + a.args) - len(a.defaults):], a.defaults))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[x.arg] = d
        for p in params + kwonly:
            if p not in out:
                if p not in defaults:
                    return None
                key = ('default', defaults[p])
                if key not in self.consts:
                    s = St(Frame(fn.module, fn.cls))
                    if fn.cls is not None:
                        for n, x in fn.cls.attrs.items():
                            if isinstance(defaults[p], ast.Name) and \
                                    defaults[p].id == n:
                                s.env[n] = self.expr(x, s)
                    self.consts[key] = self.expr(defaults[p], s)
                out[p] = self.consts[key]
        if a.kwarg:
            if isinstance(rest, dict):
                d = Leaf(V('dict', (), None))
                for k in sorted(rest):
                    d = tmap(lambda x: self.dictset(
                        x, V('str', k), rest[k]), d)
                out[a.kwarg.arg] = d
            else:
                out[a.kwarg.arg] = rest
        return out

    def order_args(self, fn, b, skip):
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args][skip:]
        names += [x.arg for x in a.kwonlyargs]
        if a.vararg:
            names.append(a.vararg.arg)
        if a.kwarg:
            names.append(a.kwarg.arg)
        return [b[n] for n in names]

    def opaque(self, kind, recv, what, args, kwargs, st, node=None):
        """uninterpreted application"""
        fn = what if isinstance(what, Func) else None
        name = fn.name if fn else what
        if fn is not None:
            skip = 0 if kind == 'call' and (fn.cls is None or
                                            fn.kind == 'static') else 1
            b = self.bind(fn, args, kwargs, skip)
            if b is None:
                return self.site('arguments of ' + name, node)
            flat = self.order_args(fn, b, skip)
            # drop trailing defaults so that signatures may grow
        else:
            flat = []
            for x in args:
                if isinstance(x, tuple):
                    flat.append(tmap(lambda v: V('starred', v), x[1]))
                else:
                    flat.append(x)
            names = self.signature(name) if kind == 'mcall' else None
            kw = dict(kwargs)
            if names:
                while kw and len(flat) < len(names) and \
                        names[len(flat)] in kw:
                    flat.append(kw.pop(names[len(flat)]))
            for k in sorted(kw):
                flat.append(tmap(lambda v: V('kw', k, v),
                                 self.escape(kw[k], st)))
        flat = [self.escape(x, st) for x in flat]
        snap = self.snap(name, st, fn, self.cls_of(recv) if fn is not None
                         and kind == 'mcall' else None)

        def fin(*vs):
            for v in vs:
                if isinstance(v, V) and v.kind == 'raise':
                    return v
            for v in vs:
                if isinstance(v, V) and v.kind in ('top', 'any'):
                    return v
            vs = tuple(vs)
            if kind == 'call':
                h = name if name is not None else recv
                return ratom(Atom('call', h, vs, *snap))
            return ratom(Atom('mcall', recv, name, vs, *snap))
        r = tmap(fin, *flat) if flat else Leaf(fin())
        self.havoc(args, kwargs, r, st)
        return r

    def signature(self, name):
        """parameter names shared by all repository methods called name"""
        if name in self.sigs:
            return self.sigs[name]
        out = None
        for f in self.p.funcs:
            if f.name == name and f.cls is not None and \
                    f.kind in ('method',):
                ps = f.params()[1:]
                if out is None:
                    out = ps
                else:
                    k = 0
                    while k < min(len(out), len(ps)) and out[k] == ps[k]:
                        k += 1
                    out = out[:k]
        self.sigs[name] = out
        return out

    def escape(self, t, st):
        """make closures comparable when they leave the function"""
        def f(v):
            if isinstance(v, V) and v.kind == 'clo':
                return self.closure_lam(v, st)
            if isinstance(v, V) and v.kind == 'list' and any(
                    isinstance(x, V) and x.kind in ('clo', 'bm')
                    for x in v.args[0]):
                return lst(*[self.escape(Leaf(x), st) for x in v.args[0]])
            if isinstance(v, V) and v.kind == 'bm' and isinstance(
                    v.args[0], R):
                return self.bm_lam(v, st)
            return Leaf(v)
        return tmap(f, t)

    def bm_lam(self, v, st):
        c = self.cls_of(v.args[0])
        r = c and self.p.find(c, v.args[1])
        if not r or r[0] != 'method':
            return Leaf(v)
        n = len(r[2].params()) - 1 - len(r[2].node.args.defaults)
        if n < 0 or n > 3:
            return Leaf(v)
        xs = [fresh('x') for _ in range(n)]
        body = self.method(v.args[0], v.args[1],
                           [Leaf(ratom(x)) for x in xs], {}, st)
        return Leaf(mklam(xs, body))

    def closure_lam(self, v, st):
        node, s0 = self.closures[v.args[0]]
        a = node.args
        if a.vararg or a.kwarg or a.kwonlyargs:
            if a.vararg and not a.args and isinstance(node, ast.Lambda):
                body = self.call_closure(v, [], {}, st.fork(TRUE))
                return Leaf(V('lamv', mklam([fresh('x')], body)))
            return self.site('closure signature', node)
        n = len(a.args) - len(a.defaults)
        xs = [fresh('x') for _ in range(n)]
        s = st.fork(TRUE)
        s.exits = []
        before = dict(s.heap)
        body = self.call_closure(v, [Leaf(ratom(x)) for x in xs], {}, s)
        delta = self.heap_delta(before, s.heap)
        if delta:
            body = tmap(lambda b: V('eff', b, delta), body)
        # an eta redex is the callable itself
        return Leaf(mklam(xs, body))

    def heap_delta(self, a, b):
        out = []
        for k, t in b.items():
            if a.get(k) is not t:
                out.append((k[0], k[1], t))
        return tuple(sorted(out, key=lambda x: (str(x[1]), show(x[0]))))

    def template(self, f, args, kwargs):
        """text of a format template, None if not modelled"""
        import string
        try:
            fields = list(string.Formatter().parse(f))
        except ValueError:
            return None
        parts, n = [], 0
        for lit, field, spec, conv in fields:
            parts.append(S(lit))
            if field is None:
                continue
            if field == '':
                field, n = str(n), n + 1
            v = kwargs.get(field)
            if field.isdigit() and int(field) < len(args):
                v = args[int(field)]
            if v is None or '{' in spec:
                return None
            parts.append(tmap(lambda x: self.formatted(x, conv or '', spec),
                              v))
        return tmap(lambda *vs: self.texts(vs), *parts) if parts else S('')

    def snap(self, name, st, fn=None, cls=None):
        """attribute stores visible to an opaque repository call"""
        if not st.heap or name is None:
            return ()
        rd = self.reads(name, fn, cls)
        if rd is None:
            return ()
        out = [(k[0], k[1], t) for k, t in st.heap.items()
               if k[1] in rd or self.backing(k[1]) & rd]
        if not out:
            return ()
        # closures in attributes are not comparable
        out = [(o, n, self.escape(t, st)) for o, n, t in out]
        return (V('heap', tuple(sorted(out, key=lambda x: (
            str(x[1]), show(x[0]))))),)

    def backing(self, name):
        """attributes behind a property"""
        if name not in self.backs:
            self.backs[name] = {
                x.attr for c in self.p.classes.values()
                for f in (c.props.get(name), c.setters.get(name))
                if f is not None for x in ast.walk(f.node)
                if isinstance(x, ast.Attribute)}
        return self.backs[name]

    def reads(self, name, fn=None, cls=None):
        """attribute names that functions called `name` may read; with a
        known function and receiver class, what they reach in that class"""
        key = name if fn is None else (fn, cls)
        if key in self.readsof:
            return self.readsof[key]
        byname = self.p.byname()
        if fn is None and name not in byname:
            self.readsof[key] = None
            return None
        attrs, seen = set(), set()
        todo = [(fn, cls)] if fn is not None else [
            (f, None) for f in byname[name]]

        def byn(n):
            todo.extend((f, None) for f in byname.get(n, ()))

        while todo:
            job = todo.pop()
            if job in seen:
                continue
            seen.add(job)
            f, c = job
            me = f.params()[0] if c is not None and f.cls is not None and \
                f.kind != 'static' and f.params() else None
            for x in ast.walk(f.node):
                if isinstance(x, ast.Attribute):
                    if isinstance(x.ctx, ast.Load):
                        attrs.add(x.attr)
                    if x.attr in CONTAINER:
                        continue
                    own = isinstance(x.value, ast.Name) and x.value.id == me
                    if own:
                        r = self.p.find(c, x.attr)
                        if r is not None and r[0] in ('method', 'property'):
                            todo.append((r[2], c))
                        continue
                    sup = isinstance(x.value, ast.Call) and isinstance(
                        x.value.func, ast.Name) and \
                        x.value.func.id == 'super' and me is not None
                    if sup:
                        r = self.p.find(c, x.attr, after=f.cls)
                        if r is not None and r[0] in ('method', 'property'):
                            todo.append((r[2], c))
                        continue
                    byn(x.attr)
                elif isinstance(x, ast.Name) and x.id in byname:
                    r = self.p.lookup(f.module, x.id)
                    if isinstance(r, Func):
                        todo.append((r, None))
                    elif isinstance(r, Class):
                        byn(x.id)
                elif isinstance(x, ast.Call) and not (isinstance(
                        x.func, ast.Name) and x.func.id != me) and not (
                        isinstance(x.func, ast.Attribute) and (
                            x.func.attr in byname or
                            x.func.attr in CONTAINER or
                            x.func.attr == '_day_count')):
                    if isinstance(x.func, ast.Name) and c is not None:
                        r = self.p.find(c, '__call__')
                        if r is not None and r[0] == 'method':
                            todo.append((r[2], c))
                    else:
                        byn('__call__')
                elif isinstance(x, ast.Subscript):
                    attrs.add('#items')
                    if isinstance(x.value, ast.Name) and x.value.id == me:
                        r = self.p.find(c, '__getitem__')
                        if r is not None and r[0] == 'method':
                            todo.append((r[2], c))
                    elif not (isinstance(x.value, ast.Attribute) and
                              isinstance(x.value.value, ast.Name) and
                              x.value.value.id == me):
                        byn('__getitem__')
                elif isinstance(x, ast.Constant) and isinstance(
                        x.value, str) and len(x.value) < 30:
                    attrs.add(x.value)
        self.readsof[key] = attrs
        return attrs

    def havoc(self, args, kwargs, r, st):
        """an opaque call that got an effectful closure"""
        effs = []
        for t in list(args) + list(kwargs.values()):
            t = t[1] if isinstance(t, tuple) else t
            tmap(lambda v: effs.append(v) or v
                 if isinstance(v, V) and v.kind == 'clo' else v, t)
        for v in effs:
            lam = self.closure_lam(v, st)
            found = []
            walk(lam, lambda x: found.append(x)
                 if isinstance(x, V) and x.kind == 'eff' else None)
            for f in found:
                for o, n, t in f.args[1]:
                    st.heap[(o, n)] = tmap(
                        lambda c: ratom(Atom('after', c, o, n)), r)

    # ------------------------------------------------------------- inlining
    def inline(self, fn, args, kwargs, st, node=None, recv=None):
        b = self.bind(fn, args, kwargs)
        if b is None:
            return self.site('arguments of ' + fn.qual, node)
        if self.looping(fn, args, kwargs) or \
                len(self.stack) > self.o.depth:
            return self.site('recursion ' + fn.qual, node)
        self.visited.add(fn)
        if recv is None and fn.cls is not None and fn.kind != 'static' and \
                fn.params():
            recv = b.get(fn.params()[0])
        v = self.run(fn.node, b, Frame(fn.module, fn.cls, recv, fn), st,
                     fn)
        self.writeback(fn.node, args, st, node, fn.cls is not None)
        return v

    def writeback(self, fnode, args, st, node, method):
        """containers given to a function and changed there"""
        final, self.final = self.final, {}
        if not final or not isinstance(node, ast.Call) or any(
                isinstance(a, ast.Starred) for a in node.args):
            return
        a = fnode.args
        names = [x.arg for x in a.posonlyargs + a.args]
        off = len(args) - len(node.args)
        for i, src in enumerate(node.args):
            if 0 <= i + off < len(names) and names[i + off] in final:
                self.assign_back(src, final[names[i + off]], st)
        for k in node.keywords:
            if k.arg in final:
                self.assign_back(k.value, final[k.arg], st)

    def run(self, node, env, frame, st, key):
        """execute a function body on the heap of st"""
        self.stack.append(key)
        self.stackenv.append(dict(env))
        self.final = {}
        try:
            s = St(frame, dict(env), st.heap, TRUE)
            s.heap = dict(st.heap)
            if isinstance(node, ast.Lambda):
                v = self.expr(node.body, s)
                st.heap.clear()
                st.heap.update(s.heap)
                return v
            gen = self.is_gen(node)
            if gen:
                s.env['#yield'] = lst()
            live = self.block(node.body, s)
            exits = list(s.exits)
            if live is not None:
                exits.append((live.pc, NONE, live.heap, live.env))
            if gen:
                exits = [(p, x[3].get('#yield', lst())
                          if not self.israise(v) and not isleft(v) else v,
                          h, x[3])
                         for x in exits for p, v, h in [x[:3]]]
            if not exits:
                return self.site('no exit', node)
            val, heap = exits[-1][1], exits[-1][2]
            for p, v, h, _ in reversed(exits[:-1]):
                val = self.gam(p, v, val)
                heap = self.merge_heap(p, h, heap)
            self.mutback(node, exits, env)
            st.heap.clear()
            st.heap.update(heap)
            return val
        finally:
            self.stack.pop()
            self.stackenv.pop()

    def mutback(self, node, exits, env):
        """parameters whose container is another one at the end"""
        self.final = {}
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            k, t = x.arg, env.get(x.arg)
            if t is None or all(e[3].get(k) is t for e in exits):
                continue
            if any(isinstance(n, ast.Name) and n.id == k and
                   isinstance(n.ctx, ast.Store) for n in ast.walk(node)):
                continue
            v = exits[-1][3].get(k, t)
            for p, _, _, e in reversed(exits[:-1]):
                v = self.gam(p, e.get(k, t), v)
            self.final[k] = v

    def israise(self, t):
        return isinstance(t, Leaf) and isinstance(t.v, V) and \
            t.v.kind == 'raise'

    def is_gen(self, node):
        todo = list(node.body)
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                return True
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            todo.extend(ast.iter_child_nodes(n))
        return False

    def merge_heap(self, c, a, b):
        if a is b:
            return a
        out = {}
        for k in list(a) + [k for k in b if k not in a]:
            out[k] = self.gam(c, self.heapget(a, k), self.heapget(b, k))
        return out

    def heapget(self, h, k):
        if k in h:
            return h[k]
        o, n = k
        if isinstance(o, V):
            return Leaf(V('untouched',))
        return Leaf(ratom(Atom('attr', o, n)))

    def call_closure(self, v, args, kwargs, st, node=None):
        fnode, s0 = self.closures[v.args[0]]
        if fnode in self.stack or len(self.stack) > self.o.depth:
            return self.site('recursive closure', fnode)
        f = Func(fnode, s0.frame.module)
        b = self.bind_closure(f, args, kwargs, s0)
        if b is None:
            return self.site('closure arguments', fnode)
        env = st.env if st.frame is s0.frame else s0.env
        frame = Frame(s0.frame.module, s0.frame.cls, s0.frame.recv,
                      s0.frame.func, parent=(env, s0.frame))
        v = self.run(fnode, b, frame, st, fnode)
        self.writeback(fnode, args, st, node, False)
        return v

    def bind_closure(self, f, args, kwargs, s0):
        a = f.node.args
        # defaults are evaluated in the defining state
        n = len(a.args)
        for x, d in zip(a.args[n - len(a.defaults):], a.defaults):
            key = ('default', d)
            if key not in self.consts:
                self.consts[key] = self.expr(d, s0)
        return self.bind(f, args, kwargs)

    def construct(self, v, args, kwargs, st, node=None):
        name = v.args[0]
        c = self.p.classes.get(name)
        if c is None:
            return self.site('class ' + name, node)
        r = self.p.find(c, '__init__')
        if r is None:
            if args or kwargs:
                return self.opaque('call', v, None, args, kwargs, st, node)
            return Leaf(ratom(Atom('new', name, ())))
        b = self.bind(r[2], args, kwargs, 1)
        if b is None:
            if any(isinstance(x, tuple) for x in args) or '**' in kwargs:
                return self.opaque('call', v, None, args, kwargs, st, node)
            return Leaf(V('raise', 'TypeError'))
        flat = [self.escape(x, st)
                for x in self.order_args(r[2], b, 1)]

        def fin(*vs):
            for x in vs:
                if isinstance(x, V) and x.kind in ('top', 'raise'):
                    return x
            return ratom(Atom('new', name, tuple(vs)))
        return tmap(fin, *flat) if flat else Leaf(fin())

    # ------------------------------------------------------------- builtins
    def builtin(self, n, args, kwargs, st, node=None):
        if any(isinstance(a, tuple) for a in args):
            args = self.spread(args, st)
            if n == 'zip' and len(args) == 1 and isinstance(args[0], tuple):
                t = tmap(lambda v: self.iter1(v, st), args[0][1])
                return tmap(self.transpose, t)
            if any(isinstance(a, tuple) for a in args):
                return self.opaque('call', None, n, args, kwargs, st, node)
        m = getattr(self, 'b_' + n.replace('.', '_'), None)
        if m is not None:
            return m(args, kwargs, st, node)
        if n in EXCS:
            return Leaf(V('exc', n))
        if n.startswith('logging'):
            return bi('logging')
        if n.split('.')[0] in IGNORED_MODS:
            return NONE
        if n == 'print':
            return NONE
        return self.opaque('call', None, n, args, kwargs, st, node)

    def elementwise(self, v, i, st):
        pass

    def b_len(self, args, kw, st, node):
        def f(v):
            if isinstance(v, R):
                c = self.cls_of(v)
                if c is not None and self.p.find(c, '__len__'):
                    return self.method(v, '__len__', [], {}, st, node)
            return self.length1(v)
        return tmap(f, args[0])

    def b_sum(self, args, kw, st, node):
        start = args[1] if len(args) > 1 else kw.get('start')
        t = tmap(lambda v: self.iter1(v, st), args[0])
        if start is None:
            return tmap(self.sumseq, t)

        def f(v, s):
            if self.listy(s):
                return top('sum of lists')
            return self.sumseq(v, Leaf(s))
        return tmap(f, t, start)

    def _minmax(self, name, args, kw, st, node):
        if kw:
            return self.opaque('call', None, name, args, kw, st, node)
        if len(args) == 1:
            t = tmap(lambda v: self.iter1(v, st), args[0])
            return tmap(lambda v: self.agg(name, v), t)
        out = args[0]
        for a in args[1:]:
            out = self.maxmin(name, out, a)
        return out

    def b_max(self, *a):
        return self._minmax('max', *a)

    def b_min(self, *a):
        return self._minmax('min', *a)

    def b_abs(self, args, kw, st, node):
        return tmap(lambda v: sign_node(v, Leaf(-v), N(0), Leaf(v))
                    if isinstance(v, R) else self.bad2(v, v), args[0])

    b_math_fabs = b_abs

    def b_float(self, args, kw, st, node):
        def f(v):
            if isinstance(v, R):
                c = self.cls_of(v)
                if c is not None and self.p.find(c, '__float__'):
                    return self.method(v, '__float__', [], {}, st, node)
                return Leaf(v)
            if isinstance(v, V) and v.kind == 'bool':
                return N(1 if v.args[0] else 0)
            if isinstance(v, V) and v.kind in ('top', 'raise', 'any'):
                return Leaf(v)
            if isinstance(v, V) and v.kind == 'none':
                return Leaf(V('raise', 'TypeError'))
            return top('float')
        return tmap(f, args[0]) if args else N(0)

    def b_int(self, args, kw, st, node):
        def f(v):
            if isinstance(v, R):
                c = v.const()
                if c is not None:
                    return N(int(c))
                if self.typ(v) == 'int' or self.isint(v):
                    return Leaf(v)
                return Leaf(ratom(Atom('int', v)))
            return self.bad2(v, v)
        return tmap(f, args[0])

    def isint(self, v):
        if v.den is not None:
            return False
        for m, c in v.num.items():
            if c.denominator != 1:
                return False
            for a, e in m:
                if self.atype(a) != 'int' or e.denominator != 1 or e < 0:
                    return False
        return True

    def b_bool(self, args, kw, st, node):
        return self.truth(args[0])

    def b_str(self, args, kw, st, node):
        def f(v):
            if isinstance(v, V) and v.kind in ('str', 'top', 'raise'):
                return Leaf(v)
            c = self.cls_of(v) if isinstance(v, R) else None
            r = c and self.p.find(c, '__str__')
            if r and r[0] == 'method' and r[2] not in self.stack:
                return self.method(v, '__str__', [], {}, st, node)
            return Leaf(ratom(Atom('call', 'str', (v,))))
        return tmap(f, args[0]) if args else S('')

    def b_repr(self, args, kw, st, node):
        return tmap(lambda v: ratom(Atom('call', 'repr', (v,))), args[0])

    def b_list(self, args, kw, st, node):
        if not args:
            return lst()

        def f(v):
            if isinstance(v, R):
                return tmap(self.tolist1, self.iter1(v, st))
            return self.tolist1(v)
        return tmap(f, args[0])

    b_tuple = b_list
    b_iter = b_list

    def b_set(self, args, kw, st, node):
        if not args:
            return Leaf(ratom(Atom('call', 'set', ())))

        def f(v):
            if isinstance(v, V) and v.kind in ('top', 'raise', 'any'):
                return Leaf(v)
            v = self.strip_order(v)
            return Leaf(ratom(Atom('call', 'set', (v,))))
        return tmap(f, tmap(lambda v: self.iter1(v, st), args[0]))

    b_frozenset = b_set

    def unique(self, v):
        """the elements of a sequence, each one once"""
        if isinstance(v, V) and v.kind in ('top', 'raise', 'any'):
            return Leaf(v)
        if isinstance(v, V) and v.kind == 'list' and len(v.args[0]) <= 1:
            return Leaf(v)
        b = v.bare() if isinstance(v, R) else None
        if b is not None and (
                b.kind in ('attr', 'mcall') and
                b.args[1] in ('domain', '_domain') or
                b.kind == 'call' and b.args[0] in ('set', 'unique')):
            return Leaf(v)
        if b is not None and b.kind == 'call' and b.args[0] == 'sorted' and \
                len(b.args[1]) == 1 and isinstance(b.args[1][0], R) and \
                b.args[1][0].bare() is not None and \
                b.args[1][0].bare().kind == 'call' and \
                b.args[1][0].bare().args[0] == 'set':
            return Leaf(v)
        return Leaf(ratom(Atom('call', 'unique', (v,))))

    def strip_order(self, v):
        while isinstance(v, R):
            b = v.bare()
            if b is not None and b.kind == 'call' and b.args[0] in (
                    'sorted', 'reversed', 'set', 'list', 'unique') and \
                    len(b.args[1]) == 1:
                v = b.args[1][0]
            else:
                break
        return v

    def b_sorted(self, args, kw, st, node):
        t = tmap(lambda v: self.iter1(v, st), args[0])
        if kw or isinstance(t, Leaf) and isinstance(t.v, V) and \
                t.v.kind == 'list' and 1 < len(t.v.args[0]) < 4:
            r = self.sort_literal(t, kw, st, node)
            if r is not None:
                return r
        if kw:
            kw = dict(kw)
            return self.opaque('call', None, 'sorted', [t], kw, st, node)

        def f(v):
            if isinstance(v, V) and v.kind in ('top', 'raise', 'any'):
                return Leaf(v)
            if isinstance(v, V) and v.kind == 'dict':
                return top('sorted dict')
            while isinstance(v, R) and v.bare() is not None and \
                    v.bare().kind == 'call' and \
                    v.bare().args[0] in ('sorted', 'reversed', 'list') and \
                    len(v.bare().args[1]) == 1:
                v = v.bare().args[1][0]
            if isinstance(v, R) and v.bare() is not None and \
                    v.bare().kind == 'call' and v.bare().args[0] == 'unique':
                v = ratom(Atom('call', 'set', v.bare().args[1]))
            if isinstance(v, V) and v.kind == 'list' and \
                    len(v.args[0]) <= 1:
                return Leaf(v)
            b = v.bare() if isinstance(v, R) else None
            w = b.args[1][0] if b is not None and b.kind == 'call' and \
                b.args[0] == 'set' and len(b.args[1]) == 1 else v
            if isinstance(w, V) and w.kind == 'list' and all(
                    isinstance(x, R) and x.const() is not None
                    for x in w.args[0]):
                c = [x.const() for x in w.args[0]]
                if w is not v:
                    c = set(c)
                return lst(*[Leaf(num(x)) for x in sorted(c)])
            return Leaf(ratom(Atom('call', 'sorted', (v,))))
        return tmap(f, t)

    def sort_literal(self, t, kw, st, node):
        """up to three given elements: the stable order by comparisons"""
        if not (isinstance(t, Leaf) and isinstance(t.v, V) and
                t.v.kind == 'list' and len(t.v.args[0]) < 4 and
                set(kw) <= {'key', 'reverse'}):
            return None
        rev = kw.get('reverse', FALSE)
        if rev not in (TRUE, FALSE):
            return None
        xs = t.v.args[0]
        ks = [Leaf(x) for x in xs]
        if kw.get('key', NONE) is not NONE:
            ks = [tmap(lambda f: self.apply(f, [Leaf(x)], {}, st, node),
                       kw['key']) for x in xs]
        if not all(isinstance(k, Leaf) and isinstance(k.v, R) and
                   self.typ(k.v) in ("num", "int") for k in ks):
            return None
        def go(order, k):
            if k == len(xs):
                return Leaf(V('list', tuple(xs[i] for i in order)))

            def at(j):
                if j == 0:
                    return go((k,) + order, k + 1)
                d = ks[k].v - ks[order[j - 1]].v
                d = -d if rev is TRUE else d
                here = go(order[:j] + (k,) + order[j:], k + 1)
                return sign_node(d, at(j - 1), here, here)
            return at(len(order))
        return go((), 0)

    def b_reversed(self, args, kw, st, node):
        return tmap(lambda v: self.slice1(v, None, None, num(-1)), args[0])

    def b_range(self, args, kw, st, node):
        if len(args) == 3:
            return self.site('range step', node)
        lo, hi = (N(0), args[0]) if len(args) == 1 else args

        def f(a, b):
            if not (isinstance(a, R) and isinstance(b, R)):
                return self.bad2(a, b)
            i = fresh('i')
            return self.mkseq(b - a, i, lst(Leaf(ratom(i) + a)))
        return tmap(f, lo, hi)

    def b_enumerate(self, args, kw, st, node):
        start = args[1] if len(args) > 1 else kw.get('start', N(0))

        def f(v, s):
            q = None if isinstance(v, V) and v.kind in (
                'top', 'raise', 'any') else self.as_seq(v)
            if q is None or not isinstance(s, R):
                return self.bad2(v, s)
            if q[0] == 'conc':
                return Leaf(V('list', tuple(
                    V('list', (num(j) + s, x)) for j, x in enumerate(q[1]))))
            i = fresh('i')
            t = q[2](ratom(i))
            if not self.singles(t):
                return top('enumerate')
            return self.mkseq(q[1], i, tmap(
                lambda l: V('list', (V('list', (ratom(i) + s,
                                                l.args[0][0])),)), t))
        return tmap(f, tmap(lambda v: self.iter1(v, st), args[0]), start)

    def singles(self, t):
        ok = []
        tmap(lambda x: ok.append(isinstance(x, V) and x.kind == 'list' and
                                 len(x.args[0]) == 1) or x, t)
        return all(ok)

    def spread(self, args, st):
        """f(*[a, b]) is f(a, b)"""
        out = []
        for a in args:
            if isinstance(a, tuple):
                n = []
                tmap(lambda v: n.append(
                    len(v.args[0]) if isinstance(v, V) and v.kind == 'list'
                    else None) or v, a[1])
                if n and n[0] is not None and len(set(n)) == 1:
                    out += [tmap(lambda v, k=k: v.args[0][k], a[1])
                            for k in range(n[0])]
                    continue
            out.append(a)
        return out

    def width(self, v):
        """common length of the elements of a sequence"""
        v = self.strip_order(v)
        q = self.as_seq(v)
        if q is None or q[0] != 'seq':
            return None
        n = []

        def f(l):
            for x in l.args[0]:
                n.append(len(x.args[0]) if isinstance(x, V) and
                         x.kind == 'list' else None)
            return l
        t = q[2](ratom(fresh('i')))
        if not self.singles(t):
            return None
        tmap(f, t)
        return n[0] if n and len(set(n)) == 1 else None

    def transpose(self, v):
        if isinstance(v, V) and v.kind in ('top', 'raise', 'any'):
            return Leaf(v)
        if isinstance(v, V) and v.kind == 'list':
            return tmap(lambda *vs: self.zip1(vs), *[Leaf(x)
                                                     for x in v.args[0]]) \
                if v.args[0] else Leaf(v)
        w, q = self.width(v), self.as_seq(v)
        if w is None or q is None or q[0] != 'seq':
            return top('transpose')
        cols = []
        for k in range(w):
            i = fresh('i')
            e = tmap(lambda l: l.args[0][0], q[2](ratom(i)))
            cols.append(self.mkseq(q[1], i, lst(tmap(
                lambda x: self.index1(x, num(k)), e))))
        return sign_node(q[1], lst(), lst(), lst(*cols))

    def b_zip(self, args, kw, st, node):
        ts = [tmap(lambda v: self.iter1(v, st), a) for a in args]
        return tmap(lambda *vs: self.zip1(vs), *ts)

    def zip1(self, vs):
        for v in vs:
            if isinstance(v, V) and v.kind in ('top', 'raise', 'any'):
                return Leaf(v)
        qs = [self.as_seq(v) for v in vs]
        if any(q is None for q in qs):
            return top('zip')
        if all(q[0] == 'conc' for q in qs):
            return Leaf(V('list', tuple(V('list', t) for t in
                                        zip(*[q[1] for q in qs]))))
        Ls = [num(len(q[1])) if q[0] == 'conc' else q[1] for q in qs]
        L = Leaf(Ls[0])
        for x in Ls[1:]:
            L = self.lmin(L, x)
        i = fresh('i')
        cols = []
        if all(q[0] == 'seq' and q[1] is qs[0][1] for q in qs):
            # filtered sequences that keep the same indices
            ts = [q[2](ratom(i)) for q in qs]
            if not all(self.singles(t) for t in ts):
                bad = []

                def pair(*ls):
                    if not all(isinstance(l, V) and l.kind == 'list' and
                               len(l.args[0]) == len(ls[0].args[0])
                               for l in ls):
                        bad.append(1)
                        return V('list', ())
                    return V('list', tuple(V('list', x) for x in zip(
                        *[l.args[0] for l in ls])))
                body = tmap(pair, *ts)
                if not bad:
                    return self.mkseq(qs[0][1], i, body)
        for v, q in zip(vs, qs):
            if q[0] == 'conc':
                t = None
                for k, x in reversed(list(enumerate(q[1]))):
                    t = lst(Leaf(x)) if t is None else sign_node(
                        ratom(i) - num(k), lst(Leaf(x)), lst(Leaf(x)), t)
                if t is None:
                    return lst()
            else:
                t = q[2](ratom(i))
            if not self.singles(t):
                return top('zip of filtered')
            cols.append(tmap(lambda l: l.args[0][0], t))
        body = lst(lst(*cols))
        return tmap(lambda l: self.mkseq(l, i, body), L)

    def lmin(self, L, x):
        """min of lengths"""
        def f(l):
            d = l - x
            c = d.const()
            if c is not None:
                return Leaf(l if c <= 0 else x)
            return sign_node(d, Leaf(l), Leaf(l), Leaf(x))
        return tmap(f, L)

    def b_map(self, args, kw, st, node):
        f = args[0]
        z = args[1] if len(args) == 2 else self.b_zip(args[1:], {}, st, node)
        z = tmap(lambda v: self.iter1(v, st), z)

        def one(x):
            if len(args) == 2:
                a = [Leaf(x)]
            else:
                a = [Leaf(y) for y in x.args[0]]
            return tmap(lambda g: self.apply(g, a, {}, st, node), f)
        return tmap(lambda v: self.mapseq(v, one), z)

    def mapseq(self, v, one):
        """sequence with one(element) -> tree"""
        if isinstance(v, V) and v.kind in ('top', 'raise', 'any'):
            return Leaf(v)
        q = self.as_seq(v)
        if q is None:
            return top('map')
        if q[0] == 'conc':
            return lst(*[one(x) for x in q[1]])
        i = fresh('i')

        def per(l):
            if not (isinstance(l, V) and l.kind == 'list'):
                return top('map')
            return lst(*[one(x) for x in l.args[0]])
        return self.mkseq(q[1], i, tmap(per, q[2](ratom(i))))

    def b_filter(self, args, kw, st, node):
        f, z = args[0], tmap(lambda v: self.iter1(v, st), args[1])

        def run(v):
            q = None if isinstance(v, V) and v.kind in (
                'top', 'raise', 'any') else self.as_seq(v)
            if q is None:
                return top('filter')

            def keep(x):
                c = self.truth(tmap(lambda g: Leaf(x) if g.kind == 'none'
                                    else self.apply(g, [Leaf(x)], {}, st,
                                                    node), f))
                return self.gam(c, lst(Leaf(x)), lst())

            def per(l):
                out = lst()
                for x in l.args[0]:
                    out = tmap(self.cat1, out, keep(x))
                return out
            if q[0] == 'conc':
                return per(V('list', q[1]))
            i = fresh('i')
            return self.mkseq(q[1], i, tmap(per, q[2](ratom(i))))
        return tmap(run, z)

    def b_any(self, args, kw, st, node):
        return tmap(lambda v: self.anyall('any', v), args[0])

    def b_all(self, args, kw, st, node):
        return tmap(lambda v: self.anyall('all', v), args[0])

    def type_names(self, t):
        """names of the classes in an isinstance argument"""
        v = t.v if isinstance(t, Leaf) else None
        if isinstance(v, V) and v.kind == 'list':
            out = []
            for x in v.args[0]:
                n = self.type_names(Leaf(x))
                if n is None:
                    return None
                out += n
            return out
        if isinstance(v, V) and v.kind == 'cls':
            return [v.args[0]]
        if isinstance(v, V) and v.kind == 'bi':
            return [v.args[0].split('.')[-1]]
        return None

    def b_isinstance(self, args, kw, st, node):
        names = self.type_names(args[1])
        if names is None:
            return tmap(lambda a, b: T.bnode(Atom('isinst2', a, b)),
                        args[0], args[1])
        return tmap(lambda v: self.isinst1(v, names), args[0])

    def b_issubclass(self, args, kw, st, node):
        names = self.type_names(args[1])

        def f(v):
            if isinstance(v, V) and v.kind == 'cls' and names:
                return T.bool_(self.p.subclass(self.p.cls(v.args[0]),
                                               names))
            if isinstance(v, R) and names:
                return bnode(Atom('issub', v, tuple(names)))
            return top('issubclass')
        return tmap(f, args[0])

    def b_hasattr(self, args, kw, st, node):
        def f(v, n):
            if isinstance(n, V) and n.kind == 'str':
                if isinstance(v, R) and (v, n.args[0]) in st.heap:
                    return TRUE
                return self.hasattr1(v, n.args[0])
            return top('hasattr')
        return tmap(f, args[0], args[1])

    def b_getattr(self, args, kw, st, node):
        def f(v, n):
            if not (isinstance(n, V) and n.kind == 'str'):
                if isinstance(v, R):
                    return Leaf(ratom(Atom('attr', v, n)))
                return top('getattr')
            n = n.args[0]
            if len(args) < 3:
                return self.attr1(v, n, st, node)
            if isinstance(v, R) and (v, n) in st.heap:
                return st.heap[(v, n)]
            c = self.hasattr1(v, n)
            if c is FALSE:
                return args[2]
            return self.gam(c, self.attr1(v, n, st, node), args[2])
        return tmap(f, args[0], args[1])

    def b_setattr(self, args, kw, st, node):
        kinds = []
        tmap(lambda v: kinds.append(isinstance(v, V) and v.kind == 'dict')
             or v, args[0])
        if all(kinds):
            return NONE             # beside the items of a dict
        def f(v, n):
            if isinstance(n, V) and n.kind == 'str' and isinstance(v, R):
                self.setattr1(v, n.args[0], args[2], st, node)
                return NONE
            return self.site('setattr', node)
        if isinstance(args[0], Leaf) and isinstance(args[1], Leaf):
            return f(args[0].v, args[1].v)
        return self.site('setattr', node)

    def b_id(self, args, kw, st, node):
        return tmap(lambda v: ratom(Atom('call', 'id', (v,))), args[0])

    def b_type(self, args, kw, st, node):
        if len(args) == 1:
            return tmap(self.typeof1, args[0])
        if len(args) == 3 and not kw and args[1] is lst(bi('dict')) and \
                args[2] is Leaf(V('dict', (), None)):
            return bi('dict')       # a dict type with a name of its own
        return self.opaque('call', None, 'type', args, kw, st, node)

    def b_inspect_signature(self, args, kw, st, node):
        def f(v):
            if isinstance(v, V) and v.kind == 'cls':
                c = self.p.classes.get(v.args[0])
                r = self.p.find(c, '__init__') if c is not None else None
                if r and r[0] == 'method':
                    a = r[2].node.args
                    if not a.vararg and not a.kwarg:
                        return V('sigof', tuple(x.arg for x in (
                            a.posonlyargs + a.args)[1:] + a.kwonlyargs))
            return ratom(Atom('call', 'inspect.signature', (v,)))
        return tmap(f, args[0])

    def b_callable(self, args, kw, st, node):
        def f(v):
            if isinstance(v, V):
                if v.kind in ('top', 'raise', 'any'):
                    return Leaf(v)
                return T.bool_(v.kind in ('fn', 'clo', 'bi', 'bm', 'cls',
                                          'lam'))
            if self.typ(v) in ('num', 'int', 'date', 'str', 'list', 'none'):
                return FALSE
            c = self.cls_of(v)
            if c is not None and self.p.find(c, '__call__'):
                return TRUE
            return bnode(Atom('callable', v))
        return tmap(f, args[0])

    def b_round(self, args, kw, st, node):
        nd = args[1] if len(args) > 1 else kw.get('ndigits', NONE)
        if self.o.digits is not None and isinstance(nd, Leaf) and \
                isinstance(nd.v, R) and nd.v.const() is not None and \
                nd.v.const() >= self.o.digits:
            return args[0]
        return tmap(lambda v, n: ratom(Atom('call', 'round', (v, n)))
                    if isinstance(v, R) else V('top', 'round'), args[0], nd)

    def b_next(self, args, kw, st, node):
        def f(v, *d):
            if isinstance(v, V) and v.kind == 'list':
                if v.args[0]:
                    return Leaf(v.args[0][0])
                return Leaf(d[0]) if d else Leaf(V('raise', 'StopIteration'))
            q = None if isinstance(v, V) and v.kind in (
                'top', 'raise', 'any', 'cat') else self.as_seq(v)
            if q is None:
                return top('next')
            t = q[2](ratom(fresh('i')))
            if self.singles(t):
                return self.index1(v, ZERO)
            i = fresh('i')
            b = q[2](ratom(i))
            has = tmap(lambda l: T.bool_(bool(l.args[0])), b)
            ex = self.hoist_any(q[1], i, has)
            fst = ratom(Atom('first', q[1], mklam([i], has)))
            r = self.there(q[2](fst))
            dflt = Leaf(d[0]) if d else Leaf(V('raise', 'StopIteration'))
            return self.gam(ex, r, dflt)
        return tmap(f, *args)

    def b_dict(self, args, kw, st, node):
        if not args:
            d = Leaf(V('dict', (), None))
        else:
            d = tmap(self.dictof1, args[0])
        for k in kw:
            if k == '**':
                return self.site('dict', node)
            d = tmap(lambda x: self.dictset(x, V('str', k), kw[k])
                     if isinstance(x, V) and x.kind == 'dict'
                     else top('dict'), d)
        return d

    def b_vars(self, args, kw, st, node):
        return tmap(lambda v: ratom(Atom('call', 'vars', (v,))), args[0])

    def b_pow(self, args, kw, st, node):
        return self.binop('**', args[0], args[1])

    b_math_pow = b_pow

    def b_math_exp(self, args, kw, st, node):
        return tmap(lambda v: rexp(v) if isinstance(v, R)
                    else self.bad2(v, v), args[0])

    def b_math_log(self, args, kw, st, node):
        if len(args) == 2:
            return self.binop('/', self.b_math_log(args[:1], kw, st, node),
                              self.b_math_log(args[1:], kw, st, node))
        return tmap(lambda v: rlog(v) if isinstance(v, R)
                    else self.bad2(v, v), args[0])

    def b_math_expm1(self, args, kw, st, node):
        return self.binop('-', self.b_math_exp(args, kw, st, node), N(1))

    def b_math_log1p(self, args, kw, st, node):
        return self.b_math_log([self.binop('+', args[0], N(1))], kw, st,
                               node)

    def b_math_sqrt(self, args, kw, st, node):
        return self.binop('**', args[0], N(Fraction(1, 2)))

    def b_math_fsum(self, args, kw, st, node):
        return self.b_sum(args, kw, st, node)

    def b_math_prod(self, args, kw, st, node):
        return self.opaque('call', None, 'math.prod', args, kw, st, node)

    def b_bisect_left(self, args, kw, st, node):
        return self._bisect('bisect_left', args, kw, st, node)

    def b_bisect_right(self, args, kw, st, node):
        return self._bisect('bisect_right', args, kw, st, node)

    def _bisect(self, n, args, kw, st, node):
        args = list(args)
        names = ['a', 'x', 'lo', 'hi']
        kw = dict(kw)
        while len(args) < 4:
            k = names[len(args)]
            if k in kw:
                args.append(kw.pop(k))
            elif k == 'lo':
                args.append(N(0))
            elif k == 'hi':
                args.append(self.b_len([args[0]], {}, st, node))
            else:
                return self.site(n, node)
        # on an ordered list bounds clamp the position in the whole of it
        size = self.b_len([args[0]], {}, st, node)
        out = self.opaque('call', None, n, args[:2] + [N(0), size], {}, st,
                          node)
        if isinstance(args[2], Leaf) and isinstance(args[3], Leaf):
            if args[3] is not size:
                out = self.maxmin('min', out, args[3])
            if args[2] is not N(0):
                out = self.maxmin('max', out, args[2])
            return out
        return self.opaque('call', None, n, args, {}, st, node)

    def b_functools_reduce(self, args, kw, st, node):
        return self.site('reduce', node)

    def b_itertools_accumulate(self, args, kw, st, node):
        def f(v):
            q = self.as_seq(v)
            if q is None or q[0] == 'conc':
                return top('accumulate')
            i, j = fresh('i'), fresh('j')
            if not self.singles(q[2](ratom(i))):
                return top('accumulate')
            b = tmap(lambda l: l.args[0][0], q[2](ratom(j)))
            t = self.msum(ratom(i) + ONE, j, b)
            return self.mkseq(q[1], i, lst(t))
        if len(args) > 1 or kw:
            return self.site('accumulate', node)
        return tmap(f, args[0])

    def b_itertools_chain(self, args, kw, st, node):
        out = lst()
        for a in args:
            out = tmap(self.cat1, out, tmap(
                self.tolist1, tmap(lambda v: self.iter1(v, st), a)))
        return out

    # ------------------------------------------------- methods of builtins
    def parts(self, p, j):
        """element j of each pair of a sequence of pairs"""
        if isinstance(p, V) and p.kind == 'list':
            if all(isinstance(x, V) and x.kind == 'list' and
                   len(x.args[0]) == 2 for x in p.args[0]):
                return Leaf(V('list', tuple(x.args[0][j]
                                            for x in p.args[0])))
            return None
        q = self.as_seq(p)
        if not q or q[0] != 'seq':
            return None
        i = fresh('i')
        t = q[2](ratom(i))
        if not self.singles(t):
            return None
        return self.mkseq(q[1], i, tmap(
            lambda l: V('list', (l.args[0][0].args[0][j],))
            if isinstance(l.args[0][0], V) and l.args[0][0].kind == 'list' and
            len(l.args[0][0].args[0]) == 2 else V('top', 'pair'), t))

    def dictpairs(self, d, st, depth=0):
        """tree of the sequence of the items of a dict in their order"""
        if depth > 3:
            return None
        b = d.bare() if isinstance(d, R) else None
        if b is not None:
            if b.kind != 'call' or b.args[0] != 'dict' or len(b.args[1]) != 1:
                return None
            p = b.args[1][0]
            ks = self.parts(p, 0)
            if not isinstance(ks, Leaf) or self.unique(ks.v) is not ks:
                return None
            return Leaf(p)
        if not isinstance(d, V) or d.kind not in ('dict', 'dyn'):
            return None
        if d.kind == 'dyn':
            base, adds = d.args[0], ((d.args[1], d.args[2]),)
        else:
            base, adds = d.args[1], d.args[0]
        if base is None:
            return None
        t = self.dictpairs(base, st, depth + 1)
        for k, v in adds:
            if t is None:
                return None
            none = []

            def store(p):
                ks = self.parts(p, 0)
                vs = self.parts(p, 1)
                q = self.as_seq(p)
                if not isinstance(ks, Leaf) or not isinstance(vs, Leaf) or \
                        not q or q[0] != 'seq' or not isinstance(ks.v, R):
                    none.append(1)
                    return Leaf(p)
                at = self.opaque('mcall', ks.v, 'index', [Leaf(k)], {}, st)
                if not isinstance(at, Leaf) or not isinstance(at.v, R):
                    none.append(1)
                    return Leaf(p)
                i = fresh('i')
                ri = ratom(i)
                old = q[2](ri)
                new = tmap(lambda l: V('list', (V('list', (
                    l.args[0][0].args[0][0], v)),)), old)
                changed = self.mkseq(q[1], i, sign_node(
                    ri - at.v, old, new, old))
                more = self.cat1(p, V('list', (V('list', (k, v)),)))
                return self.gam(self.contains(ks.v, k), changed, more)
            t = tmap(store, t)
            if none:
                return None
        return t

    def dictview(self, d, name, st):
        t = self.dictpairs(d, st)
        if t is None or name == 'items':
            return t
        none = []

        def f(p):
            r = self.parts(p, 0 if name == 'keys' else 1)
            if r is None:
                none.append(1)
                return Leaf(p)
            return r
        t = tmap(f, t)
        return None if none else t

    def bimethod(self, v, name, args, kwargs, st, node):
        k = v.kind
        if k == 'none':
            return Leaf(V('raise', 'AttributeError'))
        if k == 'dict':
            if name == 'get':
                d = args[1] if len(args) > 1 else NONE
                return tmap(lambda x: self.dictget(v, x, d)
                            if isinstance(x, (V, R)) else top('get'),
                            args[0])
            if name in ('items', 'keys', 'values') and not args and \
                    v.args[1] is not None:
                r = self.dictview(v, name, st)
                if r is not None:
                    return r
            if name == 'items' and v.args[1] is None:
                return Leaf(V('list', tuple(V('list', (a, b))
                                            for a, b in v.args[0])))
            if name == 'keys' and v.args[1] is None:
                return Leaf(V('list', tuple(a for a, _ in v.args[0])))
            if name == 'values' and v.args[1] is None:
                return Leaf(V('list', tuple(b for _, b in v.args[0])))
            if name == 'copy':
                return Leaf(v)
            return self.opaque('mcall', v, name, args, kwargs, st, node)
        if k == 'str':
            if name == 'join' and len(args) == 1 and not isinstance(
                    args[0], tuple):
                def joined(x):
                    if isinstance(x, V) and x.kind == 'list':
                        out = []
                        for y in x.args[0]:
                            out += [v, y] if out else [y]
                        return Leaf(self.texts(out))
                    return self.opaque('mcall', v, name, [Leaf(x)], {}, st,
                                       node)
                return tmap(joined, args[0])
            if name in ('upper', 'lower', 'strip', 'title', 'capitalize') \
                    and not args and not kwargs:
                return S(getattr(v.args[0], name)())
            if name == 'format' and not any(isinstance(x, tuple)
                                            for x in args):
                r = self.template(v.args[0], args, kwargs)
                if r is not None:
                    return r
            return self.opaque('mcall', v, name, args, kwargs, st, node)
        # sequences
        if name == 'index':
            if k == 'list' and len(args) == 1:
                out = Leaf(V('raise', 'ValueError'))
                for i, x in reversed(list(enumerate(v.args[0]))):
                    out = self.gam(tmap(lambda y: self.compare1(
                        '==', x, y), args[0]), N(i), out)
                return out
            if k == 'seq':
                q = self.as_seq(v)
                if q and q[0] == 'seq' and isinstance(args[0], Leaf):
                    i = fresh('i')
                    t = q[2](ratom(i))
                    if self.singles(t):
                        c = tmap(lambda l, x: self.compare1(
                            '==', l.args[0][0], x), t, args[0])
                        ex = self.hoist_any(q[1], i, c)
                        if mentions(c, i):
                            return self.gam(
                                ex, Leaf(ratom(Atom('first', q[1],
                                                    mklam([i], c)))),
                                Leaf(V('raise', 'ValueError')))
            return self.opaque('mcall', v, name, args, kwargs, st, node)
        if name == 'copy':
            return Leaf(v)
        if name == 'count':
            return self.opaque('mcall', v, name, args, kwargs, st, node)
        return self.site('method %s of %s' % (name, k), node)

    def byvalue(self, lam, v):
        """whether a condition on positions is one on the values of v"""
        i, x = fresh('i'), fresh('x')
        body = T.aplam(lam, ratom(i))
        at = Atom('index', v, ratom(i))
        return not mentions(T.Subst({at: Leaf(ratom(x))}).tree(body), i)

    def position(self, v, x):
        """v.index(x) of a number or of the first value of some kind"""
        if self.typ(v) == 'list' and x.const() is not None:
            i = fresh('i')
            L = ratom(Atom('len', v))
            c = self.compare1('==', ratom(Atom('index', v, ratom(i))), x)
            return self.gam(bnode(Atom('exists', L, mklam([i], c))),
                            Leaf(ratom(Atom('first', L, mklam([i], c)))),
                            Leaf(V('raise', 'ValueError')))
        b = x.bare()
        f = b.args[1].bare() if b is not None and b.kind == 'index' and \
            isinstance(b.args[1], R) and b.args[0] == v else None
        if f is not None and f.kind == 'first' and \
                self.byvalue(f.args[1], v):
            return Leaf(ratom(f))
        return None

    def mapping(self, v):
        b = v.bare() if isinstance(v, R) else None
        return b is not None and (
            self.typ(v) == 'dict' or
            b.kind == 'attr' and b.args[1] in MAPPINGS or
            b.kind == 'cconst' and b.args[0] in MAPPINGS)

    def rmethod(self, v, name, args, kwargs, st, node):
        """well known methods of opaque values"""
        t = self.typ(v)
        if t == 'timedelta':
            return self.site('timedelta.' + name, node)
        if name == 'copy' and t in ('list', 'dict'):
            return Leaf(v)
        b = v.bare()
        if name == 'index' and len(args) == 1 and not kwargs:
            def where(x):
                r = self.position(v, x) if isinstance(x, R) else None
                return r if r is not None else self.opaque(
                    'mcall', v, name, [Leaf(x)], {}, st, node)
            if isinstance(args[0], (Leaf, Node)):
                return tmap(where, args[0])
        if name == 'get' and args and not kwargs and self.mapping(v):
            d = args[1] if len(args) > 1 else NONE
            return tmap(lambda k: T.gamma(
                self.contains(v, k), self.index1(v, k), d)
                if isinstance(k, (V, R)) else top('get'), args[0])
        if name == 'get' and len(args) == 1 and not kwargs:
            return self.opaque('mcall', v, name, args + [NONE], {}, st, node)
        if name in ('items', 'keys', 'values') and not args and \
                b is not None and b.kind == 'call' and b.args[0] == 'dict':
            r = self.dictview(v, name, st)
            if r is not None:
                return r
        if name == 'keys' and t == 'dict':
            return Leaf(v)
        if name == 'union':
            if b is not None and b.kind == 'call' and b.args[0] == 'set':
                if len(args) == 1 and isinstance(args[0], tuple):
                    def merge(x):
                        if isinstance(x, V) and x.kind == 'list':
                            t = Leaf(v)
                            for y in x.args[0]:
                                t = tmap(lambda p, q: self.union(p, q, st), t,
                                         self.b_set([Leaf(y)], {}, st, node))
                            return t
                        return Leaf(ratom(Atom(
                            'call', 'set',
                            (ratom(Atom('flat', b.args[1], x)),))))
                    return tmap(merge, args[0][1])
                t = Leaf(v)
                for a in args:
                    if isinstance(a, tuple):
                        return None
                    t = tmap(lambda p, q: self.union(p, q, st), t,
                             self.b_set([a], {}, st, node))
                return t
        return None
