"""Value graph builder: expressions."""
import ast
import sys
from fractions import Fraction

from terms import *
import terms as T
from model import Func, Class, Module
from graph import Graph, Frame, St, Opts, S, N, top, lst

BUILTINS = {'len', 'sum', 'min', 'max', 'abs', 'float', 'int', 'bool', 'str',
            'list', 'tuple', 'set', 'sorted', 'reversed', 'zip', 'enumerate',
            'range', 'map', 'filter', 'any', 'all', 'isinstance',
            'issubclass', 'hasattr', 'getattr', 'setattr', 'id', 'type',
            'round', 'iter', 'next', 'print', 'dict', 'pow', 'repr',
            'super', 'callable', 'divmod', 'vars', 'object', 'frozenset',
            'property', 'hash'}
EXCS = {'ValueError', 'KeyError', 'TypeError', 'AssertionError',
        'NotImplementedError', 'ZeroDivisionError', 'OverflowError',
        'AttributeError', 'IndexError', 'RuntimeError', 'Exception',
        'StopIteration', 'ImportError', 'ArithmeticError', 'LookupError'}
PYTYPES = {'int', 'float', 'str', 'list', 'tuple', 'dict', 'bool', 'set',
           'type', 'object'}
MUT = {'append', 'extend', 'insert', 'pop', 'remove', 'sort', 'reverse',
       'clear', 'update', 'setdefault', 'add', 'discard', 'popitem',
       '__setitem__'}
IGNORED_MODS = ('warnings', 'logging')


def bi(name):
    return Leaf(V('bi', name))


class Exprs(Graph):

    # ------------------------------------------------------------ dispatch
    def expr(self, e, st):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            return self.site('expression ' + type(e).__name__, e)
        return m(e, st)

    def e_Constant(self, e, st):
        v = e.value
        if v is None:
            return NONE
        if isinstance(v, bool):
            return T.bool_(v)
        if isinstance(v, (int, float)):
            return N(v)
        if isinstance(v, str):
            return S(v)
        return self.site('constant', e)

    def e_JoinedStr(self, e, st):
        parts = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                parts.append(S(p.value))
            else:
                v = self.expr(p.value, st)
                spec = p.format_spec
                spec = ''.join(x.value if isinstance(x, ast.Constant)
                               else '{}' for x in spec.values) \
                    if spec is not None else ''
                if '{}' in spec:
                    v = Leaf(top('computed format'))
                c = chr(p.conversion) if p.conversion != -1 else ''
                parts.append(tmap(lambda x: self.formatted(x, c, spec), v))

        def f(*vs):
            return self.texts(vs)
        return tmap(f, *parts) if parts else S('')

    def e_Name(self, e, st):
        return self.name(e.id, st, e)

    def name(self, n, st, node=None):
        if n in st.env:
            return st.env[n]
        p = st.frame.parent
        while p is not None:
            env, frame = p
            if n in env:
                return env[n]
            p = frame.parent
        return self.globalname(n, st.frame.module, node)

    def globalname(self, n, module, node=None):
        r = self.p.lookup(module, n)
        if r is not None:
            return self.resolved(r, n, node)
        if n in BUILTINS or n in EXCS:
            return bi(n)
        return self.site('name ' + n, node)

    def resolved(self, r, n, node=None):
        if isinstance(r, Func):
            return Leaf(V('fn', r))
        if isinstance(r, Class):
            return Leaf(V('cls', r.name))
        if r[0] == 'repomod':
            return Leaf(V('mod', r[1].name))
        if r[0] == 'extmod':
            return Leaf(V('mod', r[1]))
        if r[0] == 'ext':
            return bi(self.extname(r[1]))
        if r[0] == 'const':
            key = ('const', r[1])
            if key not in self.consts:
                self.consts[key] = top('recursive constant')
                s = St(Frame(r[2]))
                self.consts[key] = self.expr(r[1], s)
            return self.consts[key]
        return self.site('name ' + n, node)

    def extname(self, full):
        if full.startswith('bisect.'):
            n = full[7:]
            return {'bisect': 'bisect_right'}.get(n, n)
        if full.startswith('collections.OrderedDict'):
            return 'dict'
        return full

    # ------------------------------------------------------- compound exprs
    def e_Tuple(self, e, st):
        out = lst()
        run = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                if run:
                    out = tmap(self.concat, out, lst(*run))
                    run = []
                v = tmap(self.tolist1, self.expr(x.value, st))
                out = tmap(lambda a, b: self.cat1(a, b), out, v)
            else:
                run.append(self.expr(x, st))
        if run:
            r = lst(*run)
            out = r if out is lst() else tmap(
                lambda a, b: self.cat1(a, b), out, r)
        return out

    e_List = e_Tuple

    def cat1(self, a, b):
        for v in (a, b):
            if isinstance(v, V) and v.kind in ('top', 'raise', 'any'):
                return Leaf(v)
        return self.concat(a, b)

    def e_Set(self, e, st):
        return tmap(lambda v: ratom(Atom('call', 'set', (v,))),
                    self.e_Tuple(e, st))

    def e_Dict(self, e, st):
        d = Leaf(V('dict', (), None))
        for k, v in zip(e.keys, e.values):
            val = self.expr(v, st)
            if k is None:
                d = tmap(lambda a, b: self.dictupdate(a, b), d, val)
            else:
                key = self.expr(k, st)
                d = tmap(lambda a, b: self.dictset(a, b, val)
                         if isinstance(a, V) and a.kind == 'dict'
                         else top('dict'), d, key)
        return d

    def e_IfExp(self, e, st):
        c = self.truth(self.expr(e.test, st))
        if c is TRUE:
            return self.expr(e.body, st)
        if c is FALSE:
            return self.expr(e.orelse, st)
        return self.gam(c, self.expr(e.body, st), self.expr(e.orelse, st))

    def gam(self, c, a, b):
        def go(v):
            if T.is_bool(v):
                return a if v.args[0] else b
            return Leaf(v)
        return tmap(go, c)

    def e_BoolOp(self, e, st):
        vals = [self.expr(x, st) for x in e.values]
        out = vals[-1]
        for v in reversed(vals[:-1]):
            c = self.truth(v)
            out = self.gam(c, out, v) if isinstance(e.op, ast.And) else \
                self.gam(c, v, out)
        return out

    def e_UnaryOp(self, e, st):
        v = self.expr(e.operand, st)
        if isinstance(e.op, ast.Not):
            return tnot(self.truth(v))
        if isinstance(e.op, ast.USub):
            return self.binop('-', N(0), v)
        if isinstance(e.op, ast.UAdd):
            return v
        return self.site('unary', e)

    OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/',
           ast.Pow: '**', ast.FloorDiv: '//', ast.Mod: '%',
           ast.BitOr: '|', ast.BitAnd: '&'}
    DUNDER = {'+': '__add__', '-': '__sub__', '*': '__mul__',
              '/': '__truediv__'}

    def e_BinOp(self, e, st):
        return self.op(self.OPS.get(type(e.op), '?'), self.expr(e.left, st),
                       self.expr(e.right, st), st, e)

    def op(self, o, a, b, st, node=None):
        def f(x, y):
            if isinstance(x, R):
                c = self.cls_of(x)
                if c is not None and o in self.DUNDER:
                    if self.p.find(c, self.DUNDER[o]):
                        return self.method(x, self.DUNDER[o], [Leaf(y)], {},
                                           st, node)
            if o == '|':
                return self.union(x, y, st)
            if o == '&':
                return top('op ' + o)
            return self.binop1(o, x, y)
        return tmap(f, a, b)

    def members(self, v):
        """the sequence a set was built from"""
        b = v.bare() if isinstance(v, R) else None
        if b is not None and b.kind == 'call' and b.args[0] == 'set' and \
                len(b.args[1]) < 2:
            return b.args[1][0] if b.args[1] else V('list', ())

    def union(self, x, y, st):
        if isinstance(x, V) and x.kind == 'dict' and isinstance(y, V) and \
                y.kind == 'dict':
            return self.dictupdate(x, y)
        a, b = self.members(x), self.members(y)
        if a is None or b is None:
            return top('op |')
        return self.b_set([self.concat(a, b)], {}, st, None)

    CMP = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=',
           ast.Eq: '==', ast.NotEq: '!=', ast.Is: 'is', ast.IsNot: 'is not',
           ast.In: 'in', ast.NotIn: 'not in'}

    def e_Compare(self, e, st):
        left = self.expr(e.left, st)
        out = TRUE
        for o, r in zip(e.ops, e.comparators):
            right = self.expr(r, st)
            out = tand(out, self.cmp(self.CMP[type(o)], left, right, st, e))
            left = right
        return out

    def cmp(self, op, a, b, st, node=None):
        def f(x, y):
            if op in ('in', 'not in') and isinstance(y, R):
                c = self.cls_of(y)
                if c is not None and self.p.find(c, '__contains__'):
                    r = self.truth(self.method(y, '__contains__', [Leaf(x)],
                                               {}, st, node))
                    return tnot(r) if op == 'not in' else r
            self.cur = st
            return self.compare1(op, x, y)
        return tmap(f, a, b)

    # ---------------------------------------------------------- subscripts
    def e_Subscript(self, e, st):
        base = self.expr(e.value, st)
        if isinstance(e.slice, ast.Slice):
            s = e.slice
            parts = [NONE if x is None else self.expr(x, st)
                     for x in (s.lower, s.upper, s.step)]
            return tmap(lambda b, l, h, k: self.slice1(b, l, h, k),
                        base, *parts)
        i = self.expr(e.slice, st)
        return tmap(lambda b, k: self.getitem1(b, k, st, e), base, i)

    def getitem1(self, b, k, st, node=None):
        if isinstance(b, R):
            c = self.cls_of(b)
            if c is not None and self.p.find(c, '__getitem__'):
                return self.method(b, '__getitem__', [Leaf(k)], {}, st, node)
            self.cur = st
            d = self.payload(b)
            if d is not None:
                return self.index1(d, k)
            h = st.heap.get((b, '#items'))
            if h is not None:
                return self.site('read after item store', node)
        if isinstance(b, V) and b.kind == 'super':
            self.cur = st
            d = self.payload(b.args[1])
            if d is not None:
                return self.index1(d, k)
            return Leaf(ratom(Atom('mcall', self.superval(b), '__getitem__',
                                   (k,))))
        if self.keyed and isinstance(k, R) and self.mapping(b):
            return T.gamma(self.contains(b, k), self.index1(b, k),
                           Leaf(V('raise', 'KeyError')))
        return self.index1(b, k)

    def e_Attribute(self, e, st):
        b = self.expr(e.value, st)
        return tmap(lambda v: self.attr1(v, e.attr, st, e), b)

    def e_NamedExpr(self, e, st):
        v = self.expr(e.value, st)
        st.env[e.target.id] = v
        return v

    def e_Starred(self, e, st):
        return self.site('starred', e)

    def e_Lambda(self, e, st):
        return self.closure(e, st)

    def closure(self, node, st):
        k = len(self.closures)
        self.closures[k] = (node, st)
        return Leaf(V('clo', k))

    # ------------------------------------------------------- comprehensions
    def e_ListComp(self, e, st):
        return self.comp(e.elt, e.generators, st, e)

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, st):
        return tmap(lambda v: ratom(Atom('call', 'set', (v,)))
                    if not (isinstance(v, V) and v.kind == 'top') else v,
                    self.comp(e.elt, e.generators, st, e))

    def e_DictComp(self, e, st):
        pair = ast.Tuple(elts=[e.key, e.value], ctx=ast.Load())
        return tmap(self.dictof1, self.comp(pair, e.generators, st, e))

    def dictof1(self, v):
        """dict from a sequence of pairs"""
        if isinstance(v, V) and v.kind == 'list':
            d = Leaf(V('dict', (), None))
            for p in v.args[0]:
                if not (isinstance(p, V) and p.kind == 'list' and
                        len(p.args[0]) == 2):
                    return top('dict of')
                a, b = p.args[0]
                if not (isinstance(a, V) and a.kind == 'str'):
                    return Leaf(ratom(Atom('call', 'dict', (v,))))
                d = tmap(lambda x: self.dictset(x, a, Leaf(b)), d)
            return d
        if isinstance(v, V) and v.kind in ('top', 'raise', 'any', 'dict'):
            return Leaf(v)
        if isinstance(v, R) and self.typ(v) == 'dict':
            return Leaf(v)
        return Leaf(ratom(Atom('call', 'dict', (v,))))

    def comp(self, elt, gens, st, node):
        if not gens:
            return lst(self.expr(elt, st))
        g = gens[0]
        it = tmap(lambda v: self.iter1(v, st), self.expr(g.iter, st))

        def one(v):
            q = self.as_seq(v) if not (isinstance(v, V) and v.kind in (
                'top', 'raise', 'any')) else None
            if q is None:
                if isinstance(v, V) and v.kind in ('top', 'raise', 'any'):
                    return Leaf(v)
                if isinstance(v, V) and v.kind == 'cat':
                    out = lst()
                    for x in v.args[0]:
                        out = tmap(self.cat1, out, one(x))
                    return out
                return self.site('iteration', node)

            def body(elem):
                s = st.fork(st.pc)
                self.bind_target(g.target, elem, s)
                c = TRUE
                for t in g.ifs:
                    c = tand(c, self.truth(self.expr(t, s)))
                return self.gam(c, self.comp(elt, gens[1:], s, node), lst())
            if q[0] == 'conc':
                out = lst()
                for x in q[1]:
                    out = tmap(self.cat1, out, body(Leaf(x)))
                return out
            i = fresh('i')
            lists = q[2](ratom(i))

            def per(l):
                if not (isinstance(l, V) and l.kind == 'list'):
                    return top('iteration')
                out = lst()
                for x in l.args[0]:
                    out = tmap(self.cat1, out, body(Leaf(x)))
                return out
            return self.mkseq(q[1], i, tmap(per, lists))
        return tmap(one, it)

    def bind_target(self, t, v, st):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
            return
        if isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [j for j, x in enumerate(t.elts)
                    if isinstance(x, ast.Starred)]
            for j, x in enumerate(t.elts):
                if star and j == star[0]:
                    self.bind_target(x.value, tmap(
                        lambda b: self.slice1(
                            b, num(j), NONE.v if j == n - 1
                            else num(j + 1 - n), None), v), st)
                elif star and j > star[0]:
                    self.bind_target(x, tmap(
                        lambda b: self.index1(b, num(j - n)), v), st)
                else:
                    self.bind_target(x, tmap(
                        lambda b: self.unpack1(b, j, n), v), st)
            return
        if isinstance(t, ast.Starred):
            return self.bind_target(t.value, v, st)
        self.assign_to(t, v, st)

    def unpack1(self, b, j, n):
        if isinstance(b, V) and b.kind == 'list' and len(b.args[0]) != n:
            return Leaf(V('raise', 'ValueError'))
        return self.index1(b, num(j))

    def iter1(self, v, st):
        """value -> tree of an iterable as sequence value"""
        if isinstance(v, R):
            c = self.cls_of(v)
            if c is not None and self.p.find(c, '__iter__'):
                return self.method(v, '__iter__', [], {}, st)
            self.cur = st
            d = self.payload(v)
            if d is not None and (d.kind != 'dict' or
                                  d.args[1] is not None):
                return top('iteration over items')
            if d is not None:
                return Leaf(V('list', tuple(k for k, _ in d.args[0])))
        if isinstance(v, V) and v.kind == 'bi' and v.args[0] == 'dict':
            return top('iter')
        b = v.bare() if isinstance(v, R) else None
        if isinstance(v, V) and v.kind == 'dict' and v.args[1] is not None \
                or b is not None and b.kind == 'call' and b.args[0] == 'dict':
            r = self.dictview(v, 'keys', st)
            if r is not None:
                return r
        return Leaf(v)

    # ------------------------------------------------------------ attributes
    def symconst(self, name):
        n = name.strip('_')
        return n.upper() == n and n != '' and not name.startswith('__')

    def attr1(self, v, name, st, node=None):
        if isinstance(v, V):
            k = v.kind
            if k in ('top', 'raise', 'any'):
                return Leaf(v)
            if k == 'mod':
                m = self.p.modules.get(v.args[0])
                if m is not None:
                    r = self.p.lookup(m, name)
                    if r is None:
                        sub = self.p.modules.get(v.args[0] + '.' + name)
                        if sub is not None:
                            return Leaf(V('mod', sub.name))
                        return self.site('attribute ' + name, node)
                    return self.resolved(r, name, node)
                return bi(self.extname(v.args[0] + '.' + name))
            if k == 'cls':
                return self.clsattr(v, name, st, node)
            if k == 'super':
                c = self.super_cls(v)
                r = self.p.find(c, name, after=self.p.cls(v.args[0]))
                if r and r[0] == 'property':
                    return self.inline(r[2], [Leaf(v.args[1])], {}, st, node)
                return Leaf(V('bm', v, name))
            if k == 'none':
                return Leaf(V('raise', 'AttributeError'))
            if k == 'bi' and v.args[0] == 'sys.float_info' and isinstance(
                    getattr(sys.float_info, name, None), float):
                return Leaf(num(Fraction(getattr(sys.float_info, name))))
            if k == 'sigof' and name == 'parameters':
                return lst(*[S(x) for x in v.args[0]])
            if k in ('fn', 'clo', 'bi') and name == '__name__':
                return Leaf(ratom(Atom('attr', v, name)))
            return Leaf(V('bm', v, name))
        # object
        key = (v, name)
        if key in st.heap:
            return st.heap[key]
        if name == '__class__':
            return self.typeof1(v)
        h = self.each_read(v, name, st)
        if h is not None:
            return h
        b = v.bare()
        if b is not None and b.kind == 'new' and self.o.dictstate:
            r = self.given(b, name)
            if r is not None:
                return Leaf(r)
        c = self.cls_of(v)
        if c is not None:
            r = self.p.find(c, name)
            if r is not None:
                tag, k, d = r
                if tag == 'property':
                    if name in self.o.cuts:
                        return Leaf(ratom(Atom('attr', v, name)))
                    return self.inline(d, [Leaf(v)], {}, st, node)
                if tag == 'method':
                    return Leaf(V('bm', v, name))
                if tag == 'inner':
                    return Leaf(V('cls', d.name))
                if name in self.p.instance_attrs(c):
                    return Leaf(ratom(Atom('attr', v, name)))
                return self.clsconst(k, name, d)
        return Leaf(ratom(Atom('attr', v, name)))

    def given(self, b, name):
        """attribute of a new object stored as passed to the constructor"""
        c = self.p.classes.get(b.args[0])
        if c is None or self.p.find(c, name) is not None:
            return None
        hits = []
        for k in self.p.mro(c):
            for f in k.methods.values():
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Attribute) and n.attr == name and \
                            isinstance(n.ctx, ast.Store):
                        hits.append(f)
        r = self.p.find(c, '__init__')
        if r is None or hits != [r[2]]:
            return None
        ps = r[2].params()[1:]
        for n in r[2].node.body:
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and \
                    isinstance(n.targets[0], ast.Attribute) and \
                    n.targets[0].attr == name and isinstance(
                        n.value, ast.Name) and n.value.id in ps and \
                    len(b.args[1]) == len(ps):
                return b.args[1][ps.index(n.value.id)]
        return None

    def atnode(self, v, args):
        """a curve of a single node at this node (decided by P11, P13)"""
        b = v.bare() if isinstance(v, R) else None
        if b is None or b.kind != 'new' or not self.o.dictstate or \
                len(args) != 1 or len(b.args[1]) < 2:
            return None
        c = self.p.classes.get(b.args[0])
        if c is None or not self.p.subclass(c, ('Curve',)):
            return None
        d, x = b.args[1][:2]
        if all(isinstance(k, V) and k.kind == 'list' and len(k.args[0]) == 1
               for k in (d, x)) and args[0] is Leaf(d.args[0][0]):
            return Leaf(x.args[0][0])
        return None

    def clsconst(self, k, name, node):
        if self.symconst(name):
            return Leaf(ratom(Atom('cconst', name)))
        key = ('cc', node)
        if key not in self.consts:
            s = St(Frame(k.module, k))
            self.consts[key] = self.expr(node, s)
        return self.consts[key]

    def clsattr(self, v, name, st, node=None):
        cn = v.args[0]
        if name == '__name__':
            return S(cn.split('.')[-1])
        if name == '__class__':
            return bi('type')
        c = self.p.classes.get(cn)
        if c is None:
            return self.site('class attribute', node)
        r = self.p.find(c, name)
        if r is None:
            if name == '__mro__':
                return self.site('mro', node)
            return Leaf(ratom(Atom('attr', v, name)))
        tag, k, d = r
        if tag == 'attr':
            return self.clsconst(k, name, d)
        if tag == 'inner':
            return Leaf(V('cls', d.name))
        return Leaf(V('bm', v, name))

    def super_cls(self, v):
        return self.cls_of(v.args[1]) if isinstance(v.args[1], R) else \
            self.p.cls(v.args[1].args[0])

    def superval(self, v):
        return ratom(Atom('super', v.args[1]))

    def typeof1(self, v):
        if isinstance(v, R):
            c = self.cls_of(v)
            if c is not None:
                return Leaf(V('cls', c.name))
            return Leaf(ratom(Atom('attr', v, '__class__')))
        if v.kind == 'str':
            return bi('str')
        if v.kind in ('top', 'raise', 'any'):
            return Leaf(v)
        if v.kind == 'none':
            return bi('NoneType')
        return top('type')

    def each_read(self, v, name, st):
        """attribute written for all members of a family earlier?"""
        for (o, a), val in st.heap.items():
            if a == name and isinstance(o, V) and o.kind == 'each':
                r = self.each_value(o, val, v)
                if r is False:
                    continue
                if r is not None:
                    return r
                return self.site('read of member attribute', None)
        return None

    def each_value(self, o, val, v):
        """value of the attribute of v written for the members of o"""
        lam = o.args[1]
        m = aplam(lam, ratom(fresh('m')))
        if not isinstance(m, Leaf) or not isinstance(m.v, R):
            return None
        a, b = self.cls_of(m.v), self.cls_of(v)
        if a is not None and b is not None and \
                not self.p.subclass(a, (b.name,)) and \
                not self.p.subclass(b, (a.name,)):
            return False
        x, y = m.v.bare(), v.bare()
        if x is None or y is None or x.kind != 'index' or \
                y.kind != 'index':
            return None
        if isinstance(val, Leaf) and isinstance(val.v, V) and \
                val.v.kind == 'lam':
            val = val.v
        if not (isinstance(val, V) and val.kind == 'lam'):
            return None
        if x.args[0] is y.args[0]:
            return aplam(val, y.args[1])
        d = x.args[0].bare() if isinstance(x.args[0], R) else None
        if d is not None and d.kind == 'mcall' and d.args[1] == 'values' \
                and d.args[0] is y.args[0]:
            f = fresh('m')
            r = aplam(val, ratom(f))
            return None if mentions(r, f) else r
        return None

    def tolist1(self, v):
        """list(v) / tuple(v)"""
        if isinstance(v, V):
            if v.kind in ('list', 'seq', 'cat', 'top', 'raise', 'any'):
                return Leaf(v)
            if v.kind == 'dict' and v.args[1] is None:
                return Leaf(V('list', tuple(k for k, _ in v.args[0])))
            if v.kind == 'dict':
                return Leaf(ratom(Atom('call', 'list', (v,))))
            return top('list of ' + v.kind)
        return Leaf(v)
