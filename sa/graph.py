"""Value graph builder.

One pass over the syntax tree of a function yields, for every variable and
every attribute store, one term of terms.py.  Control flow merges become gamma
nodes, counted loops become sums / sequences / prefix sums when their carried
variables have a closed form and canonical loop terms otherwise.  Calls into
the repository are resolved through the class hierarchy and merged into the
graph of the caller; calls listed as *cuts* stay uninterpreted.  Constructs
the builder does not model yield TOP, which never contributes to a verdict.
"""
import re
import ast
import math
import itertools
from fractions import Fraction

from terms import *
import terms as T
from model import Func, Class, Module, AnalysisBroken


def S(s):
    return Leaf(V('str', s))


def N(x):
    return Leaf(num(x))


def top(why):
    return Leaf(V('top', why))


def lst(*vs):
    """tree of a concrete list from element trees"""
    return tmap(lambda *a: V('list', a), *vs) if vs else Leaf(V('list', ()))


class Closure(object):
    def __init__(self, node, fn, env, st, self_cls):
        self.node, self.fn, self.env, self.st = node, fn, env, st
        self.cls = self_cls


class Frame(object):
    """static context of a piece of code"""

    def __init__(self, module, cls=None, recv=None, func=None, parent=None):
        self.module, self.cls, self.recv, self.func = module, cls, recv, func
        self.parent = parent


class St(object):
    """abstract state: environment, attribute stores, path condition"""

    def __init__(self, frame, env=None, heap=None, pc=None):
        self.frame = frame
        self.env = env if env is not None else {}
        self.heap = heap if heap is not None else {}
        self.pc = TRUE if pc is None else pc
        self.exits = []
        self.extra = {}

    def fork(self, pc):
        s = St(self.frame, dict(self.env), dict(self.heap), pc)
        s.exits = self.exits
        return s


class Opts(object):
    def __init__(self, cuts=(), summaries=None, types=None, attr_types=None,
                 ret_types=None, elem_types=None, depth=14, assume=()):
        self.cuts = set(cuts)
        self.summaries = dict(summaries or {})
        self.types = dict(types or {})
        self.attr_types = dict(attr_types or {})
        self.ret_types = dict(ret_types or {})
        self.elem_types = dict(elem_types or {})
        self.depth = depth
        self.assume = list(assume)
        self.samelen = {}
        self.supercuts = set()
        self.contents = {}      # items of objects of dict subclasses
        self.recurse = 0   # recursive calls followed
        self.dictstate = False  # follow the items of dict subclasses
        self.unroll = None      # loops: only so many rounds
        self.digits = None      # rounding to so many digits is exact


NUMERIC = ('num', 'int')
INF = float('inf')
SCALAR = ('num', 'int', 'date', 'scalar')


class Graph(object):
    def __init__(self, prog, opts=None):
        self.p = prog
        self.o = opts or Opts()
        self.stack = []
        self.stackenv = []
        self.keyed = False      # look-ups that may fail are handled
        self.closures = {}
        self.sites = 0
        self.visited = set()      # functions merged into the graph
        self.tops = []
        self.cur = None         # state whose items are read
        self.specmods = {}
        self.rec = set()
        self.keysof = {}
        self.consts = {}
        self.sigs = {}
        self.readsof, self.backs = {}, {}
        self.last_env = None
        REBUILD.update(self.rebuilders())

    # =============================================================== types
    def typ(self, v):
        """static type of a gamma free value, None if unknown"""
        if isinstance(v, V):
            return {'none': 'none', 'bool': 'bool', 'str': 'str',
                    'list': 'list', 'seq': 'list', 'cat': 'list',
                    'dict': 'dict', 'fn': 'fn', 'cls': 'cls',
                    'set': 'set'}.get(v.kind)
        a = v.bare()
        if a is None:
            if v.num and all(self.atype(x) == 'pydate' for x in v.atoms()) \
                    and v.atoms():
                return 'timedelta'
            for x in v.atoms():
                if x.kind == 'str':
                    return 'scalar'
                t = self.atype(x)
                if t in ('date', 'scalar'):
                    return 'scalar'
            return 'num'
        return self.atype(a)

    def atype(self, a):
        k = a.kind
        if k == 'sym':
            return self.o.types.get(a.args[0])
        if k in ('sum', 'prod', 'exp', 'log', 'psum', 'len', 'int', 'B',
                 'polybase', 'numbase', 'powneg', 'round', 'abs'):
            if k == 'B':
                return 'int'
            return 'int' if k in ('len', 'int') else 'num'
        if k == 'str':
            return 'str'
        if k == 'attr':
            t = self.typ(a.args[0])
            if t and t.startswith('cls:'):
                c = self.p.classes.get(t[4:])
                if c is not None:
                    for b in self.p.mro(c):
                        r = self.o.attr_types.get((b.name, a.args[1]))
                        if r:
                            return r
            return self.o.attr_types.get(a.args[1])
        if k == 'index':
            t = None
            x = a.args[0]
            if isinstance(x, R) and x.bare() is not None:
                b = x.bare()
                if b.kind == 'sym':
                    t = self.o.elem_types.get(b.args[0])
                elif b.kind == 'attr':
                    t = self.o.elem_types.get(b.args[1])
                elif b.kind == 'mcall':
                    t = self.o.elem_types.get(b.args[1] + '()')
                elif b.kind == 'call':
                    t = self.o.elem_types.get(str(b.args[0]) + '()')
                    if t is None and b.args[0] in (
                            'sorted', 'set', 'unique') and \
                            b.args[1]:
                        t = self.elemtype(b.args[1][0])
                elif b.kind == 'index':
                    t = self.o.elem_types.get('[]')
            return t
        if k == 'mcall':
            return self.o.ret_types.get(a.args[1])
        if k == 'call':
            n = a.args[0]
            if n in ('sorted', 'set', 'reversed', 'unique'):
                return 'list'
            if n == 'dict':
                return 'dict'
            return self.o.ret_types.get(n) if isinstance(n, str) else \
                self.o.ret_types.get('callable')
        if k == 'new':
            return 'cls:' + a.args[0]
        if k == 'agg':
            t = self.elemtype(a.args[1])
            return t
        if k == 'fresh':
            return self.o.types.get(a)
        if k == 'dadd':
            return 'date'
        if k in ('first', 'count'):
            return 'int'
        if k == 'fold':
            t = a.args[2][0]
            return self.typ(t.v) if isinstance(t, Leaf) else None
        if k == 'cconst':
            return self.o.types.get('const:' + a.args[0])
        return None

    def elemtype(self, s):
        """type of the elements of a sequence value"""
        if isinstance(s, R):
            b = s.bare()
            if b is not None:
                return self.atype(Atom('index', s, ZERO))
            return None
        if isinstance(s, V) and s.kind == 'seq':
            t = aplam(s.args[1], ratom(fresh('t')))
            out = set()
            tmap(lambda v: out.update(self.typ(e) for e in v.args[0]) or v
                 if isinstance(v, V) and v.kind == 'list' else v, t)
            if len(out) == 1:
                return out.pop()
        if isinstance(s, V) and s.kind == 'list':
            out = {self.typ(e) for e in s.args[0]}
            if len(out) == 1:
                return out.pop()
        if isinstance(s, V) and s.kind == 'cat':
            out = {self.elemtype(e) for e in s.args[0]}
            if len(out) == 1:
                return out.pop()
        return None

    def cls_of(self, v):
        t = self.typ(v)
        if t and t.startswith('cls:'):
            return self.p.classes.get(t[4:])
        return None

    # ========================================================= small helpers
    def site(self, why, node=None, fr=None):
        w = why
        if node is not None and hasattr(node, 'lineno'):
            w = '%s (line %d)' % (why, node.lineno)
        self.tops.append(w)
        return top(w)

    def truth(self, t):
        return tmap(self.truth1, t)

    def truth1(self, v):
        v = self.payload(v) or v
        if isinstance(v, V):
            k = v.kind
            if k == 'bool':
                return Leaf(v)
            if k == 'none':
                return FALSE
            if k == 'str':
                return T.bool_(bool(v.args[0]))
            if k == 'list':
                return T.bool_(bool(v.args[0]))
            if k in ('seq', 'cat'):
                L = self.length1(v)
                return tmap(lambda l: sign_node(l, FALSE, FALSE, TRUE)
                            if isinstance(l, R) else top('len'), L)
            if k == 'dict':
                if v.args[0]:
                    return TRUE
                return FALSE if v.args[1] is None else top('dict truth')
            if k in ('fn', 'cls', 'mod'):
                return TRUE
            return Leaf(v) if k in ('top', 'raise', 'any') else top('truth')
        t = self.typ(v)
        if t in NUMERIC or t == 'num':
            return sign_node(v, TRUE, FALSE, TRUE)
        if t in ('date', 'scalar'):
            a = v.bare()
            if a is not None:
                return bnode(Atom('truthy', v))
            return sign_node(v, TRUE, FALSE, TRUE)
        if t == 'none':
            return FALSE
        if t == 'bool':
            return bnode(Atom('truthy', v))
        if t and t.startswith('cls:'):
            c = self.p.classes.get(t[4:])
            if c is not None and not self.p.find(c, '__bool__') and \
                    not self.p.find(c, '__len__') and \
                    not self.p.external_bases(c):
                return TRUE
        if t == 'truthy':
            return TRUE
        if t == 'list':
            return tmap(lambda n: sign_node(n, FALSE, FALSE, TRUE)
                        if isinstance(n, R) else top('len'), self.length1(v))
        return bnode(Atom('truthy', v))

    def isnone1(self, v):
        if isinstance(v, V):
            if v.kind == 'none':
                return TRUE
            if v.kind in ('top', 'raise', 'any'):
                return Leaf(v)
            return FALSE
        t = self.typ(v)
        if t == 'none':
            return TRUE
        if t is not None:
            return FALSE
        return bnode(Atom('isnone', v))

    def derived(self, n, m):
        a, b = self.p.classes.get(n), self.p.classes.get(m)
        return a is not None and b is not None and a is not b and \
            self.p.subclass(a, (b.name,))

    def isinst1(self, v, names):
        names = tuple(sorted(set(names)))
        if len(names) > 1:      # a class covers the classes derived from it
            names = tuple(n for n in names if not any(
                m != n and self.derived(n, m) for m in names))
        if not names:
            return FALSE
        if isinstance(v, V):
            k = v.kind
            if k in ('top', 'raise', 'any'):
                return Leaf(v)
            have = {'none': ('NoneType',), 'bool': ('bool', 'int'),
                    'str': ('str',), 'list': ('list', 'tuple'),
                    'seq': ('list', 'tuple'), 'cat': ('list', 'tuple'),
                    'dict': ('dict', 'OrderedDict'), 'set': ('set',),
                    'fn': ('function',), 'cls': ('type',),
                    'mod': ()}.get(k, ())
            return T.bool_(bool(set(have) & set(names)))
        t = self.typ(v)
        if t in NUMERIC:
            return T.bool_(bool(set(names) & {'int', 'float'}))
        if t in ('date', 'fn', 'str', 'none', 'bool', 'dict', 'truthy'):
            if t == 'str':
                return T.bool_('str' in names)
            if t == 'bool':
                return T.bool_(bool(set(names) & {'bool', 'int'}))
            if t == 'dict':
                return T.bool_('dict' in names)
            if t == 'date':
                rest = [n for n in names if n.endswith('BusinessDate')]
                return FALSE if not rest else bnode(
                    Atom('isinst', v, rest[0]))
            return FALSE
        if t == 'list':
            return T.bool_(bool(set(names) & {'list', 'tuple'}))
        if t and t.startswith('cls:'):
            c = self.p.classes.get(t[4:])
            if c is not None:
                if self.p.subclass(c, names):
                    return TRUE
                out = FALSE
                for n in names:
                    k = self.p.classes.get(n)
                    if k is not None and self.p.subclass(k, (c.name,)):
                        if t[4:] in self.o.types.get('__exact__', ()):
                            continue
                        out = tor(out, bnode(Atom('isinst', v, n)))
                return out
        if t in ('scalar', 'obj'):
            names = [n for n in names if n not in ('list', 'tuple')]
        if t == 'obj':
            names = [n for n in names if n not in ('int', 'float', 'str',
                                                   'bool')]
        out = FALSE
        for n in names:
            out = tor(out, bnode(Atom('isinst', v, n)))
        return out

    def hasattr1(self, v, name):
        if isinstance(v, V):
            if v.kind in ('top', 'raise', 'any'):
                return Leaf(v)
            if v.kind in ('none', 'bool', 'str', 'list', 'seq', 'cat'):
                if name == '__iter__':
                    return T.bool_(v.kind in ('list', 'seq', 'cat', 'str'))
                return FALSE
            if v.kind == 'dict':
                return T.bool_(hasattr(dict, name))
            if v.kind == 'fn':
                return T.bool_(name == '__name__')
            return top('hasattr')
        t = self.typ(v)
        if t in NUMERIC or t == 'list' and name == '__name__':
            return FALSE
        if t == 'timedelta' and name in ('days', 'total_seconds'):
            return TRUE
        if t in ('timedelta', 'pydate'):
            return FALSE
        c = self.cls_of(v)
        if c is not None:
            if self.p.find(c, name) or name in self.p.instance_attrs(c):
                return TRUE
            if not self.subs_with(c, name):
                return FALSE
        return bnode(Atom('hasattr', v, name))

    def subs_with(self, c, name):
        if c.name in self.o.types.get('__exact__', ()):
            return False
        for k in self.p.classes.values():
            if k is not c and c in self.p.mro(k):
                if self.p.find(k, name) or name in self.p.instance_attrs(k):
                    return True
        return False

    # ============================================================ sequences
    def length(self, t):
        return tmap(self.length1, t)

    def length1(self, v):
        v = self.payload(v) or v
        if isinstance(v, R):
            b = v.bare()
            if b is not None and b.kind == 'call' and b.args[0] in (
                    'sorted', 'reversed') and b.args[1]:
                x = b.args[1][0]
                if not (isinstance(x, R) and x.bare() is not None and
                        x.bare().kind == 'call' and
                        x.bare().args[0] == 'set'):
                    return self.length1(x)
            if b is not None and b.kind == 'sym' and \
                    b.args[0] in self.o.samelen:
                v = ratom(Atom('sym', self.o.samelen[b.args[0]]))
            if b is not None and b.kind == 'attr' and \
                    '.%s' % b.args[1] in self.o.samelen:
                v = ratom(Atom('attr', b.args[0],
                               self.o.samelen['.%s' % b.args[1]]))
            return Leaf(ratom(Atom('len', v)))
        if v.kind == 'list':
            return N(len(v.args[0]))
        if v.kind == 'str':
            return N(len(v.args[0]))
        if v.kind == 'seq':
            L, lam = v.args
            if self.single(v) is not None:
                return Leaf(L)
            i = ratom(fresh('i'))
            body = tmap(lambda x: num(len(x.args[0])) if isinstance(x, V)
                        and x.kind == 'list' else V('top', 'len'),
                        aplam(lam, i))
            return self.msum(L, i.bare(), body)
        if v.kind == 'cat':
            out = N(0)
            for x in v.args[0]:
                out = self.add(out, self.length1(x))
            return out
        if v.kind == 'dict' and v.args[1] is None:
            return N(len(v.args[0]))
        if v.kind in ('top', 'raise', 'any'):
            return Leaf(v)
        return top('len')

    def single(self, v):
        """for a seq with exactly one element per index: function
        index value -> tree of the element"""
        L, lam = v.args
        ok = [True]

        def chk(x):
            if not (isinstance(x, V) and x.kind == 'list'
                    and len(x.args[0]) == 1):
                ok[0] = False
            return x
        tmap(chk, lam.args[2])
        if not ok[0]:
            return None
        return lambda i: tmap(lambda x: x.args[0][0], aplam(lam, i))

    def mkseq(self, L, var, body):
        """seq value; body: tree of concrete lists over atom var"""
        c = L.const()
        if c is not None and c.denominator == 1 and 0 <= c <= 12:
            out = Leaf(V('list', ()))
            for k in range(int(c)):
                b = Subst({var: N(k)}).tree(body)
                out = tmap(lambda x, y: V('list', x.args[0] + y.args[0])
                           if x.kind == 'list' and y.kind == 'list'
                           else V('top', 'seq'), out, b)
            return out
        body = self.simp_index(body, var, L)
        rest = self.after_first(body, var, Leaf(V('list', ())))
        if rest is not None:
            none = Leaf(V('list', ()))
            return sign_node(L, none, none, self.mkseq(L - ONE, var, rest))
        bad = []
        tmap(lambda x: (bad.append(1) if not (isinstance(x, V) and
                                              x.kind == 'list') else 0) or x,
             body)
        if bad:
            return top('seq')
        if isinstance(body, Leaf):
            e = body.v.args[0]
            if len(e) == 1 and isinstance(e[0], R):
                b = e[0].bare()
                if b is not None and b.kind == 'index' and \
                        b.args[1] is ratom(var) and \
                        not mentions(b.args[0], var) and \
                        self.length1(b.args[0]) is Leaf(L):
                    return Leaf(b.args[0])
            if len(e) == 0:
                return Leaf(V('list', ()))
        return Leaf(V('seq', L, mklam([var], body)))

    def as_seq(self, v):
        """value -> ('conc', elems) | ('seq', L, fn(i)->tree of lists) |
        None"""
        if isinstance(v, V):
            if v.kind == 'list':
                return ('conc', v.args[0])
            if v.kind == 'seq':
                lam = v.args[1]
                return ('seq', v.args[0], lambda i: aplam(lam, i))
            if v.kind == 'dict' and v.args[1] is None:
                return ('conc', tuple(k for k, _ in v.args[0]))
            if v.kind == 'cat':
                parts = [self.as_seq(x) for x in v.args[0]]
                # single element prefix or suffix + one vector
                if len(parts) == 2 and all(parts):
                    a, b = parts
                    if a[0] == 'conc' and b[0] == 'seq' and a[1]:
                        k = len(a[1])
                        if k <= 3:
                            def get(i, a=a, b=b, k=k):
                                t = b[2](i - num(k))
                                for j in range(k - 1, -1, -1):
                                    e = Leaf(V('list', (a[1][j],)))
                                    t = sign_node(i - num(j), e, e, t)
                                return t
                            return ('seq', b[1] + num(k), get)
                    if b[0] == 'conc' and a[0] == 'seq' and b[1]:
                        k = len(b[1])
                        if k <= 3:
                            def get(i, a=a, b=b, k=k):
                                t = Leaf(V('list', (b[1][k - 1],)))
                                for j in range(k - 2, -1, -1):
                                    e = Leaf(V('list', (b[1][j],)))
                                    t = sign_node(i - a[1] - num(j), e, e, t)
                                return sign_node(i - a[1], a[2](i), t, t)
                            return ('seq', a[1] + num(k), get)
                return None
            return None
        t = self.typ(v)
        if t in NUMERIC:
            return None
        L = self.length1(v)
        if not isinstance(L, Leaf) or not isinstance(L.v, R):
            return None
        return ('seq', L.v, lambda i: lst(self.index1(v, i)))

    def index1(self, v, i):
        """tree of element i of sequence value v"""
        if isinstance(v, V):
            if v.kind == 'list':
                c = i.const() if isinstance(i, R) else None
                if c is not None:
                    k = int(c)
                    if -len(v.args[0]) <= k < len(v.args[0]):
                        return Leaf(v.args[0][k])
                    return Leaf(V('raise', 'IndexError'))
                return top('index')
            if v.kind == 'str':
                return top('str index')
            if v.kind in ('seq', 'cat'):
                s = self.as_seq(v)
                if s is None:
                    return Leaf(ratom(Atom('index', v, i)))
                L, f = s[1], s[2]
                if isinstance(i, R) and i.const() is not None and \
                        i.const() < 0:
                    i = L + i
                t = f(i)
                ok = []
                tmap(lambda x: ok.append(isinstance(x, V) and
                                         x.kind == 'list' and
                                         len(x.args[0]) == 1) or x, t)
                if all(ok):
                    return tmap(lambda x: x.args[0][0], t)
                if isinstance(i, R) and i.const() == 0:
                    r = self.leading(s, Leaf(V('raise', 'IndexError')))
                    if r is not None:
                        return r
                return Leaf(ratom(Atom('index', v, i)))
            if v.kind == 'dict':
                return self.dictget(v, i, Leaf(V('raise', 'KeyError')))
            if v.kind in ('top', 'raise', 'any'):
                return Leaf(v)
            return top('index')
        if isinstance(i, R) and i.const() is not None and i.const() < 0:
            L = self.length1(v)
            return tmap(lambda l: ratom(Atom('index', v, l + i))
                        if isinstance(l, R) else V('top', 'len'), L)
        b = v.bare()
        if b is not None and b.kind == 'call' and b.args[0] == 'reversed':
            x = b.args[1][0]
            L = self.length1(x)
            return tmap(lambda l: self.index1(x, l - ONE - i), L)
        return Leaf(ratom(Atom('index', v, i)))

    def leading(self, q, default):
        """the first entry of a filtered sequence"""
        i = fresh('i')
        bad = []

        def some(l):
            if not (isinstance(l, V) and l.kind == 'list'):
                bad.append(l)
                return FALSE
            return T.bool_(bool(l.args[0]))
        has = tmap(some, q[2](ratom(i)))
        if bad or isinstance(has, Leaf):
            return None
        ex = self.hoist_any(q[1], i, has)
        fst = ratom(Atom('first', q[1], mklam([i], has)))
        return self.gam(ex, self.there(q[2](fst)), default)

    def there(self, t):
        """the entry where there is one: branches without cannot be"""
        if isinstance(t, Leaf):
            return Leaf(t.v.args[0][0] if t.v.args[0] else V('any'))
        kids = [self.there(k) for k in t.kids]
        some = [k for k in kids
                if not (isinstance(k, Leaf) and isinstance(k.v, V) and
                        k.v.kind == 'any')]
        if some and all(k is some[0] for k in some):
            return some[0]
        return ite(t.cond, tuple(kids))

    def slice1(self, v, lo, hi, step):
        """v[lo:hi:step] with constant bounds"""
        def c(x):
            if x is None or (isinstance(x, V) and x.kind == 'none'):
                return None
            if isinstance(x, R) and x.const() is not None:
                return int(x.const())
            return 'sym'
        a, b, s = c(lo), c(hi), c(step)
        if isinstance(v, V) and v.kind in ('top', 'raise', 'any'):
            return Leaf(v)
        if 'sym' not in (a, b, s) and isinstance(v, V) and v.kind == 'list':
            return Leaf(V('list', v.args[0][slice(a, b, s)]))
        if isinstance(v, V) and v.kind == 'str':
            return top('str slice')
        q = self.as_seq(v)
        if q is None or q[0] != 'seq':
            return top('slice')
        L, f = q[1], q[2]
        i = fresh('i')
        t = f(ratom(i))
        ok = []
        tmap(lambda x: ok.append(isinstance(x, V) and x.kind == 'list' and
                                 len(x.args[0]) == 1) or x, t)
        if not all(ok):
            return Leaf(ratom(Atom('slice', v, lo or V('none'),
                                   hi or V('none'), step or V('none'))))
        if s == -1 and a is None and b is None:
            return self.mkseq(L, i, f(L - ONE - ratom(i)))
        if s not in (None, 1):
            return top('slice step')
        for x, y in ((a, lo), (b, hi)):
            if x == 'sym' and not isinstance(y, R):
                return Leaf(y) if isinstance(y, V) and y.kind == 'raise' \
                    else top('slice bound')
        if a == 'sym' and isinstance(lo, R):
            A = lo
        elif a is None:
            A = ZERO
        elif a >= 0:
            A = num(a)
        else:
            A = L + num(a)
        if b == 'sym' and isinstance(hi, R):
            B = hi
        elif b is None:
            B = L
        elif b >= 0:
            B = num(b)
        else:
            B = L + num(b)
        return self.mkseq(B - A, i, f(A + ratom(i)))

    def concat(self, x, y):
        def kind(z):
            return z.kind if isinstance(z, V) else None
        if kind(x) == 'list' and kind(y) == 'list':
            return Leaf(V('list', x.args[0] + y.args[0]))
        parts = []
        phi = False
        for z in (x, y):
            if kind(z) == 'cat':
                parts.extend(z.args[0])
            else:
                parts.append(z)
        out = []
        for z in parts:
            if kind(z) == 'list' and not z.args[0]:
                continue
            if isinstance(z, R) and z.bare() is not None and \
                    z.bare().kind == 'fresh' and z.bare().args[0] == 'phi':
                phi = True
            if out and kind(z) == 'list' and kind(out[-1]) == 'list':
                out[-1] = V('list', out[-1].args[0] + z.args[0])
            else:
                out.append(z)
        if len(out) == 1:
            return Leaf(out[0])
        if not out:
            return Leaf(V('list', ()))
        v = V('cat', tuple(out))
        if phi:
            return Leaf(v)
        q = self.as_seq(v)
        if q is not None and q[0] == 'seq':
            i = fresh('i')
            t = q[2](ratom(i))
            ok = []
            tmap(lambda x: ok.append(isinstance(x, V) and x.kind == 'list'
                                     and len(x.args[0]) == 1) or x, t)
            if all(ok):
                return self.mkseq(q[1], i, t)
        return Leaf(v)

    def after_first(self, t, var, nothing):
        """a body that does nothing at index 0: the body from index 1 on"""
        first = ('s', ratom(var))
        todo, seen = [t], set()
        while todo:
            x = todo.pop()
            if isinstance(x, Leaf) or x in seen:
                continue
            seen.add(x)
            if x.cond == first:
                break
            todo.extend(x.kids)
        else:
            return None
        if Subst({var: N(0)}).tree(t) is not nothing:
            return None
        return Subst({var: Leaf(ratom(var) + ONE)}).tree(t)

    def simp_index(self, t, var, L):
        """drop cases of an index 0 <= var < L that cannot occur"""
        cache = {}
        zero = {}

        def at0(x):
            if x not in zero:
                zero[x] = Subst({var: N(0)}).tree(x)
            return zero[x]

        def go(t):
            if isinstance(t, Leaf):
                return t
            if t in cache:
                return cache[t]
            kids = tuple(go(k) for k in t.kids)
            r = None
            if t.cond[0] == 's' and t.cond[1].den is None and \
                    mentions(t.cond[1], var):
                p = t.cond[1]
                a = p.num.get(((var, Fraction(1)),))
                if a is not None:
                    rest = p - num(a) * ratom(var)
                    c = rest.const()
                    if c is not None:
                        root = -c / a
                        if root < 0:
                            r = kids[2] if a > 0 else kids[0]
                        elif root == 0:
                            x = kids[2] if a > 0 else kids[0]
                            if at0(x) is at0(kids[1]):
                                r = x
                            else:
                                kids = (x if a < 0 else kids[1], kids[1],
                                        kids[1] if a < 0 else x)
                    elif L != 'inf':
                        # var - L + c, c >= 0
                        d = (rest / num(a) + L).const() if not mentions(
                            rest, var) else None
                        if d is not None and d <= 0:
                            r = kids[0] if a > 0 else kids[2]
                        elif d == 1:
                            # zero at the last index, beyond it impossible
                            x = kids[0] if a > 0 else kids[2]
                            last = Subst({var: Leaf(L - ONE)})
                            if last.tree(x) is last.tree(kids[1]):
                                r = x
                            else:
                                kids = (x if a > 0 else kids[1], kids[1],
                                        kids[1] if a > 0 else x)
            if r is None:
                r = ite(t.cond, kids)
            cache[t] = r
            return r
        return self.steps(go(t), var)

    def threshold(self, cond, var):
        """(q, r, s) of a sign s*(q - r) with integer values of q and the
        coefficient one of the index var"""
        if cond[0] != 's' or cond[1].den is not None:
            return None
        p = cond[1]
        a = p.num.get(((var, Fraction(1)),))
        if a is None:
            return None
        c = p.num.get(ONE_MONO, Fraction(0))
        q = (p - num(c)) / num(a)
        for m, k in q.num.items():
            if k.denominator != 1:
                return None
            for x, e in m:
                if x is not var and (e != 1 or x.kind not in (
                        'len', 'int', 'B', 'count', 'first') and
                        self.atype(x) != 'int'):
                    return None
        return q, -c / a, 1 if a > 0 else -1

    def steps(self, t, var):
        """nested comparisons of an index with thresholds a constant apart:
        outcomes that the outer ones exclude are dropped"""
        groups, todo, seen = {}, [t], set()
        while todo:
            x = todo.pop()
            if isinstance(x, Leaf) or x in seen:
                continue
            seen.add(x)
            h = self.threshold(x.cond, var)
            if h:
                groups.setdefault(h[0], set()).add(h[1])
            todo.extend(x.kids)
        if all(len(g) < 2 for g in groups.values()):
            return t
        cache = {}

        def go(t, env):
            if isinstance(t, Leaf):
                return t
            key = (t, tuple(sorted((id(q), b) for q, b in env.items())))
            if key in cache:
                return cache[key]
            h = self.threshold(t.cond, var)
            if not h:
                r = ite(t.cond, tuple(go(k, env) for k in t.kids))
                cache[key] = r
                return r
            q, at, s = h
            lo, hi = env.get(q, (-INF, INF))
            kids = []
            for j, k in enumerate(t.kids):
                sgn = (j - 1) * s
                if sgn < 0:
                    b = lo, min(hi, math.ceil(at) - 1)
                elif sgn > 0:
                    b = max(lo, math.floor(at) + 1), hi
                elif at.denominator == 1:
                    b = max(lo, int(at)), min(hi, int(at))
                else:
                    b = 1, 0
                if b[0] > b[1]:
                    kids.append(None)
                else:
                    e = dict(env)
                    e[q] = b
                    kids.append(go(k, e))
            if kids[1] is None:
                kids[1] = kids[0] if kids[0] is not None else kids[2]
            if kids[1] is None:
                r = t
            else:
                kids = [kids[1] if k is None else k for k in kids]
                r = ite(t.cond, tuple(kids))
            cache[key] = r
            return r
        return go(t, {})

    def mprod(self, L, var, body):
        c = L.const()
        if c is not None and c.denominator == 1 and c <= 12:
            out = N(1)
            for k in range(max(0, int(c))):
                out = self.binop('*', out, Subst({var: N(k)}).tree(body))
            return out
        body = self.simp_index(body, var, L)
        rest = self.after_first(body, var, N(1))
        if rest is not None:
            return sign_node(L, N(1), N(1), self.mprod(L - ONE, var, rest))
        cond = self.free_cond(body, var)
        if cond is not None:
            n = 3 if cond[0] == 's' else 2
            return ite(cond, tuple(self.mprod(L, var, restrict(body, cond, j))
                                   for j in range(n)))
        leaves = []
        tmap(lambda x: leaves.append(x) or x, body)
        if not all(isinstance(x, R) for x in leaves):
            return top('prod')
        if isinstance(body, Leaf) and not mentions(body, var):
            try:
                return Leaf(rpow(body.v, L))
            except ZeroDivisionError:
                return top('prod')
        return Leaf(ratom(Atom('prod', L, mklam([var], body))))

    def first(self, L, var, c):
        """least index that satisfies c (given that there is one)"""
        return ratom(Atom('first', L, mklam([var], c)))

    def rebuilders(self):
        def bad(v):
            return isinstance(v, V) and v.kind in ('top', 'raise', 'any')

        def rsum(L, lam):
            if not isinstance(L, R):
                return top('sum')
            v = fresh('i')
            return self.msum(L, v, aplam(lam, ratom(v)))

        def rprod(L, lam):
            if not isinstance(L, R):
                return top('prod')
            v = fresh('i')
            return self.mprod(L, v, aplam(lam, ratom(v)))

        def rexists(L, lam):
            if not isinstance(L, R):
                return top('exists')
            v = fresh('i')
            return self.hoist_any(L, v, aplam(lam, ratom(v)))

        def rindex(v, i):
            if bad(v):
                return Leaf(v)
            return self.index1(v, i)

        def rattr(o, n):
            if isinstance(o, R):
                return ratom(Atom('attr', o, n))
            if bad(o):
                return Leaf(o)
            if isinstance(o, V) and o.kind == 'none':
                return Leaf(V('raise', 'AttributeError'))
            return ratom(Atom('attr', o, n))

        def rmcall(o, *rest):
            if bad(o):
                return Leaf(o)
            if isinstance(o, V) and o.kind == 'none':
                return Leaf(V('raise', 'AttributeError'))
            for v in rest[1]:
                if bad(v):
                    return Leaf(v)
            return ratom(Atom('mcall', o, *rest))

        def rcall(f, args, *snap):
            for v in args:
                if bad(v):
                    return Leaf(v)
            return ratom(Atom('call', f, args, *snap))

        def rfold(L, lam, ini):
            if L is ZERO:
                return ini[0]
            return ratom(Atom('fold', L, lam, ini))

        def rcount(lam):
            v = fresh('i')
            c = self.count(aplam(lam, ratom(v)), v)
            return c if isinstance(c, R) else top('count')

        def rdadd(d, o):
            return self.binop1('+', d, o)

        def rlen(v):
            return self.length1(v)

        def rcontains(x, s):
            return self.contains(s, x)

        def risinst(v, n):
            return self.isinst1(v, (n,))

        def ragg(n, v):
            return self.agg(n, v)

        def vseq(L, lam):
            if not isinstance(L, R):
                return top('seq')
            v = fresh('i')
            return self.mkseq(L, v, aplam(lam, ratom(v)))

        def vcat(parts):
            out = Leaf(V('list', ()))
            for p in parts:
                out = tmap(lambda a, b: self.concat(a, b)
                           if not bad(a) and not bad(b)
                           else (Leaf(a) if bad(a) else Leaf(b)),
                           out, Leaf(p))
            return out

        def rflat(base, x):
            if bad(x):
                return Leaf(x)
            if isinstance(x, V) and x.kind == 'list':
                return vcat(tuple(base) + tuple(x.args[0]))
            return ratom(Atom('flat', base, x))
        return {'flat': rflat, 'sum': rsum, 'prod': rprod, 'exists': rexists,
                'index': rindex, 'attr': rattr, 'mcall': rmcall,
                'call': rcall, 'fold': rfold, 'count': rcount,
                'dadd': rdadd, 'len': rlen, 'in': rcontains,
                'isinst': risinst, 'agg': ragg,
                'truthy': lambda v: self.truth1(v),
                'isnone': lambda v: self.isnone1(v),
                'hasattr': lambda v, n: self.hasattr1(v, n),
                'dictget': lambda d, k, df: self.dictget(d, k, Leaf(df))
                if isinstance(d, V) and d.kind == 'dict' and isinstance(
                    k, (R, V)) else ratom(Atom('dictget', d, k, df)),
                'V:seq': vseq, 'V:cat': vcat}

    # sums ---------------------------------------------------------------
    def msum(self, L, var, body):
        """sum of body (tree of R over atom var) for var = 0 .. L-1"""
        c = L.const()
        if c is not None and c.denominator == 1 and c <= 12:
            out = N(0)
            for k in range(max(0, int(c))):
                out = self.add(out, Subst({var: N(k)}).tree(body))
            return out
        body = self.simp_index(body, var, L)
        rest = self.after_first(body, var, N(0))
        if rest is not None:
            return sign_node(L, N(0), N(0), self.msum(L - ONE, var, rest))
        # canonical length: no integer offset
        off = L.num.get(ONE_MONO) if L.den is None and len(L.num) > 1 \
            else None
        if off is not None and off.denominator == 1 and abs(off) <= 3:
            X = L - num(off)
            out = self.msum(X, var, body)
            for k in range(abs(int(off))):
                idx = X + num(k) if off > 0 else X - num(k + 1)
                e = Subst({var: Leaf(idx)}).tree(body)
                out = self.binop('+' if off > 0 else '-', out, e)
            return out
        # hoist conditions that do not depend on the index
        cond = self.free_cond(body, var)
        if cond is not None:
            n = 3 if cond[0] == 's' else 2
            return ite(cond, tuple(self.msum(L, var, restrict(body, cond, j))
                                   for j in range(n)))
        if isinstance(body, Leaf):
            return self.sum_leaf(L, var, body.v, None)
        k = self.kronecker(L, var, body)
        if k is not None:
            return k
        leaves = []
        tmap(lambda x: (leaves.append(x) if x not in leaves else 0) or x,
             body)
        if not all(isinstance(x, R) for x in leaves):
            for x in leaves:
                if isinstance(x, V) and x.kind in ('raise',):
                    return top('raise in sum')
            return top('sum')
        out = N(0)
        for x in leaves:
            if x is ZERO:
                continue
            guard = tmap(lambda y: TRUE if y is x else FALSE, body)
            out = self.add(out, self.sum_leaf(L, var, x, guard))
        return out

    def kronecker(self, L, var, body):
        """sum of a summand that vanishes except at the first or the last
        index"""
        if body.cond[0] != 's':
            return None
        for at, p in ((N(0), ratom(var)), (Leaf(L - ONE),
                                           ratom(var) - L + ONE)):
            n = sign_node(p, N(0), N(1), N(2))
            if not isinstance(n, Node) or n.cond != body.cond:
                continue
            first = p is ratom(var)
            far = n.kids.index(N(2) if first else N(0))
            if body.kids[far] is not N(0):
                continue
            v = Subst({var: at}).tree(body.kids[1])
            return sign_node(L, N(0), N(0), v)
        return None

    def free_cond(self, t, var):
        seen = set()

        def go(t):
            if isinstance(t, Leaf) or t in seen:
                return None
            seen.add(t)
            if not mentions(t.cond[1], var):
                return t.cond
            for k in t.kids:
                r = go(k)
                if r is not None:
                    return r
            return None
        return go(t)

    def sum_leaf(self, L, var, r, guard):
        if not isinstance(r, R):
            return top('sum')
        if not r.num:
            return N(0)
        out = ZERO
        den_inv = ONE
        den_in = None
        if r.den is not None:
            if any(mentions(a, var) for m in r.den for a, _ in m):
                den_in = r.den
            else:
                den_inv = R(PONE, r.den)
        for m, c in r.num.items():
            outer, inner = [], []
            for a, e in m:
                (inner if mentions(a, var) else outer).append((a, e))
            coef = R({tuple(outer): c})
            b = R({tuple(inner): Fraction(1)}, den_in)
            if guard is None and b is ONE:
                s = L
            elif guard is None and b is ratom(var):
                s = L * (L - ONE) / num(2)
            else:
                t = Leaf(b) if guard is None else gamma(guard, Leaf(b),
                                                       N(0))
                s = self.tailsum(L, var, t)
                if s is None:
                    s = ratom(Atom('sum', L, mklam([var], t)))
            out = out + coef * s
        return Leaf(out * den_inv)

    def tailsum(self, L, var, t):
        """a sum from a loop index k on: the whole less the first k"""
        k = None
        for m, c in L.num.items():
            if L.den is None and c == -1 and len(m) == 1 and m[0][1] == 1 \
                    and m[0][0].kind == 'fresh':
                k = m[0][0]
        if k is None or not mentions(t, k):
            return None
        rk = ratom(k)
        f = Subst({var: Leaf(ratom(var) - rk)}).tree(t)
        if mentions(f, k):
            return None
        lam = mklam([var], f)
        return ratom(Atom('sum', L + rk, lam)) - ratom(Atom('sum', rk, lam))

    def sumseq(self, v, start=None):
        q = self.as_seq(v)
        if q is None:
            if isinstance(v, V) and v.kind in ('top', 'raise', 'any'):
                return Leaf(v)
            if isinstance(v, V) and v.kind == 'cat':
                out = start or N(0)
                for x in v.args[0]:
                    out = self.add(out, self.sumseq(x))
                return out
            return top('sum of ' + show(v)[:40])
        out = start or N(0)
        if q[0] == 'conc':
            for e in q[1]:
                out = self.add(out, Leaf(e))
            return out
        i = fresh('i')
        body = tmap(self._lsum, q[2](ratom(i)))
        return self.add(out, self.msum(q[1], i, body))

    def _lsum(self, x):
        if not (isinstance(x, V) and x.kind == 'list'):
            return top('sum')
        out = N(0)
        for e in x.args[0]:
            out = self.add(out, Leaf(e))
        return out

    def agg(self, name, v, extra=()):
        """max/min/any/all/sorted over a sequence"""
        if isinstance(v, V) and v.kind in ('top', 'raise', 'any'):
            return Leaf(v)
        if name in ('max', 'min'):
            if isinstance(v, V) and v.kind == 'list' and v.args[0]:
                es = [Leaf(e) for e in v.args[0]]
                out = es[0]
                for e in es[1:]:
                    out = self.maxmin(name, out, e)
                return out
            return Leaf(ratom(Atom('agg', name, v)))
        return top(name)

    def maxmin(self, name, a, b):
        def f(x, y):
            if not (isinstance(x, R) and isinstance(y, R)):
                return self.bad2(x, y)
            if name == 'max':
                return sign_node(x - y, Leaf(y), Leaf(x), Leaf(x))
            return sign_node(x - y, Leaf(x), Leaf(x), Leaf(y))
        return tmap(f, a, b)

    def anyall(self, name, v):
        if isinstance(v, V) and v.kind in ('top', 'raise', 'any'):
            return Leaf(v)
        q = self.as_seq(v)
        if q is None:
            return top(name)
        neg = name == 'all'
        if q[0] == 'conc':
            out = FALSE
            for e in q[1]:
                t = self.truth(Leaf(e))
                out = tor(out, tnot(t) if neg else t)
            return tnot(out) if neg else out
        i = fresh('i')

        def leaf(x):
            out = FALSE
            if not (isinstance(x, V) and x.kind == 'list'):
                return top(name)
            for e in x.args[0]:
                t = self.truth(Leaf(e))
                out = tor(out, tnot(t) if neg else t)
            return out
        body = tmap(leaf, q[2](ratom(i)))
        if body is FALSE:
            out = FALSE
        else:
            cond = self.free_cond(body, i)
            if cond is not None:
                out = self.hoist_any(q[1], i, body)
            else:
                out = bnode(Atom('exists', q[1], mklam([i], body)))
        return tnot(out) if neg else out

    def hoist_any(self, L, i, body):
        if body is FALSE:
            return FALSE
        if body is TRUE:
            return sign_node(L, FALSE, FALSE, TRUE)
        cond = self.free_cond(body, i)
        if cond is None:
            return bnode(Atom('exists', L, mklam([i], body)))
        n = 3 if cond[0] == 's' else 2
        return ite(cond, tuple(self.hoist_any(L, i, restrict(body, cond, j))
                               for j in range(n)))

    # ============================================================ arithmetic
    def bad2(self, x, y):
        for v in (x, y):
            if isinstance(v, V) and v.kind in ('raise',):
                return Leaf(v)
        for v in (x, y):
            if isinstance(v, V) and v.kind in ('top', 'any'):
                return Leaf(v)
        for v in (x, y):
            if isinstance(v, V) and v.kind == 'none':
                return Leaf(V('raise', 'TypeError'))
        return top('operands %s %s' % (show(x)[:30], show(y)[:30]))

    def as_r(self, v):
        if isinstance(v, R):
            return v
        if isinstance(v, V):
            if v.kind == 'bool':
                return num(1 if v.args[0] else 0)
            if v.kind == 'str':
                return ratom(Atom('str', v.args[0]))
        return None

    def binop(self, op, a, b):
        return tmap(lambda x, y: self.binop1(op, x, y), a, b)

    def add(self, a, b):
        return self.binop('+', a, b)

    TEXT = ('fmt', 'ascii', 'str', 'repr', '%', 'format')

    def textual(self, x):
        if isinstance(x, V):
            return x.kind == 'str'
        b = x.bare() if isinstance(x, R) else None
        if b is None:
            return False
        if b.kind == 'mcall':
            return isinstance(b.args[0], V) and b.args[0].kind == 'str' and \
                b.args[1] in ('join', 'format', 'replace', 'strip', 'lower',
                              'upper', 'ljust', 'rjust', 'center')
        if b.kind == 'attr':
            return b.args[1] == '__name__'
        return b.kind == 'call' and b.args[0] in self.TEXT or \
            self.typ(x) == 'str'

    def percent(self, f, y):
        """text of a % template: the parts an f-string would have"""
        ys = list(y.args[0]) if isinstance(y, V) and y.kind == 'list' \
            else [y]
        out, pos = [], 0
        for m in re.finditer(r'%(?:%|([-0 +#]*\d*(?:\.\d+)?)([sdrfgexi]))', f):
            if '%' in f[pos:m.start()]:
                break
            out.append(V('str', f[pos:m.start()]))
            pos = m.end()
            if m.group(0) == '%%':
                out.append(V('str', '%'))
            elif not ys:
                return V('raise', 'TypeError')
            else:
                out.append(self.formatted(ys.pop(0), m.group(2), m.group(1) +
                                          m.group(2).replace('i', 'd')))
        if '%' in f[pos:]:
            return ratom(Atom('call', 'fmt', (V('str', f.split('%')[0]), ratom(
                Atom('call', '%', (V('str', f), y))))))
        if ys and isinstance(y, V) and y.kind == 'list':
            return V('raise', 'TypeError')
        return self.texts(out + [V('str', f[pos:])])

    def formatted(self, v, conv, spec):
        """one value within a text"""
        if isinstance(v, V) and v.kind in ('raise', 'top', 'any'):
            return v
        if conv in ('r', 'a'):
            v = ratom(Atom('call', 'repr' if conv == 'r' else 'ascii', (v,)))
        if spec.strip('sr'):
            return ratom(Atom('call', 'format', (v, V('str', spec))))
        return v

    def bad2known(self, x, y):
        return any(isinstance(z, V) and z.kind != 'str' for z in (x, y))

    def texts(self, vs):
        """text put together from parts, in this order"""
        out = []
        for v in vs:
            if isinstance(v, V) and v.kind in ('raise', 'top', 'any'):
                return v
            b = v.bare() if isinstance(v, R) else None
            for w in (b.args[1] if b is not None and b.kind == 'call' and
                      b.args[0] == 'fmt' else (v,)):
                if isinstance(w, V) and w.kind == 'str':
                    if w.args[0] == '':
                        continue
                    if out and isinstance(out[-1], V) and \
                            out[-1].kind == 'str':
                        out[-1] = V('str', out[-1].args[0] + w.args[0])
                        continue
                out.append(w)
        if not out:
            return V('str', '')
        if len(out) == 1 and self.textual(out[0]):
            return out[0]
        return ratom(Atom('call', 'fmt', tuple(out)))

    def binop1(self, op, x, y):
        if op == '+' and (self.textual(x) or self.textual(y)) and \
                not self.bad2known(x, y):
            return Leaf(self.texts((x, y)))
        if isinstance(x, V) and x.kind == 'str' and op == '%':
            return Leaf(self.percent(x.args[0], y))
        if op == '+' and self.listy(x) and self.listy(y):
            return self.concat(x, y)
        if op == '*':
            for p, q in ((x, y), (y, x)):
                if isinstance(p, V) and p.kind == 'list' and \
                        isinstance(q, R):
                    if len(p.args[0]) == 1:
                        i = fresh('i')
                        return self.mkseq(q, i, Leaf(V('list',
                                                       p.args[0])))
                    c = q.const()
                    if c is not None and c.denominator == 1 and c <= 8:
                        return Leaf(V('list', p.args[0] * int(c)))
                    return top('list repeat')
        c = self.cls_of(x) if isinstance(x, R) else None
        u, v = self.as_r(x), self.as_r(y)
        if u is None or v is None:
            return self.bad2(x, y)
        if op in '+-':
            tu, tv = self.typ(u), self.typ(v)
            if tu == 'date' and tv != 'date':
                return self.dadd(u, v if op == '+' else -v)
            if tv == 'date' and tu != 'date' and op == '+':
                return self.dadd(v, u)
        try:
            if op == '+':
                return Leaf(u + v)
            if op == '-':
                return Leaf(u - v)
            if op == '*':
                return Leaf(u * v)
            if op == '/':
                if v is ZERO:
                    return Leaf(V('raise', 'ZeroDivisionError'))
                return Leaf(u / v)
            if op == '**':
                if u is ZERO:
                    return Leaf(ZERO)
                return Leaf(rpow(u, v))
            if op == '//':
                return Leaf(ratom(Atom('floordiv', u, v)))
            if op == '%':
                return Leaf(ratom(Atom('mod', u, v)))
        except ZeroDivisionError:
            return Leaf(V('raise', 'ZeroDivisionError'))
        return top('op ' + op)

    def dadd(self, d, off):
        """calendar arithmetic is not associative: date + (p + q) and
        (date + p) + q are different dates in general"""
        if off is ZERO:
            return Leaf(d)
        return Leaf(ratom(Atom('dadd', d, off)))

    def listy(self, v):
        if isinstance(v, V):
            return v.kind in ('list', 'seq', 'cat')
        return self.typ(v) == 'list'

    def compare(self, op, a, b):
        return tmap(lambda x, y: self.compare1(op, x, y), a, b)

    def compare1(self, op, x, y):
        if op in ('is', 'is not'):
            if isinstance(y, V) and y.kind == 'none':
                r = self.isnone1(x)
            elif isinstance(x, V) and x.kind == 'none':
                r = self.isnone1(y)
            elif isinstance(x, V) and isinstance(y, V) and \
                    x.kind == 'bool' and y.kind == 'bool':
                r = T.bool_(x is y)
            elif x is y:
                r = TRUE
            else:
                for v in (x, y):
                    if isinstance(v, V) and v.kind in ('top', 'raise'):
                        return Leaf(v)
                p, q = sorted((x, y), key=lambda v: show(v))
                r = bnode(Atom('is', p, q))
            return tnot(r) if op == 'is not' else r
        if op in ('in', 'not in'):
            r = self.contains(y, x)
            return tnot(r) if op == 'not in' else r
        for v in (x, y):
            if isinstance(v, V) and v.kind in ('top', 'raise', 'any'):
                return Leaf(v)
        u, v = self.as_r(x), self.as_r(y)
        if isinstance(x, V) and isinstance(y, V) and op in ('==', '!='):
            if x.kind == y.kind and x.kind in ('str', 'none', 'bool'):
                r = T.bool_(x is y)
            elif x.kind == 'list' and y.kind == 'list':
                if len(x.args[0]) != len(y.args[0]):
                    r = FALSE
                else:
                    r = TRUE
                    for s, t in zip(x.args[0], y.args[0]):
                        r = tand(r, self.compare1('==', s, t))
            elif x is y:
                r = TRUE
            elif 'none' in (x.kind, y.kind):
                r = FALSE
            else:
                return top('== of ' + x.kind + ' ' + y.kind)
            return tnot(r) if op == '!=' else r
        if u is None or v is None:
            if op in ('==', '!='):
                for a, b in ((x, y), (y, x)):
                    if isinstance(a, V) and a.kind == 'none':
                        r = self.isnone1(b)
                        return tnot(r) if op == '!=' else r
            return self.bad2(x, y)
        if op == '<':
            return lt(u, v)
        if op == '<=':
            return le(u, v)
        if op == '>':
            return lt(v, u)
        if op == '>=':
            return le(v, u)
        if op == '==':
            return eq(u, v)
        if op == '!=':
            return tnot(eq(u, v))
        return top('cmp ' + op)

    def payload(self, v):
        """dict value of an object of a class derived from dict"""
        if self.o.dictstate and isinstance(v, R):
            d = self.cur.heap.get((v, '#dict')) if self.cur else None
            if d is not None:
                vs = set()
                tmap(lambda x: vs.add(x) or x, T.under(self.cur.pc, d))
                vs = [x for x in vs if not (isinstance(x, V) and
                                            x.kind == 'raise')]
                return vs[0] if len(vs) == 1 and isinstance(
                    vs[0], V) and vs[0].kind == 'dict' else V('top', 'items')
        if self.o.contents and isinstance(v, R):
            b = v.bare()
            if b is not None:
                return self.o.contents.get(b)
        return None

    def store(self, v, name, args, st):
        """change the items of an object of a dict subclass; done?"""
        if not self.o.dictstate or not isinstance(v, R):
            return False
        c = self.cls_of(v)
        if c is None or not self.p.external_bases(c) & {'dict'}:
            return False
        self.cur = st
        d = self.payload(v)
        if name == '__init__' and not args:
            new = Leaf(V('dict', (), None))
        elif d is None or d.kind != 'dict':
            return False
        elif name == '__setitem__' and len(args) == 2:
            new = tmap(lambda k: self.dictset(d, k, args[1]), args[0])
            new = tmap(lambda n, x: x if isinstance(x, V) and
                       x.kind == 'raise' else n, new, args[1])
        elif name == 'update' and len(args) == 1:
            new = tmap(lambda o: self.dictupdate(d, o), args[0])
        else:
            return False
        st.heap[(v, '#dict')] = new
        return True

    def contains(self, seq, x):
        d = self.payload(seq)
        if d is not None:
            c = self.cls_of(seq)
            if c is None or not self.p.find(c, '__contains__'):
                seq = d
        if isinstance(seq, V):
            if seq.kind in ('top', 'raise', 'any'):
                return Leaf(seq)
            if seq.kind == 'list':
                out = FALSE
                for e in seq.args[0]:
                    out = tor(out, self.compare1('==', x, e))
                return out
            if seq.kind == 'dict' and seq.args[1] is None and \
                    isinstance(x, V) and (
                        x.kind == 'str' or
                        x.kind == 'list' and self.fixed(x)) and all(
                        isinstance(k, V) for k, _ in seq.args[0]):
                return T.bool_(any(k is x for k, _ in seq.args[0]))
            if seq.kind == 'dict':
                chain = self.keychain(seq)
                if chain is not None and isinstance(x, R):
                    out = FALSE
                    for k, _ in chain:
                        if isinstance(k, R):
                            out = tor(out, eq(x, k))
                    return out
                return bnode(Atom('in', x, seq))
            if seq.kind == 'seq':
                q = self.as_seq(seq)
                i = fresh('i')
                body = tmap(lambda l: self.contains(l, x)
                            if isinstance(l, V) else top('in'),
                            q[2](ratom(i)))
                return self.hoist_any(q[1], i, body)
            if seq.kind == 'cat':
                out = FALSE
                for s in seq.args[0]:
                    out = tor(out, self.contains(s, x))
                return out
            return top('in')
        c = self.cls_of(seq)
        b = seq.bare()
        if b is not None and b.kind == 'call' and b.args[0] in (
                'sorted', 'set', 'reversed', 'unique'):
            return self.contains(b.args[1][0], x)
        return bnode(Atom('in', x, seq))

    # =============================================================== dicts
    def dictset(self, d, key, val):
        """d: dict value; key gamma free; val tree -> tree of dict"""
        items, base = d.args
        dyn = isinstance(key, R) and key.const() is None or \
            isinstance(key, V) and key.kind == 'list' and not self.fixed(key)
        if isinstance(key, V) and key.kind not in ('str', 'list', 'none'):
            return top('dict key')
        if dyn:
            return tmap(lambda v: V('dict', (), V(
                'dyn', V('dict', items, base) if items else base
                if base is not None else V('dict', (), None), key, v)), val)

        def f(v):
            out = tuple((k, w) for k, w in items if k is not key)
            return V('dict', out + ((key, v),), base)
        return tmap(f, val)

    def fixed(self, key):
        """a tuple of constant strings"""
        return self.o.dictstate and all(
            isinstance(x, V) and x.kind == 'str' for x in key.args[0])

    def dictget(self, d, key, default):
        items, base = d.args
        for k, v in items:
            if k is key:
                return Leaf(v)
        while isinstance(base, V) and base.kind == 'dyn' and \
                isinstance(key, V) and key.kind == 'str' and \
                self.fmtkey(base.args[1], key.args[0]):
            base = base.args[0]
            if isinstance(base, V) and base.kind == 'dict':
                return self.dictget(base, key, default)
        if isinstance(key, R) and (items or base is not None):
            chain = self.keychain(d)
            if chain is not None:
                out = default
                for k, v in chain:
                    if isinstance(k, R):
                        out = T.gamma(eq(key, k), Leaf(v), out)
                return out
        if base is None:
            return default
        if isinstance(base, V) and base.kind == 'merge':
            old, other = base.args
            keys = self.known_keys(other)
            if keys is not None and isinstance(key, V) and \
                    key.kind == 'str' and key.args[0] not in keys:
                return self.dictget(old, key, default)
        return tmap(lambda df: ratom(Atom('dictget', d, key, df)), default)

    def keychain(self, d):
        """items of a dict built by stores only, oldest first"""
        items, base = d.args
        out = []
        if isinstance(base, V) and base.kind == 'dyn':
            inner = base.args[0]
            if isinstance(inner, V) and inner.kind == 'dyn':
                inner = V('dict', (), inner)
            if not (isinstance(inner, V) and inner.kind == 'dict'):
                return None
            out = self.keychain(inner)
            if out is None or not isinstance(base.args[1], R):
                return None
            out = out + [(base.args[1], base.args[2])]
        elif base is not None:
            return None
        return out + list(items)

    def fmtkey(self, k, name):
        """a formatted key that cannot be the constant name"""
        b = k.bare() if isinstance(k, R) else None
        if b is None or not (b.kind == 'call' and b.args[0] == 'fmt'):
            return False
        p = b.args[1]
        return bool(p) and isinstance(p[0], V) and p[0].kind == 'str' and \
            not name.startswith(p[0].args[0])

    def known_keys(self, v):
        """constant key set of the dict an opaque call returns"""
        if isinstance(v, V) and v.kind == 'dict' and v.args[1] is None:
            return {k.args[0] for k, _ in v.args[0] if isinstance(k, V)}
        if isinstance(v, R):
            b = v.bare()
            if b is not None and b.kind == 'mcall':
                return self.keysof.get(b.args[1])
        return None

    def dictupdate(self, d, o):
        if isinstance(o, V) and o.kind == 'dict':
            t = Leaf(d)
            if o.args[1] is None:
                for k, v in o.args[0]:
                    t = tmap(lambda x: self.dictset(x, k, Leaf(v)), t)
                return t
        return Leaf(V('dict', (), V('merge', d, o)))
