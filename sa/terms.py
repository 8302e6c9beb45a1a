"""Term domain of the value graph.

Scalars are rational functions over *atoms* (inputs, uninterpreted
applications, exp/log/root generators) in a canonical form, so that two
expressions that denote the same rational function of the same atoms are the
same object.  Conditional values are decision trees (gamma nodes) over
canonical conditions with gamma free leaves.  Binders (sums, sequences, loop
bodies) are locally nameless.

Nothing here evaluates program code: all operations are algebraic rewrites of
terms.
"""
from fractions import Fraction
import sys

sys.setrecursionlimit(20000)

# ---------------------------------------------------------------- atoms ----


class Atom(object):
    __slots__ = ('id', 'kind', 'args', 'height', 'hash', 'free')
    _tab = {}

    def __new__(cls, kind, *args):
        key = (kind,) + args
        a = cls._tab.get(key)
        if a is None:
            a = object.__new__(cls)
            a.id = len(cls._tab)
            a.kind = kind
            a.args = args
            a.hash = hash(key)
            a.height = height_of(args)
            if kind in BINDERS:
                a.height += 1
            cls._tab[key] = a
        return a

    def __hash__(self):
        return self.hash

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.id < o.id

    def __repr__(self):
        return show_atom(self)


# values that bind B(height, j)
BINDERS = {'lam'}


def height_of(x):
    if isinstance(x, Atom):
        return x.height
    if isinstance(x, (R, Node, Leaf, V)):
        return x.height
    if isinstance(x, tuple):
        return max([height_of(i) for i in x] or [0])
    return 0


# ----------------------------------------------------- rational functions --

ONE_MONO = ()


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for k, e in b:
        n = d.get(k, 0) + e
        if n:
            d[k] = n
        else:
            d.pop(k, None)
    return tuple(sorted(d.items(), key=lambda t: t[0].id))


def mono_pow(a, e):
    return tuple((k, x * e) for k, x in a)


def padd(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        n = r.get(m, 0) + s * c
        if n:
            r[m] = n
        else:
            r.pop(m, None)
    return r


def pmul(p, q):
    if len(p) > 400 or len(q) > 400 or len(p) * len(q) > 20000:
        raise TooBig()
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            k = mono_mul(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


class TooBig(Exception):
    pass


class R(object):
    """canonical rational function num/den (den monic, gcd cancelled)"""
    __slots__ = ('num', 'den', 'key', 'hash', 'height', '_atoms')
    _tab = {}

    def __new__(cls, num, den=None):
        num, den = canon(num, den)
        key = (tuple(sorted(num.items(), key=_mkey)),
               None if den is None else tuple(sorted(den.items(), key=_mkey)))
        r = cls._tab.get(key)
        if r is None:
            r = object.__new__(cls)
            r.num, r.den, r.key = num, den, key
            r.hash = hash(key)
            r._atoms = None
            h = 0
            for p in (num, den or {}):
                for m in p:
                    for a, _ in m:
                        h = max(h, a.height)
            r.height = h
            cls._tab[key] = r
        return r

    def __hash__(self):
        return self.hash

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return show_r(self)

    # arithmetic
    def __add__(self, o):
        if self.den is None and o.den is None:
            return R(padd(self.num, o.num))
        if self.den == o.den:
            return R(padd(self.num, o.num), self.den)
        d1, d2 = self.den or PONE, o.den or PONE
        return R(padd(pmul(self.num, d2), pmul(o.num, d1)), pmul(d1, d2))

    def __neg__(self):
        return R({m: -c for m, c in self.num.items()}, self.den)

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        n = pmul(self.num, o.num)
        if self.den is None and o.den is None:
            return R(n)
        return R(n, pmul(self.den or PONE, o.den or PONE))

    def inv(self):
        if not self.num:
            raise ZeroDivisionError
        return R(self.den or PONE, self.num)

    def __truediv__(self, o):
        return self * o.inv()

    def const(self):
        """Fraction if constant else None"""
        if self.den is None:
            if not self.num:
                return Fraction(0)
            if len(self.num) == 1 and ONE_MONO in self.num:
                return self.num[ONE_MONO]
        return None

    def bare(self):
        """the atom if this is exactly one atom else None"""
        if self.den is None and len(self.num) == 1:
            (m, c), = self.num.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return m[0][0]
        return None

    def atoms(self):
        if self._atoms is None:
            s = set()
            for p in (self.num, self.den or {}):
                for m in p:
                    for a, _ in m:
                        s.add(a)
            self._atoms = frozenset(s)
        return self._atoms


def _mkey(t):
    return tuple((a.id, e) for a, e in t[0])


PONE = {ONE_MONO: Fraction(1)}


def _common_mono(p):
    """largest monomial (with possibly negative exponents) dividing p"""
    it = iter(p)
    first = dict(next(it))
    for m in it:
        d = dict(m)
        for a in list(first):
            first[a] = min(first[a], d.get(a, 0))
        for a in d:
            if a not in first and d[a] < 0:
                first[a] = d[a]
    # atoms missing in some monomial count with exponent 0
    for m in p:
        d = dict(m)
        for a in list(first):
            if a not in d and first[a] > 0:
                first[a] = 0
    return tuple(sorted(((a, e) for a, e in first.items() if e),
                        key=lambda t: t[0].id))


def reduce_poly(p):
    """expand integer powers of polynomial bases"""
    while True:
        for m, c in p.items():
            hit = None
            for a, e in m:
                if a.kind == 'polybase' and e.denominator == 1:
                    hit = (a, e)
                    break
                if a.kind == 'numbase' and e.denominator == 1:
                    hit = (a, e)
                    break
            if hit:
                break
        else:
            return p, None
        a, e = hit
        if a.kind == 'numbase':
            q = dict(p)
            del q[m]
            rest = tuple(t for t in m if t[0] is not a)
            q = padd(q, {rest: c * (a.args[0] ** int(e))})
            p = q
            continue
        if e > 0:
            q = dict(p)
            del q[m]
            rest = tuple(t for t in m if t[0] is not a)
            base = a.args[0]
            b = PONE
            for _ in range(int(e)):
                b = pmul(b, base.num)
            p = padd(q, pmul({rest: c}, b))
            continue
        return p, (a, -e)


def canon(num, den):
    num = {m: Fraction(c) for m, c in num.items() if c}
    if not num:
        return {}, None
    num, d1 = reduce_poly(num)
    while d1:
        a, e = d1
        base = a.args[0].num
        b = PONE
        for _ in range(int(e)):
            b = pmul(b, base)
        mm = ((a, Fraction(e)),)
        num = {mono_mul(m, mm): c for m, c in num.items()}
        den = pmul(den or PONE, b)
        num, d1 = reduce_poly(num)
    if den is None or den == PONE:
        return num, None
    den = {m: Fraction(c) for m, c in den.items() if c}
    den, d1 = reduce_poly(den)
    while d1:
        a, e = d1
        base = a.args[0].num
        b = PONE
        for _ in range(int(e)):
            b = pmul(b, base)
        mm = ((a, Fraction(e)),)
        den = {mono_mul(m, mm): c for m, c in den.items()}
        num = pmul(num, b)
        num, d2 = reduce_poly(num)
        assert not d2
        den, d1 = reduce_poly(den)
    if not den:
        raise ZeroDivisionError
    if len(den) > 1:
        cm = _common_mono(den)
        if cm:
            im = mono_pow(cm, -1)
            den = {mono_mul(m, im): c for m, c in den.items()}
            num = {mono_mul(m, im): c for m, c in num.items()}
    if len(den) == 1:
        (m, c), = den.items()
        im = mono_pow(m, -1)
        return {mono_mul(k, im): v / c for k, v in num.items()}, None
    # cancel
    num, den = cancel(num, den)
    if len(den) == 1:
        (m, c), = den.items()
        im = mono_pow(m, -1)
        return {mono_mul(k, im): v / c for k, v in num.items()}, None
    lead = min(den.items(), key=_mkey)[1]
    if lead != 1:
        den = {m: c / lead for m, c in den.items()}
        num = {m: c / lead for m, c in num.items()}
    return num, den


_ring_cache = {}


def cancel(num, den):
    """gcd cancellation of two (Laurent, fractional exponent) polynomials"""
    # quick: proportional
    if len(num) == len(den):
        cmn = _common_mono(num)
        im = mono_pow(cmn, -1)
        n0 = {mono_mul(m, im): c for m, c in num.items()}
        if set(n0) == set(den):
            ratios = {n0[m] / den[m] for m in den}
            if len(ratios) == 1:
                return {cmn: ratios.pop()}, dict(PONE)
    from sympy.polys.rings import ring
    from sympy.polys.domains import QQ
    cmn = _common_mono(num)
    im = mono_pow(cmn, -1)
    n0 = {mono_mul(m, im): c for m, c in num.items()}
    da = {a for m in den for a, _ in m}
    na = {a for m in n0 for a, _ in m}
    if not (da & na) or len(n0) == 1:
        return num, den
    atoms = sorted(da | na, key=lambda a: a.id)
    scale = {}
    for a in atoms:
        l = 1
        for p in (n0, den):
            for m in p:
                for b, e in m:
                    if b is a:
                        d = Fraction(e).denominator
                        l = l * d // _gcd(l, d)
        scale[a] = l
    k = len(atoms)
    if k not in _ring_cache:
        _ring_cache[k] = ring(['x%d' % i for i in range(k)], QQ)[0]
    rg = _ring_cache[k]
    idx = {a: i for i, a in enumerate(atoms)}

    def to(p):
        d = {}
        for m, c in p.items():
            e = [0] * k
            for a, x in m:
                e[idx[a]] = int(x * scale[a])
            d[tuple(e)] = QQ(c.numerator, c.denominator)
        return rg.from_dict(d)

    def back(p):
        d = {}
        for e, c in p.terms():
            m = tuple((a, Fraction(e[i], scale[a])) for i, a in
                      enumerate(atoms) if e[i])
            d[m] = Fraction(int(c.numerator), int(c.denominator))
        return d
    P, Q = to(n0), to(den)
    g, P, Q = P.cofactors(Q)
    P, Q = back(P), back(Q)
    P = {mono_mul(m, cmn): c for m, c in P.items()}
    if len(Q) > 1:
        cm = _common_mono(Q)
        if cm:
            im = mono_pow(cm, -1)
            Q = {mono_mul(m, im): c for m, c in Q.items()}
            P = {mono_mul(m, im): c for m, c in P.items()}
    return P, Q


def _gcd(a, b):
    while b:
        a, b = b, a % b
    return a


def num(x):
    if isinstance(x, float):
        x = Fraction(repr(x))
    return R({ONE_MONO: Fraction(x)})


def ratom(a):
    return R({((a, Fraction(1)),): Fraction(1)})


ZERO, ONE = None, None


def _init():
    global ZERO, ONE
    ZERO, ONE = num(0), num(1)


def rpow(b, e):
    """b ** e for rational functions"""
    ec = e.const()
    if ec is not None:
        if ec.denominator == 1:
            n = int(ec)
            if abs(n) > 12:
                return rexp(e * rlog(b))
            r = ONE
            for _ in range(abs(n)):
                r = r * b
            return r if n >= 0 else r.inv()
        return root(b, ec)
    return rexp(e * rlog(b))


def _split(p):
    """poly -> (coef, mono, primitive poly or None)"""
    if len(p) == 1:
        (m, c), = p.items()
        return c, m, None
    cm = _common_mono(p)
    im = mono_pow(cm, -1)
    q = {mono_mul(m, im): c for m, c in p.items()}
    lead = min(q.items(), key=_mkey)[1]
    q = {m: c / abs(lead) for m, c in q.items()}
    return abs(lead), cm, q


def root(b, ec):
    if not b.num:
        return ZERO
    out = ONE
    for p, s in ((b.num, 1), (b.den, -1)):
        if p is None:
            continue
        c, m, q = _split(p)
        if c < 0:
            return ratom(Atom('powneg', b, ec))
        if c != 1:
            out = out * _const_root(c, ec * s)
        out = out * R({mono_pow(m, ec * s): Fraction(1)})
        if q is not None:
            out = out * R({((Atom('polybase', R(q)), ec * s),): Fraction(1)})
    return out


def _const_root(c, e):
    # exact square roots etc.
    k = e.denominator
    for part in (c,):
        n = _iroot(part.numerator, k)
        d = _iroot(part.denominator, k)
        if n is not None and d is not None:
            v = Fraction(n, d) ** e.numerator
            return num(v)
    return R({((Atom('numbase', c), e),): Fraction(1)})


def _iroot(n, k):
    if n < 0:
        return None
    r = round(n ** (1.0 / k)) if n < 10 ** 15 else None
    if r is None:
        return None
    for x in (r - 1, r, r + 1):
        if x >= 0 and x ** k == n:
            return x
    return None


def rexp(u):
    if not u.num:
        return ONE
    out = ONE
    for m, c in u.num.items():
        if u.den is None:
            if len(m) == 1 and m[0][0].kind == 'log' and m[0][1] == 1:
                out = out * rpow_keep(m[0][0].args[0], c)
                continue
            piece = R({m: Fraction(1)})
        else:
            piece = R({m: Fraction(1)}, u.den)
        out = out * R({((Atom('exp', piece), Fraction(c)),): Fraction(1)})
    return out


def rpow_keep(b, c):
    c = Fraction(c)
    if c.denominator == 1 and abs(c) <= 12:
        return rpow(b, num(c))
    return root(b, c)


def rlog(u):
    out = ZERO
    for p, s in ((u.num, 1), (u.den, -1)):
        if p is None:
            continue
        if not p:
            return ratom(Atom('log', u))
        c, m, q = _split(p)
        if c < 0:
            return ratom(Atom('log', u))
        if c != 1:
            out = out + num(s) * ratom(Atom('log', num(c)))
        for a, e in m:
            if a.kind == 'exp':
                out = out + num(s * e) * a.args[0]
            elif a.kind == 'polybase':
                out = out + num(s * e) * ratom(Atom('log', a.args[0]))
            elif a.kind == 'numbase':
                out = out + num(s * e) * ratom(Atom('log', num(a.args[0])))
            else:
                out = out + num(s * e) * ratom(Atom('log', ratom(a)))
        if q is not None:
            out = out + num(s) * ratom(Atom('log', R(q)))
    return out


# ------------------------------------------------ other gamma free values --


class V(object):
    """structured gamma free value: kind + args (interned)

    kinds: 'none', 'bool', 'str', 'list' (concrete tuple of values),
    'seq' (len R, body tree of list leaves over Bound), 'dict', 'obj',
    'fn', 'cls', 'mod', 'top', 'raise', 'noret', 'starred'
    """
    __slots__ = ('kind', 'args', 'hash', 'height')
    _tab = {}

    def __new__(cls, kind, *args):
        key = (kind,) + args
        v = cls._tab.get(key)
        if v is None:
            v = object.__new__(cls)
            v.kind, v.args = kind, args
            v.hash = hash(key)
            v.height = height_of(args) + (1 if kind in BINDERS else 0)
            cls._tab[key] = v
        return v

    def __hash__(self):
        return self.hash

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return show(self)


# ----------------------------------------------------------------- trees ---


class Leaf(object):
    __slots__ = ('v', 'height', 'hash')
    _tab = {}

    def __new__(cls, v):
        l = cls._tab.get(v)
        if l is None:
            l = object.__new__(cls)
            l.v = v
            l.height = height_of(v)
            l.hash = hash(('leaf', v))
            cls._tab[v] = l
        return l

    def __hash__(self):
        return self.hash

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return show(self.v)


class Node(object):
    """gamma node. cond = ('s', R) with children (neg, zero, pos)
    or ('b', Atom) with children (false, true)"""
    __slots__ = ('cond', 'kids', 'height', 'hash')
    _tab = {}

    def __new__(cls, cond, kids):
        if all(k is kids[0] for k in kids):
            return kids[0]
        key = (cond, kids)
        n = cls._tab.get(key)
        if n is None:
            n = object.__new__(cls)
            n.cond, n.kids = cond, kids
            n.height = max(height_of(cond), height_of(kids))
            n.hash = hash(key)
            cls._tab[key] = n
        return n

    def __hash__(self):
        return self.hash

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return show(self)


def order(cond):
    c = cond[1]
    if isinstance(c, Atom):
        return (0, c.id)
    return (1, c.key_id())


_rid = {}


def _key_id(r):
    i = _rid.get(r)
    if i is None:
        i = _rid[r] = len(_rid)
    return i


R.key_id = _key_id

MAXTREE = 4000


class Budget(object):
    n = 0


def tmap(f, *trees):
    """apply a leaf operation to decision trees (Shannon style apply)

    f maps values to a value or to a Tree"""
    cache = {}

    def go(ts):
        if ts in cache:
            return cache[ts]
        top = None
        for t in ts:
            if isinstance(t, Node):
                o = order(t.cond)
                if top is None or o < top[0]:
                    top = (o, t.cond, len(t.kids))
        if top is None:
            r = f(*[t.v for t in ts])
            if not isinstance(r, (Leaf, Node)):
                r = Leaf(r)
        else:
            _, cond, n = top
            kids = []
            for i in range(n):
                kids.append(go(tuple(
                    t.kids[i] if isinstance(t, Node) and t.cond == cond else t
                    for t in ts)))
            r = mk(cond, tuple(kids))
        if len(cache) > MAXTREE:
            raise TooBig()
        cache[ts] = r
        return r
    return go(tuple(trees))


def restrict(t, cond, i):
    """cofactor of t for branch i of cond"""
    cache = {}

    def go(t):
        if isinstance(t, Leaf):
            return t
        if t in cache:
            return cache[t]
        if t.cond == cond:
            r = go(t.kids[i])
        else:
            r = Node(t.cond, tuple(go(k) for k in t.kids))
        cache[t] = r
        return r
    return go(t)


def under(pc, t):
    """tree on the paths where the condition holds, freely chosen where it
    does not"""
    def go(p, t):
        if p is FALSE:
            return None
        if isinstance(t, Leaf) or isinstance(p, Leaf):
            return t
        rs = [go(k, restrict(t, p.cond, i)) for i, k in enumerate(p.kids)]
        live = [r for r in rs if r is not None]
        if not live:
            return None
        if all(r is live[0] for r in live):
            return live[0]
        return ite(p.cond, tuple(live[0] if r is None else r for r in rs))
    return go(pc, t) or t


def ite(cond, kids):
    """ordered decision node from possibly unordered children"""
    kids = tuple(restrict(k, cond, i) for i, k in enumerate(kids))
    return insert(cond, kids)


def insert(cond, kids):
    cache = {}
    oc = order(cond)

    def go(ks):
        if all(k is ks[0] for k in ks):
            return ks[0]
        if ks in cache:
            return cache[ks]
        top = None
        for k in ks:
            if isinstance(k, Node):
                o = order(k.cond)
                if o < oc and (top is None or o < top[0]):
                    top = (o, k.cond, len(k.kids))
        if top is None:
            r = Node(cond, ks)
        else:
            _, c2, n = top
            r = Node(c2, tuple(
                go(tuple(k.kids[j] if isinstance(k, Node) and k.cond == c2
                         else k for k in ks)) for j in range(n)))
        if len(cache) > MAXTREE:
            raise TooBig()
        cache[ks] = r
        return r
    return go(tuple(kids))


def mk(cond, kids):
    if all(k is kids[0] for k in kids):
        return kids[0]
    # f may have returned trees with smaller conditions
    for k in kids:
        if isinstance(k, Node) and order(k.cond) <= order(cond):
            return ite(cond, kids)
    return Node(cond, kids)


def tbind(f, t):
    """f: value -> Tree"""
    return tmap(f, t)


TRUE = FALSE = NONE = None


def bool_(b):
    return TRUE if b else FALSE


def tnot(t):
    return tmap(lambda v: V('bool', not v.args[0]) if is_bool(v) else v, t)


def is_bool(v):
    return isinstance(v, V) and v.kind == 'bool'


def gamma(c, a, b):
    """if c then a else b, c a boolean tree"""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a

    def go(v):
        if is_bool(v):
            return a if v.args[0] else b
        return Leaf(V('top', 'condition'))
    return tmap(go, c) if not isinstance(c, Leaf) else Leaf(
        V('top', 'condition'))


def tand(a, b):
    return gamma(a, b, FALSE)


def tor(a, b):
    return gamma(a, TRUE, b)


# attributes that hold strictly increasing lists
INCREASING = {'x_list'}


def gridsign(num):
    """sign of the distance of two points of an increasing list"""
    if len(num) != 2:
        return 0
    (m, c), (n, d) = num.items()
    if c != -d or len(m) != 1 or len(n) != 1 or m[0][1] != 1 or \
            n[0][1] != 1:
        return 0
    a, b = m[0][0], n[0][0]
    if a.kind != 'index' or b.kind != 'index' or a.args[0] is not b.args[0] \
            or not isinstance(a.args[0], R):
        return 0
    s = a.args[0].bare()
    if s is None or s.kind != 'attr' or s.args[1] not in INCREASING:
        return 0
    if not (isinstance(a.args[1], R) and isinstance(b.args[1], R)):
        return 0
    k = (a.args[1] - b.args[1]).const()
    if not k:
        return 0
    return 1 if (k > 0) == (c > 0) else -1


def sign_node(p, neg, zero, pos):
    """tree on the sign of rational function p"""
    c = p.const()
    if c is not None:
        return neg if c < 0 else pos if c > 0 else zero
    if p.den is not None:
        s = gridsign(p.den)
        if s:
            p = R({m: s * c for m, c in p.num.items()})
    elif gridsign(p.num):
        return pos if gridsign(p.num) > 0 else neg
    q, flip = _sgn_norm(p)
    if flip:
        neg, pos = pos, neg
    b = q.bare()
    if b is not None and b.kind == 'sum':
        # as many as satisfy something: whether there is one
        bad = []

        def some(x):
            k = x.const() if isinstance(x, R) else None
            if k is None or k < 0:
                bad.append(x)
                return FALSE
            return TRUE if k else FALSE
        body = tmap(some, b.args[1].args[2])
        if not bad and not isinstance(body, Leaf):
            n, h = b.args[1].args[:2]
            return ite(('b', Atom('exists', b.args[0],
                                  V('lam', n, h, body))), (zero, pos))
    return ite(('s', q), (neg, zero, pos))


def _sgn_norm(p):
    lead = min(p.num.items(), key=_mkey)[1]
    q = R({m: c / abs(lead) for m, c in p.num.items()}, p.den)
    # positive monomial factors (exp, roots) do not matter
    cm = dict(_common_mono(q.num))
    strip = tuple((a, e) for a, e in cm.items()
                  if a.kind in ('exp', 'polybase', 'numbase')
                  or (e.denominator == 1 and e % 2 == 0 and False))
    if strip:
        im = mono_pow(tuple(sorted(strip, key=lambda t: t[0].id)), -1)
        q = R({mono_mul(m, im): c for m, c in q.num.items()}, q.den)
    if lead < 0:
        return -q, True
    return q, False


def lt(a, b):
    return sign_node(a - b, TRUE, FALSE, FALSE)


def le(a, b):
    return sign_node(a - b, TRUE, TRUE, FALSE)


def eq(a, b):
    return sign_node(a - b, FALSE, TRUE, FALSE)


def bnode(atom, f=None, t=None):
    return Node(('b', atom), (FALSE if f is None else f,
                              TRUE if t is None else t))


_init()
TRUE, FALSE = Leaf(V('bool', True)), Leaf(V('bool', False))
NONE = Leaf(V('none'))


# ------------------------------------------------- substitution / binders --

_SUP = {}
_EMPTY = frozenset()


def support(x):
    """the bound and fresh variables a term contains"""
    if isinstance(x, tuple):
        out = _EMPTY
        for i in x:
            if isinstance(i, (tuple, Atom, R, V, Leaf, Node)):
                out |= support(i)
        return out
    if not isinstance(x, (Atom, R, V, Leaf, Node)):
        return _EMPTY
    r = _SUP.get(x)
    if r is not None:
        return r
    if isinstance(x, Atom):
        if x.kind in ('B', 'fresh'):
            r = frozenset((x,))
        else:
            r = support(x.args)
    elif isinstance(x, R):
        r = _EMPTY
        for a in x.atoms():
            r |= support(a)
    elif isinstance(x, V):
        r = support(x.args)
    elif isinstance(x, Leaf):
        r = support(x.v)
    else:
        r = support(x.cond[1]) | support(x.kids)
    _SUP[x] = r
    return r


class Subst(object):
    """rebuild terms with atoms replaced (atom -> Tree); used for binder
    instantiation and for specialising under equalities"""

    def __init__(self, mp, hook=None):
        self.mp = mp
        self.cache = {}
        self.hook = hook or (lambda kind, args: None)
        self.only = frozenset(mp) if type(self) is Subst and all(
            a.kind in ('B', 'fresh') for a in mp) else None

    def tree(self, t):
        if self.only is not None and not (support(t) & self.only):
            return t
        if isinstance(t, Leaf):
            return self.val(t.v)
        k = ('t', t)
        if k in self.cache:
            return self.cache[k]
        kids = [self.tree(x) for x in t.kids]
        if t.cond[0] == 's':
            p = self.val(t.cond[1])
            r = tmap(lambda v: sign_node(v, *kids) if isinstance(v, R)
                     else Leaf(V('top', 'sign')), p)
        else:
            a = self.atom(t.cond[1])
            r = gamma(truth_of_atom(a), kids[1], kids[0])
        self.cache[k] = r
        return r

    def val(self, v):
        """value -> Tree"""
        if v in self.cache:
            return self.cache[v]
        if self.only is not None and not (support(v) & self.only):
            return Leaf(v)
        if isinstance(v, R):
            r = self.rat(v)
        elif isinstance(v, V) and v.kind == 'lam':
            r = Leaf(self.lam(v))
        elif isinstance(v, V):
            if v.kind in ('none', 'bool', 'str', 'top', 'raise', 'cls',
                          'mod', 'fn', 'any', 'bi', 'clo'):
                r = Leaf(v)
            elif v.kind in ('seq', 'cat'):
                r = self.args(v.args, REBUILD.get(
                    'V:' + v.kind, lambda *a: V(v.kind, *a)))
            else:
                r = self.args(v.args, lambda *a: V(v.kind, *a))
        else:
            raise AssertionError(v)
        self.cache[v] = r
        return r

    def lam(self, v):
        n, h, body = v.args
        fs = [fresh('b') for _ in range(n)]
        mp = dict(self.mp)
        for j in range(n):
            mp[Atom('B', h, j)] = Leaf(ratom(fs[j]))
        return mklam(fs, Subst(mp).tree(body))

    def args(self, args, build):
        """rebuild an argument tuple; tree valued slots stay trees when they
        were trees, values hoist"""
        trees, shape = [], []
        for a in args:
            if isinstance(a, (R, V)):
                trees.append(self.val(a))
                shape.append('v')
            elif isinstance(a, (Leaf, Node)):
                shape.append(self.tree(a))
            elif isinstance(a, Atom):
                trees.append(self.atom(a))
                shape.append('a')
            elif isinstance(a, tuple):
                trees.append(self.args(a, lambda *x: V('_tup', *x)))
                shape.append('t')
            else:
                shape.append(('k', a))

        def fin(*vs):
            it = iter(vs)
            out = []
            for s in shape:
                if s == 'v':
                    out.append(next(it))
                elif s == 't':
                    out.append(next(it).args)
                elif s == 'a':
                    x = next(it)
                    b = x.bare() if isinstance(x, R) else None
                    out.append(b if b is not None else x)
                elif isinstance(s, tuple):
                    out.append(s[1])
                else:
                    out.append(s)
            return build(*out)
        if not trees:
            r = fin()
            return r if isinstance(r, (Leaf, Node)) else Leaf(r)
        return tmap(fin, *trees)

    def atom(self, a):
        """atom -> Tree of values"""
        if a in self.mp:
            return self.mp[a]
        if a in self.cache:
            return self.cache[a]
        if self.only is not None and not (support(a) & self.only):
            return Leaf(ratom(a))
        r = self.args(a.args, lambda *x: rebuild_atom(a.kind, x))
        self.cache[a] = r
        return r

    def rat(self, r):
        touched = [a for a in sorted(r.atoms(), key=lambda a: a.id)]
        subs = {}
        trees = []
        for a in touched:
            t = self.atom(a)
            if t is Leaf(ratom(a)):
                continue
            subs[a] = len(trees)
            trees.append(t)
        if not trees:
            return Leaf(r)

        def fin(*vs):
            if not all(isinstance(v, R) for v in vs):
                b = r.bare()
                if b is not None:
                    return vs[0]
                return V('top', 'arith')
            try:
                n = _peval(r.num, subs, vs)
                if r.den is None:
                    return n
                return n / _peval(r.den, subs, vs)
            except ZeroDivisionError:
                return V('top', 'div0')
        return tmap(fin, *trees)


def _peval(p, subs, vs):
    out = ZERO
    for m, c in p.items():
        t = num(c)
        for a, e in m:
            if a in subs:
                t = t * rpow_keep(vs[subs[a]], e)
            else:
                t = t * R({((a, e),): Fraction(1)})
        out = out + t
    return out


def rebuild_atom(kind, args):
    if kind == 'exp':
        return rexp(args[0]) if isinstance(args[0], R) else V('top', 'exp')
    if kind == 'log':
        return rlog(args[0]) if isinstance(args[0], R) else V('top', 'log')
    if kind == 'polybase':
        # handled through rpow_keep by the caller
        return args[0]
    if kind == 'numbase':
        return num(args[0])
    if kind in REBUILD:
        return REBUILD[kind](*args)
    return ratom(Atom(kind, *args))


REBUILD = {}


def truth_of_atom(a):
    """a: Tree standing for a boolean atom -> boolean tree"""
    def f(v):
        if is_bool(v):
            return Leaf(v)
        if isinstance(v, R):
            b = v.bare()
            if b is not None:
                return bnode(b)
        return Leaf(V('top', 'bool'))
    return tmap(f, a)


_fresh = [0]


def fresh(tag='v'):
    _fresh[0] += 1
    return Atom('fresh', tag, _fresh[0])


def mklam(vars, tree):
    """abstract atoms in tree: V('lam', n, h, body)"""
    h = tree.height + 1
    mp = {v: Leaf(ratom(Atom('B', h, j))) for j, v in enumerate(vars)}
    return V('lam', len(vars), h, Subst(mp).tree(tree))


def aplam(lam, *values):
    """instantiate a lam by values or trees"""
    n, h, body = lam.args
    mp = {}
    for j, v in enumerate(values):
        mp[Atom('B', h, j)] = v if isinstance(v, (Leaf, Node)) else Leaf(v)
    return Subst(mp).tree(body)


def mentions(x, atom):
    """does term x contain atom"""
    seen = set()

    def go(x):
        if isinstance(x, Atom):
            if x is atom:
                return True
            if x in seen:
                return False
            seen.add(x)
            return go(x.args)
        if isinstance(x, R):
            if x in seen:
                return False
            seen.add(x)
            return any(go(a) for a in x.atoms())
        if isinstance(x, V):
            if x in seen:
                return False
            seen.add(x)
            return go(x.args)
        if isinstance(x, Leaf):
            return go(x.v)
        if isinstance(x, Node):
            if x in seen:
                return False
            seen.add(x)
            return go(x.cond[1]) or any(go(k) for k in x.kids)
        if isinstance(x, tuple):
            return any(go(i) for i in x)
        return False
    return go(x)


def walk(x, f, seen=None):
    """call f on every Atom / V inside x"""
    seen = set() if seen is None else seen

    def go(x):
        if isinstance(x, tuple):
            for i in x:
                go(i)
            return
        if not isinstance(x, (Atom, R, V, Leaf, Node)) or x in seen:
            return
        seen.add(x)
        if isinstance(x, Atom):
            f(x)
            go(x.args)
        elif isinstance(x, R):
            for a in x.atoms():
                go(a)
        elif isinstance(x, V):
            f(x)
            go(x.args)
        elif isinstance(x, Leaf):
            go(x.v)
        else:
            go(x.cond[1])
            go(x.kids)
    go(x)


# --------------------------------------------------------------- printing --

def show_mono(m, c):
    s = []
    if c != 1 or not m:
        s.append(str(c))
    for a, e in m:
        s.append(show_atom(a) if e == 1 else '%s^%s' % (show_atom(a), e))
    return '*'.join(s)


def show_r(r):
    n = ' + '.join(show_mono(m, c) for m, c in
                   sorted(r.num.items(), key=_mkey)) or '0'
    if r.den is None:
        return n
    d = ' + '.join(show_mono(m, c) for m, c in
                   sorted(r.den.items(), key=_mkey))
    return '(%s)/(%s)' % (n, d)


def show_atom(a):
    k, x = a.kind, a.args
    if k == 'sym':
        return str(x[0])
    if k == 'B':
        return '#%s.%s' % x
    if k == 'attr':
        return '%s.%s' % (show(x[0]), x[1])
    if k == 'mcall':
        return '%s.%s(%s)' % (show(x[0]), x[1], ', '.join(
            show(i) for i in x[2]))
    if k == 'call':
        return '%s(%s)' % (x[0] if isinstance(x[0], str) else show(x[0]),
                           ', '.join(show(i) for i in x[1]))
    if k == 'index':
        return '%s[%s]' % (show(x[0]), show(x[1]))
    return '%s(%s)' % (k, ', '.join(show(i) for i in x))


def show(x):
    if isinstance(x, Atom):
        return show_atom(x)
    if isinstance(x, R):
        return show_r(x)
    if isinstance(x, Leaf):
        return show(x.v)
    if isinstance(x, Node):
        c = show(x.cond[1])
        if x.cond[0] == 's':
            return '{%s <0: %s | =0: %s | >0: %s}' % (
                (c,) + tuple(show(k) for k in x.kids))
        return '{%s ? %s : %s}' % (c, show(x.kids[1]), show(x.kids[0]))
    if isinstance(x, V):
        if x.kind == 'str':
            return repr(x.args[0])
        if x.kind == 'bool':
            return str(x.args[0])
        if x.kind == 'none':
            return 'None'
        if x.kind == 'list':
            return '[%s]' % ', '.join(show(i) for i in x.args[0])
        return '%s(%s)' % (x.kind, ', '.join(show(i) for i in x.args))
    if isinstance(x, tuple):
        return '(%s)' % ', '.join(show(i) for i in x)
    return str(x)
