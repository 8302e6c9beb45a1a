"""Comparison of two value graphs.

walks the product of the decision trees of code and specification, prunes
branches whose conditions contradict each other (sign facts closed under
linear combination), uses the equations of `= 0` branches as rewrite rules
and compares the leaves by identity of their normal form.
"""
from fractions import Fraction
from math import ceil, gcd, lcm

import terms as T
from terms import *

PROVED, REFUTED, UNKNOWN = 'PROVED', 'REFUTED', 'UNKNOWN'
NONNEG = ('exp', 'len', 'polybase', 'numbase', 'abs', 'count', 'first')
INT = ('len', 'int', 'B', 'count', 'first')


class Facts(object):
    """branch choices on the way to a leaf"""

    def __init__(self, items=(), g=None, zeroed=False):
        self.zeroed = zeroed
        self.items = tuple(items)
        self.map = dict(self.items)
        self.g = g

    def add(self, cond, i):
        return Facts(self.items + ((cond, i),), self.g, self.zeroed)

    # ------------------------------------------------------- feasibility
    def isint(self, m):
        for a, e in m:
            if e.denominator != 1 or e < 0:
                return False
            if a.kind in INT:
                continue
            if self.g is not None and self.g.atype(a) == 'int':
                continue
            return False
        return True

    def linear(self, p):
        """({monomial: coeff}, const, integral)"""
        if p.den is not None:
            return {p: Fraction(1)}, Fraction(0), False
        d, c, ok = {}, Fraction(0), True
        for m, k in p.num.items():
            if not m:
                c = k
            else:
                d[m] = k
                ok = ok and self.isint(m)
        if ok and d:
            # coprime integer coefficients
            f = Fraction(lcm(*(k.denominator for k in d.values())))
            f /= gcd(*(int(k * f) for k in d.values()))
            d, c = {m: k * f for m, k in d.items()}, c * f
        return d, c, ok

    def system(self):
        """list of (coeffs, const, strict): coeffs.x + const >= 0 (> 0)"""
        out, mons = [], set()
        items = [(c[1], i) for c, i in self.items if c[0] == 's']
        if any(p.den is not None for p, _ in items):
            items = self.cleared(items)
        for p, i in items:
            d, k, integral = self.linear(p)
            mons.update(d)
            neg = {m: -x for m, x in d.items()}
            if i == 1:
                out.append((d, k, False))
                out.append((neg, -k, False))
            elif i == 2:
                out.append((d, ceil(k) - 1, False) if integral
                           else (d, k, True))
            else:
                out.append((neg, ceil(-k) - 1, False) if integral
                           else (neg, -k, True))
        for m in mons:
            if isinstance(m, tuple):
                if all(a.kind in NONNEG or (e.denominator == 1
                                            and e % 2 == 0) for a, e in m):
                    strict = all(a.kind in ('exp', 'numbase')
                                 for a, e in m)
                    out.append(({m: Fraction(1)}, Fraction(0), strict))
        return out

    def cleared(self, items):
        """facts on fractions whose denominator has a known sign become
        facts on their numerators"""
        plain = [x for x in items if x[0].den is None]
        base = Facts([(('s', p), i) for p, i in plain], self.g).system()
        out = []
        for p, i in items:
            if p.den is not None:
                d, k, _ = self.linear(R(p.den))
                neg = {m: -x for m, x in d.items()}
                s = None
                if infeasible(base + [(neg, -k, False)]):
                    s = 1
                elif infeasible(base + [(d, k, False)]):
                    s = -1
                if s is not None:
                    p, i = R(p.num), i if s == 1 else 2 - i
            out.append((p, i))
        return out

    def feasible(self):
        sys = self.system()
        return not infeasible(sys)

    def equations(self):
        return [c[1] for c, i in self.items if c[0] == 's' and i == 1]

    def zero(self):
        """a value, not a difference or a size, is zero here"""
        if self.zeroed:
            return True
        for c, i in self.items:
            if c[0] == 's' and i == 1:
                a = c[1].bare()
                if a is not None and a.kind in (
                        'sym', 'attr', 'mcall', 'call', 'index'):
                    return True
            if c[0] == 'b' and i == 0 and c[1].kind == 'truthy':
                return True
        return False

    def show(self):
        out = []
        for c, i in self.items:
            if c[0] == 's':
                out.append('%s %s 0' % (show(c[1]), ('<', '=', '>')[i]))
            else:
                out.append('%s%s' % ('' if i else 'not ', show(c[1])))
        return ' and '.join(out) or 'always'


def infeasible(sys, cap=160):
    """Fourier Motzkin elimination; True when no rational point exists"""
    sys = [norm(s) for s in sys]
    while True:
        vs = {}
        for d, k, s in sys:
            if not d and (k < 0 or (s and k == 0)):
                return True
            for m, c in d.items():
                a = vs.setdefault(m, [0, 0])
                a[0 if c > 0 else 1] += 1
        if not vs:
            return False
        m = min(vs, key=lambda m: vs[m][0] * vs[m][1])
        up, lo, rest = [], [], []
        for s in sys:
            c = s[0].get(m)
            (rest if c is None else up if c > 0 else lo).append(s)
        new = []
        for d1, k1, s1 in up:
            for d2, k2, s2 in lo:
                a, b = d1[m], -d2[m]
                d = {}
                for x, c in d1.items():
                    d[x] = d.get(x, 0) + c * b
                for x, c in d2.items():
                    d[x] = d.get(x, 0) + c * a
                d = {x: c for x, c in d.items() if c}
                new.append(norm((d, k1 * b + k2 * a, s1 or s2)))
        seen, out = set(), []
        for s in rest + new:
            key = (tuple(sorted(((id(x), c) for x, c in s[0].items()))),
                   s[1], s[2])
            if key not in seen:
                seen.add(key)
                out.append(s)
        sys = out
        if len(sys) > cap:
            return False


def norm(s):
    d, k, strict = s
    if not d:
        return s
    f = max(abs(c) for c in d.values())
    if f == 1:
        return s
    return {m: c / f for m, c in d.items()}, k / f, strict


class FactSubst(Subst):
    """specialise a term under facts (condition branches) and equations"""

    def __init__(self, mp, facts):
        Subst.__init__(self, mp)
        self.facts = facts

    def tree(self, t):
        while isinstance(t, Node) and t.cond in self.facts.map:
            t = t.kids[self.facts.map[t.cond]]
        return Subst.tree(self, t)

    def lam(self, v):
        n, h, body = v.args
        fs = [fresh('b') for _ in range(n)]
        mp = dict(self.mp)
        for j in range(n):
            mp[Atom('B', h, j)] = Leaf(ratom(fs[j]))
        return mklam(fs, FactSubst(mp, self.facts).tree(body))

    def atom(self, a):
        if a.kind == 'sum' and a not in self.cache and a not in self.mp:
            r = self.geometric(a)
            if r is not None:
                t = self.rat(r)
                self.cache[a] = t
                return t
        return Subst.atom(self, a)

    def geometric(self, a):
        """sum of exp(c * i + k) over i < L when the facts exclude c = 0"""
        L, lam = a.args
        n, h, body = lam.args
        if not isinstance(body, Leaf) or not isinstance(body.v, R):
            return None
        i = Atom('B', h, 0)
        b = body.v.bare()
        if b is None or b.kind != 'exp' or not isinstance(b.args[0], R):
            return None
        u = b.args[0]
        k = Subst({i: Leaf(num(0))}).rat(u)
        k1 = Subst({i: Leaf(num(1))}).rat(u)
        if not (isinstance(k, Leaf) and isinstance(k1, Leaf)):
            return None
        k, c = k.v, k1.v - k.v
        if u - k - c * ratom(i) is not ZERO:
            return None
        q = rexp(c)
        for s in (0, 1, 2):
            t = sign_node(q - ONE, N0, N1, N2)
            if isinstance(t, Leaf):
                if t.v is num(1):
                    return None
                break
            j = t.kids.index(N1)
            f = self.facts.map.get(t.cond)
            if f == j or (f is None and self.facts.add(
                    t.cond, j).feasible()):
                return None
        return rexp(k) * (rexp(c * L) - ONE) / (q - ONE)


def nested(x):
    """does a value contain decision trees or equations could touch it"""
    out = []
    walk(x, lambda y: out.append(y) if isinstance(y, V) and y.kind == 'lam'
         else None)
    return bool(out)


def has_trees(x):
    seen = set()

    def go(x):
        if isinstance(x, tuple):
            return any(go(i) for i in x)
        if isinstance(x, Node):
            return True
        if isinstance(x, Leaf):
            return go(x.v)
        if not isinstance(x, (Atom, R, V)) or x in seen:
            return False
        seen.add(x)
        if isinstance(x, R):
            return any(go(a) for a in x.atoms())
        return go(x.args)
    return go(x)


def permuted(c, s):
    """do both sort the same pieces put together in another order"""
    def sorts(t):
        out = set()

        def f(x):
            if isinstance(x, Atom) and x.kind == 'call' and \
                    x.args[0] == 'sorted' and x.args[1]:
                out.add(x.args[1][0])
        walk(t, f)
        return out
    a, b = sorts(c), sorts(s)
    for x in a - b:
        for y in b - a:
            if isinstance(x, V) and isinstance(y, V) and x.kind == y.kind \
                    and x.kind in ('cat', 'list') and \
                    sorted(id(i) for i in x.args[0]) == \
                    sorted(id(i) for i in y.args[0]):
                return True
    return False


def solve(p):
    """(atom, value) with p = 0 <=> atom = value, or None"""
    num = p.num
    best = None
    for m, c in num.items():
        if len(m) == 1 and m[0][1] == 1:
            a = m[0][0]
            if a.kind in ('polybase', 'numbase', 'exp'):
                continue
            rest = {n: x for n, x in num.items() if n != m}
            if any(x is a for n in rest for x, _ in n):
                continue
            val = R({n: -x / c for n, x in rest.items()})
            if mentions(val, a):
                continue
            key = (0 if not rest or set(rest) == {()} else 1,
                   {'sym': 1, 'B': 2}.get(a.kind, 0), -a.id)
            if best is None or key < best[0]:
                best = (key, a, val)
    return best and best[1:]


class Compare(object):
    def __init__(self, g, vocab=None, budget=6000, loose=False):
        self.g, self.vocab, self.budget = g, vocab, budget
        self.refuted, self.unknown, self.pairs = [], [], 0
        self.loose = loose

    def run(self, code, spec, pre=TRUE):
        self.open = False       # leaves the engine does not model
        tmap(lambda v: setattr(self, 'open', True) or v if isinstance(
            v, V) and v.kind == 'top' else v, spec)
        try:
            self.seen = {}
            self.walk(code, spec, pre, Facts((), self.g), 0)
        except TooBig:
            self.unknown.append('term too large')
        except RecursionError:
            self.unknown.append('term too deep')
        if self.refuted and not (self.unknown and self.only_soft()):
            return REFUTED
        if self.unknown:
            return UNKNOWN
        return REFUTED if self.refuted else PROVED

    def only_soft(self):
        return False

    def walk(self, c, s, pre, facts, depth):
        if c is s and not isinstance(c, Leaf) and not self.open:
            return
        if pre is FALSE or (isinstance(s, Leaf) and isinstance(s.v, V)
                            and s.v.kind == 'any'):
            return
        if isinstance(pre, Leaf) and pre is not TRUE:
            # precondition raises or is unknown: outside the domain
            return
        self.pairs += 1
        if self.pairs > self.budget:
            raise TooBig()
        topc = None
        for t in (pre, c, s):
            if isinstance(t, Node):
                o = order(t.cond)
                if topc is None or o < topc[0]:
                    topc = (o, t.cond, len(t.kids))
        if topc is None:
            if c is s:
                if isinstance(c.v, V) and c.v.kind == 'top' and \
                        facts.feasible():
                    self.unknown.append('unmodelled: ' + show(c.v))
                return
            return self.leaf(c.v, s.v, facts, depth)
        _, cond, n = topc
        for i in range(n):
            if cond in facts.map and facts.map[cond] != i:
                continue
            f = facts.add(cond, i) if cond not in facts.map else facts
            ks = [t.kids[i] if isinstance(t, Node) and t.cond == cond else t
                  for t in (pre, c, s)]
            if ks[0] is FALSE or ks[1] is ks[2] and not self.open:
                continue
            if not f.feasible():
                continue
            self.walk(ks[1], ks[2], ks[0], f, depth)

    def leaf(self, c, s, facts, depth):
        if isinstance(s, V) and s.kind == 'any':
            return
        if isinstance(c, V) and c.kind == 'raise' and isinstance(
                s, V) and s.kind == 'raise':
            if s.args[0] in ('Exception', c.args[0]) or not s.args[0]:
                return
        if depth < 4:
            mp, changed = {}, False
            eqs = [e for e in facts.equations() if e.num]
            for p in eqs:
                t = FactSubst(mp, facts).rat(p)
                if not (isinstance(t, Leaf) and isinstance(t.v, R)):
                    continue
                p = t.v
                if p.const() is not None:
                    if p.const() != 0:
                        return          # infeasible
                    continue
                q = solve(p)
                if q is None:
                    continue
                a, val = q
                sub = Subst({a: Leaf(val)})
                new = {}
                ok = True
                for k, v in mp.items():
                    w = sub.tree(v)
                    if not isinstance(w, Leaf):
                        ok = False
                    new[k] = w
                if ok:
                    mp = new
                    mp[a] = Leaf(val)
            for cond, i in facts.items:
                if cond[0] == 'b' and cond[1].kind == 'isnone' and i == 1:
                    x = cond[1].args[0]
                    b = x.bare() if isinstance(x, R) else None
                    if b is not None and b not in mp:
                        mp[b] = NONE
            if mp or has_trees(c) or has_trees(s) or depth == 0:
                c2 = FactSubst(mp, facts).val(c)
                s2 = FactSubst(mp, facts).val(s)
                if c2 is s2:
                    return
                # facts rewritten
                g2, dead = self.rewrite(facts, mp)
                if dead:
                    return
                if c2 is not Leaf(c) or s2 is not Leaf(s):
                    return self.walk(c2, s2, TRUE, g2, depth + 1)
        bad = self.opaque(c) or self.opaque(s)
        for cond, _ in facts.items:
            bad = bad or self.opaque(cond[1])
        if bad:
            self.unknown.append('%s [%s]' % (bad, facts.show()[:200]))
            return
        if permuted(c, s):
            self.unknown.append('order before sorting')
            return
        if self.differ(c, s, facts):
            self.refuted.append((facts, c, s))

    def rewrite(self, facts, mp):
        """facts after substitution; dead when contradictory"""
        if not mp:
            return facts, False
        out = Facts((), self.g, facts.zero())
        sub = Subst(mp)
        for cond, i in facts.items:
            if cond[0] == 's':
                t = sub.val(cond[1])
                if not (isinstance(t, Leaf) and isinstance(t.v, R)):
                    if isinstance(t, Leaf) and t.v.kind in ('none', 'raise'):
                        continue
                    out = out.add(cond, i)
                    continue
                n = sign_node(t.v, N0, N1, N2)
                if isinstance(n, Leaf):
                    if n.v.const() != i:
                        return out, True
                    continue
                want = (N0, N1, N2)[i]
                j = n.kids.index(want)
                if out.map.get(n.cond, j) != j:
                    return out, True
                if n.cond not in out.map:
                    out = out.add(n.cond, j)
            else:
                t = truth_of_atom(sub.atom(cond[1]))
                if t in (TRUE, FALSE):
                    if (t is TRUE) != bool(i):
                        return out, True
                    continue
                if isinstance(t, Node) and t.cond[0] == 'b' and \
                        t.kids == (FALSE, TRUE):
                    if out.map.get(t.cond, i) != i:
                        return out, True
                    if t.cond not in out.map:
                        out = out.add(t.cond, i)
        return out, not out.feasible()

    def opaque(self, v):
        """reason why a value must not contribute to a refutation"""
        out, known = [], []

        def f(x):
            if isinstance(x, V) and x.kind in ('top', 'any', 'clo'):
                out.append('unmodelled: ' + str(x.args[0])
                           if x.args else x.kind)
            if isinstance(x, Atom) and x.kind == 'call' and \
                    x.args[0] == 'sorted' and x.args[1]:
                if isinstance(x.args[1][0], V) and \
                        x.args[1][0].kind == 'list':
                    out.append('order of given elements')
                for y in x.args[1][1:]:
                    if isinstance(y, V) and y.kind == 'kw' and \
                            y.args[0] == 'key':
                        known.append(y)
            if isinstance(x, V) and x.kind == 'kw' and x not in known:
                out.append('keyword of a library call')
            if isinstance(x, Atom):
                if x.kind in ('fold', 'fresh'):
                    out.append('loop without closed form' if x.kind == 'fold'
                               else 'loop variable')
                if self.vocab is not None:
                    n = None
                    if x.kind in ('attr', 'mcall'):
                        n = x.args[1]
                    elif x.kind == 'call' and isinstance(x.args[0], str):
                        n = x.args[0]
                    if n is not None and not isinstance(n, str):
                        out.append('computed name')
                    elif n is not None and \
                            n.split(".")[-1] not in self.vocab:
                        out.append('unknown name ' + str(n))
        walk(v, f)
        return out[0] if out else None

    def differ(self, c, s, facts):
        return True


N0, N1, N2 = Leaf(num(0)), Leaf(num(1)), Leaf(num(2))
