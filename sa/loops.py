"""Value graph builder: loops.

Loop carried variables are solved as recurrences: invariants, last values,
sums, products, concatenations, keyed stores, maxima / minima and flags get a
closed form over the iteration index; whatever remains becomes a canonical
fold.  A while loop is a counted loop whose count is either closed (integer
progressions) or the term "first index at which the condition fails"."""
import ast

from terms import *
import terms as T
from graph import Frame, St, S, N, top, lst
from stmts import Stmts
from expr import MUT


def targets_of(body):
    """names assigned or mutated in statements (same scope)"""
    out = []

    def add(n):
        if n not in out:
            out.append(n)

    def tgt(t):
        if isinstance(t, ast.Name):
            add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                tgt(x)
        elif isinstance(t, ast.Starred):
            tgt(t.value)
        elif isinstance(t, (ast.Attribute,)):
            pass
        elif isinstance(t, ast.Subscript):
            b = t.value
            while isinstance(b, ast.Subscript):
                b = b.value
            if isinstance(b, ast.Name):
                add(b.id)

    def go(n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            add(n.name)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, ast.Assign):
            for t in n.targets:
                tgt(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
            tgt(n.target)
        elif isinstance(n, ast.For):
            tgt(n.target)
        elif isinstance(n, ast.NamedExpr):
            tgt(n.target)
        elif isinstance(n, (ast.Yield, ast.YieldFrom)):
            add('#yield')
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                add(a.asname or a.name.split('.')[0])
        elif isinstance(n, ast.Attribute) and n.attr in MUT:
            b = n.value
            while isinstance(b, ast.Subscript):
                b = b.value
            if isinstance(b, ast.Name):
                add(b.id)
        for c in ast.iter_child_nodes(n):
            go(c)
    for n in body:
        go(n)
    return out


class Loops(Stmts):
    ctl = None

    def shared(self, body, names, st):
        """names whose containers the statements may change through another
        name, a method taken from them or a function they are given to"""
        al = st.env.get('#alias') or {}
        out = list(names)

        def add(n):
            if n in st.env and n not in out:
                out.append(n)

        def root(e):
            while isinstance(e, ast.Subscript):
                e = e.value
            if isinstance(e, ast.Name):
                add(e.id)
        for b in body:
            for n in ast.walk(b):
                if not isinstance(n, ast.Call):
                    continue
                f = n.func
                if isinstance(f, ast.Name) and f.id in al and \
                        al[f.id][0] == 'attr' and al[f.id][1].attr in MUT:
                    root(al[f.id][1].value)
                name = f.id if isinstance(f, ast.Name) else f.attr \
                    if isinstance(f, ast.Attribute) else None
                if name in self.p.mutators():
                    for a in n.args + [k.value for k in n.keywords]:
                        root(a)
                t = st.env.get(name) if isinstance(f, ast.Name) else None
                if isinstance(t, Leaf) and isinstance(t.v, V) and \
                        t.v.kind == 'clo':
                    fn = self.closures[t.v.args[0]][0]
                    if not isinstance(fn, ast.Lambda):
                        mine = [x.arg for x in fn.args.args]
                        for x in targets_of(fn.body):
                            if x not in mine:
                                add(x)
                        for a in n.args + [k.value for k in n.keywords]:
                            root(a)
        for k, x in al.items():
            if x[0] == 'name' and (k in out or x[1] in out):
                for b in (k, x[1]):
                    if b in st.env and b not in out:
                        out.append(b)
        return out

    def s_Break(self, n, st):
        self.ctl[-1]['break'].append(st)
        return None

    def s_Continue(self, n, st):
        self.ctl[-1]['continue'].append(st)
        return None

    def merge_all(self, sts, st):
        sts = [s for s in sts if s is not None]
        if not sts:
            return None
        out = sts[-1]
        for s in reversed(sts[:-1]):
            out = self.merge(s.pc, s, out, st)
        return out

    def local(self, st):
        s = st.fork(TRUE)
        s.exits = []
        return s

    def run_body(self, body, s):
        """-> (live incl. continues, breaks, exits) with local conditions"""
        self.ctl = (self.ctl or []) + [{'break': [], 'continue': []}]
        try:
            live = self.block(body, s)
            c = self.ctl[-1]
        finally:
            self.ctl = self.ctl[:-1]
        live = self.merge_all(c['continue'] + [live], s)
        return live, c['break'], s.exits

    def emit(self, st, pc, exits):
        for p, v, h, e in exits:
            st.exits.append((tand(pc, p), v, h, e))

    # ------------------------------------------------------------------ for
    def s_For(self, n, st):
        it = tmap(lambda v: self.iter1(v, st), self.expr(n.iter, st))
        leaves = []
        tmap(lambda v: (leaves.append(v) if v not in leaves else 0) or v, it)

        def go(ls, s):
            if len(ls) == 1:
                return self.for_value(n, ls[0], s)
            c = tmap(lambda v: T.bool_(v is ls[0]), it)
            return self.branch(c, s,
                               lambda a: self.for_value(n, ls[0], a),
                               lambda b: go(ls[1:], b))
        return go(leaves, st)

    def for_value(self, n, v, st):
        if isinstance(v, V) and v.kind in ('raise', 'top', 'any'):
            self.exit(st, Leaf(v))
            return None
        q = self.as_seq(v)
        if q is None:
            if isinstance(v, V) and v.kind == 'cat' and not self.has_break(n):
                for x in v.args[0]:
                    if st is None:
                        return None
                    st = self.for_value(n, x, st)
                return st
            self.exit(st, self.site('iteration over ' + show(v)[:40], n))
            return None
        if q[0] == 'conc':
            live, breaks, pc0 = self.local(st), [], st.pc
            s0 = live
            for x in q[1]:
                if live is None:
                    break
                self.bind_target(n.target, Leaf(x), live)
                k = live.pc
                live.exits = []
                run = live
                live, br, ex = self.run_body(n.body, live)
                self.emit(st, pc0, ex)
                breaks += br
            if live is not None and n.orelse:
                live.exits = []
                l2 = self.block(n.orelse, live)
                self.emit(st, pc0, live.exits)
                live = l2
            out = self.merge_all(breaks + [live], st)
            if out is None:
                return None
            out.pc = tand(pc0, out.pc)
            out.exits = st.exits
            return out
        i = fresh('i')
        return self.counted(n, st, i, q[1], q[2](ratom(i)))

    def has_break(self, n):
        todo = list(n.body)
        while todo:
            x = todo.pop()
            if isinstance(x, (ast.Break, ast.Return)):
                return True
            if isinstance(x, (ast.For, ast.While)):
                todo.extend(y for y in ast.walk(x)
                            if isinstance(y, ast.Return))
                continue
            if isinstance(x, (ast.FunctionDef, ast.Lambda)):
                continue
            todo.extend(ast.iter_child_nodes(x))
        return False

    def phi(self, init):
        a = fresh('phi')
        ts = set()
        tmap(lambda v: ts.add(self.typ(v)) or v, init)
        ts.discard('bool') if ts == {'bool'} else None
        if len(ts) == 1:
            t = ts.pop()
            if t:
                self.o.types[a] = t
        return a

    def initial(self, key, st):
        if isinstance(key, tuple):
            return self.heapget(st.heap, key)
        return st.env.get(key, Leaf(V('raise', 'UnboundLocalError')))

    def prepare(self, names, st, runner):
        """two passes: discover heap stores, then run over phi values"""
        keys = [k for k in names if k != '#alias']
        loose = set()
        for attempt in range(5):
            s = self.local(st)
            phis = {}
            for k in keys:
                init = self.initial(k, st)
                ph = self.phi(init)
                if k in loose:
                    self.o.types.pop(ph, None)
                phis[k] = ph
                t = Leaf(ratom(ph))
                if all_bool(init):
                    t = T.bnode(ph)
                elif all_clo(init):
                    t = init
                if isinstance(k, tuple):
                    s.heap[k] = t
                elif init is not Leaf(V('raise', 'UnboundLocalError')):
                    s.env[k] = t
            start = dict(s.heap)
            res = runner(s)
            new = []
            each = {}
            heaps = [x.heap for x in [res[0]] + res[1] if x is not None]
            heaps += [e[2] for e in res[2]]
            for h in heaps:
                for k, t in h.items():
                    if start.get(k) is not t and k not in keys:
                        if self.stable(k, phis, res[3]):
                            if k not in new:
                                new.append(k)
                        else:
                            each[k] = 1
            if not new:
                more = self.retyped(keys, phis, res[0]) - loose
                if more:
                    loose |= more
                    continue
                return keys, phis, res, list(each)
            keys = keys + new
        return None

    def retyped(self, keys, phis, live):
        """names that are None before the first round or after one, but not
        both"""
        out = set()
        for k in keys if live is not None else ():
            was = self.o.types.get(phis[k])
            t = live.heap.get(k) if isinstance(k, tuple) else live.env.get(k)
            if was is None or t is None:
                continue
            now = set()
            leaves_of(t, now)
            if not now:
                continue
            if (was == 'none') != (now == {'none'}) or len(now) == 2:
                out.add(k)
        return out

    def stable(self, key, phis, i):
        o = key[0]
        if i is not None and mentions(o, i):
            return False
        return not any(mentions(o, p) for p in phis.values())

    def counted(self, n, st, i, L, elems):
        """for loop over index i < L; elems: tree of element lists"""
        one = self.singles(elems)
        if self.o.unroll is not None and one and isinstance(L, R):
            at = mklam([i.bare() if isinstance(i, R) else i], elems)
            return self.unrolled(
                n, st, lambda s, k: sign_node(L - num(k), FALSE, FALSE, TRUE),
                lambda s, k: self.bind_target(n.target, tmap(
                    lambda l: l.args[0][0], aplam(at, num(k))), s))

        def runner(s):
            if one:
                self.bind_target(n.target, tmap(
                    lambda l: l.args[0][0], elems), s)
                live, br, ex = self.run_body(n.body, s)
                return live, br, ex, i
            bad = []
            tmap(lambda l: bad.append(1) or l if not (
                isinstance(l, V) and l.kind == 'list' and
                len(l.args[0]) <= 1) else l, elems)
            if bad:
                self.exit(s, self.site('iteration', n))
                return None, [], s.exits, i
            c = tmap(lambda l: T.bool_(bool(l.args[0])), elems)
            skip = s.fork(tnot(c))
            s.pc = c
            self.bind_target(n.target, tmap(
                lambda l: l.args[0][0] if l.args[0] else V('any'), elems), s)
            live, br, ex = self.run_body(n.body, s)
            live = self.merge_all([live, skip], s) if live is None or True \
                else live
            return live, br, ex, i
        names = targets_of(n.body)
        for x in targets_of([ast.For(target=n.target, iter=n.iter, body=[],
                                     orelse=[])]):
            if x not in names:
                names.append(x)
        names = self.shared(n.body, names, st)
        return self.finish(n, st, i, L, names, runner, None)

    def finish(self, n, st, i, L, names, runner, test):
        r = self.prepare(names, st, runner)
        if r is None:
            self.exit(st, self.site('loop stores', n))
            return None
        keys, phis, (live, breaks, exits, _), each = r
        new, init = {}, {}
        for k in keys:
            init[k] = self.initial(k, st)
            if live is None:
                new[k] = Leaf(ratom(phis[k]))
            elif isinstance(k, tuple):
                new[k] = self.heapget(live.heap, k)
            else:
                new[k] = live.env.get(k, init[k])
        sol = self.solve(keys, phis, init, new, i)
        if sol is None:
            self.exit(st, self.site('loop recurrence', n))
            return None
        at, final = sol
        sub = Subst({phis[k]: at[k] for k in keys})

        def inst(t, idx):
            t = sub.tree(t)
            return Subst({i: Leaf(idx)}).tree(t)
        if test is not None:
            C = sub.tree(test)
            L = self.count(C, i)
            if L is None:
                self.exit(st, self.site('loop count', n))
                return None
        stop = FALSE
        for b in breaks:
            stop = tor(stop, b.pc)
        for e in exits:
            stop = tor(stop, e[0])
        stop = sub.tree(stop)
        stop = self.simp_index(stop, i, L)
        tops = []
        tmap(lambda v: tops.append(v) or v if isinstance(v, V) and
             v.kind in ('top',) else v, stop)
        if tops:
            self.exit(st, self.site('loop exit', n))
            return None
        pc0 = st.pc
        out = []

        def leave(t, idx):
            # where the loop is left its exit condition holds
            t = sub.tree(t)
            if L != 'inf':
                t = under(stop, self.simp_index(t, i, L))
            return Subst({i: Leaf(idx)}).tree(t)
        if stop is not FALSE:
            if L == 'inf':
                E, k = TRUE, self.count(tnot(stop), i)
                if k in (None, 'inf'):
                    self.exit(st, self.site('endless loop', n))
                    return None
            else:
                E = self.hoist_any(L, i, stop)
                k = self.first(L, i, stop)
            for p, v, h, e in exits:
                p2 = tand(E, leave(p, k))
                heap = self.heap_inst(st, h, keys, phis, at, each,
                                      lambda t: inst(t, k), i, k)
                st.exits.append((tand(pc0, p2), leave(v, k), heap,
                                 {a: inst(b, k) for a, b in e.items()
                                  if isinstance(b, (Leaf, Node))
                                  and a == '#yield'}))
            for b in breaks:
                s = st.fork(tand(E, leave(b.pc, k)))
                for a, t in b.env.items():
                    if isinstance(t, (Leaf, Node)) and (
                            a in keys or t is not st.env.get(a)):
                        s.env[a] = leave(t, k)
                s.heap = self.heap_inst(st, b.heap, keys, phis, at, each,
                                        lambda t: inst(t, k), i, k)
                out.append(s)
            norm = tnot(E)
        else:
            norm = TRUE
            if L == 'inf':
                self.exit(st, self.site('endless loop', n))
                return None
        if norm is not FALSE and L != 'inf':
            s = st.fork(norm)
            for k in keys:
                v = final(k, L)
                if isinstance(k, tuple):
                    s.heap[k] = v
                else:
                    s.env[k] = v
            for k in each:
                self.each_store(s, k, live, sub, i, L)
            if n.orelse:
                s.exits = []
                s2 = self.block(n.orelse, s)
                self.emit(st, pc0, s.exits)
                s = s2
            if s is not None:
                out.append(s)
        r = self.merge_all(out, st)
        if r is None:
            return None
        r.pc = tand(pc0, r.pc)
        r.exits = st.exits
        return r

    def heap_inst(self, st, h, keys, phis, at, each, f, i, k):
        out = dict(st.heap)
        for key, t in h.items():
            if key in keys or st.heap.get(key) is not t:
                o = f(Leaf(key[0]))
                if isinstance(o, Leaf):
                    out[(o.v, key[1])] = f(t)
        return out

    def each_store(self, s, key, live, sub, i, L):
        if live is None or key not in live.heap:
            return
        o = sub.tree(Leaf(key[0]))
        val = sub.tree(live.heap[key])
        # members that keep their value
        k = V('each', L, mklam([i], o))
        s.heap[(k, key[1])] = Leaf(mklam([i], val))

    # ---------------------------------------------------------------- while
    def s_While(self, n, st):
        hold = {}

        def runner(s):
            c = self.truth(self.expr(n.test, s))
            hold['c'] = c
            live, br, ex = self.run_body(n.body, s)
            return live, br, ex, None
        if self.o.unroll is not None:
            return self.unrolled(n, st, lambda s, k: self.truth(self.expr(
                n.test, s)), None)
        out = self.short(n, st)
        if out is not False:
            return out
        names = targets_of(n.body)
        names += [x for x in targets_of([ast.Expr(n.test)])
                  if x not in names]
        names = self.shared(n.body + [ast.Expr(n.test)], names, st)
        i = fresh('i')

        def run(s):
            a, b, c, _ = runner(s)
            return a, b, c, i
        return self.finish_while(n, st, i, names, run, hold)

    def unrolled(self, n, st, test, bind):
        """the first rounds of a loop; runs with more rounds are left out
        on both sides"""
        breaks = []

        def rounds(k, s):
            def more(a):
                if k == self.o.unroll:
                    self.exit(a, Leaf(V('any')))
                    return None
                if bind is not None:
                    bind(a, k)
                self.ctl = (self.ctl or []) + [{'break': [], 'continue': []}]
                try:
                    b = self.block(n.body, a)
                    c = self.ctl[-1]
                finally:
                    self.ctl = self.ctl[:-1]
                breaks.extend(c['break'])
                b = self.merge_all(c['continue'] + [b], a)
                return None if b is None else rounds(k + 1, b)

            def done(b):
                return self.block(n.orelse, b) if n.orelse else b
            c, s = self.decided(test(s, k), s)
            if s is None:
                return None
            return self.branch(c, s, more, done)
        out = rounds(0, st)
        return self.merge_all(breaks + [out], st)

    def short(self, n, st):
        """a search through a list of known length: its rounds one by one;
        False when it does not end within them"""
        size = 0
        for x in ast.walk(n.test):
            if isinstance(x, ast.Subscript) and isinstance(
                    x.value, ast.Name) and isinstance(
                    st.env.get(x.value.id), Leaf):
                v = st.env[x.value.id].v
                if isinstance(v, V) and v.kind == 'list':
                    size = max(size, len(v.args[0]))
        if not 0 < size <= 4:
            return False
        s = st.fork(st.pc)
        s.exits = []
        tops, old = len(self.tops), self.o.unroll
        self.o.unroll = size + 1
        try:
            out = self.unrolled(n, s, lambda a, k: self.truth(self.expr(
                n.test, a)), None)
        finally:
            self.o.unroll = old
        if any(isinstance(e[1], Leaf) and isinstance(e[1].v, V) and
               e[1].v.kind in ('any', 'top') for e in s.exits):
            del self.tops[tops:]
            return False
        st.exits.extend(s.exits)
        if out is not None:
            out.exits = st.exits
        return out

    def finish_while(self, n, st, i, names, run, hold):
        class Late(object):
            pass
        # the test is only known after the body pass
        orig = self.prepare

        def prep(names, st, runner):
            return orig(names, st, runner)
        r = prep(names, st, run)
        if r is None:
            self.exit(st, self.site('loop stores', n))
            return None
        test = hold['c']
        bad = []
        tmap(lambda v: bad.append(v) or v if not T.is_bool(v) else v, test)
        if bad:
            self.exit(st, self.site('loop condition', n))
            return None
        self.prepare = lambda *a: r
        try:
            return self.finish(n, st, i, 'inf', names, run, test)
        finally:
            del self.prepare

    def count(self, C, i):
        """number of leading indices that satisfy C(i)"""
        if C is TRUE:
            return 'inf'
        if C is FALSE:
            return ZERO
        if isinstance(C, Node) and C.cond[0] == 's' and all(
                isinstance(k, Leaf) for k in C.kids):
            p = C.cond[1]
            lin = self.linear(p, i)
            if lin is not None:
                a, b = lin          # p = a*i + b
                t = tuple(k is TRUE for k in C.kids)
                if a < 0:
                    a, b = -a, -b
                    t = t[::-1]
                if a == 1 and self.isint(b):
                    if t == (True, False, False):
                        return -b
                    if t == (True, True, False):
                        return ONE - b
                    if t == (True, False, True):
                        return -b
        return ratom(Atom('count', mklam([i], C)))

    def linear(self, p, i):
        """p = a*i + b with constant a, b free of i"""
        if p.den is not None:
            return None
        a, b = Fraction(0), {}
        for m, c in p.num.items():
            hit = [(x, e) for x, e in m if mentions(x, i)]
            if not hit:
                b[m] = c
            elif len(m) == 1 and m[0] == (i, 1):
                a = c
            else:
                return None
        if not a:
            return None
        return a, R(b)

    # --------------------------------------------------------------- solver
    def solve(self, keys, phis, init, new, i):
        """-> (at: key -> tree over i, final(key, L) -> tree)"""
        at = {}
        todo = list(keys)
        ri = ratom(i)

        def shift(t, idx):
            return Subst({i: Leaf(idx)}).tree(t)
        progress = True
        fin = {}
        while todo and progress:
            progress = False
            sub = Subst({phis[k]: at[k] for k in at})
            open_ = [phis[k] for k in todo]
            for k in list(todo):
                t = sub.tree(new[k])
                ph = phis[k]
                others = [p for p in open_ if p is not ph and mentions(t, p)]
                if others:
                    continue
                if not mentions(t, ph):
                    if t is init[k]:
                        at[k] = init[k]
                    else:
                        prev = shift(t, ri - ONE)
                        at[k] = collapse(sign_node(ri, init[k], init[k],
                                                   prev), i)
                else:
                    a = self.recurrence(t, ph, init[k], i)
                    if a is None:
                        continue
                    at[k] = a
                todo.remove(k)
                progress = True
        if todo:
            sub = Subst({phis[k]: at[k] for k in at})
            news = {k: sub.tree(new[k]) for k in todo}
            hold = Atom('sym', '\u03c6')
            mp = {phis[k]: Leaf(ratom(hold)) for k in todo}
            order_ = sorted(todo, key=lambda k: (
                show(init[k]), show(Subst(mp).tree(news[k]))))
            for k in todo:
                # only the variables k depends on
                need, stack = [k], [k]
                while stack:
                    x = stack.pop()
                    for y in order_:
                        if y not in need and mentions(news[x], phis[y]):
                            need.append(y)
                            stack.append(y)
                group = [k] + [y for y in order_ if y in need and y != k]
                body = lst(*[news[y] for y in group])
                bad = []
                tmap(lambda v: bad.append(1) or v if not (
                    isinstance(v, V) and v.kind == 'list') else v, body)
                if bad:
                    return None
                lam = mklam([i] + [phis[y] for y in group], body)
                ini = tuple(init[y] for y in group)
                at[k] = Leaf(ratom(Atom('fold', ri, lam, ini)))
            # values may mention each other through phi: close them
            sub = Subst({phis[k]: at[k] for k in keys})
            for k in keys:
                at[k] = sub.tree(at[k])

        def final(k, L):
            # every at value is the value at the start of iteration i
            return shift(at[k], L)
        return at, final

    def recurrence(self, t, ph, init, i):
        """closed form at index i of phi -> t(phi, i)"""
        rp = ratom(ph)
        ri = ratom(i)
        if t is Leaf(rp) or t is T.bnode(ph):
            return init
        leaves = []
        tmap(lambda v: (leaves.append(v) if v not in leaves else 0) or v, t)
        conds = free_of(t, ph)
        if conds:
            # additive
            if all(isinstance(v, R) for v in leaves) and \
                    self.o.types.get(ph) not in ('list', 'dict', 'date'):
                ds = {v: v - rp for v in leaves}
                if not any(mentions(d, ph) for d in ds.values()):
                    j = fresh('j')
                    d = tmap(lambda v: ds[v], t)
                    d = Subst({i: Leaf(ratom(j))}).tree(d)
                    return self.add(init, self.msum(ri, j, d))
                try:
                    qs = {v: v / rp for v in leaves}
                except ZeroDivisionError:
                    qs = None
                if qs and not any(mentions(d, ph) for d in qs.values()):
                    j = fresh('j')
                    d = tmap(lambda v: qs[v], t)
                    d = Subst({i: Leaf(ratom(j))}).tree(d)
                    return self.binop('*', init, self.mprod(ri, j, d))
            # concatenation
            if all(v is rp or isinstance(v, V) and v.kind == 'cat'
                   for v in leaves):
                j = fresh('j')

                def tail(v):
                    if v is rp:
                        return V('list', ())
                    p = v.args[0]
                    if p[0] is rp and not any(mentions(x, ph)
                                              for x in p[1:]):
                        return p[1] if len(p) == 2 else V('cat', p[1:])
                    return V('top', 'cat')

                def head(v):
                    if v is rp:
                        return V('list', ())
                    p = v.args[0]
                    if p[-1] is rp and not any(mentions(x, ph)
                                               for x in p[:-1]):
                        return p[0] if len(p) == 2 else V('cat', p[:-1])
                    return V('top', 'cat')
                b = tmap(tail, t)
                if no_top(b):
                    b = Subst({i: Leaf(ratom(j))}).tree(b)
                    s = self.mkseq(ri, j, b)
                    if not no_top(s):
                        return None
                    return tmap(self.cat1, init, s)
                r = self.chain(t, ph, init, i)
                if r is not None:
                    return r
                b = tmap(head, t)
                if no_top(b):
                    b = Subst({i: Leaf(ri - ONE - ratom(j))}).tree(b)
                    s = self.mkseq(ri, j, b)
                    if not no_top(s):
                        return None
                    return tmap(self.cat1, s, init)
            # keyed stores
            if isinstance(t, Leaf) and isinstance(t.v, V) and \
                    t.v.kind == 'dict' and isinstance(t.v.args[1], V) and \
                    t.v.args[1].kind == 'dyn' and not t.v.args[0]:
                base, key, val = t.v.args[1].args
                if base is rp or isinstance(base, V) and \
                        base.kind == 'dict' and base.args[1] is rp and \
                        not base.args[0]:
                    if not mentions(key, ph) and not mentions(val, ph):
                        j = fresh('j')
                        pr = Subst({i: Leaf(ratom(j))}).tree(
                            lst(lst(Leaf(key), Leaf(val))))
                        s = self.mkseq(ri, j, pr)
                        return tmap(lambda a, b: self.dictseq(a, b), init, s)
            # flags
        if all(T.is_bool(v) for v in leaves) and isinstance(init, Leaf) \
                and T.is_bool(init.v):
            r = self.flag(t, ph, init, i)
            if r is not None:
                return r
        # maxima and minima
        if isinstance(t, Node) and t.cond[0] == 's' and \
                set(leaves) - {rp} and len(leaves) == 2 and \
                all(isinstance(k, Leaf) for k in t.kids):
            g = [v for v in leaves if v is not rp][0]
            if isinstance(g, R) and not mentions(g, ph) and rp in leaves:
                d = t.cond[1]
                for name in ('max', 'min'):
                    if self.maxmin(name, Leaf(rp), Leaf(g)) is t or \
                            self.maxmin(name, Leaf(g), Leaf(rp)) is t:
                        j = fresh('j')
                        b = Subst({i: Leaf(ratom(j))}).tree(lst(Leaf(g)))
                        s = self.mkseq(ri, j, b)
                        return tmap(lambda a, b: self.agg(name, b), init,
                                    tmap(self.cat1, lst(init), s))
        return None

    def chain(self, t, ph, init, i):
        """phi -> phi + [g(phi[-1], i)]"""
        rp, ri = ratom(ph), ratom(i)
        last = self.index1(rp, num(-1))
        a = last.v.bare() if isinstance(last, Leaf) and isinstance(
            last.v, R) else None
        if a is None or not (isinstance(init, Leaf) and
                             isinstance(init.v, V) and
                             init.v.kind == 'list' and init.v.args[0]):
            return None
        x = fresh('phi')
        bad = []

        def one(v):
            p = v.args[0] if isinstance(v, V) and v.kind == 'cat' else ()
            if len(p) == 2 and p[0] is rp and isinstance(p[1], V) and \
                    p[1].kind == 'list' and len(p[1].args[0]) == 1:
                return p[1].args[0][0]
            bad.append(v)
            return v
        g = tmap(one, t)
        if bad:
            return None
        g = Subst({a: Leaf(ratom(x))}).tree(g)
        if mentions(g, ph):
            return None
        start = Leaf(init.v.args[0][-1])
        if not mentions(g, x):
            return None
        kind = self.typ(start.v)
        if kind:
            self.o.types[x] = kind
        at = self.recurrence(g, x, start, i)
        if at is None:
            return None
        j = fresh('j')
        el = Subst({i: Leaf(ratom(j) + ONE)}).tree(at)
        s = self.mkseq(ri, j, tmap(lambda v: V('list', (v,)), el))
        if not no_top(s):
            return None
        return tmap(self.cat1, init, s)

    def flag(self, t, ph, init, i):
        """phi -> phi or c(i) / phi and c(i)"""
        a = ('b', ph)
        f, tr = restrict(t, a, 0), restrict(t, a, 1)
        if mentions(f, ph) or mentions(tr, ph):
            return None
        j = fresh('j')
        start = init.v.args[0]
        if tr is TRUE:
            ex = self.hoist_any(ratom(i), j, Subst(
                {i: Leaf(ratom(j))}).tree(f))
            return tor(init, ex)
        if f is FALSE:
            ex = self.hoist_any(ratom(i), j, Subst(
                {i: Leaf(ratom(j))}).tree(tnot(tr)))
            return tand(init, tnot(ex))
        return None

    def dictseq(self, d, s):
        if isinstance(d, V) and d.kind == 'dict' and not d.args[0] and \
                d.args[1] is None:
            return self.dictof1(s)
        return Leaf(V('dict', (), V('dynseq', d, s)))


def leaves_of(t, out):
    """none / other: what the leaves of a tree are"""
    if isinstance(t, Leaf):
        v = t.v
        if isinstance(v, R) or v.kind not in ('top', 'raise', 'any'):
            out.add('none' if isinstance(v, V) and v.kind == 'none'
                    else 'other')
        return
    for k in t.kids:
        leaves_of(k, out)


def free_of(t, ph):
    """conditions of t do not mention ph"""
    if isinstance(t, Leaf):
        return True
    if mentions(t.cond[1], ph):
        return False
    return all(free_of(k, ph) for k in t.kids)


def no_top(t):
    bad = []
    tmap(lambda v: bad.append(1) or v if isinstance(v, V) and
         v.kind == 'top' else v, t)
    return not bad


def all_bool(t):
    ok = []
    tmap(lambda v: ok.append(T.is_bool(v)) or v, t)
    return all(ok)


def all_clo(t):
    return isinstance(t, Leaf) and isinstance(t.v, V) and \
        t.v.kind in ('clo', 'fn', 'cls', 'bi')


def collapse(t, i):
    """sign node on the index itself whose zero case is an instance of the
    positive case"""
    if isinstance(t, Node) and t.cond == ('s', ratom(i)):
        z = Subst({i: N(0)}).tree(t.kids[2])
        if z is Subst({i: N(0)}).tree(t.kids[1]):
            return t.kids[2]
    return t


def build(prog, opts=None):
    return Loops(prog, opts)
