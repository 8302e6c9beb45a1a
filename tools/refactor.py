"""Development aid: edits of /repo/dcf that keep its behaviour, and the alarms
the checks raise on them (there should be none).

python3-vt tools/refactor.py FILE-SUBSTR [FUNC-SUBSTR] [KIND ...]
"""
import ast
import copy
import multiprocessing as mp
import os
import shutil
import sys

import mutate
from mutate import G, Program, REPO, obl, rules

FLIP = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE,
        ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
NEG = {ast.Lt: ast.GtE, ast.Gt: ast.LtE, ast.LtE: ast.Gt, ast.GtE: ast.Lt,
       ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot,
       ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
NUMERIC = ('models/', 'compounding', 'interpolation', 'plans', 'daycount')
FN = (ast.FunctionDef, ast.Lambda)
COMP = (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)


class Ctx(object):
    def __init__(self, tree, rel):
        self.tree, self.rel = tree, rel
        self.par = {}
        for p in ast.walk(tree):
            for f, v in ast.iter_fields(p):
                if isinstance(v, ast.AST):
                    self.par[v] = (p, f, None)
                elif isinstance(v, list):
                    for i, x in enumerate(v):
                        if isinstance(x, ast.AST):
                            self.par[x] = (p, f, i)

    def put(self, old, new):
        p, f, i = self.par[old]
        if i is None:
            setattr(p, f, new)
        else:
            getattr(p, f)[i] = new

    def stmt(self, n):
        while not isinstance(n, ast.stmt):
            n = self.par[n][0]
        return n

    def func(self, n):
        while n is not None and not isinstance(n, ast.FunctionDef):
            n = self.par[n][0] if n in self.par else None
        return n

    def cls(self, f):
        p = self.par[f][0] if f in self.par else None
        return p if isinstance(p, ast.ClassDef) else None

    def before(self, s, new):
        p, f, i = self.par[s]
        b = getattr(p, f)
        j = [k for k, x in enumerate(b) if x is s][0]
        b[j:j] = new

    def replace(self, s, new):
        p, f, i = self.par[s]
        b = getattr(p, f)
        j = [k for k, x in enumerate(b) if x is s][0]
        b[j:j+1] = new

    def chain(self, n):
        out = []
        while n in self.par:
            out.append((self.par[n][0], self.par[n][1], n))
            n = self.par[n][0]
            if isinstance(n, ast.stmt):
                break
        return out

    def plain(self, n):
        """evaluated exactly once whenever its statement is"""
        for p, f, c in self.chain(n):
            if isinstance(p, FN) or isinstance(p, COMP + (
                    ast.comprehension,)):
                return False
            if isinstance(p, ast.IfExp) and f != 'test':
                return False
            if isinstance(p, ast.BoolOp) and c is not p.values[0]:
                return False
            if isinstance(p, ast.Compare) and f == 'comparators' and \
                    c is not p.comparators[0]:
                return False
            if isinstance(p, (ast.While, ast.For)) and f != 'iter':
                return False
            if isinstance(p, (ast.FunctionDef, ast.ClassDef)):
                return False
        return True


def load(s):
    return ast.Name(s, ast.Load())


def store(s):
    return ast.Name(s, ast.Store())


def assign(s, v):
    return ast.Assign([store(s)], v)


def locals_of(f):
    a = f.args
    ps = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    ps += [x.arg for x in (a.vararg, a.kwarg) if x]
    vs = []
    for n in ast.walk(f):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            vs.append(n.id)
    return ps, vs


def free(e):
    """names read in e that e does not bind itself"""
    bound = set()
    for n in ast.walk(e):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            bound.add(n.id)
        if isinstance(n, ast.arg):
            bound.add(n.arg)
    out = []
    for n in ast.walk(e):
        if isinstance(n, ast.Name) and n.id not in bound and \
                n.id not in out:
            out.append(n.id)
    return out


def has(e, *kinds):
    return any(isinstance(n, kinds) for n in ast.walk(e))


def names(e):
    return {n.id for n in ast.walk(e) if isinstance(n, ast.Name)}


def tail(f):
    b = f.body
    return 1 if b and isinstance(b[0], ast.Expr) and isinstance(
        b[0].value, ast.Constant) else 0


# every transformation: (ctx, node) -> True when applied
def flipcmp(c, n):
    if isinstance(n, ast.Compare) and len(n.ops) == 1 and \
            type(n.ops[0]) in FLIP:
        n.left, n.comparators = n.comparators[0], [n.left]
        n.ops = [FLIP[type(n.ops[0])]()]
        return True


def negcmp(c, n):
    if isinstance(n, ast.Compare) and len(n.ops) == 1 and \
            type(n.ops[0]) in NEG:
        m = copy.copy(n)
        m.ops = [NEG[type(n.ops[0])]()]
        c.put(n, ast.UnaryOp(ast.Not(), m))
        return True


def commute(c, n):
    if isinstance(n, ast.BinOp) and (
            isinstance(n.op, ast.Mult) or isinstance(n.op, ast.Add) and
            any(x in c.rel for x in NUMERIC) and not has(
                n, ast.List, ast.JoinedStr)) and not (
                    isinstance(n.left, ast.Constant) and isinstance(
                        n.left.value, str)):
        n.left, n.right = n.right, n.left
        return True


def invert(c, n):
    if isinstance(n, (ast.If, ast.IfExp)) and n.orelse:
        n.test = ast.UnaryOp(ast.Not(), n.test)
        n.body, n.orelse = n.orelse, n.body
        return True


def intoelse(c, n):
    if isinstance(n, ast.If) and not n.orelse and isinstance(
            n.body[-1], (ast.Return, ast.Raise, ast.Continue)):
        p, f, i = c.par[n]
        b = getattr(p, f)
        j = [k for k, x in enumerate(b) if x is n][0]
        if b[j+1:]:
            n.orelse = b[j+1:]
            del b[j+1:]
            return True


def outofelse(c, n):
    if isinstance(n, ast.If) and n.orelse and isinstance(
            n.body[-1], (ast.Return, ast.Raise)):
        p, f, i = c.par[n]
        if isinstance(p, ast.If) and f == 'orelse':
            return
        b = getattr(p, f)
        j = [k for k, x in enumerate(b) if x is n][0]
        b[j+1:j+1] = n.orelse
        n.orelse = []
        return True


def variable(c, n):
    if isinstance(n, (ast.Call, ast.BinOp, ast.Attribute, ast.Subscript,
                      ast.Compare, ast.IfExp, ast.ListComp)) and isinstance(
                          getattr(n, 'ctx', ast.Load()), ast.Load):
        s = c.stmt(n)
        if not isinstance(s, (ast.Return, ast.Assign, ast.Expr, ast.If,
                              ast.AugAssign, ast.For)):
            return
        if c.par[n][0] is s and isinstance(s, (ast.Assign, ast.Expr)):
            return
        if isinstance(s, ast.If) and not any(
                x is n for x in ast.walk(s.test)):
            return
        if isinstance(s, ast.If) and c.par[s][1] == 'orelse' and len(
                getattr(c.par[s][0], 'orelse')) == 1:
            return
        if isinstance(c.par[n][0], ast.Call) and c.par[n][1] == 'func' and \
                not isinstance(n, ast.Attribute):
            return
        if has(n, ast.Starred, ast.Yield) or 'super' in names(n) and \
                not isinstance(n, ast.Call):
            return
        if c.func(s) is None or not c.plain(n):
            return
        if isinstance(s, ast.AugAssign) and any(
                x is n for x in ast.walk(s.target)):
            return
        if isinstance(s, ast.Assign) and any(
                x is n for t in s.targets for x in ast.walk(t)):
            return
        c.put(n, load('_x'))
        c.before(s, [assign('_x', n)])
        return True


def function(c, n, method=False):
    if not isinstance(n, (ast.Call, ast.BinOp, ast.Compare, ast.IfExp,
                          ast.ListComp, ast.GeneratorExp)):
        return
    f = c.func(n)
    if f is None:
        return
    s = c.stmt(n)
    if isinstance(s, (ast.FunctionDef, ast.ClassDef)) or has(
            n, ast.Yield, ast.Starred) or 'super' in names(n):
        return
    if 'globals' in names(n) or c.par[n][0].__class__ is ast.keyword and \
            False:
        return
    for p, fld, ch in c.chain(n):
        if isinstance(p, ast.FunctionDef):
            return
    outer = f
    ps, vs = locals_of(f)
    while c.func(c.par[outer][0]) is not None:
        outer = c.func(c.par[outer][0])
        a, b = locals_of(outer)
        ps, vs = ps + a, vs + b
    inner = set()
    for p, fld, ch in c.chain(n):
        if isinstance(p, ast.Lambda):
            inner.update(x.arg for x in p.args.args)
    use = [x for x in free(n) if x in ps or x in vs or x in inner]
    me = f.args.args[0].arg if f.args.args else None
    k = c.cls(outer)
    if method:
        if k is None or outer is not f or me != 'self' or any(
                isinstance(d, ast.Name) for d in f.decorator_list if
                getattr(d, 'id', '') in ('staticmethod', 'classmethod')):
            return
        use = [x for x in use if x != 'self']
        h = ast.FunctionDef('_helper', ast.arguments(
            [], [ast.arg(x) for x in ['self'] + use], None, [], [], None, []),
            [ast.Return(n)], [])
        c.put(n, ast.Call(ast.Attribute(load('self'), '_helper', ast.Load()),
                          [load(x) for x in use], []))
        k.body.append(h)
        return True
    h = ast.FunctionDef('_helper', ast.arguments(
        [], [ast.arg(x) for x in use], None, [], [], None, []),
        [ast.Return(n)], [])
    c.put(n, ast.Call(load('_helper'), [load(x) for x in use], []))
    c.tree.body.append(h)
    return True


def method(c, n):
    return function(c, n, True)


def rename(c, n):
    if isinstance(n, ast.FunctionDef):
        ps, vs = locals_of(n)
        vs = [v for v in vs if v not in ps]
        if not vs:
            return
        for m in ast.walk(n):
            if isinstance(m, (ast.Global, ast.Nonlocal)):
                return
        for m in ast.walk(n):
            if isinstance(m, FN) and m is not n and set(
                    x.arg for x in m.args.args) & set(vs):
                return
        for m in ast.walk(n):
            if isinstance(m, ast.Name) and m.id in vs:
                m.id = m.id + '_1'
            if isinstance(m, ast.FunctionDef) and m is not n and \
                    m.name in vs:
                return
        return True


def looped(c, n):
    """comprehension at a plain place -> loop before the statement"""
    kind = None
    if isinstance(n, ast.ListComp):
        kind, comp = 'list', n
    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and \
            n.func.id in ('list', 'tuple', 'sum') and len(n.args) == 1 and \
            isinstance(n.args[0], ast.GeneratorExp):
        kind, comp = n.func.id, n.args[0]
    if kind is None or len(comp.generators) != 1 or c.func(n) is None or \
            not c.plain(n):
        return
    s = c.stmt(n)
    if isinstance(s, ast.If) and c.par[s][1] == 'orelse':
        return
    g = comp.generators[0]
    ps, vs = locals_of(c.func(n))
    tn = names(g.target)
    if tn & set(ps) or any(vs.count(t) > 1 for t in tn):
        return
    act = ast.AugAssign(store('_r'), ast.Add(), comp.elt) if kind == 'sum' \
        else ast.Expr(ast.Call(ast.Attribute(load('_r'), 'append',
                                             ast.Load()), [comp.elt], []))
    body = [act]
    for i in reversed(g.ifs):
        body = [ast.If(i, body, [])]
    loop = ast.For(g.target, g.iter, body, [])
    start = ast.Constant(0) if kind == 'sum' else ast.List([], ast.Load())
    c.before(s, [assign('_r', start), loop])
    c.put(n, ast.Call(load('tuple'), [load('_r')], [])
          if kind == 'tuple' else load('_r'))
    return True


def gen2list(c, n):
    if isinstance(n, ast.GeneratorExp) and isinstance(
            c.par[n][0], ast.Call) and isinstance(
                c.par[n][0].func, ast.Name) and c.par[n][0].func.id in (
                    'tuple', 'sum', 'list', 'max', 'min', 'sorted', 'all',
                    'any') and len(c.par[n][0].args) == 1:
        c.put(n, ast.ListComp(n.elt, n.generators))
        return True


def gen2map(c, n):
    if isinstance(n, ast.GeneratorExp) and len(n.generators) == 1 and \
            not n.generators[0].ifs and isinstance(
                n.generators[0].target, ast.Name):
        g = n.generators[0]
        c.put(n, ast.Call(load('map'), [ast.Lambda(ast.arguments(
            [], [ast.arg(g.target.id)], None, [], [], None, []), n.elt),
            g.iter], []))
        return True


def enum(c, n):
    if isinstance(n, ast.For):
        n.target = ast.Tuple([store('_i'), n.target], ast.Store())
        n.iter = ast.Call(load('enumerate'), [n.iter], [])
        return True


def aug(c, n):
    if isinstance(n, ast.AugAssign) and isinstance(
            n.target, ast.Name) and not has(n.value, ast.List, ast.Tuple):
        c.replace(n, [ast.Assign([n.target], ast.BinOp(
            load(n.target.id), n.op, n.value))])
        return True


def nonefirst(c, n):
    if isinstance(n, ast.Compare) and isinstance(
            n.ops[0], (ast.Is, ast.IsNot)) and isinstance(
                n.comparators[0], ast.Constant):
        n.left, n.comparators = n.comparators[0], [n.left]
        return True


def isinst(c, n):
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and \
            n.func.id == 'isinstance' and isinstance(n.args[1], ast.Tuple):
        c.put(n, ast.BoolOp(ast.Or(), [ast.Call(
            load('isinstance'), [n.args[0], t], []) for t in
            n.args[1].elts]))
        return True


def newsuper(c, n):
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and \
            n.func.id == 'super':
        f = c.func(n)
        k = c.cls(f)
        if k is None:
            return
        if n.args and isinstance(n.args[0], ast.Name) and \
                n.args[0].id == k.name:
            n.args = []
        elif not n.args:
            n.args = [load(k.name), load(f.args.args[0].arg)]
        else:
            return
        return True


def getkey(c, n):
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
            n.func.attr == 'get' and len(n.args) == 2 and not n.keywords:
        d, (k, v) = n.func.value, n.args
        c.put(n, ast.IfExp(ast.Compare(k, [ast.In()], [d]), ast.Subscript(
            d, k, ast.Load()), v))
        return True


def ifstmt(c, n):
    if isinstance(n, (ast.Return, ast.Assign)) and isinstance(
            n.value, ast.IfExp):
        e = n.value
        a, b = copy.copy(n), copy.copy(n)
        a.value, b.value = e.body, e.orelse
        c.replace(n, [ast.If(e.test, [a], [b])])
        return True


def ifexp(c, n):
    if isinstance(n, ast.If) and len(n.body) == 1 and len(
            n.orelse) == 1 and type(n.body[0]) is type(n.orelse[0]) and \
            isinstance(n.body[0], (ast.Return, ast.Assign)):
        a, b = n.body[0], n.orelse[0]
        if a.value is None or b.value is None:
            return
        if isinstance(a, ast.Assign) and ast.dump(
                a.targets[0]) != ast.dump(b.targets[0]):
            return
        a.value = ast.IfExp(n.test, a.value, b.value)
        c.replace(n, [a])
        return True


def noop(c, n):
    if isinstance(n, ast.FunctionDef):
        i = tail(n)
        n.body[i:i] = [ast.Assign([store('_unused')], ast.Constant(None))]
        return True


def tryfinally(c, n):
    if isinstance(n, ast.FunctionDef) and not has(n, ast.Yield):
        i = tail(n)
        n.body[i:] = [ast.Try(n.body[i:], [], [], [ast.Pass()])]
        return True


def splitand(c, n):
    if isinstance(n, ast.If) and not n.orelse and isinstance(
            n.test, ast.BoolOp) and isinstance(n.test.op, ast.And):
        v = n.test.values
        n.body = [ast.If(v[-1] if len(v) == 2 else ast.BoolOp(
            ast.And(), v[1:]), n.body, [])]
        n.test = v[0]
        return True


def demorgan(c, n):
    if isinstance(n, ast.BoolOp) and isinstance(
            c.par[n][0], (ast.If, ast.IfExp, ast.While)) and \
            c.par[n][1] == 'test':
        op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
        c.put(n, ast.UnaryOp(ast.Not(), ast.BoolOp(op, [
            ast.UnaryOp(ast.Not(), x) for x in n.values])))
        return True


def chained(c, n):
    if isinstance(n, ast.Compare) and len(n.ops) == 2:
        m = n.comparators[0]
        c.put(n, ast.BoolOp(ast.And(), [
            ast.Compare(n.left, [n.ops[0]], [m]),
            ast.Compare(m, [n.ops[1]], [n.comparators[1]])]))
        return True


def maxif(c, n):
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and \
            n.func.id in ('max', 'min') and len(n.args) == 2:
        a, b = n.args
        c.put(n, ast.IfExp(ast.Compare(a, [
            ast.GtE() if n.func.id == 'max' else ast.LtE()], [b]), a, b))
        return True


def power(c, n):
    if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Pow) and \
            isinstance(n.right, ast.Constant) and n.right.value == 2:
        c.put(n, ast.BinOp(n.left, ast.Mult(), n.left))
        return True
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and \
            n.func.id == 'sqrt':
        c.put(n, ast.BinOp(n.args[0], ast.Pow(), ast.Constant(0.5)))
        return True


def divide(c, n):
    if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Div):
        n.op = ast.Mult()
        n.right = ast.BinOp(ast.Constant(1.0), ast.Div(), n.right)
        return True


def subtract(c, n):
    if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Sub) and any(
            x in c.rel for x in NUMERIC):
        n.op = ast.Add()
        n.right = ast.UnaryOp(ast.USub(), n.right)
        return True


def keyworded(c, n):
    if isinstance(n, ast.Call) and n.args and not has(n, ast.Starred):
        nm = n.func.id if isinstance(n.func, ast.Name) else \
            n.func.attr if isinstance(n.func, ast.Attribute) else None
        sig = SIG.get(nm)
        if sig is None:
            return
        if len(n.args) > len(sig) or set(sig[:len(n.args)]) & set(
                k.arg for k in n.keywords):
            return
        n.keywords = [ast.keyword(p, a) for p, a in zip(sig, n.args)] + \
            n.keywords
        n.args = []
        return True


def hoist(c, n):
    """self.x read at several places -> one local variable"""
    if not isinstance(n, ast.FunctionDef) or c.cls(n) is None or \
            n.name == '__init__' or not n.args.args or \
            n.args.args[0].arg != 'self':
        return
    for a in ('domain', 'origin', 'day_count', 'x_list', 'y_list',
              'forward_curve', '_inner', 'forward_tenor'):
        rs = [m for m in ast.walk(n) if isinstance(m, ast.Attribute) and
              m.attr == a and isinstance(m.value, ast.Name) and
              m.value.id == 'self']
        if rs and all(isinstance(m.ctx, ast.Load) for m in rs):
            for m in rs:
                c.put(m, load('_' + a))
            i = tail(n)
            n.body[i:i] = [assign('_' + a, rs[0])]
            return True


def whiletrue(c, n):
    if isinstance(n, ast.While) and not n.orelse:
        n.body = [ast.If(ast.UnaryOp(ast.Not(), n.test), [ast.Break()],
                         [])] + n.body
        n.test = ast.Constant(True)
        return True


def swapstmts(c, n):
    """two neighbouring independent assignments"""
    if not isinstance(n, ast.Assign) or not isinstance(
            n.targets[0], ast.Name):
        return
    p, f, i = c.par[n]
    b = getattr(p, f)
    if i is None or i + 1 >= len(b):
        return
    m = b[i+1]
    if not isinstance(m, ast.Assign) or not isinstance(
            m.targets[0], ast.Name):
        return
    if n.targets[0].id in names(m) or m.targets[0].id in names(n):
        return
    if has(n, ast.Call) and has(m, ast.Call) and not any(
            x in c.rel for x in NUMERIC):
        return
    b[i], b[i+1] = m, n
    return True


def unpacked(c, n):
    """x, y = e -> t = e; x = t[0]; y = t[1]"""
    if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Tuple) \
            and all(isinstance(x, ast.Name) for x in n.targets[0].elts):
        xs = n.targets[0].elts
        c.replace(n, [assign('_t', ast.Call(load('tuple'), [n.value], []))] +
                  [ast.Assign([x], ast.Subscript(
                      load('_t'), ast.Constant(i), ast.Load()))
                   for i, x in enumerate(xs)])
        return True


def single(c, n):
    """several returns -> one result variable"""
    if isinstance(n, ast.FunctionDef) and len(n.body) - tail(n) == 1 or \
            not isinstance(n, ast.FunctionDef):
        return
    last = n.body[-1]
    if isinstance(last, ast.Return) and last.value is not None and \
            not isinstance(last.value, ast.Name):
        n.body[-1:] = [assign('_result', last.value),
                       ast.Return(load('_result'))]
        return True


KINDS = [flipcmp, negcmp, commute, invert, intoelse, outofelse, variable,
         function, method, rename, looped, gen2list, gen2map, enum, aug,
         nonefirst, isinst, newsuper, getkey, ifstmt, ifexp, noop,
         tryfinally, splitand, demorgan, chained, maxif, power, divide,
         subtract, keyworded, hoist, whiletrue, swapstmts, unpacked, single]
SIG = {}


def signatures(prog):
    bad = set()
    for f in prog.funcs:
        nm, ps = f.name, f.params()
        if f.cls is not None:
            if f.name == '__init__':
                nm = f.cls.name
            ps = ps[1:] if f.kind != 'static' else ps
        if nm.startswith('__') or f.node.args.vararg:
            continue
        if nm in SIG and SIG[nm] != ps:
            bad.add(nm)
        SIG[nm] = ps
    for b in bad | {'get', 'index', 'update', 'keys', 'pop', 'add',
                    'func', 'error'}:
        SIG.pop(b, None)


def jobs_of(m, kinds, nsub):
    base = ast.parse(m.src)
    total = sum(1 for _ in ast.walk(base))
    for t in KINDS:
        if kinds and t.__name__ not in kinds:
            continue
        for k in range(total):
            tree = base
            n = NODES(base)[k]
            if not quick(t, n):
                continue
            tree = copy.deepcopy(base)
            n = list(ast.walk(tree))[k]
            c = Ctx(tree, m.rel)
            f = c.func(n)
            if f is None and not isinstance(n, ast.FunctionDef):
                continue
            fn = (f or n).name
            if nsub and nsub not in fn:
                continue
            line, old = getattr(n, 'lineno', 0), ast.unparse(n)
            try:
                if not t(c, n):
                    continue
                src = ast.unparse(ast.fix_missing_locations(tree))
                compile(src, 'x', 'exec')
            except SyntaxError:
                continue
            yield src, line, '%s: %s' % (t.__name__, old.split('\n')[0]), fn


_N = {}


def NODES(base):
    if id(base) not in _N:
        _N[id(base)] = list(ast.walk(base))
    return _N[id(base)]


QUICK = {'flipcmp': ast.Compare, 'negcmp': ast.Compare, 'commute': ast.BinOp,
         'invert': (ast.If, ast.IfExp), 'intoelse': ast.If,
         'outofelse': ast.If, 'rename': ast.FunctionDef,
         'variable': (ast.Call, ast.BinOp, ast.Attribute, ast.Subscript,
                      ast.Compare, ast.IfExp, ast.ListComp),
         'function': ast.expr, 'method': ast.expr,
         'looped': (ast.ListComp, ast.Call), 'gen2list': ast.GeneratorExp,
         'gen2map': ast.GeneratorExp, 'enum': ast.For, 'aug': ast.AugAssign,
         'nonefirst': ast.Compare, 'isinst': ast.Call, 'newsuper': ast.Call,
         'getkey': ast.Call, 'ifstmt': (ast.Return, ast.Assign),
         'ifexp': ast.If, 'noop': ast.FunctionDef,
         'tryfinally': ast.FunctionDef, 'splitand': ast.If,
         'demorgan': ast.BoolOp, 'chained': ast.Compare, 'maxif': ast.Call,
         'power': (ast.BinOp, ast.Call), 'divide': ast.BinOp,
         'subtract': ast.BinOp, 'keyworded': ast.Call,
         'hoist': ast.FunctionDef, 'whiletrue': ast.While,
         'swapstmts': ast.Assign, 'unpacked': ast.Assign,
         'single': ast.FunctionDef}


def quick(t, n):
    return isinstance(n, QUICK[t.__name__])


def main():
    fsub = sys.argv[1] if len(sys.argv) > 1 else ''
    nsub = sys.argv[2] if len(sys.argv) > 2 else ''
    kinds = sys.argv[3:]
    prog = Program(REPO)
    mutate.prepare(prog)
    signatures(prog)
    jobs = []
    for m in prog.modules.values():
        if fsub not in m.rel:
            continue
        for src, line, text, fn in jobs_of(m, kinds, nsub):
            jobs.append((len(jobs), m.rel, src, line, text[:130], fn))
    step = int(os.environ.get('STRIDE', '1'))
    jobs = jobs[::step]
    print(len(jobs), 'refactorings', flush=True)
    alarms, unk = [], 0
    with mp.get_context('fork').Pool(8) as pool:
        for r in pool.imap_unordered(mutate.run_mut, jobs, chunksize=2):
            if r[5]:
                alarms.append(r)
            if r[5] or r[6]:
                print('#', r[1], r[2], r[4], '|', r[3],
                      '|', (r[5] or r[6])[0] if r[5] else 'undecided',
                      flush=True)
            unk += bool(r[6])
    print('alarms', len(alarms), 'with undecided', unk)
    for i, rel, line, text, fn, ref, u, nob in sorted(
            alarms, key=lambda r: (r[3].split(':')[0], r[1], r[2])):
        print('%s:%d %s | %s | %s' % (rel, line, fn, text, ref[0]))
    mutate.clean()


if __name__ == '__main__':
    main()
