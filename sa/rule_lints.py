"""P25 (zero is a value) and P26 (equal inputs, equal results)."""
import ast

from model import Class, Func
from rules import Inst, rule
from rule_effects import funcs, key, line

# what carries a number or a date (which may be the number zero); the names
# are those of the package's parameters and attributes, underscores stripped
VALUES = {
    'origin', 'valuation_date', 'start', 'stop', 'end', 'expiry', 'date',
    'value_date', 'pay_date', 'fixing_date', 'start_date', 'end_date',
    'strike', 'cap_strike', 'floor_strike', 'fixed_rate', 'amount',
    'notional', 'shift', 'forward', 'fwd', 'forward_curve',
    'volatility_curve', 'yield_curve', 'value', 'present_value', 'pv',
    'strike_shift', 'displacement', 'rate', 'spot', 'fx_spot', 'price',
    'y_at_zero', 'default', 'bump', 'spread_value', 'yield', 'weight',
    'flow', 'cashflow', 'remaining', 'last_date', 'expiry_date',
    'model_valuation_date', 'previous', 'low', 'high', 'target', 'floor',
    'cap', 'shifted_strike', 'notional_amount', 'rec_leg_fixed_rate',
    'spread_rate', 'intensity', 'prob', 'FLOOR'}
# computed amounts: skipping those that are zero need not lose a value
TERMS = {'weight', 'flow', 'cashflow', 'prob', 'intensity', 'price', 'pv',
         'present_value', 'spread_rate', 'remaining', 'value', 'amount',
         'rate', 'forward', 'spread_value'}
# truth tests of numbers that mean the number zero: (function, name)
MEANT = {('annuity', 'fixed_rate'), ('continuous_rate', 'df')}
LISTS = {'amount_list', 'strike_list'}


def terminal(e):
    """name of the value an expression reads"""
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        return e.attr
    if isinstance(e, ast.Call):
        if isinstance(e.func, ast.Name) and e.func.id == 'getattr' and len(
                e.args) > 1 and isinstance(e.args[1], ast.Constant):
            return str(e.args[1].value)
        if isinstance(e.func, ast.Attribute) and e.func.attr in (
                'get', 'pop') and e.args and isinstance(
                e.args[0], ast.Constant):
            return str(e.args[0].value)
        if isinstance(e.func, ast.Name) and e.func.id in ('float', 'int') \
                and e.args:
            return terminal(e.args[0])
    if isinstance(e, ast.NamedExpr):
        return terminal(e.value) or e.target.id
    return None


def aliases(f):
    """local name -> name of the value it was assigned from"""
    out, many = {}, set()
    for n in ast.walk(f.node):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    if t.id in out:
                        many.add(t.id)
                    out[t.id] = terminal(n.value)
    return {k: v for k, v in out.items() if k not in many and v}


def is_value(f, e, al):
    n = terminal(e)
    if n is None:
        return None
    for _ in range(3):
        m = n.strip('_')
        if m in VALUES:
            return m
        if isinstance(e, ast.Name) and n in al and al[n] != n:
            n = al[n]
            continue
        break
    return None


def zero(e):
    return isinstance(e, ast.Constant) and not isinstance(
        e.value, (str, bool)) and e.value is not None and e.value == 0


def falsy_result_same(node, tested):
    """the value put in the place of a zero is a zero"""
    if isinstance(node, ast.BoolOp) and isinstance(node.op, ast.Or):
        return node.values[-1] is not tested and zero(node.values[-1])
    if isinstance(node, ast.IfExp):
        t = node.test
        other = node.body if isinstance(t, ast.UnaryOp) else node.orelse
        return zero(other)
    if isinstance(node, ast.If) and isinstance(node.test, ast.UnaryOp):
        return len(node.body) == 1 and isinstance(
            node.body[0], ast.Return) and node.body[0].value is not None \
            and zero(node.body[0].value)
    return False


def skipped(f, owner, e):
    """an element of a loop that is left out when it is zero"""
    if not isinstance(e, ast.Name) or e.id.strip('_') not in TERMS:
        return False
    bound = [n.target for n in ast.walk(f.node)
             if isinstance(n, (ast.For, ast.comprehension))]
    if not any(isinstance(x, ast.Name) and x.id == e.id
               for t in bound for x in ast.walk(t)):
        return False
    if isinstance(owner, ast.comprehension):
        return True
    return isinstance(owner, ast.If) and not owner.orelse and not any(
        isinstance(n, ast.Name) and n.id == e.id and
        isinstance(n.ctx, ast.Store)
        for b in owner.body for n in ast.walk(b))


def tests(root):
    """(owner, expression tested for truth)"""
    for n in ast.walk(root):
        if isinstance(n, (ast.If, ast.IfExp, ast.While, ast.Assert)):
            yield from unpack(n, n.test)
        elif isinstance(n, ast.comprehension):
            for i in n.ifs:
                yield from unpack(n, i)
        elif isinstance(n, ast.BoolOp):
            for v in n.values[:-1]:
                yield from unpack(n, v)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            yield from unpack(n, n.operand)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
            if n.func.id == 'bool' and n.args:
                yield from unpack(n, n.args[0])
            elif n.func.id in ('any', 'all') and n.args and isinstance(
                    n.args[0], (ast.List, ast.Tuple)):
                for x in n.args[0].elts:
                    yield from unpack(n, x)


def unpack(owner, e):
    while isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        e = e.operand
    if isinstance(e, ast.BoolOp):
        for v in e.values:
            yield from unpack(owner, v)
    else:
        yield owner, e


@rule('P25')
def truth_of_number(prog, pid):
    for f in funcs(prog):
        if f.module.name.endswith('plot'):
            continue
        al = aliases(f)
        bad, n = None, 0
        for owner, e in tests(f.node):
            n += 1
            v = is_value(f, e, al)
            if v is None or (f.name, v) in MEANT or skipped(f, owner, e):
                continue
            if any(falsy_result_same(o, e) for o in ast.walk(f.node)
                   if isinstance(o, (ast.BoolOp, ast.IfExp, ast.If)) and
                   any(x is e for x in ast.walk(
                       o if isinstance(o, ast.BoolOp) else o.test))):
                continue
            bad = e, v
            break
        yield Inst('truth-of-number', key(f),
                   line(f, bad[0]) if bad else f.where(), not bad,
                   '%s takes the truth value of %s (%s), so zero counts as '
                   'missing' % (f.qual, ast.unparse(bad[0]), bad[1])
                   if bad else '', [f.qual] if n else [])


@rule('P25')
def compared_with_zero(prog, pid):
    """`x if x != 0 else default` in any spelling"""
    for f in funcs(prog):
        if f.module.name.endswith('plot'):
            continue
        al = aliases(f)
        bad = None
        for n in ast.walk(f.node):
            if not isinstance(n, (ast.IfExp, ast.If)):
                continue
            t = n.test
            if not (isinstance(t, ast.Compare) and len(t.ops) == 1):
                if isinstance(t, ast.Compare) or not isinstance(
                        t, ast.BoolOp):
                    continue
                cs = [c for c in t.values if isinstance(c, ast.Compare)]
            else:
                cs = [t]
            for c in cs:
                a, b = c.left, c.comparators[0]
                if isinstance(c.ops[0], (ast.In, ast.NotIn)) and isinstance(
                        b, (ast.Tuple, ast.List, ast.Set)):
                    if not (any(isinstance(x, ast.Constant) and
                                x.value is None for x in b.elts) and
                            any(zero(x) for x in b.elts)):
                        continue
                elif not (isinstance(c.ops[0], (ast.Eq, ast.NotEq)) and (
                        zero(b) or zero(a))):
                    continue
                v = is_value(f, a, al) or is_value(f, b, al)
                if v is None or not same_slot(n, a if not zero(a) else b):
                    continue
                bad = c, v
        yield Inst('zero-replaced', key(f),
                   line(f, bad[0]) if bad else f.where(), not bad,
                   '%s replaces a zero %s by another value (%s)' % (
                       f.qual, bad[1], ast.unparse(bad[0])) if bad else '',
                   [f.qual])


def same_slot(n, e):
    """does the zero branch give the tested name another value?"""
    s = ast.unparse(e)
    if isinstance(n, ast.IfExp):
        a, b = ast.unparse(n.body), ast.unparse(n.orelse)
        return (a == s) != (b == s) and not (
            zero(n.body) or zero(n.orelse))
    for st in n.body + n.orelse:
        if isinstance(st, ast.Assign) and any(
                ast.unparse(t) == s for t in st.targets) and \
                not zero(st.value):
            return True
    return False


# --------------------------------------------------------------------- P26 -
SINGLE = {'None', 'True', 'False', 'Ellipsis', 'NotImplemented', 'type',
          'object', 'str', 'int', 'float', 'list', 'dict', 'tuple', 'bool',
          'set', 'NoneType'}
# objects that are themselves the value (no equality of their own)
OBJECTS = {'self', 'curve', 'other', 'discount_curve', 'delta_curve',
           'fitting_curve', 'model', 'leg', 'payoff', 'cls', 'd', 'func',
           'cashflow_list', 'payoff_model', 'curves', 'c'}


def singleton(prog, f, e):
    if isinstance(e, ast.Constant):
        return e.value is None or isinstance(e.value, bool) or \
            e.value is Ellipsis
    if isinstance(e, ast.Attribute) and e.attr in ('__class__', 'empty'):
        return True
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and \
            e.func.id in ('type',):
        return True
    if isinstance(e, (ast.Name, ast.Attribute)):
        r = prog.resolve_expr(f.module, e)
        if isinstance(r, (Class, Func)):
            return True
        if isinstance(r, tuple) and r[0] == 'const' and isinstance(
                r[1], ast.Call) and isinstance(r[1].func, ast.Name) and \
                r[1].func.id == 'object':
            return True
        if isinstance(r, tuple) and r[0] in ('ext', 'repomod', 'extmod'):
            return True
        if isinstance(e, ast.Name) and e.id in SINGLE:
            return True
        if isinstance(e, ast.Name) and isinstance(r, tuple) and \
                r[0] == 'const' and isinstance(r[1], ast.Lambda):
            return True
    return False


@rule('P26')
def identity(prog, pid):
    for f in funcs(prog):
        bad, n = None, 0
        sent = {t.id for x in ast.walk(f.node) if isinstance(x, ast.Assign)
                and isinstance(x.value, ast.Call) and isinstance(
                    x.value.func, ast.Name) and x.value.func.id == 'object'
                for t in x.targets if isinstance(t, ast.Name)}
        for c in ast.walk(f.node):
            if not isinstance(c, ast.Compare):
                continue
            left = c.left
            for op, right in zip(c.ops, c.comparators):
                if isinstance(op, (ast.Is, ast.IsNot)):
                    n += 1
                    if not (singleton(prog, f, left) or
                            singleton(prog, f, right) or
                            isinstance(left, ast.Name) and left.id in sent or
                            isinstance(right, ast.Name) and
                            right.id in sent or
                            isinstance(left, ast.Name) and
                            isinstance(right, ast.Name) and
                            left.id in OBJECTS and right.id in OBJECTS and
                            left.id != 'd' and right.id != 'd'):
                        bad = c
                left = right
        yield Inst('identity', key(f), line(f, bad) if bad is not None
                   else f.where(), bad is None,
                   '%s tells equal values apart by identity: %s' % (
                       f.qual, ast.unparse(bad)) if bad is not None else '',
                   [f.qual] if n else [])


@rule('P26')
def address(prog, pid):
    """id() and hash() only label output"""
    for f in funcs(prog):
        bad = None
        parent = tree(f)
        for n in ast.walk(f.node):
            if isinstance(n, ast.Name) and n.id in ('id', 'hash') and \
                    isinstance(n.ctx, ast.Load) and prog.lookup(
                        f.module, n.id) is None and n.id not in local(f):
                if not label(prog, f, n, parent):
                    bad = n
        yield Inst('address', key(f), line(f, bad) if bad is not None
                   else f.where(), bad is None,
                   '%s depends on the memory address or hash of a value' %
                   f.qual, [])


def local(f):
    a = f.node.args
    return {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {
        n.id for n in ast.walk(f.node) if isinstance(n, ast.Name) and
        isinstance(n.ctx, ast.Store)}


def tree(f):
    return {c: n for n in ast.walk(f.node) for c in ast.iter_child_nodes(n)}


def label(prog, f, n, parent):
    """id(x) that ends as a value under a text key '...id', or in a text"""
    call = parent.get(n)
    return isinstance(call, ast.Call) and call.func is n and ends(
        prog, f, call, parent, 3)


def ends(prog, f, call, parent, depth):
    p, val = parent.get(call), call
    if isinstance(p, ast.IfExp) and val is not p.test:
        p, val = parent.get(p), p
    if isinstance(p, ast.Dict):
        for k, v in zip(p.keys, p.values):
            if v is val:
                return isinstance(k, ast.Constant) and isinstance(
                    k.value, str) and k.value.endswith('id')
    if isinstance(p, ast.keyword):
        return p.arg is not None and p.arg.endswith('id')
    if isinstance(p, ast.Assign):
        t = p.targets[0]
        if isinstance(t, ast.Subscript):
            return isinstance(t.slice, ast.Constant) and str(
                t.slice.value).endswith('id')
        if isinstance(t, ast.Name) and depth:
            return t.id.endswith('id') or all(
                ends(prog, f, m, parent, depth - 1)
                for m in ast.walk(f.node) if isinstance(m, ast.Name) and
                m.id == t.id and isinstance(m.ctx, ast.Load))
        return False
    if isinstance(p, (ast.Return, ast.Lambda)) and depth and \
            f.name.startswith('_') and not f.name.endswith('__'):
        calls = [(g, m) for g in funcs(prog) for m in ast.walk(g.node)
                 if isinstance(m, (ast.Name, ast.Attribute)) and
                 isinstance(m.ctx, ast.Load) and
                 getattr(m, 'attr', getattr(m, 'id', None)) == f.name]
        for g, m in calls:
            par = tree(g)
            c = par.get(m)
            if not (isinstance(c, ast.Call) and c.func is m and ends(
                    prog, g, c, par, depth - 1)):
                return False
        return bool(calls)
    return isinstance(p, (ast.FormattedValue, ast.JoinedStr)) or isinstance(
        p, ast.BinOp) and isinstance(p.op, ast.Mod)
