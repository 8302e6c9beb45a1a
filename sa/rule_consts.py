"""Stated constants, default settings and call signatures."""
import ast
import math

from model import Class, Func
from rules import Inst, rule, frozen


class NoValue(Exception):
    pass


def fold(prog, module, e, cls=None, depth=0):
    """value of a constant expression, without running any code"""
    if depth > 8:
        raise NoValue()
    go = lambda x: fold(prog, module, x, cls, depth + 1)    # noqa: E731
    if isinstance(e, ast.Constant):
        return e.value
    if isinstance(e, (ast.Tuple, ast.List)):
        return [go(x) for x in e.elts]
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, (ast.USub, ast.UAdd)):
        v = go(e.operand)
        return -v if isinstance(e.op, ast.USub) else v
    if isinstance(e, ast.BinOp):
        a, b = go(e.left), go(e.right)
        if not all(isinstance(x, (int, float)) for x in (a, b)):
            if isinstance(e.op, ast.Add) and type(a) is type(b):
                return a + b
            raise NoValue()
        try:
            if isinstance(e.op, ast.Add):
                return a + b
            if isinstance(e.op, ast.Sub):
                return a - b
            if isinstance(e.op, ast.Mult):
                return a * b
            if isinstance(e.op, ast.Div):
                return a / b
            if isinstance(e.op, ast.Pow):
                return a ** b
        except (ArithmeticError, ValueError):
            pass
        raise NoValue()
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and \
            not e.args and not e.keywords and e.func.id in (
                'list', 'tuple', 'dict', 'set'):
        return [] if e.func.id in ('list', 'tuple') else '{}'
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and \
            e.func.id in ('float', 'int') and len(e.args) == 1:
        return {'float': float, 'int': int}[e.func.id](go(e.args[0]))
    if isinstance(e, (ast.Name, ast.Attribute)):
        if isinstance(e, ast.Name) and cls is not None and \
                e.id in cls.attrs:
            v = cls.attrs[e.id]
            return fold(prog, cls.module, v, cls, depth + 1)
        r = prog.resolve_expr(module, e)
        if isinstance(r, tuple) and r[0] == 'const' and isinstance(
                r[1], ast.AST):
            if isinstance(r[1], ast.Lambda):
                return '<lambda>'
            return fold(prog, r[2], r[1], None, depth + 1)
        if isinstance(r, (Class, Func)):
            return '<%s>' % r.name
        if isinstance(r, tuple) and r[0] in ('ext',):
            return '<%s>' % r[1]
        if isinstance(e, ast.Name):
            m = module
            for st in m.tree.body:
                if isinstance(st, ast.Assign) and any(
                        isinstance(t, ast.Name) and t.id == e.id
                        for t in st.targets):
                    return fold(prog, m, st.value, None, depth + 1)
    raise NoValue()


SKIP = {'__doc__', '__version__', '__dev_status__', '__date__', '__author__',
        '__email__', '__url__', '__license__', '__dependencies__',
        '__dependency_links__', '__data__', '__scripts__', '__theme__',
        '_header_keys'}


def table(prog):
    """construct -> value or None"""
    out = {}

    def put(k, module, e, cls=None):
        try:
            out[k] = fold(prog, module, e, cls)
        except NoValue:
            pass
    for m in prog.modules.values():
        if m.name.startswith('spec') or m.name.endswith('plot'):
            continue
        for st in m.tree.body:
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and \
                    isinstance(st.targets[0], ast.Name) and \
                    st.targets[0].id not in SKIP:
                put('%s:%s' % (m.name, st.targets[0].id), m, st.value)
    for c in prog.classes.values():
        if c.module.name.startswith('spec'):
            continue
        for n, v in c.attrs.items():
            if isinstance(v, ast.AST) and n not in SKIP:
                put('%s:%s.%s' % (c.module.name, c.name, n), c.module, v, c)
    for f in prog.funcs:
        if f.module.name.startswith('spec') or f.module.name.endswith('plot'):
            continue
        if f.name.startswith('_') and not f.name.endswith('__') and \
                f.name != '_simple_bracketing':
            continue
        a = f.node.args
        ps = a.posonlyargs + a.args
        k = '%s:%s' % (f.module.name, f.qual)
        if f.kind not in ('property', 'setter'):
            out[k + '()'] = [x.arg for x in ps]
        for x, d in list(zip(ps[len(ps) - len(a.defaults):], a.defaults)) + [
                (x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d]:
            put('%s(%s)' % (k, x.arg), f.module, d, None)
    return out


# property a construct is stated in, by module and name
def owner(k):
    mod, name = k.split(':')
    m = mod.split('.')[-1]
    if m == 'pricer':
        for n, p in (('get_present_value', 'P02'),
                     ('get_yield_to_maturity', 'P03'),
                     ('get_fair_rate', 'P03'), ('get_curve_fit', 'P03'),
                     ('_simple_bracketing', 'P03'),
                     ('get_basis_point_value', 'P04'),
                     ('get_bucketed_delta', 'P04'),
                     ('get_interest_accrued', 'P05')):
            if name.startswith(n):
                return p
        return None
    if m == 'curve':
        if name.startswith('ForwardCurve') or name.startswith('Price'):
            return 'P28'
        if '_FORWARD_TENOR' in name or name.startswith('RateCurve'):
            return 'P07'
        if '_INTERPOLATION' in name or 'INTERPOLATIONS' in name:
            return 'P12'
        return 'P13'
    if '_INTERPOLATION' in name and 'curves' in mod:
        return 'P12'
    if m == 'interpolation':
        return 'P11' if name.split('.')[-1].startswith('__init__') or \
            '(' in name else 'P12'
    return {'compounding': 'P06', 'daycount': 'P14', 'plans': 'P21',
            'ratingclass': 'P22', 'products': 'P24', 'payoffs': 'P15',
            'cashflow': 'P16', 'contingent': 'P16',
            'interestratecurve': 'P07', 'creditcurve': 'P09',
            'volatilitycurve': 'P10', 'fx': 'P23',
            'displaced': 'P20', 'distibutions': 'P18',
            'bachelier': 'P18', 'black76': 'P18', 'intrinsic': 'P18',
            'optionpricing': 'P19'}.get(m)


def same(a, b):
    if isinstance(a, bool) != isinstance(b, bool):
        return False
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return math.isclose(a, b, rel_tol=1e-12, abs_tol=1e-15)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def check(prog, pid):
    now = table(prog)
    for k, v in sorted(frozen()['consts'].items()):
        p = owner(k)
        if '_cashflow_details' in k:
            p = 'P17'
        if p != pid:
            continue
        name = k.split(':')[1]
        w = now.get(k)
        if k.endswith('()'):
            if k not in now:
                yield Inst('signature', k, '', None, 'not found')
                continue
            ok = w[:len(v)] == v
            yield Inst('signature', k, k, ok,
                       '%s takes %s where %s is stated' % (
                           name, ', '.join(w), ', '.join(v)))
            continue
        if k not in now:
            yield Inst('stated-constant', k, '', None, 'not found')
            continue
        yield Inst('stated-constant', k, k, same(v, w),
                   '%s is %r where %r is stated' % (name, w, v))


for _p in ['P%02d' % i for i in range(1, 29)]:
    rule(_p)(check)
