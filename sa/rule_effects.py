"""P01 and P27: write effects, restoration on every exit, independence."""
import ast

from effects import stores_of, saved_names, guarded_setter, FRESH
from model import Class, Func
from rules import Inst, rule, effects, frozen

# functions whose purpose is to set up or change their own object
OWN = {'__init__', '__new__', '_update', '__setitem__', '__delitem__', 'add',
       '__setattr__', '__post_init__', '__setstate__'}
COPIES = {'list', 'tuple', 'sorted', 'dict', 'set'}
LAZY = {'map', 'filter', 'zip', 'iter', 'reversed', 'enumerate'}


def key(f):
    return '%s:%s' % (f.module.name, f.qual)


def line(f, node):
    return '%s:%d %s' % (f.module.rel, getattr(node, 'lineno', 0), f.qual)


def funcs(prog):
    return [f for f in prog.funcs if not f.module.name.startswith('spec')]


@rule('P01')
def unchanged(prog, pid):
    """no unprotected write to an argument"""
    eff = effects(prog)
    known = set(frozen()['functions'])
    for f in funcs(prog):
        if f.name not in known:
            continue                # judged where it is called
        own = 'p:' + f.params()[0] if f.cls is not None and f.params() and \
            f.kind in ('method', 'property', 'setter') else None
        bad = []
        for (root, attr), ev in sorted(eff.writes[f].items(),
                                       key=lambda x: x[0]):
            if not root.startswith('p:'):
                continue
            if root == own and (f.name in OWN or f.kind == 'setter'):
                continue
            bad.append((root[2:], attr, ev))
        if bad:
            n, attr, ev = bad[0]
            yield Inst('writes-argument', key(f), line(f, ev.node), False,
                       '%s writes .%s of its argument %s (or something '
                       'reached through it) and does not restore it on '
                       'every exit%s' % (f.qual, attr, n, via(ev)),
                       [f.qual])
        else:
            yield Inst('writes-argument', key(f), f.where(), True, '',
                       [f.qual])


def via(ev):
    out, e = [], ev.via
    while e is not None and len(out) < 4:
        out.append('%s line %d' % (e.func.qual, e.node.lineno))
        e = e.via
    return ', through ' + ', '.join(out) if out else ''


def loops_over(tr_body, node):
    """iter expression of the innermost loop around node, its target names"""
    best = None
    for s in tr_body:
        for n in ast.walk(s):
            if isinstance(n, ast.For) and any(x is node for x in ast.walk(n)):
                best = n
    return best


def names_in(e):
    return {n.id for n in ast.walk(e) if isinstance(n, ast.Name)}


@rule('P01')
def restoration(prog, pid):
    """what a finally block writes back is what was there before"""
    for f in funcs(prog):
        if f.kind == 'setter':
            continue
        tries = [n for n in ast.walk(f.node) if isinstance(n, ast.Try) and
                 n.finalbody]
        for tr in tries:
            attrs = {n.attr for s in tr.finalbody for n in ast.walk(s)
                     if isinstance(n, ast.Attribute) and isinstance(
                         n.ctx, ast.Store)}
            for a in sorted(attrs):
                bad = restore_faults(prog, f, tr, a)
                yield Inst('restores', '%s .%s' % (key(f), a),
                           line(f, bad[0] if bad else tr.finalbody[0]),
                           not bad, bad[1] if bad else '', [f.qual])


def restore_faults(prog, f, tr, attr):
    saved = saved_names(f, attr)
    for t, v, stmt in stores_of(tr.finalbody, attr):
        used = names_in(v) & saved
        loop = loops_over(tr.finalbody, stmt)
        if isinstance(v, ast.Constant) and v.value is None:
            # legal only where the setter refused to replace a value
            if not guarded_setter(prog, attr):
                return stmt, '.%s is reset to None instead of to its ' \
                    'previous value' % attr
            inside = stores_of(tr.body, attr)
            if inside and loop is not None and isinstance(
                    loop.iter, ast.Name):
                n = loop.iter.id
                grown = any(
                    isinstance(c, ast.Call) and (
                        isinstance(c.func, ast.Attribute) and
                        n in names_in(c.func.value) or
                        any(n in names_in(x) for x in c.args))
                    for s in tr.body for c in ast.walk(s)) or any(
                    isinstance(c, ast.AugAssign) and n in names_in(c.target)
                    for s in tr.body for c in ast.walk(s))
                if not grown:
                    return stmt, '.%s of every element of %s is reset, also ' \
                        'of those whose assignment was refused' % (attr, n)
            if inside and loop is None and any(
                    loops_over(tr.body, s[2]) is None and
                    ast.dump(s[0].value if isinstance(s[0], ast.Attribute)
                             else s[0]) ==
                    ast.dump(t.value if isinstance(t, ast.Attribute) else t)
                    for s in inside):
                return stmt, '.%s is reset also when its assignment was ' \
                    'refused' % attr
            continue
        if not used:
            continue
        # a guard that looks at the saved value loses None or zero
        for s in tr.finalbody:
            for n in ast.walk(s):
                if isinstance(n, ast.If) and any(
                        x is stmt for x in ast.walk(n)) and (
                        names_in(n.test) & used):
                    return n, '.%s is not restored when %s fails' % (
                        attr, ast.unparse(n.test))
        # parts of the objects only
        if loop is not None:
            for n in ast.walk(loop.iter):
                if isinstance(n, ast.Slice) and (n.lower or n.upper or
                                                 n.step):
                    return loop, '.%s is restored for a part of the objects' \
                        % attr
            if any(isinstance(n, (ast.Break, ast.Return))
                   for n in ast.walk(loop)):
                return loop, '.%s is restored for a part of the objects' \
                    % attr
        # the saved value: read before the writes, not lazily, not through
        # a property that sums up many objects
        first = min([s[2].lineno for s in stores_of(f.node.body, attr)])
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and any(
                    isinstance(x, ast.Name) and x.id in used
                    for y in n.targets for x in ast.walk(y)):
                e = n.value
                if isinstance(e, ast.GeneratorExp) or isinstance(
                        e, ast.Call) and isinstance(
                        e.func, ast.Name) and e.func.id in LAZY and reads(
                        e, attr):
                    return n, '%s is read lazily, after it was changed' % attr
                if reads(e, attr) and first < n.lineno < stmt.lineno and \
                        not any(n is x for s in tr.finalbody
                                for x in ast.walk(s)):
                    own = [s for s in stores_of(f.node.body, attr)
                           if s[2].lineno < n.lineno and same_block(
                               f.node, s[2], n)]
                    if own:
                        return n, '%s is saved after it was changed' % attr
        if broadcast(prog, attr) and isinstance(t, ast.Attribute) and \
                isinstance(t.value, ast.Name) and t.value.id in f.params():
            return stmt, '.%s of %s stands for many objects whose values ' \
                'may differ' % (attr, t.value.id)
    return None


def same_block(root, a, b):
    for n in ast.walk(root):
        for fld in ('body', 'orelse', 'finalbody'):
            x = getattr(n, fld, None)
            if isinstance(x, list) and any(s is a for s in x) and any(
                    s is b for s in x):
                return True
    return False


def reads(e, attr):
    return any(isinstance(x, ast.Attribute) and x.attr == attr
               for x in ast.walk(e))


def broadcast(prog, attr):
    """setters of attr that write to several other objects"""
    return any(isinstance(n, ast.For) for c in prog.classes.values()
               if attr in c.setters for n in ast.walk(c.setters[attr].node))


# functions that hand out a container the caller may keep and change
HANDS_OUT = {'legs', 'details', 'table', 'kwargs', 'vector'}


@rule('P01', 'P27')
def handed_out(prog, pid):
    eff = effects(prog)
    for f in funcs(prog):
        if f.name not in HANDS_OUT or f.cls is None or f.name == 'kwargs':
            continue
        own = {r for r in eff.rets[f][0] if r.startswith(('p:', 'g:', 'c:'))}
        yield Inst('hands-out-own-state', key(f), f.where(), not own,
                   '%s returns an object that stays part of %s' % (
                       f.qual, ', '.join(sorted(own))), [f.qual])


# ------------------------------------------------------------------- P27 ---
@rule('P27')
def shared_state(prog, pid):
    """nothing writes to module variables, classes or default arguments"""
    eff = effects(prog)
    for f in funcs(prog):
        bad = None
        for ev in eff.events[f]:
            r = ev.root
            if r.startswith('g:') or r.startswith('c:'):
                bad = ev.node, '%s changes %s of %s, which every object ' \
                    'shares%s' % (f.qual, ev.attr or 'the content',
                                  r.split(':', 1)[1], via(ev))
                break
        yield Inst('writes-shared-state', key(f),
                   line(f, bad[0]) if bad else f.where(), not bad,
                   bad[1] if bad else '', [f.qual])


def mutable(e):
    if isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp,
                      ast.DictComp, ast.SetComp)):
        return True
    return isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and \
        e.func.id in ('list', 'dict', 'set', 'OrderedDict', 'defaultdict',
                      'deque', 'bytearray')


@rule('P27')
def default_arguments(prog, pid):
    """mutable defaults are neither changed nor kept"""
    eff = effects(prog)
    for f in funcs(prog):
        a = f.node.args
        ps = a.posonlyargs + a.args
        pairs = list(zip(ps[len(ps) - len(a.defaults):], a.defaults)) + [
            (x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults)
            if d is not None]
        for x, d in pairs:
            if isinstance(d, ast.Call) and not mutable(d) and isinstance(
                    prog.resolve_expr(f.module, d.func), Class):
                pass
            elif not mutable(d):
                continue
            r, bad = 'p:' + x.arg, None
            for ev in eff.events[f]:
                if ev.root == r:
                    bad = ev.node, 'the default of %s is changed' % x.arg
                if r in ev.val[0] and x.arg in stored_names(f, ev.node):
                    bad = ev.node, 'the default of %s is kept in .%s' % (
                        x.arg, ev.attr)
                if bad:
                    break
            yield Inst('mutable-default', '%s %s' % (key(f), x.arg),
                       line(f, bad[0] if bad else d), not bad,
                       '%s: %s, so calls share it' % (
                           f.qual, bad[1]) if bad else '', [f.qual])


CONTAINER_PARAMS = ('_list', 'domain', 'data', 'legs', 'dates', 'grid',
                    'rates', 'amounts')
# attributes that stay the property of the caller by contract
KEEPS = {'domestic_curve', 'foreign_curve'}


@rule('P27')
def keeps_argument(prog, pid):
    """objects copy the containers they are given, and containers they
    change in place are their own"""
    eff = effects(prog)
    inplace = {}
    for f in funcs(prog):
        for ev in eff.events[f]:
            if ev.via is None and ev.root.startswith('p:') and f.cls and \
                    f.params() and ev.root == 'p:' + f.params()[0]:
                n = ev.attr
                if '[]' in n or '.' in n:
                    n = n.replace('[]', '').split('.')[0]
                    if n:
                        inplace.setdefault(n, f)
    for f in funcs(prog):
        if f.cls is None or not f.params():
            continue
        own = 'p:' + f.params()[0]
        for ev in eff.events[f]:
            if ev.via is not None or ev.root != own or \
                    not isinstance(ev.node, ast.Attribute):
                continue
            bad = None
            alias = stored_names(f, ev.node)
            for r in sorted(ev.val[0]):
                if r.startswith('p:') and r != own and \
                        r[2:] in alias and (
                        ev.attr in inplace or any(
                            r[2:].endswith(c) for c in CONTAINER_PARAMS)):
                    bad = 'keeps the caller\'s %s in .%s' % (r[2:], ev.attr)
                if r.startswith('g:') and r[2:] in alias and (ev.attr in inplace or
                                           shared_container(prog, f, r[2:])):
                    bad = 'keeps the shared %s in .%s' % (r[2:], ev.attr)
            if bad and replaced_later(f, ev):
                bad = None
            yield Inst('keeps-container', '%s .%s' % (key(f), ev.attr),
                       line(f, ev.node), not bad,
                       '%s %s' % (f.qual, bad) if bad else '', [f.qual])


def stored_names(f, target):
    """names whose very object an assignment to target stores"""
    out = set()
    for n in ast.walk(f.node):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if t is target:
                    out |= alias_names(f, n.value)
                elif isinstance(t, ast.Tuple) and target in t.elts:
                    v = n.value
                    if isinstance(v, ast.Tuple) and len(v.elts) == len(
                            t.elts):
                        v = v.elts[t.elts.index(target)]
                    out |= alias_names(f, v)
        elif isinstance(n, (ast.AnnAssign, ast.NamedExpr)) and \
                n.target is target and n.value is not None:
            out |= alias_names(f, n.value)
    return out


def alias_names(f, e, seen=()):
    """names e may evaluate to, without copying or picking parts"""
    if isinstance(e, ast.Name):
        out = {e.id}
        if e.id in seen:
            return out
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and any(
                    isinstance(t, ast.Name) and t.id == e.id
                    for t in n.targets):
                out |= alias_names(f, n.value, seen + (e.id,))
        return out
    if isinstance(e, ast.IfExp):
        return alias_names(f, e.body, seen) | alias_names(f, e.orelse, seen)
    if isinstance(e, ast.BoolOp):
        return set().union(*(alias_names(f, x, seen) for x in e.values))
    if isinstance(e, ast.NamedExpr):
        return alias_names(f, e.value, seen)
    return set()


def replaced_later(f, ev):
    """the attribute gets its final value from a later call or assignment
    of the same function"""
    if f.name != '__init__' and f.name != '_update':
        return False
    for n in ast.walk(f.node):
        if getattr(n, 'lineno', 0) <= ev.node.lineno:
            continue
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                n.func.attr in ('__init__', '_update'):
            return True
    return ev.attr == '_domain' and f.name == '_update'


def shared_container(prog, f, name):
    r = prog.lookup(f.module, name)
    return isinstance(r, tuple) and r[0] == 'const' and mutable(r[1])


@rule('P27')
def class_level(prog, pid):
    """mutable state of instances is made per instance"""
    fz = frozen()
    eff = effects(prog)
    written = {ev.attr.replace('[]', '').split('.')[0]
               for f in funcs(prog) for ev in eff.events[f]
               if '[]' in ev.attr or '.' in ev.attr}
    for c in prog.classes.values():
        if c.module.name.startswith('spec'):
            continue
        inst = set()
        for k in prog.mro(c):
            inst |= set(fz['init_attrs'].get(k.name, ()))
        for name, v in sorted(c.attrs.items()):
            node = v if isinstance(v, ast.AST) else getattr(v, 'value', None)
            if node is None or not mutable(node):
                continue
            if name in fz['classattrs'].get(c.name, ()) and \
                    name not in written:
                yield Inst('class-level-state', '%s.%s' % (c.name, name),
                           c.where(), True)
                continue
            bad = name in inst and name not in prog.instance_attrs(c) or \
                name in written and name not in prog.instance_attrs(c)
            yield Inst('class-level-state', '%s.%s' % (c.name, name),
                       c.where(), not bad,
                       '%s.%s is one container for all instances' % (
                           c.name, name))
        for name in sorted(fz['init_attrs'].get(c.name, ())):
            if name == 'fixings':
                ok = name in prog.instance_attrs(c)
                yield Inst('instance-state', '%s.%s' % (c.name, name),
                           c.where(), True if ok else None,
                           '%s is not set per instance' % name)


CACHES = {'lru_cache', 'cache', 'cached_property', 'memoize', 'singledispatch'}


@rule('P27')
def cached(prog, pid):
    """results are not remembered across changes of mutable arguments"""
    for f in funcs(prog):
        bad = None
        for d in f.node.decorator_list:
            n = d.func if isinstance(d, ast.Call) else d
            n = n.attr if isinstance(n, ast.Attribute) else getattr(
                n, 'id', '')
            if n in ('lru_cache', 'cache', 'cached_property', 'memoize'):
                if f.cls is not None or not f.module.name.endswith(
                        ('plans', 'compounding', 'distibutions')):
                    bad = d
        yield Inst('remembers-results', key(f),
                   line(f, bad) if bad else f.where(), not bad,
                   '%s remembers results although its arguments can change'
                   % f.qual, [f.qual])


def lazy(prog, f, e):
    if isinstance(e, ast.GeneratorExp):
        return True
    return isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and \
        e.func.id in LAZY and prog.lookup(f.module, e.func.id) is None


@rule('P27')
def iterators(prog, pid):
    """no one-shot iterator is stored or used twice"""
    for f in funcs(prog):
        bad = None
        lazies, count = {}, {}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Attribute) and lazy(
                            prog, f, n.value):
                        bad = n, 'stores a one-shot iterator in .%s' % t.attr
                    if isinstance(t, ast.Name):
                        count[t.id] = count.get(t.id, 0) + 1
                        if lazy(prog, f, n.value) and not (
                                isinstance(n.value, ast.Call) and
                                n.value.func.id == 'iter'):
                            lazies[t.id] = n
        for name, n in lazies.items():
            if count[name] > 1:
                continue
            uses = [x for x in ast.walk(f.node) if isinstance(x, ast.Name)
                    and x.id == name and isinstance(x.ctx, ast.Load)]
            uses = [u for u in uses if not only_next(f.node, u)]
            if len(uses) > 1 and not exclusive(f.node, uses) or \
                    uses and in_loop(f.node, n, uses):
                bad = n, 'uses the one-shot iterator %s more than once' % name
        if bad is None:
            bad = lazy_argument(prog, f)
        yield Inst('one-shot-iterator', key(f),
                   line(f, bad[0]) if bad else f.where(), not bad,
                   '%s %s' % (f.qual, bad[1]) if bad else '', [f.qual])


def only_next(root, use):
    for n in ast.walk(root):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and \
                n.func.id in ('next', 'isinstance', 'type') and any(
                    a is use for a in n.args):
            return True
    return False


def exclusive(root, uses):
    """every pair of uses is in different branches of an if, or a branch
    that leaves"""
    def path(n, target):
        if n is target:
            return [n]
        for c in ast.iter_child_nodes(n):
            p = path(c, target)
            if p:
                return [n] + p
        return None
    ps = [path(root, u) for u in uses]
    for i in range(len(ps)):
        for j in range(i):
            k = 0
            while ps[i][k] is ps[j][k]:
                k += 1
            top = ps[i][k - 1]
            if isinstance(top, (ast.If, ast.IfExp)):
                continue
            # the earlier one in a branch that returns
            early = ps[j] if ps[j][-1].lineno <= ps[i][-1].lineno else ps[i]
            if any(isinstance(x, ast.If) and any(
                    isinstance(y, (ast.Return, ast.Raise)) for y in x.body)
                    for x in early[k - 1:]):
                continue
            return False
    return True


def in_loop(root, made, uses):
    """used in a loop (or inner part of a comprehension) it is not made in"""
    for n in ast.walk(root):
        parts = []
        if isinstance(n, (ast.For, ast.While)):
            parts = n.body
        elif isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp)):
            parts = [n.elt] + [g.iter for g in n.generators[1:]] + [
                i for g in n.generators for i in g.ifs]
        elif isinstance(n, ast.DictComp):
            parts = [n.key, n.value]
        for p in parts:
            inner = list(ast.walk(p))
            if any(x is made for q in parts for x in ast.walk(q)):
                continue
            if any(u is x for u in uses for x in inner):
                return True
    return False


def lazy_argument(prog, f):
    """an iterator handed to a parameter that is used twice"""
    for n in ast.walk(f.node):
        if not isinstance(n, ast.Call):
            continue
        r = prog.resolve_expr(f.module, n.func)
        skip = 0
        if isinstance(n.func, ast.Name) and n.func.id == 'cls' and f.cls:
            r = f.cls
        if isinstance(r, Class):
            m = prog.find(r, '__init__')
            r = m[2] if m and m[0] == 'method' else None
            skip = 1
        if not isinstance(r, Func):
            continue
        ps = r.params()[skip:]
        bound = list(zip(ps, n.args)) + [(k.arg, k.value)
                                         for k in n.keywords if k.arg]
        for name, v in bound:
            if not lazy(prog, f, v):
                continue
            uses = [x for x in ast.walk(r.node) if isinstance(x, ast.Name)
                    and x.id == name and isinstance(x.ctx, ast.Load)]
            conv = [x for x in ast.walk(r.node) if isinstance(x, ast.Assign)
                    and any(isinstance(t, ast.Name) and t.id == name
                            for t in x.targets)]
            if not conv and len(uses) > 1 and not exclusive(r.node, uses):
                return n, 'hands a one-shot iterator to %s of %s, which ' \
                    'uses it more than once' % (name, r.qual)
    return None


SETS = {'set', 'frozenset'}
ORDERLESS = {'sorted', 'len', 'min', 'max', 'any', 'all', 'set', 'frozenset',
             'isinstance', 'bool', 'sum'}


def is_set(e, env):
    if isinstance(e, (ast.Set, ast.SetComp)):
        return True
    if isinstance(e, ast.Name):
        return e.id in env
    if isinstance(e, ast.Call):
        if isinstance(e.func, ast.Name) and e.func.id in SETS:
            return True
        if isinstance(e.func, ast.Attribute) and e.func.attr in (
                'union', 'intersection', 'difference',
                'symmetric_difference', 'copy'):
            return is_set(e.func.value, env)
    if isinstance(e, ast.BinOp) and isinstance(
            e.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
        return is_set(e.left, env) or is_set(e.right, env)
    if isinstance(e, ast.IfExp):
        return is_set(e.body, env) or is_set(e.orelse, env)
    return False


@rule('P27')
def set_order(prog, pid):
    """no result depends on the order of a set"""
    for f in funcs(prog):
        env = set()
        for _ in range(2):
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign) and is_set(n.value, env):
                    env |= {t.id for t in n.targets
                            if isinstance(t, ast.Name)}
        parent = {}
        for n in ast.walk(f.node):
            for c in ast.iter_child_nodes(n):
                parent[c] = n
        bad = None
        for n in ast.walk(f.node):
            its = []
            if isinstance(n, ast.For):
                its = [n.iter]
            elif isinstance(n, (ast.ListComp, ast.GeneratorExp,
                                ast.DictComp)):
                its = [g.iter for g in n.generators]
            elif isinstance(n, ast.Call) and isinstance(
                    n.func, ast.Name) and n.func.id in (
                    'list', 'tuple', 'enumerate', 'zip', 'map', 'iter',
                    'next', 'reversed'):
                its = n.args
            elif isinstance(n, ast.Starred):
                its = [n.value]
            for it in its:
                if not is_set(it, env):
                    continue
                up = parent.get(n)
                if isinstance(up, ast.Starred):
                    up = parent.get(up)
                if not isinstance(n, ast.For) and isinstance(
                        up, ast.Call) and (
                        isinstance(up.func, ast.Name) and
                        up.func.id in ORDERLESS or
                        isinstance(up.func, ast.Attribute) and
                        up.func.attr in ('union', 'update', 'issubset',
                                         'intersection')):
                    continue
                if isinstance(n, ast.For) and order_free(n):
                    continue
                if isinstance(up, ast.Assign) and all(
                        sorted_later(f.node, t) for t in up.targets):
                    continue
                if isinstance(up, ast.BinOp):
                    u2 = parent.get(up)
                    if isinstance(u2, ast.Call) and isinstance(
                            u2.func, ast.Name) and u2.func.id in ORDERLESS:
                        continue
                bad = it
        yield Inst('set-order', key(f), line(f, bad) if bad is not None
                   else f.where(), bad is None,
                   '%s uses the elements of a set in hash order' % f.qual,
                   [f.qual])


def order_free(loop):
    """body only adds to sets or raises or compares"""
    return all(isinstance(s, (ast.If, ast.Raise, ast.Assert)) and not any(
        isinstance(x, (ast.Return, ast.Break, ast.Assign, ast.AugAssign,
                       ast.Yield)) or isinstance(x, ast.Call) and
        isinstance(x.func, ast.Attribute) and x.func.attr in (
            'append', 'extend', 'insert') for x in ast.walk(s))
        for s in loop.body)


def sorted_later(root, t):
    if not isinstance(t, ast.Name):
        return False
    for n in ast.walk(root):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                n.func.attr == 'sort' and isinstance(
                    n.func.value, ast.Name) and n.func.value.id == t.id:
            return True
        if isinstance(n, ast.Assign) and isinstance(
                n.value, ast.Call) and isinstance(
                n.value.func, ast.Name) and n.value.func.id == 'sorted' and \
                any(isinstance(a, ast.Name) and a.id == t.id
                    for a in n.value.args) and any(
                    isinstance(x, ast.Name) and x.id == t.id
                    for x in n.targets):
            return True
    return False


IMPURE = {'today', 'now', 'utcnow', 'getenv', 'urandom', 'uuid4', 'uuid1',
          'perf_counter', 'monotonic', 'time_ns', 'getrandbits'}


@rule('P27')
def environment(prog, pid):
    """no result depends on clock, environment or randomness"""
    for f in funcs(prog):
        bad = None
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call):
                nm = n.func.attr if isinstance(n.func, ast.Attribute) else \
                    getattr(n.func, 'id', '')
                base = n.func.value if isinstance(
                    n.func, ast.Attribute) else None
                b = base.id if isinstance(base, ast.Name) else ''
                if nm in IMPURE:
                    bad = n, '%s()' % nm
                elif b in ('random', 'secrets', 'uuid') or \
                        b == 'time' and nm == 'time':
                    bad = n, '%s.%s()' % (b, nm)
                elif nm == 'BusinessDate' and not n.args and not n.keywords:
                    bad = n, 'BusinessDate(), which is today'
            elif isinstance(n, ast.Attribute) and n.attr == 'environ':
                bad = n, 'the environment'
        yield Inst('environment', key(f), line(f, bad[0]) if bad
                   else f.where(), not bad,
                   '%s depends on %s' % (f.qual, bad[1]) if bad else '',
                   [f.qual])


@rule('P27', 'P16')
def repeated_objects(prog, pid):
    """one object never stands for the flows of several dates"""
    for f in funcs(prog):
        bad = None
        for n in ast.walk(f.node):
            if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mult):
                for e in (n.left, n.right):
                    if isinstance(e, (ast.List, ast.Tuple)) and any(
                            makes_object(prog, f, x) for x in e.elts):
                        bad = n
            if isinstance(n, ast.Call) and isinstance(
                    n.func, ast.Attribute) and n.func.attr == 'fromkeys' and \
                    isinstance(n.func.value, ast.Name) and \
                    n.func.value.id in ('dict', 'OrderedDict') and \
                    len(n.args) > 1 and (
                        makes_object(prog, f, n.args[1]) or
                        mutable(n.args[1])):
                bad = n
            if isinstance(n, ast.Call) and isinstance(
                    n.func, ast.Name) and n.func.id == 'repeat' and n.args \
                    and makes_object(prog, f, n.args[0]):
                bad = n
        yield Inst('repeated-object', key(f), line(f, bad) if bad is not None
                   else f.where(), bad is None,
                   '%s uses one object several times' % f.qual, [f.qual])


def makes_object(prog, f, e):
    if isinstance(e, ast.Name):
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and any(
                    isinstance(t, ast.Name) and t.id == e.id
                    for t in n.targets) and isinstance(n.value, ast.Call) \
                    and isinstance(prog.resolve_expr(
                        f.module, n.value.func), Class):
                return True
        return False
    return isinstance(e, ast.Call) and isinstance(
        prog.resolve_expr(f.module, e.func), Class)
