"""Obligations: a specification function per repository function.

A specification is a small Python function in specs/*.py.  It is never
executed: it runs through the same front end as the repository, so both sides
become value graphs over the same symbols, which compare.py then compares.
"""
import ast
import os
import signal
import sys
import time

import terms as T
from terms import *
from graph import Opts, St, Frame
from loops import build
from model import Program, Func, Class, Module, AnalysisBroken
from compare import Compare, PROVED, REFUTED, UNKNOWN

sys.setrecursionlimit(20000)
HERE = os.path.dirname(os.path.abspath(__file__))


class Obligation(object):
    def __init__(self, node, module, meta, cls=None):
        self.node, self.module, self.cls = node, module, cls
        self.prop = meta.pop('prop')
        self.of = meta.pop('of')
        self.meta = meta

    @property
    def name(self):
        n = self.of + (' law ' + self.node.name if self.meta['law'] else '')
        n += (' on ' + self.cls if self.cls else '')
        tag = self.meta.get('tag')
        return n + (' [%s]' % tag if tag else '')

    def props(self):
        return self.prop if isinstance(self.prop, (list, tuple)) \
            else [self.prop]


def literal(node, env):
    if isinstance(node, ast.Name):
        return env[node.id]
    if isinstance(node, ast.BinOp) and isinstance(node.op, ast.Add):
        return literal(node.left, env) + literal(node.right, env)
    if isinstance(node, ast.BinOp) and isinstance(node.op, ast.BitOr):
        return dict(literal(node.left, env), **literal(node.right, env))
    if isinstance(node, (ast.List, ast.Tuple)):
        return [literal(x, env) for x in node.elts]
    if isinstance(node, ast.Dict):
        return {literal(k, env): literal(v, env)
                for k, v in zip(node.keys, node.values)}
    return ast.literal_eval(node)


def load_specs(prog, only=None):
    """spec modules become modules of the program, without registering
    their functions as repository functions"""
    out = []
    d = os.path.join(HERE, 'specs')
    for f in sorted(os.listdir(d)):
        if not f.endswith('.py') or f.startswith('_'):
            continue
        p = os.path.join(d, f)
        src = open(p).read()
        tree = ast.parse(src, p)
        m = Module('spec.' + f[:-3], p, f, tree, src)
        funcs, classes = list(prog.funcs), dict(prog.classes)
        prog._collect(m)
        prog.funcs[:] = funcs
        prog.classes.clear()
        prog.classes.update(classes)
        env = {}
        for n in tree.body:
            if isinstance(n, ast.Assign) and isinstance(
                    n.targets[0], ast.Name):
                try:
                    env[n.targets[0].id] = literal(n.value, env)
                except (ValueError, KeyError, TypeError):
                    pass
            if not isinstance(n, ast.FunctionDef):
                continue
            for dec in n.decorator_list:
                if not (isinstance(dec, ast.Call) and isinstance(
                        dec.func, ast.Name) and dec.func.id in (
                            'spec', 'law')):
                    continue
                meta = {'prop': literal(dec.args[0], env),
                        'of': literal(dec.args[1], env),
                        'law': dec.func.id == 'law'}
                for k in dec.keywords:
                    meta[k.arg] = literal(k.value, env)
                on = meta.pop('on', [None])
                if isinstance(on, str):
                    on = [on]
                for c in on:
                    out.append(Obligation(n, m, dict(meta), c))
    if only:
        out = [o for o in out if set(o.props()) & set(only)]
    return out


class Result(object):
    def __init__(self, ob, verdict, where='', msgs=(), stats=None):
        self.ob, self.verdict, self.where = ob, verdict, where
        self.msgs, self.stats = list(msgs), stats or {}


def target(prog, ob):
    mod, name = ob.of.split(':')
    if ob.cls:
        c = prog.cls(ob.cls)
        if ob.meta.get('setter'):
            r = prog.find_setter(c, name.split('.')[-1])
            if r is None:
                raise AnalysisBroken('%s.%s has no setter' % (ob.cls, name))
            return r[1]
        r = prog.find(c, name.split('.')[-1])
        if r is None or r[0] not in ('method', 'property'):
            raise AnalysisBroken('%s.%s is missing' % (ob.cls, name))
        return r[2]
    return prog.func(mod, name)


def heap_attr(heap, key, g):
    if key in heap:
        return heap[key]
    o, n = key
    return Leaf(ratom(Atom('attr', o, n)))


def evaluate(prog, ob, cuts, defaults, vocab, bound=None,
             unroll=None):
    f = target(prog, ob)
    m = ob.meta
    types = dict(defaults.get('types', {}))
    types.update(m.get('types', {}))
    if ob.cls:
        types['self'] = 'cls:' + ob.cls
    elif f.cls is not None and f.kind != 'static' and not m['law']:
        types.setdefault('self', 'cls:' + f.cls.name)
    o = Opts(cuts=cuts, types=types)
    for k in ('attr_types', 'ret_types', 'elem_types'):
        d = dict(defaults.get(k, {}))
        d.update(m.get(k, {}))
        setattr(o, k, {tuple(a) if isinstance(a, list) else a: b
                       for a, b in d.items()})
    o.samelen = m.get('samelen', {})
    o.unroll = unroll or m.get('unroll')
    o.recurse = m.get('recurse', 0)
    o.dictstate = m.get('dictstate', False)
    o.digits = m.get('digits')
    for k, kv in m.get('contents', {}).items():
        a = None
        for n in k.split('.'):
            a = Atom('sym', n) if a is None else Atom('attr', ratom(a), n)
        o.contents[a] = V('dict', tuple(
            (V('str', x), ratom(Atom('sym', y))) for x, y in kv.items()),
            None)
    g = build(prog, o)
    sargs = ob.node.args
    params = [a.arg for a in sargs.args]
    consts = m.get('const', {})
    vals = []
    for p in params:
        if p in consts:
            c = consts[p]
            vals.append(Leaf(V('list', ())) if c == [] else
                        NONE if c is None else Leaf(V('bool', c))
                        if isinstance(c, bool) else Leaf(V('str', c))
                        if isinstance(c, str) else Leaf(num(c)))
        elif bound is not None and types.get(p) == 'list':
            xs = []
            for k in range(bound):
                x = '%s[%d]' % (p, k)
                t = o.elem_types.get(p)
                if t:
                    o.types[x] = t
                xs.append(ratom(Atom('sym', x)))
            vals.append(Leaf(V('list', tuple(xs))))
        elif bound is not None and types.get(p) == 'int':
            vals.append(Leaf(num(bound)))
        else:
            vals.append(Leaf(ratom(Atom('sym', p))))
    ismeth = f.cls is not None and f.kind != 'static'
    if m['law']:
        st = St(Frame(ob.module))
        w = g.inline(Func(ob.node, ob.module), vals, {}, st)
        tops = list(g.tops)

        def side(i):
            return tmap(lambda x: x if isinstance(x, V) and x.kind in (
                'raise', 'top', 'any') else g.index1(x, num(i)), w)
        dom = anyfy(w)
        a, b = side(0), anyfy(side(1))
        return g, f, a, {}, [], b, {}, tops, set(g.visited)
    # code
    st = St(Frame(f.module))
    n = len(params) - m.get('extra', 0)
    kw = m.get('kwargs', [])
    pos, kws = [], {}
    for p, v in zip(params[:n], vals[:n]):
        if p in kw:
            kws[p] = v
        elif p == m.get('star'):
            pos.append(('*', v))
        else:
            pos.append(v)
    pre_heap = {}
    if m.get('ctor'):
        pass
    v = g.inline(f, pos, kws, st, recv=vals[0] if ismeth else None)
    ctops, cheap = list(g.tops), dict(st.heap)
    g.tops = []
    visited = set(g.visited)
    # spec
    sf = Func(ob.node, ob.module)
    sst = St(Frame(ob.module))
    w = g.inline(sf, vals, {}, sst)
    stops = list(g.tops)
    return g, f, v, cheap, ctops, w, dict(sst.heap), stops, visited


def anyfy(t):
    """spec: AssertionError leaves are outside the domain, ANY is don't
    care"""
    def f(v):
        if isinstance(v, V) and v.kind == 'raise' and \
                v.args[0] == 'AssertionError':
            return V('any')
        if isinstance(v, V) and v.kind == 'str' and v.args[0] == '#ANY':
            return V('any')
        return v
    return tmap(f, t)


def refusal(x):
    """what is left of a result when only raising counts"""
    return x if isinstance(x, V) and x.kind in ('raise', 'top', 'any') \
        else NONE


def calls_of(t):
    out = set()
    walk(t, lambda x: out.add(x.args[1] if x.kind == 'mcall' else x.args[0])
         if isinstance(x, Atom) and x.kind in ('mcall', 'call') else None)
    return out


def once(prog, ob, cuts, defaults, vocab, bound=None, unroll=None):
    try:
        return once_(prog, ob, cuts, defaults, vocab, bound, unroll)
    except (TooBig, RecursionError) as e:
        return UNKNOWN, ['value graph too large (%s)' % type(e).__name__], \
            None, {}, True


def once_(prog, ob, cuts, defaults, vocab, bound=None, unroll=None):
    g, f, v, ch, ctops, w, sh, stops, visited = evaluate(
        prog, ob, cuts, defaults, vocab, bound, unroll)
    w = anyfy(w)
    for t, into in ((v, ctops), (w, stops)):
        tmap(lambda x: into.append(show(x)) or x if isinstance(x, V) and
             x.kind == 'top' else x, t)
    verdicts, msgs = [], []
    pairs = 0
    dom = tmap(lambda x: TRUE if not (isinstance(x, V) and x.kind == 'any')
               else FALSE, w)
    if dom is FALSE:
        return UNKNOWN, ['the specification covers nothing'], f, {}, True
    todo = []
    if ob.meta.get('ret', True):
        todo.append(('result', v, w))
    else:
        todo.append(('refusal', tmap(refusal, v), tmap(refusal, w)))
    heap = ob.meta.get('heap')
    hdom = dom
    if f.name == '__init__':    # no object where the constructor raises
        hdom = tmap(lambda x: TRUE if not (
            isinstance(x, V) and x.kind in ('any', 'raise')) else FALSE, w)
    gaps = tmap(lambda x: TRUE if isinstance(x, V) and x.kind in (
        'top', 'any') else FALSE, v)
    if heap:
        if gaps is not FALSE:       # nothing is known beyond a gap
            todo.append(('exit', tmap(
                lambda x: x if isinstance(x, V) and x.kind == 'top'
                else V('none'), v), NONE))
            hdom = tand(hdom, tnot(gaps))
        keys = []
        for k in list(sh) + list(ch):
            if k not in keys and (heap == 'all' or k[1] in heap):
                if vocab is None or k in sh or k[1] in vocab:
                    keys.append(k)
        for k in keys:
            todo.append(('%s.%s' % (show(k[0]), k[1]),
                         heap_attr(ch, k, g), heap_attr(sh, k, g)))
    same = zero = True
    for what, a, b in todo:
        c = Compare(g, vocab, ob.meta.get('budget', 6000))
        r = c.run(a, anyfy(b), dom if what in (
            'result', 'refusal', 'exit') else hdom)
        verdicts.append(r)
        pairs += c.pairs
        zero = zero and all(fc.zero() for fc, x, y in c.refuted)
        for fc, x, y in c.refuted[:2]:
            msgs.append('%s: when %s the code yields %s where the '
                        'specification yields %s' % (
                            what, fc.show()[:400], show(x)[:400],
                            show(y)[:400]))
        for u in c.unknown[:2]:
            msgs.append('%s undecided: %s' % (what, u[:200]))
        if not calls_of(b) <= calls_of(a):
            same = False
    ver = REFUTED if REFUTED in verdicts else UNKNOWN if UNKNOWN in verdicts \
        else PROVED
    if stops:
        msgs.append('SPEC unmodelled: %s' % stops[:3])
        if ver != PROVED:
            ver = UNKNOWN
    if ctops and ver != PROVED:
        msgs.append('unmodelled: %s' % ctops[:3])
    return ver, msgs, f, {'pairs': pairs, 'zero': zero and not any(
        v == UNKNOWN for v in verdicts), 'functions': sorted(
        x.qual for x in visited if not x.module.name.startswith('spec'))}, \
        same


class Alarm(Exception):
    pass


def _alarm(*a):
    raise Alarm()


def bounded(prog, ob, cuts, defaults, vocab, f):
    """loops without closed form: the obligation at sequences of two and
    of three arbitrary elements, and on all paths with at most two rounds
    of each loop; both can only refute it"""
    ts = dict(ob.meta.get('types', {}))
    ps = [a.arg for a in ob.node.args.args]
    tries = [(None, 1), (None, 2)]
    if any(ts.get(p) in ('list', 'int') and
           p not in ob.meta.get('const', {}) for p in ps):
        tries = [(2, None), (3, None)] + tries
    old = signal.signal(signal.SIGALRM, _alarm)
    try:
        for n, u in tries:
            runs = []
            for cs in cuts:
                signal.alarm(20)
                try:
                    r = once(prog, ob, cs, defaults, vocab, n, u)
                except Alarm:
                    r = (UNKNOWN, ['time limit'], f, {}, True)
                finally:
                    signal.alarm(0)
                runs.append(r)
                if r[0] == PROVED:
                    break
            r = judge(runs)
            if r[0] == REFUTED:
                w = 'with %d elements' % n if n else \
                    'within %d rounds of the loops' % u
                return (REFUTED, ['%s: %s' % (w, m) for m in r[1]]) + \
                    tuple(r[2:])
    finally:
        signal.signal(signal.SIGALRM, old)
    return None


def judge(runs):
    """the verdict of runs with ever fewer calls kept opaque"""
    vs = [r[0] for r in runs]
    if PROVED in vs:
        return runs[vs.index(PROVED)]
    if all(v == REFUTED for v in vs):
        return runs[0]
    if REFUTED in vs:
        k = vs.index(REFUTED)
        best = runs[k]
        if not best[4] and k < len(vs) - 1:
            best = (UNKNOWN,) + best[1:]
        return best
    return runs[0]


def decide(prog, ob, defaults, vocab, limit=60, deeper=True):
    """Result of one obligation"""
    t0 = time.time()
    cuts = ob.meta.get('cuts', [])
    if cuts and not isinstance(cuts[0], list):
        cuts = [cuts]
    cuts = cuts or [[]]
    if ob.meta.get('fallback', True) and cuts[-1]:
        cuts = cuts + [[]]
    old = signal.signal(signal.SIGALRM, _alarm)
    runs = []
    try:
        try:
            f = target(prog, ob)
        except AnalysisBroken as e:
            leaf = ob.of.split(':')[1].split('.')[-1]
            public = not leaf.startswith('_') or leaf.endswith('__')
            return Result(ob, REFUTED if public else UNKNOWN, '', [
                'anchor: %s' % e])
        for cs in cuts:
            signal.alarm(limit)
            try:
                r = once(prog, ob, cs, defaults, vocab)
            except Alarm:
                r = (UNKNOWN, ['time limit'], f, {}, True)
            finally:
                signal.alarm(0)
            runs.append(r)
            if r[0] == PROVED:
                break
            if r[0] == UNKNOWN and len(runs) == 1 and ob.meta.get(
                    'nofall'):
                break
    finally:
        signal.signal(signal.SIGALRM, old)
    best = judge(runs)
    if best[0] == UNKNOWN and deeper:
        r = bounded(prog, ob, cuts, defaults, vocab, f)
        if r is not None:
            best = r
    st = dict(best[3])
    st['wall'] = round(time.time() - t0, 2)
    return Result(ob, best[0], f.where(), best[1], st)


def defaults():
    import types_env
    return types_env.DEFAULTS


def vocab(prog):
    import json
    import types_env
    out = types_env.VOCAB
    p = os.path.join(HERE, 'frozen.json')
    if out is None or not os.path.exists(p):
        return out
    old = json.load(open(p)).get('params', {})
    now = {}
    for f in prog.funcs:
        now.setdefault(f.name, set()).update(f.params())
    # calls of functions whose parameters changed decide nothing
    return out - {n for n, ps in now.items()
                  if n in old and not n.startswith('__') and
                  not ps <= set(old[n])}
