"""P13: the four operations between curves treat their operands alike.

Each operation of a class runs through the front end with the operation it
delegates to kept as a symbol; the values must be equal up to that symbol."""
import re

from graph import Opts, St, Frame
from loops import build
from rules import Inst, rule
from obl import calls_of, vocab
from terms import Leaf, Atom, ratom, show

OPS = {'__add__': ['__add__'], '__sub__': ['__sub__'],
       '__mul__': ['__mul__'], '__div__': ['__div__', '__truediv__']}


def value(prog, c, f, own):
    names = [n for v in OPS.values() for n in v]
    o = Opts(cuts=['domain', 'origin', '__call__', 'shifted'],
             types={'self': 'cls:' + c.name, 'other': 'cls:' + c.name})
    o.supercuts = set(names)
    g = build(prog, o)
    args = [Leaf(ratom(Atom('sym', p))) for p in ('self', 'other')]
    v = g.inline(f, args, {}, St(Frame(f.module)), recv=args[0])
    if g.tops:
        return None
    words = vocab(prog)
    t = ' '.join('%s(' % n for n in calls_of(v))
    if words is not None and not set(
            re.findall(r'([A-Za-z_0-9]+)\(', t)) <= set(words):
        return None         # computed with operations not known here
    t = show(v)
    for n in own:
        t = re.sub(r'(?<![A-Za-z0-9])%s\(' % n, 'OP(', t)
    return t


@rule('P13')
def operations(prog, pid):
    for c in prog.classes.values():
        mine = {n: c.methods[n] for n in OPS if n in c.methods}
        if not any(k.name == 'Curve' for k in prog.mro(c)[1:]) or \
                len(mine) < 3:
            continue
        vals = {n: value(prog, c, f, OPS[n]) for n, f in mine.items()}
        count = {}
        for v in vals.values():
            count[v] = count.get(v, 0) + 1
        most = max(count, key=count.get)
        for n, v in sorted(vals.items()):
            f = mine[n]
            if v is None or most is None or count[most] < 2 or \
                    'OP(' not in most:
                ok = None if v != most else True
            else:
                ok = v == most
            yield Inst('operations-alike', '%s.%s' % (c.name, n), f.where(),
                       ok, '%s yields %s where the other operations yield '
                       '%s' % (f.qual, str(v)[:300], str(most)[:300]),
                       [f.qual])
