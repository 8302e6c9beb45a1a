"""writes vocab.txt: the names of the tree the specifications were written
against.  Run by hand only; the checks only read the file."""
import ast
import builtins
import math
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))


def names(path):
    out = set()
    for d, _, fs in os.walk(path):
        for f in fs:
            if not f.endswith('.py'):
                continue
            for n in ast.walk(ast.parse(open(os.path.join(d, f)).read())):
                if isinstance(n, ast.Name):
                    out.add(n.id)
                elif isinstance(n, ast.Attribute):
                    out.add(n.attr)
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    out.add(n.name)
                elif isinstance(n, ast.arg):
                    out.add(n.arg)
                elif isinstance(n, ast.keyword) and n.arg:
                    out.add(n.arg)
                elif isinstance(n, ast.alias):
                    out.update(n.name.split('.'))
                    if n.asname:
                        out.add(n.asname)
    return out


def main():
    out = names('/repo/dcf') | names(os.path.join(HERE, 'specs'))
    out |= set(dir(builtins)) | set(dir(math))
    for t in (list, dict, tuple, set, str, int, float):
        out |= set(dir(t))
    import datetime
    for t in (datetime.date, datetime.timedelta, datetime.datetime):
        out |= set(dir(t))
    import re
    for f in os.listdir(HERE):
        if f.endswith('.py'):
            out |= set(re.findall(r"'(?:call|mcall)',[^'\n]*'([a-zA-Z_]+)'",
                                  open(os.path.join(HERE, f)).read()))
    with open(os.path.join(HERE, 'vocab.txt'), 'w') as f:
        f.write('\n'.join(sorted(out)) + '\n')
    import json
    import sys
    sys.path.insert(0, HERE)
    from model import Program
    import rule_consts
    P = Program('/repo')
    attrs = {}
    for c in P.classes.values():
        i = c.methods.get('__init__')
        if i is None:
            continue
        s = i.params()[0]
        attrs[c.name] = sorted({
            n.attr for n in ast.walk(i.node) if isinstance(n, ast.Attribute)
            and isinstance(n.ctx, ast.Store) and isinstance(
                n.value, ast.Name) and n.value.id == s})
    fz = {'functions': sorted({f.name for f in P.funcs}),
          'params': {n: sorted({q for f in P.funcs if f.name == n
                                for q in f.params()})
                     for n in {f.name for f in P.funcs}},
          'init_attrs': attrs,
          'classattrs': {c.name: sorted(c.attrs)
                         for c in P.classes.values()},
          'consts': rule_consts.table(P)}
    with open(os.path.join(HERE, 'frozen.json'), 'w') as f:
        json.dump(fz, f, indent=1, sort_keys=True)
        f.write('\n')


if __name__ == '__main__':
    main()
