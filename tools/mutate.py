"""Development aid: syntax mutants of /repo/dcf and what the checks say.

python3-vt tools/mutate.py FILE-SUBSTR [FUNC-SUBSTR] -> survivors
"""
import ast
import copy
import multiprocessing as mp
import os
import shutil
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'sa'))
import obl                                              # noqa: E402
import rules                                            # noqa: E402
from compare import PROVED, REFUTED                     # noqa: E402
from model import Program, AnalysisBroken               # noqa: E402

REPO = '/repo'
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.GtE],
       ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.LtE],
       ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot],
       ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div],
       ast.Div: [ast.Mult], ast.Pow: [ast.Mult]}


def mutants(tree):
    """yields (line, text, function node) after changing tree in place;
    the change is undone on resumption"""
    funcs = [n for n in ast.walk(tree)
             if isinstance(n, (ast.FunctionDef, ast.Lambda))]

    def owner(n):
        best = None
        for f in funcs:
            if isinstance(f, ast.FunctionDef) and \
                    f.lineno <= n.lineno <= f.end_lineno:
                if best is None or f.lineno < best.lineno:
                    best = f
        return best
    for n in list(ast.walk(tree)):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            old = n.ops[0]
            for k in CMP.get(type(old), ()):
                n.ops[0] = k()
                yield n, 'cmp ' + ast.unparse(n), owner(n)
                n.ops[0] = old
        if isinstance(n, (ast.BinOp, ast.AugAssign)):
            old = n.op
            for k in BIN.get(type(old), ()):
                n.op = k()
                yield n, 'bin ' + ast.unparse(n), owner(n)
                n.op = old
        if isinstance(n, ast.BoolOp):
            old = n.op
            n.op = ast.Or() if isinstance(old, ast.And) else ast.And()
            yield n, 'bool ' + ast.unparse(n), owner(n)
            n.op = old
            if len(n.values) > 1:
                vals = n.values
                for i in range(len(vals)):
                    if len(vals) == 2:
                        break
                    n.values = vals[:i] + vals[i+1:]
                    yield n, 'dropbool ' + ast.unparse(n), owner(n)
                n.values = vals
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            n.op = ast.UAdd()
            yield n, 'neg ' + ast.unparse(n), owner(n)
            n.op = ast.USub()
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            v = n.operand
            n.operand = ast.UnaryOp(ast.Not(), v)
            yield n, 'not ' + ast.unparse(n), owner(n)
            n.operand = v
        if isinstance(n, ast.Constant) and type(n.value) in (int, float) \
                and hasattr(n, 'lineno'):
            old = n.value
            n.value = old + 1
            yield n, 'const %r -> %r' % (old, n.value), owner(n)
            n.value = old
        if isinstance(n, ast.Constant) and type(n.value) is bool:
            n.value = not n.value
            yield n, 'const -> %r' % n.value, owner(n)
            n.value = not n.value
        if isinstance(n, (ast.If, ast.IfExp, ast.While)):
            t = n.test
            n.test = ast.UnaryOp(ast.Not(), t)
            yield n, 'if ' + ast.unparse(n.test), owner(n)
            n.test = t
        if isinstance(n, ast.Call):
            args = n.args
            if len(args) > 1:
                for i in range(len(args) - 1):
                    a = list(args)
                    a[i], a[i+1] = a[i+1], a[i]
                    n.args = a
                    yield n, 'swap ' + ast.unparse(n), owner(n)
                n.args = args[:-1]
                yield n, 'droparg ' + ast.unparse(n), owner(n)
                n.args = args
            kw = n.keywords
            for i in range(len(kw)):
                n.keywords = kw[:i] + kw[i+1:]
                yield n, 'dropkw ' + ast.unparse(n), owner(n)
            n.keywords = kw
        for fld in ('body', 'orelse', 'finalbody'):
            b = getattr(n, fld, None)
            if isinstance(b, list) and not isinstance(
                    n, (ast.Module, ast.ClassDef)):
                for i, s in enumerate(b):
                    if isinstance(s, ast.Expr) and isinstance(
                            s.value, ast.Constant):
                        continue
                    if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign,
                                      ast.If, ast.Return, ast.For,
                                      ast.Raise, ast.Continue, ast.Break)):
                        b[i] = ast.copy_location(ast.Pass(), s)
                        yield s, 'drop ' + ast.unparse(s).split('\n')[0], \
                            owner(s)
                        b[i] = s


def decide(prog, obs, first=False):
    vocab = obl.vocab(prog)
    dfl = obl.defaults()
    out, groups = [], {}
    for o in obs:
        try:
            r = obl.decide(prog, o, dfl, vocab, 15)
            v = r.verdict
            fs = set(r.stats.get('functions', ()))
        except AnalysisBroken:
            v, fs = 'UNKNOWN', set()
        except Exception:
            v, fs = 'UNKNOWN', set()
        a = o.meta.get('alt')
        if a:
            groups.setdefault((o.of, o.cls, a), []).append((v, o, fs))
        else:
            out.append((v, o, fs))
            if first and v == REFUTED:
                return out
    for g in groups.values():
        vs = [v for v, _, _ in g]
        v = PROVED if PROVED in vs else REFUTED if all(
            x == REFUTED for x in vs) else 'UNKNOWN'
        fs = set().union(*[f for _, _, f in g])
        out.append((v, g[0][1], fs))
    return out


def base_one(i):
    prog, obs = G['base']
    return i, decide(prog, [obs[i]])[0]


def run_mut(job):
    i, rel, src, line, text, fn = job
    d = '/tmp/dm%d_%d' % (os.getppid(), os.getpid())
    if not os.path.isdir(d):
        os.makedirs(d)
        shutil.copytree(os.path.join(REPO, 'dcf'), os.path.join(d, 'dcf'))
    p = os.path.join(d, rel)
    orig = open(p).read()
    open(p, 'w').write(src)
    try:
        prog = Program(d)
        allobs = obl.load_specs(prog)
        names = G['bymut'](rel, fn)
        obs = [o for o in allobs if (names is None or o.name in names) and
               o.name not in G['skip']]
        obs.sort(key=lambda o: fn is None or not o.of.endswith(fn))
        res = decide(prog, obs, True)
        ref = [o.name for v, o, _ in res if v == REFUTED]
        unk = sum(1 for v, o, _ in res if v == 'UNKNOWN')
        for pid in (() if ref else sorted(rules.RULES)):
            for r in rules.run(prog, pid):
                if r.ok is False and (pid, r.key) not in G['known']:
                    ref.append(pid + ':' + r.rule + ' ' + r.key)
        return i, rel, line, text, fn, ref, unk, len(obs)
    except Exception as e:
        return i, rel, line, text, fn, ['crash %s %s' % (
            type(e).__name__, e)], 0, 0
    finally:
        open(p, 'w').write(orig)


G = {}


def listed():
    """names of obligations in known-findings.txt"""
    out = set()
    for ln in open(os.path.join(os.path.dirname(HERE),
                                'known-findings.txt')):
        if ln.startswith('finding: property='):
            out.add(ln.split(' ', 2)[2].split(' -- ')[0].strip())
    return out


def prepare(prog):
    skip = listed()
    obs = [o for o in obl.load_specs(prog) if o.name not in skip]
    G['skip'] = skip
    G['base'] = prog, obs
    G['known'] = set()
    rules.run(prog, 'P01')
    for pid in sorted(rules.RULES):
        for r in rules.run(prog, pid):
            if r.ok is False:
                G['known'].add((pid, r.key))
    use = {}
    with mp.get_context('fork').Pool(8) as pool:
        for i, (v, o, fs) in pool.imap_unordered(base_one, range(len(obs))):
            for f in fs:
                use.setdefault(f, set()).add(obs[i].name)
            use.setdefault('of:' + obs[i].of.split(':')[-1], set()).add(
                obs[i].name)
    G['use'] = use

    def bymut(rel, fn):
        if fn is None:
            return None
        out = set()
        for k, v in use.items():
            if k == fn or k.endswith(':' + fn) or k.endswith('.' + fn) or \
                    k.startswith('of:') and (
                        k[3:] == fn or k[3:].endswith('.' + fn)):
                out |= v
        return out
    G['bymut'] = bymut


def clean():
    for x in os.listdir('/tmp'):
        if x.startswith('dm%d_' % os.getpid()):
            shutil.rmtree('/tmp/' + x)


def main():
    fsub = sys.argv[1] if len(sys.argv) > 1 else ''
    nsub = sys.argv[2] if len(sys.argv) > 2 else ''
    prog = Program(REPO)
    prepare(prog)
    jobs = []
    for m in prog.modules.values():
        if fsub not in m.rel:
            continue
        tree = ast.parse(m.src)
        for n, text, f in mutants(tree):
            fn = f.name if f else None
            if nsub and nsub not in (fn or ''):
                continue
            try:
                src = ast.unparse(ast.fix_missing_locations(tree))
            except Exception:
                continue
            jobs.append((len(jobs), m.rel, src, n.lineno, text[:110], fn))
    print(len(jobs), 'mutants')
    killed, crash = 0, 0
    surv = []
    with mp.get_context('fork').Pool(8) as pool:
        for r in pool.imap_unordered(run_mut, jobs, chunksize=2):
            i, rel, line, text, fn, ref, unk, nob = r
            if ref and ref[0].startswith('crash'):
                crash += 1
            elif ref:
                killed += 1
            if not ref or ref[0].startswith('crash'):
                surv.append(r)
    print('killed', killed, 'crash', crash, 'survive', len(surv))
    for i, rel, line, text, fn, ref, unk, nob in sorted(
            surv, key=lambda r: (r[1], r[2])):
        print('%s:%d %s | %s | unk=%d/%d %s' % (
            rel, line, fn, text.replace('\n', ' '), unk, nob,
            ref[0] if ref else ''))
    clean()


if __name__ == '__main__':
    main()
