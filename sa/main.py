"""The driver:  python3-vt main.py ID [ID ...]

Decides every obligation and rule instance of a property from /repo's current
source, writes evidence/<ID>.json, prints VIOLATION lines and exits 1 when
the source breaks the property.
"""
import json
import multiprocessing as mp
import os
import resource
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('DCF_REPO', '/repo')
sys.path.insert(0, HERE)

import obl                                              # noqa: E402
import rules                                            # noqa: E402
import selftest                                         # noqa: E402
from compare import PROVED, REFUTED                     # noqa: E402
from model import Program, AnalysisBroken               # noqa: E402

_G = {}
ZERO = 'P25'     # a zero is a value, not an absence


def _work(i):
    ob = _G['obs'][i]
    spent = time.time() - _G['t0']
    if spent > 600:
        return i, 'UNKNOWN', '', ['time budget'], {}
    try:
        r = obl.decide(_G['prog'], ob, _G['defaults'], _G['vocab'],
                       _G['limit'] if spent < 300 else 20,
                       i < _G['own'] and spent < 300)
        return i, r.verdict, r.where, r.msgs, r.stats
    except AnalysisBroken as e:
        return i, 'UNKNOWN', '', ['anchor: %s' % e], {}
    except MemoryError:
        return i, 'UNKNOWN', '', ['memory budget'], {}
    except Exception as e:          # a construct the engine does not model
        return i, 'UNKNOWN', '', ['engine: %s: %s' % (
            type(e).__name__, str(e)[:200])], {}


def _limits():
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))


def known():
    """property -> {construct: text} of the committed findings"""
    out = {}
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith('finding: property='):
                rest = ln[len('finding: property='):]
                prop, rest = rest.split(' ', 1)
                site, what = rest.split(' -- ', 1)
                out.setdefault(prop, {})[site.strip()] = what.strip()
    return out


def run(pid, tier, seed):
    t0 = time.time()
    lines, violations = [], []
    found = known().get(pid, {})
    prog = Program(REPO)
    every = obl.load_specs(prog)
    obs = [o for o in every if pid in o.props()]
    own = len(obs)
    if pid == ZERO:
        listed = {k for d in known().values() for k in d}
        obs = obs + [o for o in every if pid not in o.props() and
                     o.name not in listed]
    _G.update(prog=prog, obs=obs, defaults=obl.defaults(),
              vocab=obl.vocab(prog), limit=60 if tier == 'quick' else 200,
              own=own, t0=t0)
    selfobs = selftest.run(pid)
    res = []
    if obs:
        with mp.get_context('fork').Pool(min(8, len(obs)), _limits) as pool:
            for r in pool.imap_unordered(_work, range(len(obs))):
                res.append(r)
    res.sort()
    # any specification that fails where a value is zero, and there only
    res = [r for r in res if r[0] < own or (
        r[1] == REFUTED and r[4].get('zero'))]
    zeros = len(obs) - own
    # alternative formulations: one that holds is enough, and only when all
    # fail the group fails
    groups = {}
    for i, ver, *_ in res:
        a = obs[i].meta.get('alt')
        if a:
            groups.setdefault((obs[i].of, obs[i].cls, a), []).append(ver)
    out = []
    for r in res:
        a = obs[r[0]].meta.get('alt')
        if a:
            vs = groups[(obs[r[0]].of, obs[r[0]].cls, a)]
            if PROVED in vs:
                if r[1] != PROVED:
                    continue
            elif any(v != REFUTED for v in vs):
                r = (r[0], 'UNKNOWN') + tuple(r[2:])
        out.append(r)
    res = out
    proved, undecided, funcs, pairs = 0, [], set(), 0
    replay = os.path.join(VERIF, 'evidence', pid + '.violations.txt')
    report = []
    for i, ver, where, msgs, st in res:
        o = obs[i]
        funcs.update(st.get('functions', ()))
        pairs += st.get('pairs') or 0
        if ver == PROVED:
            proved += 1
        elif ver == REFUTED:
            text = '%s (%s): %s' % (o.name, where, (msgs or ['?'])[0][:600])
            if o.name in found:
                lines.append('KNOWN-FINDING: property=%s %s: %s' % (
                    pid, o.name, found[o.name]))
            else:
                violations.append(text)
                report.append(text + '\n' + '\n'.join(msgs))
        else:
            undecided.append('%s: %s' % (o.name, (msgs or ['?'])[0][:200]))
    insts = rules.run(prog, pid)
    bad = 0
    for r in insts:
        if r.ok is False:
            if r.key in found:
                lines.append('KNOWN-FINDING: property=%s %s: %s' % (
                    pid, r.key, found[r.key]))
                continue
            bad += 1
            text = '%s at %s: %s' % (r.rule, r.where, r.msg)
            violations.append(text)
            report.append(text)
        elif r.ok is None:
            undecided.append('%s %s: %s' % (r.rule, r.key, r.msg[:200]))
        funcs.update(r.funcs)
    cov = {
        'explanation': (
            'Static analysis of %s/dcf as it stands: every obligation runs '
            'the source of the function and of its specification through the '
            'same front end to gated value graphs over symbolic parameters '
            'and compares the normal forms on every feasible branch; rule '
            'instances are syntax/effect checks of named constructs. Nothing '
            'of the repository is executed.' % REPO),
        'obligations': len(res), 'discharged': proved,
        'branch_pairs_compared': pairs,
        'specifications_searched_for_zero_branches': zeros,
        'rule_instances': len(insts),
        'rule_instances_ok': sum(1 for r in insts if r.ok),
        'functions_analysed': len(funcs),
        'undecided': undecided,
        'self_tests': selfobs,
        'samples': [obs[i].name + ': ' + ver for i, ver, *_ in res[:12]] +
                   [r.rule + ' ' + r.key for r in insts[:12]],
        'functions': sorted(funcs)[:120],
        'source_digest': prog.digest(),
    }
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
          'coverage': cov, 'wall_s': round(time.time() - t0, 2),
          'violations': len(violations),
          'assumptions': [
              'numbers are exact reals in normal forms; rounding is out of '
              'scope', 'dates and periods obey the calendar algebra stated '
              'in DESIGN.md', 'arguments satisfy the preconditions written '
              'in the specifications']}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for ln in lines:
        print(ln)
    print('%s: %d obligations, %d proved, %d undecided, %d rule instances, '
          '%d functions, %.1fs' % (pid, own, proved, len(undecided),
                                   len(insts), len(funcs),
                                   time.time() - t0))
    for u in undecided:
        print('  undecided', u[:300])
    if not obs and not insts:
        print('%s: no obligations' % pid)
        return 2
    if violations:
        with open(replay, 'w') as f:
            f.write('\n\n'.join(report))
        for v in violations:
            print('  ', v[:700])
        print('VIOLATION property=%s replay=%s' % (pid, replay))
        return 1
    if os.path.exists(replay):
        os.unlink(replay)
    return 0


def main():
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    rc = 0
    if '--selftest' in sys.argv:
        prog = Program(REPO)
        print('%d modules, %d functions, %d specifications' % (
            len(prog.modules), len(prog.funcs), len(obl.load_specs(prog))))
        sys.exit(0)
    for pid in sys.argv[1:]:
        if pid in ('quick', 'thorough'):
            tier = pid
            continue
        rc = max(rc, run(pid, tier, seed))
    sys.exit(rc)


if __name__ == '__main__':
    main()
