"""Rule checks: syntax, effect and typestate rules over the program model.

A rule instance is ok (True), violated (False) or undecided (None)."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))


class Inst(object):
    def __init__(self, rule, key, where, ok, msg='', funcs=()):
        self.rule, self.key, self.where = rule, key, where
        self.ok, self.msg, self.funcs = ok, msg, list(funcs)


RULES = {}
_cache = {}


def rule(*props):
    def deco(f):
        for p in props:
            RULES.setdefault(p, []).append(f)
        return f
    return deco


def frozen():
    if 'frozen' not in _cache:
        _cache['frozen'] = json.load(open(os.path.join(HERE, 'frozen.json')))
    return _cache['frozen']


def effects(prog):
    from effects import Effects
    if _cache.get('prog') is not prog:
        _cache['prog'], _cache['eff'] = prog, Effects(prog)
    return _cache['eff']


def run(prog, pid):
    import rule_consts      # noqa: F401
    import rule_effects     # noqa: F401
    import rule_lints       # noqa: F401
    import rule_siblings    # noqa: F401
    out = []
    for f in RULES.get(pid, ()):
        try:
            out.extend(f(prog, pid))
        except Exception as e:      # a construct the rule does not know
            out.append(Inst(f.__name__, f.__name__, '', None,
                            '%s: %s' % (type(e).__name__, e)))
    return out
