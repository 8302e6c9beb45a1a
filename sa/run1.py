"""development driver: decide the obligations whose name contains a word"""
import sys
import obl
from model import Program

def main():
    P = Program(__import__('os').environ.get('DCF_REPO','/repo'))
    obs = obl.load_specs(P)
    words = sys.argv[1:]
    for o in obs:
        if words and not any(w in o.name or w in o.props() for w in words):
            continue
        r = obl.decide(P, o, obl.defaults(), obl.vocab(P))
        print(r.verdict, o.name, r.stats.get('pairs'), r.stats.get('wall'))
        if r.verdict != 'PROVED' or '-v' in words:
            for m in r.msgs:
                print('    ', m[:1500])

main()
