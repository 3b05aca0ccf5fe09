"""Load the MIR dump produced by engine/dump.sh."""
import json

class Prog:
    pass

def load(path):
    P = Prog()
    P.fns = {}; P.vt = {}; P.roots = []; P.types = []
    with open(path) as f:
        it = iter(f)
        for l in it:
            if l.startswith('{"types":['):
                l = l + ''.join(it)
            d = json.loads(l)
            if 'fn' in d: P.fns[d['fn']] = d
            elif 'vt' in d: P.vt[(d["vt"], d["ct"])] = d
            elif 'roots' in d: P.roots = d['roots']
            elif 'types' in d: P.types = d['types']
    P.byname = {}
    for k, d in P.fns.items():
        P.byname.setdefault(d['name'], []).append(k)
    return P
