from common import *


def setup(c):
    c.desc = 'CurveCalculator::{validate, validate_supply} of all five calculators.'
    c.bounds = ['every curve parameter and starting balance: every u64', 'no loops']
    c.assume = ['release profile arithmetic (overflow wraps)']

    def pyvalid(kind, p):
        if kind in ('cpr', 'offset'): return p[0] != 0
        if kind == 'lin': return p[0] != 0 and p[1] != 0 and p[3] != 0 and p[0] * 10**18 >= p[1]
        return True

    def pysup(kind, a, b):
        if kind == 'lin': return a == 0 and b != 0
        if kind in ('cpr', 'offset'): return a != 0
        return a != 0 and b != 0

    @c.oracle
    def val_oracle(out, a):
        if out[0] != ('ok' if pyvalid(*a) else 'err'): return f'validate {a[0]} {a[1]} = {out[0]}'

    @c.oracle
    def sup_oracle(out, a):
        if out[0] != ('ok' if pysup(*a) else 'err'): return f'validate_supply {a[0]} {a[1]}/{a[2]} = {out[0]}'

    def f(s, kind):
        X = s.X; st = St()
        cv, cd = s.curve(kind); r = X.alloc(st, cv); p = list(cd.values())
        rep = lambda m: ([f'val {cline(kind, m, cd)}'], 'val_oracle', (kind, [m[q.a] for q in p]))
        if kind in ('cpr', 'offset'): good = ne(p[0], C(0))
        elif kind == 'lin': good = and_(ne(p[0], C(0)), ne(p[1], C(0)), ne(p[3], C(0)), ge(mulc(10**18, p[0]), p[1]))
        else: good = TRUE
        n = set()
        for q, k, v in splitres(s.call(s.meth(kind, 'validate'), [Ref(r)], st)):
            if k == 'panic': s.fail('validate never aborts', q.pc, rep)
            else: s.ob('validate accepts' if k == 'ok' else 'validate rejects', q.pc, good if k == 'ok' else not_(good), rep)
            s.wit('parameters ' + k, q.pc)
        st = St(); r = X.alloc(st, cv)
        a, b = V('A', 0, U64), V('B', 0, U64)
        rep2 = lambda m: ([f'vsup {cline(kind, m, cd)} {m["A"]} {m["B"]}'], 'sup_oracle', (kind, m['A'], m['B']))
        if kind == 'lin': good2 = and_(eq(a, C(0)), ne(b, C(0)))
        elif kind in ('cpr', 'offset'): good2 = ne(a, C(0))
        else: good2 = and_(ne(a, C(0)), ne(b, C(0)))
        name = s.meth(kind, 'validate_supply')
        for q, k, v in splitres(s.call(name, [Ref(r), a, b], st)):
            if k == 'panic': s.fail('validate_supply never aborts', q.pc, rep2)
            else: s.ob('supply accepted' if k == 'ok' else 'supply rejected', q.pc, good2 if k == 'ok' else not_(good2), rep2)
            s.wit('supply ' + k, q.pc)
    for kind in CURVES: c.scenario(kind, lambda s, kind=kind: f(s, kind))
