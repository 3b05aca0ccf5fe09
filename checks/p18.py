from common import *


def setup(c):
    c.desc = 'ConstantPriceCurve::swap_without_fees in both directions.'
    c.bounds = ['price at least 1 (validated), offered amount and balances: every u64', 'no loops']
    c.assume = ['release profile arithmetic (overflow wraps)']

    @c.oracle
    def cpr_oracle(out, a):
        x, P, A, B, d = a
        r = parse_opt(out[0])
        if isinstance(r, str): return 'trade aborts'
        w = [x // P * P, x // P] if d == 0 else [x, x * P]
        if 0 in w: w = None
        if r != w: return f'trade of {x} at price {P} direction {d} gives {r}, expected {w}'

    def f(s, d):
        X = s.X; st = St()
        cv, cd = s.curve('cpr', lo=1); P = cd['token_b_price']
        r = X.alloc(st, cv)
        x = V('x', 0, U64); S_ = V('S', 0, U64); D_ = V('D', 0, U64)
        rep = lambda m: ([f'swf {cline("cpr", m, cd)} {m["x"]} {m["S"]} {m["D"]} {d}'], 'cpr_oracle', (m['x'], max(1, m[P.a]), m['S'], m['D'], d))
        for q, k, v in splitopt(s.call(s.meth('cpr', 'swap_without_fees'), [Ref(r), x, S_, D_, s.dirv(d)], st)):
            if k == 'panic': s.fail('never aborts', q.pc, rep); continue
            if k == 'none':
                s.ob('refused only when worth less than one token', q.pc, lt(x, P) if d == 0 else eq(x, C(0)), rep); continue
            t, p = structf(X, v, SWF, 'source_amount_swapped', 'destination_amount_swapped')
            s.wit('trade', q.pc)
            s.ob('something moves both ways', q.pc, and_(ge(t, C(1)), ge(p, C(1))), rep)
            s.ob('exact price', q.pc, eq(t, mul(P, p)) if d == 0 else eq(p, mul(P, t)), rep)
            s.ob('takes the largest multiple offered', q.pc, and_(le(t, x), lt(x, add(t, P))) if d == 0 else eq(t, x), rep)
            A0, B0 = (S_, D_) if d == 0 else (D_, S_)
            A1, B1 = (add(A0, t), sub(B0, p)) if d == 0 else (sub(A0, p), add(B0, t))
            s.ob('pool value at the price unchanged', q.pc, eq(add(A1, mul(P, B1)), add(A0, mul(P, B0))), rep)
    for d in (0, 1): c.scenario(f'dir{d}', lambda s, d=d: f(s, d))
