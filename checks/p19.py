from common import *
import p17


def setup(c):
    c.desc = 'OffsetCurve::swap_without_fees in both directions against the product with the offset on the bonded side, and SwapCurve::swap refusing output beyond the real vault.'
    c.bounds = ['offset, offered amount, balances and fee fields: every u64', 'offset at least 1 (validated at creation)', 'balances on the traded (virtual) sides at least 1', 'no loops']
    c.assume = ['release profile arithmetic (overflow wraps)']
    p17.oracles(c)
    for d in (0, 1): c.scenario(f'dir{d}', lambda s, d=d: p17.run_cp(s, 'offset', d))

    @c.oracle
    def real_oracle(out, a):
        x, S, D = a
        r = parse_opt(out[0])
        if isinstance(r, str): return 'trade aborts'
        if r is None: return None
        if r[3] > D or r[1] != D - r[3]: return f'trade of {x} on {S}/{D} pays {r[3]}, leaving {r[1]}'

    def real(s, d):
        X = s.X; st = St()
        cv, cd = s.curve('offset', lo=1)
        sc = X.alloc(st, s.scurve(st, 'offset', cv))
        fv, fd = s.fees(); fr = X.alloc(st, fv)
        x = V('x', 0, U64); Sr = V('S', 0, U64); Dr = V('D', 0, U64)
        rep = lambda m: ([f'scs {cline("offset", m, cd)} {m["x"]} {m["S"]} {m["D"]} {d} {feeline(m, fd)}'], 'real_oracle', (m['x'], m['S'], m['D']))
        for q, k, v in splitopt(s.call(TB + 'curve::base::SwapCurve::swap', [Ref(sc), x, Sr, Dr, s.dirv(d), Ref(fr)], st)):
            if k == 'panic': s.fail('never aborts', q.pc, rep); continue
            if k == 'none': continue
            p, nd = structf(X, v, SRES, 'destination_amount_swapped', 'new_swap_destination_amount')
            s.ob('never pays virtual tokens', q.pc, and_(le(p, Dr), eq(nd, sub(Dr, p))), rep)
        s.wit('some', [TRUE])
    for d in (0, 1): c.scenario(f'real{d}', lambda s, d=d: real(s, d))
