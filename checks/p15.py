from common import *


def setup(c):
    c.desc = 'Fees::{trading_fee, owner_trading_fee, owner_withdraw_fee, host_fee, validate} over all inputs.'
    c.bounds = ['amount: every u128', 'numerators and denominators: every u64', 'no loops']
    c.assume = ['release profile arithmetic (overflow wraps)']

    @c.oracle
    def fee_oracle(out, a):
        x, n, d = a
        r = parse_opt(out[0])
        if isinstance(r, str): return f'fee({x},{n}/{d}) aborts'
        w = pyfee(x, n, d)
        if r is None:
            return f'fee({x},{n}/{d}) not computed, expected {w}' if w is not None and x <= U64 else None
        if w is None or r[0] != w: return f'fee({x},{n}/{d}) = {r[0]}, expected {w}'
        if (n < d or (n == 0 and d == 0)) and r[0] > x: return f'fee({x},{n}/{d}) = {r[0]} exceeds the amount'

    @c.oracle
    def val_oracle(out, f):
        good = all((f[i] == 0 and f[i + 1] == 0) or f[i] < f[i + 1] for i in range(0, 8, 2))
        if (out[0] == 'ok') != good: return f'validate({f}) = {out[0]}'

    def one(kind):
        def f(s):
            fv, fd = s.fees()
            st = St(); r = s.X.alloc(st, fv)
            x = V('x', 0, U128)
            n, d = fd[FK[kind][1] + '_numerator'], fd[FK[kind][1] + '_denominator']
            rep = lambda m: ([f'fee {kind} {m["x"]} {feeline(m, fd)}'], 'fee_oracle', (m['x'], m[n.a], m[d.a]))
            zero = or_(eq(n, C(0)), eq(x, C(0)))
            for q, k, v in splitopt(s.call(TB + 'curve::fees::Fees::' + FK[kind][0], [Ref(r), x], st)):
                if k == 'panic': s.fail('never aborts', q.pc, rep); continue
                if k == 'none':
                    s.ob('reported only when not computable', q.pc + [le(x, C(U64))], and_(not_(zero), eq(d, C(0))), rep); continue
                s.ob('zero cases', q.pc + [zero], eq(v, C(0)), rep)
                xn = mul(x, n)
                s.ob('division by zero reported', q.pc + [not_(zero)], ne(d, C(0)), rep)
                s.ob('floor or one', q.pc + [not_(zero), ge(d, C(1))],
                     or_(and_(eq(v, C(1)), lt(xn, d)), and_(ge(v, C(1)), le(mul(v, d), xn), lt(xn, add(mul(v, d), d)))), rep)
                s.ob('within the amount', q.pc + [or_(lt(n, d), and_(eq(n, C(0)), eq(d, C(0))))], le(v, x), rep,
                     lemmas=[s.lem('mono', add(x, C(1)), v, d), s.lem('mono', n, d, x)] if not isc(v) else ())
                s.wit('computed', q.pc)
        return f
    for k in FK: c.scenario(k, one(k))

    def val(s):
        fv, fd = s.fees()
        st = St(); r = s.X.alloc(st, fv)
        good = and_(*[or_(and_(eq(fd[FEEF[i]], C(0)), eq(fd[FEEF[i + 1]], C(0))), lt(fd[FEEF[i]], fd[FEEF[i + 1]])) for i in range(0, 8, 2)])
        rep = lambda m: ([f'fval {feeline(m, fd)}'], 'val_oracle', fval(m, fd))
        kinds = set()
        for q, k, v in splitres(s.call(TB + 'curve::fees::Fees::validate', [Ref(r)], st)):
            if k == 'panic': s.fail('never aborts', q.pc, rep)
            elif k == 'ok': s.ob('accepts only valid schedules', q.pc, good, rep)
            else: s.ob('rejects only invalid schedules', q.pc, not_(good), rep)
            kinds.add(k)
    c.scenario('validate', val)
