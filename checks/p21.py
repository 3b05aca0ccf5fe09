from common import *


def half_oracle(c):
    @c.oracle
    def half_oracle(out, a):
        which, x, A, B, sup, d, f, t = a
        r, calls = out[0].split(' # ')
        r = parse_opt(r)
        if isinstance(r, str): return 'conversion aborts'
        if x == 0: return None if r == [0] else f'zero amount converts to {r}'
        fee = pyfee(max(1, x // 2), f[0], f[1])
        y = None if fee is None else x - fee if which == 'dep' else x + fee
        if y is not None and not 0 <= y <= U128: y = None
        if y is None: return None if r is None else f'{which} of {x} computed although the fee is {fee}'
        if calls != f'{which},{y},{A},{B},{sup},{d}': return f'{which} of {x} with half-amount fee {fee} asks the curve {calls}'
        if r != (None if t is None else [t]): return f'{which} of {x}: {r}, curve said {t}'


def run_half(s, which, d):
    X = s.X; st = St()
    meth, cm = {'dep': ('deposit_single_token_type', 'deposit_single_token_type'), 'wd': ('withdraw_single_token_type_exact_out',) * 2}[which]
    t = V('t', 0, U128)
    sc = X.alloc(st, ufcalc(s, st, {cm: lambda q, a: maybe(q, 'curve', t)}))
    fv, fd = s.fees(); fr = X.alloc(st, fv)
    x, A, B_, sup = V('x', 0, U64), V('A', 0, U64), V('B', 0, U64), V('sup', 0, U64)
    n, dn = fd[FEEF[0]], fd[FEEF[1]]

    def rep(m):
        no = 'curve' in m and not m['curve']
        return ([f'calls {"scd" if which == "dep" else "scw"} uf:{"none" if no else "%d:0" % m["t"]} {m["x"]} {m["A"]} {m["B"]} {m["sup"]} {d} {feeline(m, fd)}'],
                'half_oracle', (which, m['x'], m['A'], m['B'], m['sup'], d, fval(m, fd), None if no else m['t']))
    half = max_(C(1), div(x, C(2)))
    for q, k, v in splitopt(s.call(UFB + '::' + meth, [Ref(sc), x, A, B_, sup, s.dirv(d), Ref(fr)], st)):
        cl = q.aux.get('calls', ())
        if k == 'panic': s.fail('never aborts', q.pc, rep); continue
        if not cl:
            if k == 'none':
                fee = V('fee', 0, U128)
                s.ob('refused only when the fee cannot be taken', q.pc + [isfee(fee, half, n, dn)],
                     and_(ge(x, C(1)), gt(fee, x)) if which == 'dep' else FALSE, rep)
            else: s.ob('zero for zero', q.pc, and_(eq(x, C(0)), eq(v, C(0))), rep)
            continue
        if len(cl) != 1: s.fail('asks the curve once', q.pc, rep); continue
        a = cl[0][1]
        s.wit('asked', q.pc)
        s.ob('not asked about nothing', q.pc, ge(x, C(1)), rep)
        fee = sub(x, a[0]) if which == 'dep' else sub(a[0], x)
        s.ob('curve asked about the amount adjusted by the trading fee on half of it', q.pc,
             and_(isfee(fee, half, n, dn), ge(a[0], C(0)), eq(a[1], A), eq(a[2], B_), eq(a[3], sup), eqv(a[4], s.dirv(d))), rep)
        has = BVar('curve')
        if k == 'none': s.ob('refused only when the curve refuses', q.pc, not_(has), rep)
        else: s.ob('the answer is the curve\'s', q.pc, and_(has, eq(v, t)), rep)


def setup(c):
    c.desc = ('ConstantPriceCurve single-sided conversions against the exact share of A + B*price, and SwapCurve::{deposit_single_token_type, withdraw_single_token_type_exact_out} '
              'with a calculator of unknown behaviour: which amount (after the trading fee on half of it) the curve is asked about.')
    c.bounds = ['amounts, balances, supply, price (at least 1) and fee fields: every u64', 'no loops']
    c.assume = ['release profile arithmetic (overflow wraps)', 'an abort (answer beyond 128 bits) is a refusal: the transaction fails']
    half_oracle(c)
    for w in ('dep', 'wd'):
        for d in (0, 1): c.scenario(f'fee {w} dir{d}', lambda s, w=w, d=d: run_half(s, w, d))

    @c.oracle
    def share_oracle(out, a):
        which, P, x, A, B, sup, d = a
        r = parse_opt(out[0])
        if isinstance(r, str) or r is None:
            return None if A + B * P == 0 or sup * x * P > U128 or which == 'wd' and sup * x * (P if d else 1) < A + B * P else f'{which} of {x} refused'
        num = sup * x * (P if d else 1); V_ = A + B * P; m = r[0]
        if which == 'dep' and not m * V_ <= num < (m + 1) * V_: return f'deposit worth {num}/{V_} pool tokens mints {m}'
        if which == 'wd' and not (m * V_ >= num or m == 0 and num < V_): return f'withdrawal worth {num}/{V_} pool tokens burns {m}'
        if which == 'wd' and m and (m - 1) * V_ >= num: return f'withdrawal worth {num}/{V_} pool tokens burns {m}'

    def f(s, which, d):
        X = s.X; st = St()
        cv, cd = s.curve('cpr', lo=1); P = cd['token_b_price']
        r = X.alloc(st, cv)
        x, A, B_, sup = V('x', 0, U64), V('A', 0, U64), V('B', 0, U64), V('sup', 0, U64)
        rep = lambda m: ([f'{which} {cline("cpr", M({**m, P.a: max(1, m[P.a])}), cd)} {m["x"]} {m["A"]} {m["B"]} {m["sup"]} {d}'], 'share_oracle',
                         (which, max(1, m[P.a]), m['x'], m['A'], m['B'], m['sup'], d))
        meth = {'dep': 'deposit_single_token_type', 'wd': 'withdraw_single_token_type_exact_out'}[which]
        v_ = x if d == 0 else mul(x, P)
        num = mul(sup, v_); tot = add(A, mul(B_, P))
        w = 0
        for q, k, m in splitopt(s.call(s.meth('cpr', meth), [Ref(r), x, A, B_, sup, s.dirv(d)], st)):
            if k in ('panic', 'none'):
                s.ob('refused only for an empty pool, beyond 128 bits, or (burning) below one pool token', q.pc,
                     or_(eq(tot, C(0)), gt(num, C(U128)), lt(num, tot) if which == 'wd' else FALSE), rep); continue
            if which == 'dep': s.ob('mints the floored share', q.pc, and_(le(mul(m, tot), num), lt(num, mul(add(m, C(1)), tot))), rep)
            else:
                s.ob('burns at least the share', q.pc, or_(ge(mul(m, tot), num), and_(eq(m, C(0)), lt(num, tot))), rep)
                s.ob('burns less than one above the share', q.pc, or_(eq(m, C(0)), lt(mul(sub(m, C(1)), tot), num)), rep)
            s.wit('computed', q.pc)
    for w in ('dep', 'wd'):
        for d in (0, 1): c.scenario(f'share {w} dir{d}', lambda s, w=w, d=d: f(s, w, d))
