from common import *


def py_p2t(kind, par, x, s, A, B, ceil):
    """-> allowed answers test"""
    if kind == 'cpr': tvv = (A + B * par[0]) // 2; sides = [(x * tvv, s), (x * tvv, s * par[0])]
    else: sides = [(x * A, s), (x * (B + (par[0] if kind == 'offset' else 0)), s)]
    return sides


def share_ok(v, num, den, ceil):
    if ceil: return and_(or_(and_(eq(v, C(0)), lt(num, den)), ge(mul(v, den), num)), lt(mul(v, den), add(num, den)))
    return and_(le(mul(v, den), num), lt(num, mul(add(v, C(1)), den)))


def setup(c):
    c.desc = 'pool_tokens_to_trading_tokens of the constant product, constant price, offset and stable calculators, both rounding directions, against the exact rational share. The share of a constant-price pool is of its normalised value floor((A + B*price)/2), half in each token.'
    c.bounds = ['pool tokens, supply, balances and curve parameters: every u64', 'supply at least 1', 'no loops']
    c.assume = ['release profile arithmetic (overflow wraps)']
    c.outside = ['the linear curve refuses every conversion (P11)']

    @c.oracle
    def p2t_oracle(out, a):
        kind, par, x, sup, A, B, ceil = a
        r = parse_opt(out[0])
        if isinstance(r, str): return 'conversion aborts'
        if r is None: return None
        for v, (n, d), w in zip(r, py_p2t(kind, par, x, sup, A, B, ceil), 'AB'):
            if ceil and not ((v == 0 and n < d) or v * d >= n): return f'{kind}: {x} of {sup} pool tokens cost {v} of token {w}, share is {n}/{d}'
            if ceil and v * d >= n + d: return f'{kind}: {x} of {sup} pool tokens cost {v} of token {w}, a whole token above the share {n}/{d}'
            if not ceil and not (v * d <= n < (v + 1) * d): return f'{kind}: {x} of {sup} pool tokens give {v} of token {w}, share is {n}/{d}'

    @c.oracle
    def refuse_oracle(out, a):
        if out[0] == 'none' or out[0] in ('panic', 'abort'): return f'conversion {a} refused'

    def f(s, kind, ceil):
        X = s.X; st = St()
        cv, cd = s.curve(kind, lo=1)
        r = X.alloc(st, cv)
        x, sup, A, B_ = V('x', 0, U64), V('sup', 1, U64), V('A', 0, U64), V('B', 0, U64)
        par = list(cd.values())
        def rep(m):
            a = (kind, [max(1, m[q.a]) for q in par], m['x'], max(1, m['sup']), m['A'], m['B'], ceil)
            return ([f'p2t {":".join([kind] + [str(q) for q in a[1]])} {a[2]} {a[3]} {a[4]} {a[5]} {ceil}'], 'p2t_oracle', a)
        rep2 = lambda m: (rep(m)[0], 'refuse_oracle', rep(m)[2])
        if kind == 'cpr':
            tot = add(A, mul(B_, par[0])); tvv = div(tot, C(2))
            sides = [(mul(x, tvv), sup), (mul(x, tvv), mul(sup, par[0]))]
        else:
            sides = [(mul(x, A), sup), (mul(x, add(B_, par[0]) if kind == 'offset' else B_), sup)]
        w = []
        for q, k, v in splitopt(s.call(s.meth(kind, 'pool_tokens_to_trading_tokens'), [Ref(r), x, sup, A, B_, s.rnd(ceil)], st)):
            if k == 'panic':
                if kind != 'cpr': s.fail('never aborts', q.pc, rep2)
                continue
            if k == 'none':
                s.ob('refused only beyond 128 bits or below one token', q.pc, or_(*[gt(n, C(U128)) for n, _ in sides] + [lt(n, d) for n, d in sides]), rep2)
                continue
            a, b = structf(X, v, TTR, 'token_a_amount', 'token_b_amount')
            for y, (n, d), nm in zip((a, b), sides, 'AB'):
                s.ob(f'share of token {nm}', q.pc, share_ok(y, n, d, ceil), rep)
            w.append(q.pc)
        if not w: raise Unsupported('nothing is ever computed')
        s.wit('computed', w[0])
    for kind in ('cp', 'offset', 'stable', 'cpr'):
        for ceil in (0, 1): c.scenario(f'{kind} {"floor ceil".split()[ceil]}', lambda s, kind=kind, ceil=ceil: f(s, kind, ceil))
