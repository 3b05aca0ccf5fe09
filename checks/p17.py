from common import *


def py_cp(x, S, D, t, p):
    """what a constant-product trade (taken t, paid p) on balances S, D must satisfy"""
    if p > D: return 'pays more than held'
    if t > x: return 'takes more than offered'
    if (S + t) * (D - p) < S * D: return f'product falls from {S * D} to {(S + t) * (D - p)}'
    if t == 0 or (S + t - 1) * (D - p) >= S * D: return f'{t} is not the least amount that pays {p}'
    if p == 0: return 'pays nothing'


def run_cp(s, kind, d, off=None, voff=None):
    """obligations on swap_without_fees of cp/offset in direction d (real balances S, D)"""
    X = s.X
    st = St()
    cv, cd = s.curve(kind, lo=1)
    r = X.alloc(st, cv)
    hi = U128 if kind == 'cp' else U64
    x = V('x', 0, hi); Sr = V('S', 0, hi); Dr = V('D', 0, hi)
    S_, D_ = Sr, Dr
    if kind == 'offset':
        o = cd['token_b_offset']
        if d == 0: D_ = add(Dr, o)
        else: S_ = add(Sr, o)
    rep = lambda m: ([f'swf {cline(kind, m, cd)} {m["x"]} {m["S"]} {m["D"]} {d}'], 'cp_oracle',
                     (m['x'], tv(m, S_), tv(m, D_)))
    n = 0
    for q, k, v in splitopt(s.call(s.meth(kind, 'swap_without_fees'), [Ref(r), x, Sr, Dr, s.dirv(d)], st)):
        pc = q.pc + [ge(S_, C(1)), ge(D_, C(1))]
        if k == 'panic': s.fail('never aborts', pc, rep); continue
        if k == 'none': continue
        t, p = structf(X, v, SWF, 'source_amount_swapped', 'destination_amount_swapped')
        s.wit('trade', pc)
        SD = mul(S_, D_); ns = add(S_, t); nd = sub(D_, p)
        s.ob('pays at most the balance and something', pc, and_(le(p, D_), ge(p, C(1))), rep)
        s.ob('takes at most the offer', pc, le(t, x), rep)
        s.ob('product never falls', pc, ge(mul(ns, nd), SD), rep)
        s.ob('least amount taken', pc, and_(ge(t, C(1)), lt(mul(sub(ns, C(1)), nd), SD)), rep)


def oracles(c):
    @c.oracle
    def cp_oracle(out, a):
        x, S, D = a
        r = parse_opt(out[0])
        if S == 0 or D == 0: return None
        if isinstance(r, str): return f'trade of {x} on {S}/{D} aborts'
        if r is None:
            return None
        w = py_cp(x, S, D, *r)
        if w: return f'trade of {x} on {S}/{D} -> {r}: {w}'


def setup(c):
    c.desc = 'ConstantProductCurve::swap_without_fees in both directions; the product and least-amount obligations are non-linear integer facts over the whole range.'
    c.bounds = ['offered amount and balances: every u128', 'balances at least 1 (a pool never reaches an empty side by trading: the product is positive and never falls)', 'no loops']
    c.assume = ['release profile arithmetic (overflow wraps)']
    oracles(c)
    for d in (0, 1): c.scenario(f'dir{d}', lambda s, d=d: run_cp(s, 'cp', d))
