from linear import *

PARTS = 6


def setup(c):
    c.search = lincase
    c.desc = 'swap_without_fees of the linear calculator, every path; its fixed-point arithmetic runs for real, its square root is replaced by the contract proved in P26.'
    c.bounds = ['every accepted curve (four u64 parameters, slope at least 10^-18), every u64 balance and amount', 'no loops']
    c.assume = ['sqrt_u64 rounds to the requested side of the exact root (P26)', 'release profile arithmetic (overflow wraps)']

    @c.oracle
    def lin_oracle(out, a):
        p, A, B, x, d = a
        r = parse_opt(out[0])
        what = f'{"buy" if d == 0 else "sale"} of {x} on curve {p} with vaults {A}/{B}'
        if isinstance(r, str): return what + ' aborts'
        if r is None: return None
        t, g = r; hold = B if d == 0 else A
        if t > x: return f'{what} takes {t}'
        if g > hold: return f'{what} pays {g}'
        if t == 0 or g == 0: return f'{what} takes {t} and pays {g}'
        if t != x and g != hold: return f'{what} takes {t} and pays {g} of {hold}'

    def f(s, d, part):
        L = Lin(s, d); rep = L.rep
        sn, sd, pn, pd = L.par
        hold = L.B if d == 0 else L.A
        i = -1
        for q, k, v in L.outs:
            if k == 'none': continue
            i += 1
            if i % (PARTS if d == 0 else 2) != part: continue
            if k == 'panic': s.fail('never aborts', q.pc, rep); continue
            t, g = structf(s.X, v, SWF, 'source_amount_swapped', 'destination_amount_swapped')
            s.ob('takes at most the offer and not nothing', q.pc, and_(le(t, L.x), ge(t, C(1))), rep)
            s.ob('pays something', q.pc, ge(g, C(1)), rep)
            s.ob('takes less than offered only when it pays everything', q.pc, or_(eq(t, L.x), eq(g, hold)), rep)
            lem = []
            if d == 0 and g is not hold: lem = buylem(L, q, g)
            if lem is not None: s.ob('pays at most the vault', q.pc, le(g, hold), rep, lemmas=lem)
            s.wit('trade', q.pc) if part == 0 and g is hold else None

    def buylem(L, q, g):
        """If it paid more than B, the position M = start + B would be affordable, so its collateral would be below the offer"""
        s = L.s; sn, sd, pn, pd = L.par
        roots = [r for r in q.aux.get('roots', ()) if not r[2]]
        if not roots: return []
        v2, r2, _ = roots[-1]
        a = add(L.A, L.x)
        at = L.at(q, roots[-1], a)
        if at is None: return []
        over = ge(g, add(L.B, C(1)))
        Rr = mul(mul(sd, pd), r2)
        rr = le(mul(r2, r2), mulc(U, v2))
        slope = q.pc[0]
        for M in cands(q, L.B):
            m = add(mul(mul(sn, pd), M), mulc(U, mul(sd, pn)))
            J = le(m, Rr)
            if not L.sample(q, implies(over, J)): continue
            if not s.alg('paying more than the vault reaches beyond the end of the curve', q.pc + [over], J, times=[(slope, [pd]), (over, [mul(sn, pd)])], divs=[sd, sn, pd, mul(sd, pd), mul(sn, pd)]): continue
            K = le(add(mul(mul(sn, mul(M, M)), pd), mulc(2 * U, mul(mul(M, sd), pn))), mulc(2 * U * U, mul(mul(sd, a), pd)))
            if not s.alg('and the collateral that position needs is below the offer', at + [J, rr], K,
                         times=[(J, [m, Rr]), (rr, [mul(mul(sd, sd), mul(pd, pd))]), (at[0], [mulc(U, sd)]), (None, [mul(sn, pd)])]): continue
            K0 = le(mul(sn, mul(M, M)), mulc(2 * U * U, mul(sd, a))); K1 = le(mul(M, pn), mulc(U, mul(a, pd)))
            if not all([s.alg('and the collateral that position needs is below the offer', [K], K0, times=[(None, [pd])]),
                        s.alg('and the collateral that position needs is below the offer', [K], K1, times=[(None, [sd])])]): continue
            near = L.resolve([h for h in q.pc if L.B in walk([h])], [K0, K1], 'the numbers on the way there fit', times=[(K0, [C(1), sn]), (None, [C(1), mul(sn, M), M, sd, pd])], tops=[(a, sd), (a, pd)])
            if L.refute('and the calculator would have seen that', near + [K, over], [C(1), sd, pd, mul(sd, pd)], divs=[sd, pd, mul(sd, pd), mulc(2, sd)], tops=[(L.x, mul(sd, pd))]): return None
        return []

    def cands(q, b):
        seen = []
        for t in walk(q.pc):
            if t.op == 'lin' and t.lo is not None and t.lo >= 0 and dict(t.a[1]).get(b) == U and t not in seen: seen.append(t)
        return seen + [mulc(U, b)]
    for d in (0, 1):
        for part in range(PARTS if d == 0 else 2): c.scenario(f'{"buy" if d == 0 else "sell"} part {part}', lambda s, d=d, part=part: f(s, d, part))
