from linear import *
def nonneg(t): return t.lo is not None and t.lo >= 0

PARTS = 6
R = lambda n: V(n, 0, None)          # a non-negative real unknown


def setup(c):
    c.search = lincase
    c.scenario('root contract', contract)
    c.desc = 'swap_without_fees of the linear calculator, every path; its fixed-point arithmetic runs for real, its square root is replaced by the contract proved in P26. The exact prices before and after are real unknowns defined by their squares.'
    c.bounds = ['every accepted curve (four u64 parameters, slope at least 10^-18), every u64 balance and amount', 'no loops']
    c.assume = ['sqrt_u64 rounds to the requested side of the exact root and is within nine digits (P26)', 'release profile arithmetic (overflow wraps)',
                'tolerance: one unit of the eighteenth decimal on positions, two on the square of the starting price, half a token when a vault is exhausted']

    @c.oracle
    def lin_oracle(out, a):
        p, A, B, x, d = a
        r = parse_opt(out[0])
        what = f'{"buy" if d == 0 else "sale"} of {x} on curve {p} with collateral {A} and bonded {B}'
        if isinstance(r, str): return what + ' aborts'
        if r is None: return None
        t, g = r
        if not covered(p, A, B, x, d, t, g): return f'{what} takes {t} and pays {g}, more than the price integral covers'

    def f(s, d, part):
        L = Lin(s, d); rep = L.rep
        sn, sd, pn, pd = L.par
        hold = L.B if d == 0 else L.A
        i = -1
        for q, k, v in L.outs:
            if k == 'none': continue
            i += 1
            if i % (PARTS if d == 0 else 2) != part: continue
            if k == 'panic': s.fail('never aborts', q.pc, rep); continue
            t, g = structf(s.X, v, SWF, 'source_amount_swapped', 'destination_amount_swapped')
            s.wit('trade', q.pc) if part == 0 else None
            why = prove(L, q, t, g, g is hold)
            if why: s.undecided('the price integral covers the trade: ' + why)

    def sqle(L, label, hyps, a, b, k, times, **kw):
        """a <= b from a^2 <= b^2, which times k >= 1 follows from hyps"""
        A2 = le(mul(a, a), mul(b, b)); g = le(a, b)
        if not nonneg(b) or not k.lo >= 1: raise Unsupported('sign')
        if L.s.alg(label, hyps, A2, real=True, times=times + [(None, [k])], **kw) and L.s.alg(label, [A2], g, real=True, times=[(None, [b])], pairs=[(None, None)]): return g

    def prove(L, q, t, g, all_):
        """None, or the step that could not be shown"""
        s = L.s; sn, sd, pn, pd = L.par; d = L.d
        P0, P1 = R('P0'), R('P1')
        ups = [r for r in q.aux.get('roots', ()) if r[2]]; dns = [r for r in q.aux.get('roots', ()) if not r[2]]
        k2 = mul(sd, mul(pd, pd)); snp = mul(sn, mul(pd, pd))
        if not ups: return 'no starting position'
        at0 = L.at(q, ups[0], L.A)
        if at0 is None: return 'starting position'
        v0, r0, _ = ups[0]
        up = ge(mul(r0, r0), mulc(U, v0))
        # P0^2 <= U^2 (e^2 + 2mA) - 2U, or 0
        t0 = le(mul(mul(P0, P0), k2), mulc(U, sub(L.target(L.A), mulc(2, k2))))
        S0 = sqle(L, 'the starting price is not underestimated', [t0, up, at0[1]], P0, r0, k2, [(up, [k2]), (at0[1], [C(U)])])
        if S0 is None: return 'the starting price is not underestimated'
        # (P0 = 0 satisfies it as well)
        ites = lambda t: any(x.op in ('ite', 'bite') for x in walk([t]))
        T = V('taken', 0, U128) if ites(t) else t; G = V('paid', 0, U128) if ites(g) else g
        eqs = [eq(x, y) for x, y in ((T, t), (G, g)) if x is not y]
        pc = q.pc + eqs
        if d == 0 and not all_:
            if not dns: return 'no final position'
            v1, r1, _ = dns[-1]
            at1 = L.at(q, dns[-1], add(L.A, t))
            if at1 is None: return 'final position'
            dn = le(mul(r1, r1), mulc(U, v1))
            t1 = ge(mul(mul(P1, P1), k2), mulc(U, L.target(add(L.A, t))))
            S1 = sqle(L, 'the final price is not overestimated', [t1, dn, at1[0]], r1, P1, k2, [(dn, [k2]), (at1[0], [C(U)])])
            if S1 is None: return 'the final price is not overestimated'
            goal = le(mul(sn, sub(mulc(U, G), C(1))), mul(sd, sub(P1, P0)))
            if not L.refute_real('the price rises with every token paid', [S0, S1] + pc, goal, divs=[sn, sd], mults=[(S0, [sd]), (S1, [sd])] + [(h, [sd]) for h in q.pc if h.op == 'le' and r0 in walk([h]) and not any(x.op == 'mul' for x in walk([h]))]): return 'the price rises with every token paid'
            return None
        # the collateral left (or there, after a buy of everything) is worth at least that of position M
        if d == 0: a1 = add(mulc(2, mul(snp, mulc(U * U, add(L.A, T)))), add(mulc(U * U, snp), mulc(6 * U, snp)))
        else: a1 = add(mulc(2, mul(snp, mulc(U * U, sub(L.A, G)))), mulc(6 * U, snp))
        t1 = ge(mul(mul(P1, P1), k2), add(mulc(U * U, mul(mul(pn, pn), sd)), a1))
        if d == 1 and all_:
            S1 = sqle(L, 'the price never falls below the initial one', [t1], mulc(U, pn), mul(pd, P1), sd, [])
            if S1 is None: return 'the price never falls below the initial one'
            goal = le(mul(sd, sub(P0, P1)), mul(sn, add(mulc(U, T), C(U // 2 + 1))))
            if not L.refute_real('taking all collateral costs every token out', [S0, S1] + pc, goal, divs=[sn, sd, pd, mul(sn, pd), mul(sd, pd)], gm=[pd], mults=[(S0, [mul(sd, pd)]), (S1, [sd])]): return 'exhausted'
            return None
        lab = 'the numbers on the way there fit'
        ms = [y for M in cands(pc, sn) if not ites(M) and M.hi < 1 << 200 for y in (M, mul(sn, M), pn)]
        fs = L.settle(pc, lab, [C(1), sd, pd, mul(sd, pd)], divs=[sn, sd, pd, mul(sd, pd)] + ms)
        why = 'no position'
        for M in cands(fs, sn):
            # S: sn pd M + U sd pn >= its share of the price before
            m = add(mul(mul(sn, pd), M), mulc(U, mul(sd, pn)))
            rhs = add(mul(mul(sd, pd), P0), mulc(-1, mul(mul(sn, pd), add(mulc(U, T), C(1))))) if d == 1 else add(mul(mul(sd, pd), P0), mul(mul(sn, pd), sub(mulc(U, L.B), C(1))))
            g1 = le(rhs, m)
            r = L.refute_real('position after the trade', [S0] + fs, g1, divs=[sn, pd, sd, mul(sn, pd)], mults=[(S0, [mul(sd, pd)])] + [(h, [mul(sd, pd)]) for h in q.pc if h.op == 'le' and r0 in walk([h]) and not any(x.op == 'mul' for x in walk([h]))])
            if not r: continue
            why = 'collateral at that position'
            k = mul(sd, mul(pd, pd))
            A2 = le(mul(m, m), mul(mul(mul(mul(sd, sd), mul(pd, pd)), P1), P1))
            r = L.refute_real('collateral at that position', [t1] + fs, A2, divs=[snp, mul(snp, sd), mul(mul(sn, pd), sd)], mults=[(t1, [sd])] + [(e, [mul(snp, sd)]) for e in fs if e.op in ('eq', 'le')])
            if not r: continue
            why = 'price at that position'
            P = mul(mul(sd, pd), P1)
            A2 = le(mul(m, m), mul(P, P)); g2 = le(m, P)
            if not s.alg(why, [A2], g2, real=True, times=[(None, [P])], pairs=[(None, None)]): continue
            if not s.alg('the price moves with every token', [g1, g2], le(rhs, P), real=True): continue
            return None
        return why

    def cands(fs, sn):
        out = []
        for x in walk(fs):
            if x.op == 'mul' and sn in x.a:
                o = x.a[0] if x.a[1] is sn else x.a[1]
                for y in (o, mulc(U, o)):
                    if nonneg(y) and y not in out and y.op != 'v': out.append(y)
        return out
    for d in (0, 1):
        for part in range(PARTS if d == 0 else 2): c.scenario(f'{"buy" if d == 0 else "sell"} part {part}', lambda s, d=d, part=part: f(s, d, part))
