from common import *

PN = 'spl_math::precise_number::PreciseNumber'
E12 = 10**12


def setup(c):
    c.desc = 'deposit_single_token_type and withdraw_single_token_type_exact_out of the constant-product and offset calculators; the real 12-decimal arithmetic of the library runs, its square root is replaced by its contract.'
    c.bounds = ['every u64 amount, supply, balance and offset', 'no loops (the library\'s Newton loop is behind the contract)']
    c.assume = ['PreciseNumber::sqrt of raw b is between sqrt(b 10^12) - 1 and sqrt((b + 1) 10^12) + 1 raw and on the same side of 1 as b (confirmed on 200,000 random values, not proved; the library is not part of this repository)', 'release profile arithmetic (overflow wraps)']

    def bound(dep, x, Sd, P, m):
        """(label, claim) on ints or terms"""
        if dep:
            w = sub(mulc(E12, add(m, P)), mulc(2, P))
            up = le(mul(mul(w, w), Sd), mulc(E12, mul(mul(P, P), add(mulc(E12, add(Sd, x)), mulc(2, Sd)))))
            z = add(mulc(E12, add(add(m, C(1)), P)), mulc(2, P))
            lo = ge(mul(mul(z, z), Sd), mulc(E12, mul(mul(P, P), sub(mulc(E12, add(Sd, x)), mulc(2, Sd)))))
            return [('mints at most the square-root share', up), ('within one token of it', lo)]
        rest = sub(P, m)
        w = sub(mulc(E12, rest), mulc(2, P))
        up = or_(le(w, C(0)), le(mul(mul(w, w), Sd), mulc(E12, mul(mul(P, P), add(mulc(E12, sub(Sd, x)), mulc(3, Sd))))))
        z = add(mulc(E12, add(rest, C(1))), mulc(2, P))
        lo = ge(mul(mul(z, z), Sd), mulc(E12, mul(mul(P, P), sub(mulc(E12, sub(Sd, x)), mulc(2, Sd)))))
        return [('burns at least the square-root share', up), ('within one token of it', lo)]

    @c.oracle
    def ss_oracle(out, a):
        dep, x, Sd, P = a
        r = parse_opt(out[0])
        if isinstance(r, str): return f'{"deposit" if dep else "withdrawal"} of {x} on {Sd} with supply {P} aborts'
        if r is None: return f'{"deposit" if dep else "withdrawal"} of {x} on {Sd} with supply {P} is refused' if 1 <= Sd and (dep or x <= Sd) else None
        for lab, t in bound(dep, C(x), C(Sd), C(P), C(r[0])):
            if t is not TRUE: return f'{"deposit" if dep else "withdrawal"} of {x} on {Sd} with supply {P} is {r[0]} pool tokens: not {lab}'

    def f(s, kind, d, dep):
        X = s.X; st = St()

        def sqrt(X_, q, args, dd, t):
            b = X.load(q, args[0])
            b = asint(X.field(b, X.tyfind(PN), 'value'))
            q.aux['n'] = q.aux.get('n', 0) + 1
            r = V(f'root{q.aux["n"]}', 0, U128)
            q.aux['root'] = (b, r)
            lo = sub(r, C(1))
            q.pc += [or_(le(r, C(1)), le(mul(lo, lo), mulc(E12, add(b, C(1))))), ge(mul(add(r, C(1)), add(r, C(1))), mulc(E12, b)), implies(eq(b, C(0)), eq(r, C(0))), implies(ge(b, C(E12)), ge(r, C(E12))), implies(le(b, C(E12)), le(r, C(E12)))]
            return some(s.struct(PN, {'value': r}))
        X.hooks[PN + '::sqrt'] = sqrt
        cv, cd = s.curve(kind, lo=1)
        rf = X.alloc(st, cv)
        x = V('x', 1, U64); A = V('A', 0, U64); B = V('B', 0, U64); P = V('P', 1, U64)
        Be = add(B, cd['token_b_offset']) if kind == 'offset' else B
        Sd = A if d == 0 else Be
        rep = lambda m: ([f'{"dep" if dep else "wd"} {cline(kind, m, cd)} {m["x"] or 1} {m["A"]} {m["B"]} {m["P"] or 1} {d}'], 'ss_oracle', (dep, m['x'] or 1, tv(m, Sd), m['P'] or 1))
        for q, k, v in splitopt(s.call(s.meth(kind, 'deposit_single_token_type' if dep else 'withdraw_single_token_type_exact_out'), [Ref(rf), x, A, B, P, s.dirv(d)], st)):
            if k == 'panic': s.fail('never aborts', q.pc, rep); continue
            pc = q.pc + ([] if dep else [le(x, Sd)])
            if k == 'none': s.fail('always answers', pc + [ge(Sd, C(1))], rep); continue
            s.wit('answers', pc)
            m = v
            lem = []
            if 'root' in q.aux:
                b, r = q.aux['root']
                # (m + P) 10^12 <= P r, so ((m + P) 10^12 - 2P)^2 <= P^2 (r - 1)^2 <= P^2 (b + 1) 10^12, times Sd; likewise below
                rest = add(m, P) if dep else sub(P, m)
                PP = mul(P, P)
                r1 = sub(r, C(1)); r2 = add(r, C(1))
                w = sub(mulc(E12, rest), mulc(2, P)); z = add(mulc(E12, add(rest, C(1))), mulc(2, P))
                p1 = mul(P, r1); p2 = mul(P, r2)
                lem = [s.lem('mono2', w, p1, w, p1), s.lem('mono2', p2, z, p2, z),
                       s.lem('mono', mul(r1, r1), mulc(E12, add(b, C(1))), PP), s.lem('mono', mulc(E12, b), mul(r2, r2), PP),
                       s.lem('mono', mul(w, w), mulc(E12, mul(PP, add(b, C(1)))), Sd), s.lem('mono', mulc(E12, mul(PP, b)), mul(z, z), Sd)]
                bS = mul(b, Sd)
                up = add(mulc(E12, add(Sd, x)), Sd) if dep else add(mulc(E12, sub(Sd, x)), mulc(2, Sd))
                dn = sub(mulc(E12, add(Sd, x)), Sd) if dep else sub(mulc(E12, sub(Sd, x)), Sd)
                s.ob('the fraction is that of the right vault', pc, and_(le(bS, up), ge(bS, dn)), rep)
                lem += [s.lem('mono', bS, up, PP), s.lem('mono', dn, bS, PP), le(bS, up), ge(bS, dn)]
            for lab, t in bound(dep, x, Sd, P, m): s.ob(lab, pc, t, rep, lemmas=lem, timeout=60)
    for kind in ('cp', 'offset'):
        for d in (0, 1):
            for dep in (1, 0): c.scenario(f'{kind} {"deposit" if dep else "withdrawal"} of {"AB"[d]}', lambda s, kind=kind, d=d, dep=dep: f(s, kind, d, dep))
