from common import *


def setup(c):
    c.desc = ('SwapCurve::swap with a calculator of unknown behaviour (its answer is a free variable within its contract), so the accounting holds for any curve; '
              'then the contract itself (taken <= offered, paid <= held) on every real calculator that can be encoded, through SwapCurve::swap.')
    c.bounds = ['offered amount, balances, calculator answers and fee fields: every u64 (balances and answers below 2^127 in the any-curve scenarios)', 'no loops']
    c.assume = ['release profile arithmetic (overflow wraps)']
    c.outside = ['taken <= offered and paid <= held for the linear curve is P22 and for the stable curve P28']

    @c.oracle
    def acc_oracle(out, a):
        x, S, D, d, f, t, p = a
        r, calls = out[0].split(' # ')
        r = parse_opt(r)
        if isinstance(r, str): return 'trade aborts'
        tf, of = pyfee(x, f[0], f[1]), pyfee(x, f[2], f[3])
        bad = tf is None or of is None or tf + of > x
        if r is None:
            return None if bad or t is None or p > D else f'trade of {x} refused (fees {tf}+{of}, curve answered {t},{p}, balance {D})'
        if bad: return f'trade of {x} computed although fees are {tf}+{of}'
        if calls != f'swap,{x - tf - of},{S},{D},{d}': return f'trade of {x} with fees {tf}+{of} asks the curve {calls}'
        if t is None: return 'trade computed although the curve refused'
        w = [S + t + tf + of, D - p, t + tf + of, p, tf, of]
        if r != w: return f'trade of {x} on {S}/{D}: {r}, expected {w}'

    def acc(s, d):
        X = s.X; st = St()
        t, p = V('t', 0, (1 << 127) - 1), V('p', 0, (1 << 127) - 1)
        sc = X.alloc(st, ufcalc(s, st, {'swap_without_fees': lambda q, a: maybe(q, 'curve', s.struct(SWF, {'source_amount_swapped': t, 'destination_amount_swapped': p}))}))
        fv, fd = s.fees(); fr = X.alloc(st, fv)
        x = V('x', 0, U64); S_ = V('S', 0, (1 << 126)); D_ = V('D', 0, (1 << 126))
        def rep(m):
            no = 'curve' in m and not m['curve']
            return ([f'calls scs uf:{"none" if no else "%d:%d" % (m["t"], m["p"])} {m["x"]} {m["S"]} {m["D"]} {d} {feeline(m, fd)}'], 'acc_oracle',
                    (m['x'], m['S'], m['D'], d, fval(m, fd), None if no else m['t'], m['p']))
        tn, td, on, od = [fd[f] for f in FEEF[:4]]
        for q, k, v in splitopt(s.call(UFB + '::swap', [Ref(sc), x, S_, D_, s.dirv(d), Ref(fr)], st)):
            cl = q.aux.get('calls', ())
            if k == 'panic': s.fail('never aborts', q.pc, rep); continue
            if k == 'none':
                # a refusal needs a reason
                if BVar('curve') in [a.a[0] for a in q.pc if a.op == 'not'] : continue
                tf, of = V('tf', 0, U128), V('of', 0, U128)
                s.ob('refused only with a reason', q.pc + [isfee(tf, x, tn, td), isfee(of, x, on, od)], or_(gt(add(tf, of), x), gt(p, D_)), rep)
                continue
            if len(cl) != 1: s.fail('asks the curve once', q.pc, rep); continue
            s.wit('computed', q.pc)
            ns, nd, sw, dw, tf, of = structf(X, v, SRES, 'new_swap_source_amount', 'new_swap_destination_amount', 'source_amount_swapped', 'destination_amount_swapped', 'trade_fee', 'owner_fee')
            s.ob('trading fee on the full amount', q.pc, isfee(tf, x, tn, td), rep)
            s.ob('owner fee on the full amount', q.pc, isfee(of, x, on, od), rep)
            tot = add(tf, of)
            a = cl[0][1]
            s.ob('curve asked about the amount less fees on the given balances', q.pc,
                 and_(eq(a[0], sub(x, tot)), eq(a[1], S_), eq(a[2], D_), eqv(a[3], s.dirv(d))), rep)
            s.ob('taken = curve amount plus fees, added to the source balance', q.pc, and_(eq(sw, add(t, tot)), eq(ns, add(S_, sw))), rep)
            s.ob('paid = curve amount, removed from the destination balance', q.pc, and_(eq(dw, p), eq(nd, sub(D_, p)), ge(nd, C(0))), rep)
            s.ob('fees within the offer', q.pc, le(tot, x), rep)
    for d in (0, 1): c.scenario(f'any-curve dir{d}', lambda s, d=d: acc(s, d))

    @c.oracle
    def within_oracle(out, a):
        x, S, D = a
        r = parse_opt(out[0])
        if isinstance(r, str): return 'trade aborts'
        if r is None: return None
        if r[2] > x: return f'trade of {x} takes {r[2]}'
        if r[3] > D: return f'trade pays {r[3]} of {D}'
        if r[0] != S + r[2] or r[1] != D - r[3]: return 'new balances do not match'
        if r[3] == 0 or r[2] - r[4] - r[5] == 0: return f'takes {r[2]} and pays {r[3]}'

    def real(s, kind, d):
        X = s.X; st = St()
        cv, cd = s.curve(kind, lo=1)
        sc = X.alloc(st, s.scurve(st, kind, cv))
        fv, fd = s.fees(); fr = X.alloc(st, fv)
        x = V('x', 0, U64); S_ = V('S', 1, U64); D_ = V('D', 1, U64)
        rep = lambda m: ([f'scs {cline(kind, m, cd)} {m["x"]} {max(1, m["S"])} {max(1, m["D"])} {d} {feeline(m, fd)}'], 'within_oracle', (m['x'], max(1, m['S']), max(1, m['D'])))
        w = []
        for q, k, v in splitopt(s.call(UFB + '::swap', [Ref(sc), x, S_, D_, s.dirv(d), Ref(fr)], st)):
            if k == 'panic': s.fail('never aborts', q.pc, rep); continue
            if k == 'none': continue
            ns, nd, sw, dw, tf, of = structf(X, v, SRES, 'new_swap_source_amount', 'new_swap_destination_amount', 'source_amount_swapped', 'destination_amount_swapped', 'trade_fee', 'owner_fee')
            s.ob('takes at most the offer, pays at most the balance', q.pc, and_(le(sw, x), le(dw, D_)), rep)
            s.ob('something moves both ways net of fees', q.pc, and_(ge(dw, C(1)), gt(sw, add(tf, of))), rep)
            s.ob('balances follow', q.pc, and_(eq(ns, add(S_, sw)), eq(nd, sub(D_, dw))), rep)
            w.append(q.pc)
        if not w: raise Unsupported('no trade is ever computed')
        s.wit('trade', w[-1])
    for kind in ('cp', 'cpr', 'offset'):
        for d in (0, 1): c.scenario(f'{kind} dir{d}', lambda s, d=d, kind=kind: real(s, kind, d))
