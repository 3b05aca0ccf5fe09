from common import *

# Pool balances a and b have the StableSwap invariant D, the positive root of
#   f(D) = D^3 / (4 a b) + (L - 1) D - L (a + b),  L = 2 * amplifier


def upper(D, L, a, b):
    """4ab f(D + 1) > 0: the exact invariant of a and b is below D + 1"""
    u = add(D, C(1)); K = mulc(4, mul(a, b))
    return gt(add(mul(u, mul(u, u)), mul(mul(K, sub(L, C(1))), u)), mul(mul(K, L), add(a, b)))


def lower(D, L, x, y):
    """4xy f(D) < 0 with y one more than the balance: the exact invariant of x and y + 1 is above D"""
    w = add(y, C(1)); K = mulc(4, mul(x, w))
    return lt(add(mul(D, mul(D, D)), mul(mul(K, sub(L, C(1))), D)), mul(mul(K, L), add(x, w)))


def setup(c):
    c.desc = 'swap_without_fees, the single-sided conversions and the value of the stable calculator on full-width inputs. Its two Newton loops are run once and then cut at an invariant proved by the solver (polynomial reasoning); nothing is unrolled or sampled.'
    c.bounds = ['every amplifier, balance, amount and supply of 64 bits', 'loops cut at inductive invariants, so any number of iterations']
    c.assume = ['the uint crate\'s 256-bit arithmetic is exact or reports overflow', 'release profile arithmetic (overflow wraps)']
    c.outside = ['how closely an iteration that stops before it converges approximates the invariant from above (it favours the pool)']

    def exactroot(L, a, b, k=64):
        """the invariant of a and b times 2^k, rounded down"""
        lo, hi = 0, (a + b + 1) << k
        q = 4 * a * b
        while hi - lo > 1:
            m = (lo + hi) // 2
            if m ** 3 + (q * (L - 1) * m << (2 * k)) <= (q * L * (a + b)) << (3 * k): lo = m
            else: hi = m
        return lo

    @c.oracle
    def stable_oracle(out, a):
        amp, x, src, dst = a
        r = parse_opt(out[0])
        what = f'amplifier {amp}, vaults {src}/{dst}, {x} offered'
        if isinstance(r, str): return what + ': aborts'
        if r is None: return None
        t, g = r
        if t != x: return f'{what}: takes {t}'
        if g > dst: return f'{what}: pays {g}'
        L = 2 * amp; k = 64
        if L >= 1 << 64 or L == 0: return f'{what}: traded'
        if src == 0 or dst == 0: return None
        e = exactroot(L, src, dst) - (1 << k)
        if e <= 0: return None
        n, m = src + t, dst - g + 1
        q = 4 * n * m
        if e ** 3 + (q * (L - 1) * e << (2 * k)) >= (q * L * (n + m)) << (3 * k):
            return f'{what}: pays {g}, and the invariant falls from {(e >> k) + 1} to less than {(exactroot(L, n, m) >> k) + 1} even with one token put back'

    def rnd(R, b=64):
        n = R.randrange(1, b + 1); v = R.getrandbits(n)
        k = R.random()
        if k < .1: v = R.randrange(0, 4)
        elif k < .3: v = 10 ** R.randrange(0, 20)
        return v % (1 << 64)

    def swcase(R):
        amp = R.choice((1, 1, 2, 5, 85, 100, 1000, rnd(R)))
        src = max(1, rnd(R)); dst = max(1, rnd(R)) if R.random() < .4 else min((1 << 64) - 1, max(1, int(src * 10 ** R.uniform(-3, 3))))
        x = max(1, rnd(R)) if R.random() < .5 else max(1, int(src * 10 ** R.uniform(-6, 1)))
        if x + src >= 1 << 64: return None
        return [f'swf stable:{amp} {x} {src} {dst} {R.randrange(2)}'], 'stable_oracle', (amp, x, src, dst)

    def sscase(R):
        z = swcase(R)
        if z is None: return None
        amp, x, a, b = z[2]
        d = R.randrange(2); sup = max(1, rnd(R))
        if R.random() < .5: return ssline('dep', amp, x, a, b, sup, d)
        x = R.randrange(0, (b if d else a) + 1)
        return ssline('wd', amp, x, a, b, sup, d)
    c.search = lambda R: swcase(R) if R.random() < .6 else sscase(R)

    def vals(t):
        """numbers on the way to t that are not inputs"""
        return [z for z in walk([t] if isinstance(t, T) else t) if not z.isb and (z.op == 'div' or z.op == 'v' and z.a.startswith('hv!'))]

    def alike(pc, r):
        """r, and the quotients the path says are equal to it (a loop may leave on finding its value unchanged)"""
        yield r
        if isc(r): return
        ps = set(pc)
        for z in walk(list(pc)):
            if z.op == 'div' and not z.isb and z is not r and eq(z, r) in ps: yield z

    def trade(s, d, amp):
        X = s.X; st = St(); A, B, x = V('A', 1, U64), V('B', 1, U64), V('x', 0, U64)
        L = mulc(2, amp); K = mulc(4, mul(A, B)); N = add(A, x)

        def alg(pc, goal, **kw):
            return s.alg('one iteration', pc, goal, **kw)

        def upstep(pc, r):
            """r = floor((L S + 2 P) d / ((L - 1) d + 3 P)) with P K <= d^3"""
            return any(upstep1(pc, z) for z in alike(pc, r))

        def upstep1(pc, r):
            g = upper(r, L, A, B)
            if g in pc: return True
            if s.alg('starting value', pc, g, times=[(None, [C(1)])], squares=[sub(A, B), (sub(A, B), r)]): return True
            if r.op != 'div': return False
            inner = [z for z in walk(r.a) if z.op == 'div']
            u = add(r, C(1))
            ds = [z for z in vals(list(r.a)) if z.op == 'v'] + [add(A, B)]
            cs = [z.a[1] for z in inner if z.a[1].lo is not None and z.a[1].lo >= 0]
            for dd in ds:
                for P in inner:
                    F = le(mul(P, K), mul(dd, mul(dd, dd)))
                    if not alg(pc, F, divs=cs + [dd], times=[(None, [C(1)])]): continue
                    c1 = ge(mulc(2, dd), mulc(3, u)); c2 = lt(mulc(2, dd), mulc(3, u))
                    if alg(pc + [F, c1], g, divs=[K], times=[(None, [dd]), (c1, [mul(P, K)])]) and \
                       alg(pc + [F, c2], g, divs=[K], times=[(None, [dd])], pairs=[(F, c2)], squares=[(sub(u, dd), mul(u, dd)), (sub(u, dd), mul(dd, dd))]): return True
            return False

        def lowstep(pc, r, D):
            """r = floor((y^2 + c) / (2 y + b - D)) with b <= N + D / L, c > D^3 / (4 N L) - 1"""
            return any(lowstep1(pc, z, D) for z in alike(pc, r))

        def lowstep1(pc, r, D):
            g = lower(D, L, N, r)
            if g in pc: return True
            if r.op != 'div': return False
            u = add(r, C(1)); k = mulc(4, mul(N, L))
            for y in [z for z in vals(list(r.a)) if z.op == 'v'] + [D]:
                if alg(pc, g, divs=[k, mulc(4, mul(N, u))], times=[], squares=[(sub(u, y), k)]): return True
            return False

        def invs(leaves, fixed):
            out = []
            big = lambda v: not v.isb and v.hi is not None and v.hi > U64
            for p, v in leaves:
                if not big(v): continue
                out.append(('exact invariant below it plus one', lambda m, p=p: upper(m[p], L, A, B), lambda pc, m, p=p: upstep(pc, m[p])))
                for D in fixed:
                    if big(D) and D is not N: out.append(('destination balance no smaller than the invariant asks, to one unit', lambda m, p=p, D=D: lower(D, L, N, m[p]), lambda pc, m, p=p, D=D: lowstep(pc, m[p], D)))
            return out
        X.cut = lambda dd: TB in dd['name']; X.peel = 1; X.short = 4; X.invs = invs
        rf = X.alloc(st, s.struct(CURVES['stable'][0], {'amp': amp}))
        rep = lambda m: ([f'swf stable:{tv(m, amp)} {m["x"]} {m["A"]} {m["B"]} {d}'], 'stable_oracle', (tv(m, amp), m['x'], m['A'], m['B']))
        n = 0
        for q, k, v in splitopt(s.call(s.meth('stable', 'swap_without_fees'), [Ref(rf), x, A, B, s.dirv(d)], st)):
            if k == 'none': continue
            if k == 'panic': s.fail('never aborts', q.pc, rep); continue
            t, g = structf(X, v, SWF, 'source_amount_swapped', 'destination_amount_swapped')
            s.ob('takes exactly the offer', q.pc, eq(t, x), rep)
            s.ob('pays at most the vault', q.pc, le(g, B), rep)
            s.ob('amplifier in range', q.pc, and_(ge(amp, C(1)), le(L, C(U64))), rep)
            y = sub(B, g)
            Ds = [z for z in vals(q.pc) if upper(z, L, A, B) in q.pc] + [add(A, B)] + vals(q.pc)
            for D in Ds:
                if lowstep(q.pc, y, D) and upstep(q.pc, D): break
            else:
                s.undecided('the invariant of the new balances, with one more token, is above the old one less one')
            n += 1
        s.notes = [f'{z[0].rsplit("::", 1)[1]}: invariant {z[1]}' for z in X.loopnotes] + [f'{n} paths']

    def meaning(s):
        """upper and lower say what they mean: the exact invariants e0 of (A, B) and e1 of (N, y + 1) have e1 >= D >= e0 - 1"""
        e, D, L, a, b = V('e', 0, None), V('D', 0, None), V('L', 1, None), V('a', 1, None), V('b', 1, None)
        K = mulc(4, mul(a, b)); f = lambda z: add(mul(z, mul(z, z)), mul(mul(K, sub(L, C(1))), z))
        root = eq(f(e), mul(mul(K, L), add(a, b)))
        for lab, h, g in (('exact invariant below D + 1', upper(D, L, a, b), le(e, add(D, C(1)))),
                          ('exact invariant above D', lower(D, L, a, sub(b, C(1))), le(D, e))):
            u = add(D, C(1)) if 'below' in lab else D
            if not s.alg(lab, [root, h], g, real=True, times=[(None, [mul(u, u), mul(u, e), mul(e, e), mul(K, sub(L, C(1)))])]): s.undecided(lab)

    # -- single-sided conversions against the value the calculator itself reports -------------------

    ONE = 10 ** 12

    def ssline(op, amp, x, a, b, sup, d):
        a2, b2 = (a, b)
        if op == 'dep': a2, b2 = (a + x, b) if d == 0 else (a, b + x)
        else: a2, b2 = (a - x, b) if d == 0 else (a, b - x)
        if min(a2, b2) < 0 or max(a2, b2) >= 1 << 64: return None
        if d: a2, b2 = b2, a2        # the changed token goes first
        return [f'{op} stable:{amp} {x} {a} {b} {sup} {d}', f'nval stable:{amp} {a} {b}', f'nval stable:{amp} {a2} {b2}'], 'single_oracle', (op, amp, x, a, b, sup, d)

    @c.oracle
    def single_oracle(out, a):
        op, amp, x, A, B, sup, d = a
        o = [z.split() for z in out]
        what = f'{op} of {x} of token {"AB"[d]}, amplifier {amp}, vaults {A}/{B}, supply {sup}'
        if o[0][0] not in ('some', 'none'): return f'{what}: {out[0]}'
        if o[0][0] == 'none' or x == 0: return f'{what}: not zero' if x == 0 and o[0] != ['some', '0'] else None
        if o[1][0] != 'some' or o[2][0] != 'some': return f'{what}: computed without a value of the pool'
        m = int(o[0][1]); v0, v1 = int(o[1][1], 16), int(o[2][1], 16)
        diff = v1 - v0 if op == 'dep' else v0 - v1
        if diff < 0 or v0 == 0: return f'{what}: answers {m} for values {v0} and {v1}'
        if op == 'dep' and not m * v0 <= sup * diff < (m + 1) * v0: return f'{what}: mints {m}, value goes from {v0} to {v1}'
        if op == 'wd' and not (m * v0 * ONE >= sup * diff * ONE - v0 and (m - 1) * v0 < sup * diff): return f'{what}: burns {m}, value goes from {v0} to {v1}'

    def single(s, op, d):
        X = s.X; st = St()
        amp = add(V('amp0', 0, U64 - 1), C(1)); A, B, x, sup = V('A', 0, U64), V('B', 0, U64), V('x', 1, U64), V('sup', 0, U64)
        if op == 'dep': new = add((A, B)[d], x)
        else:
            new = V('rest', 0, U64); was = add(new, x); st.pc.append(le(was, C(U64)))
            A, B = (was, B) if d == 0 else (A, was)
        A2, B2 = (new, B) if d == 0 else (new, A)
        L = mulc(2, amp)

        def invs(leaves, fixed):
            out = []
            for p, v in leaves:
                if v.isb or v.hi is None or v.hi <= U64: continue
                for a, b in ((A, B), (A2, B2)):
                    out.append(('at most twice the sum of the balances', lambda m, p=p, a=a, b=b: le(m[p], mulc(2, add(a, b))), lambda pc, m, p=p, a=a, b=b: bound(pc, m[p], add(a, b))))
            return out

        def bound(pc, r, S_):
            return any(bound1(pc, z, S_) for z in alike(pc, r))

        def bound1(pc, r, S_):
            g = le(r, mulc(2, S_))
            if g in pc: return True
            if s.alg('starting value', pc, g): return True
            if r.op != 'div': return False
            inner = [z for z in walk(r.a) if z.op == 'div']
            for dd in [z for z in vals(list(r.a)) if z.op == 'v'] + [S_]:
                h = le(dd, mulc(2, S_))
                if dd is not S_ and h not in pc: continue
                for P in inner:
                    if s.alg('one iteration', pc, g, times=[(None, [mul(dd, sub(L, C(1))), P])] + ([(h, [P])] if dd is not S_ else [])): return True
            return False
        X.cut = lambda dd: TB in dd['name']; X.peel = 1; X.short = 4; X.invs = invs; X.loopmemo = {}
        rf = X.alloc(st, s.struct(CURVES['stable'][0], {'amp': amp}))
        rep = lambda m: ssline(op, tv(m, amp), m['x'], tv(m, A), tv(m, B), m['sup'], d)
        meth = {'dep': 'deposit_single_token_type', 'wd': 'withdraw_single_token_type_exact_out'}[op]
        PN = 'spl_math::precise_number::PreciseNumber'
        w = 0; seen = set()
        nv = lambda q, a, b: splitopt(s.call(s.meth('stable', 'normalized_value'), [Ref(rf), a, b], q))
        for q0, k0, v0 in nv(st, A, B):
            for q1, k1, v1 in nv(q0, A2, B2) if k0 == 'some' else [(q0, k0, None)]:
                for q, k, m in splitopt(s.call(s.meth('stable', meth), [Ref(rf), x, A, B, sup, s.dirv(d)], q1)):
                    if k != 'some': continue          # refused, or aborted: the transaction fails
                    if k0 != 'some' or k1 != 'some': s.undecided('computed without a value of the pool'); continue
                    r0, r1 = (asint(X.field(z, X.tyfind(PN), 'value')) for z in (v0, v1))
                    env = {}; hyps = []
                    for i, (r, S_) in enumerate(((r0, add(A, B)), (r1, add(A2, B2)))):
                        z = r.a[1][0][0] if r.op == 'lin' and len(r.a[1]) == 1 and r.a[0] == 0 else r
                        if isc(z): continue
                        if not bound(q.pc, z, S_): 
                            s.undecided('the value is at most twice the balances')
                        elif z not in env: env[z] = V(f'D{i}', 0, 2 * S_.hi)
                    r0, r1, m = (subst(z, env) for z in (r0, r1, m))
                    here = lambda z: all(y in env.values() or y is sup for y in walk([z]) if y.op in ('v', 'bv'))
                    hyps = [z for z in (subst(z, env) for z in q.pc) if here(z)]
                    key = (tuple(sorted(set(z.id for z in hyps))), r0, r1, m)
                    if key in seen: continue
                    seen.add(key); w += 1
                    diff = sub(r1, r0) if op == 'dep' else sub(r0, r1)
                    num = mul(sup, diff)
                    s.ob('only for a pool of some value', hyps, and_(ge(diff, C(0)), ge(r0, C(1))), rep)
                    if op == 'dep': s.ob('mints the floored share of the value added', hyps, and_(le(mul(m, r0), num), lt(num, mul(add(m, C(1)), r0))), rep)
                    else:
                        s.ob('burns at least the share of the value removed, to twelve digits', hyps, ge(mulc(ONE, mul(m, r0)), sub(mulc(ONE, num), r0)), rep)
                        s.ob('burns less than one above it', hyps, lt(mul(sub(m, C(1)), r0), num), rep)
                    s.wit('computed', hyps)
        s.notes = [f'{z[0].rsplit("::", 1)[1]}: invariant {sorted(set(z[1]))}' for z in X.loopnotes] + [f'{w} distinct paths']
        a0 = St(); rf0 = X.alloc(a0, s.struct(CURVES['stable'][0], {'amp': C(0)}))
        if d == 0:
            for q, k, m in splitopt(s.call(s.meth('stable', meth), [Ref(rf0), x, A, B, sup, s.dirv(d)], a0)):
                if k == 'some': s.ob('no amplifier, no conversion', q.pc + ([le(was, C(U64))] if op == 'wd' else []), eq(m, C(0)), lambda m: ssline(op, 0, m['x'], tv(m, A), tv(m, B), m['sup'], d))
        a1 = St(); am = V('amp', 0, U64); rf1 = X.alloc(a1, s.struct(CURVES['stable'][0], {'amp': am}))
        for q, k, m in splitopt(s.call(s.meth('stable', meth), [Ref(rf1), C(0), A, B, sup, s.dirv(d)], a1)):
            r_ = lambda m: ssline(op, m['amp'], 0, tv(m, A), tv(m, B), m['sup'], d)
            if k == 'some': s.ob('nothing for nothing', q.pc, eq(m, C(0)), r_)
            else: s.fail('nothing for nothing', q.pc, r_)

    for d in (0, 1): c.scenario(f'trade, direction {d}', lambda s, d=d: trade(s, d, V('amp', 1, U64)))
    c.scenario('trade, no amplifier', lambda s: trade(s, 0, C(0)))
    c.scenario('meaning of the bounds', meaning)
    for op in ('dep', 'wd'):
        for d in (0, 1): c.scenario(f'single {op}, token {"AB"[d]}', lambda s, op=op, d=d: single(s, op, d))
