"""the linear-price calculator: scenarios and facts shared by P22 and P23.

Fixed-point numbers are raw integers (value * U).  With slope m = sn/sd and starting price e = pn/pd the collateral
needed at position N (bonded tokens out) is I(N) = m N^2 / 2 + e N, and the price there is m N + e, so a balance A sits
at the position whose price p has p^2 = e^2 + 2 m A.  The calculator takes square roots of e^2 + 2 m a."""
from common import *
from math import isqrt

U = 10**18
D = TB + 'dfs_precise_number::DFSPreciseNumber'


def divs(ts): return [x for x in walk(ts) if x.op == 'div']


class Lin:
    def __init__(L, s, d):
        L.s = s; L.d = d
        X = s.X; st = St()
        X.hooks[D + '::sqrt_u64'] = L.sqrt
        X.merge_fns.append(lambda n: n.startswith(D + '::'))
        L.par = [V('sn', 1, U64), V('sd', 1, U64), V('pn', 0, U64), V('pd', 1, U64)]
        L.A, L.B, L.x = V('A', 0, U64), V('B', 0, U64), V('x', 0, U64)
        st.pc.append(le(L.par[1], mulc(U, L.par[0])))       # accepted slopes (P24)
        rf = X.alloc(st, s.struct(CURVES['lin'][0], dict(zip(CURVES['lin'][1], L.par))))
        S_, D_ = (L.A, L.B) if d == 0 else (L.B, L.A)
        L.outs = splitopt(s.call(s.meth('lin', 'swap_without_fees'), [Ref(rf), L.x, S_, D_, s.dirv(d)], st))
        L.vdone = {}

    def sqrt(L, X, q, args, dd, t):
        """contract of sqrt_u64 (P26): on the requested side of the exact root and within nine digits"""
        v = X.load(q, args[0])
        v = asint(X.field(v, X.tyfind(D), 'value'))
        up = args[1]
        if not (up is TRUE or up is FALSE): return NotImplemented
        rs = q.aux.get('roots', ())
        r = V(f'root{v.id}{"u" if up is TRUE else "d"}', 0, isqrt(v.hi * U) + isqrt(v.hi * U) // 10**8 + 2)
        q.pc.append(ge(mul(r, r), mulc(U, v)) if up is TRUE else le(mul(r, r), mulc(U, v)))
        q.pc.append(le(mul(r, r), add(mulc(4 * U, v), C(4))))
        q.aux['roots'] = rs + ((v, r, up is TRUE),)
        return some(L.s.struct(D, {'value': r}))

    def rep(L, m):
        sn, sd, pn, pd = (m[p.a] for p in L.par)
        p = [max(1, sn), max(1, sd), pn, max(1, pd)]
        a, b = (m['A'], m['B']) if L.d == 0 else (m['B'], m['A'])
        return ([swfline(p, m['x'], m['A'], m['B'], L.d)], 'lin_oracle', (p, m['A'], m['B'], m['x'], L.d))

    # -- facts ---------------------------------------------------------------------------------

    def target(L, a):
        """sd pd^2 U (e^2 + 2 m a)"""
        sn, sd, pn, pd = L.par
        return mulc(U, add(mulc(2, mul(mul(sn, a), mul(pd, pd))), mul(mul(pn, pn), sd)))

    def scaled(L, v):
        sn, sd, pn, pd = L.par
        return mul(mul(v, sd), mul(pd, pd))

    def facts(L, ts, mults):
        """q d <= n < (q + 1) d for every quotient in ts, times each multiplier"""
        out = []
        for x in divs(ts):
            n, dd = x.a
            for c in mults:
                out += [L.s.lem('mono', mul(x, dd), n, c), L.s.lem('mono', n, sub(add(mul(x, dd), dd), C(1)), c)]
        return out

    def at(L, q, root, a):
        """facts putting the root's argument at collateral a, or None if that cannot be shown"""
        v, r, up = root
        k = (v, a)
        if k not in L.vdone:
            sn, sd, pn, pd = L.par
            hi = le(L.scaled(v), L.target(a)); lo = ge(L.scaled(v), sub(L.target(a), mulc(2, mul(sd, mul(pd, pd)))))
            lem = L.facts([v], [mul(pd, pd), mul(pd, sd), sd, pd])
            ok = L.sample(q, hi) and L.sample(q, lo) and L.s.prove('square root taken at the stated balance', q.pc[:1], hi, lem) and L.s.prove('square root taken at the stated balance', q.pc[:1], lo, lem)
            L.vdone[k] = [hi, lo] if ok else None
        return L.vdone[k]

    def resolve(L, ts, hyps, label, **kw):
        """replace comparisons inside ts that the hypotheses decide by their values"""
        done = set(); env = {}; tim = kw.pop('times', [])
        neg_ = [t for f, t in tim if f is None]; tim = [x for x in tim if x[0] is not None]
        while True:
            at = [x for x in walk(ts) if x.op in ('le', 'eq') and x not in done and not any(y.op in ('ite', 'bite') for y in walk(x.a))]
            if not at: return ts
            for x in at:
                done.add(x)
                for r, g in ((TRUE, x), (FALSE, not_(x))):
                    if g.op == 'not': continue
                    if L.s.alg(label, hyps, g) or L.s.alg(label, hyps, g, times=tim + [(None, m) for m in neg_], **kw):
                        env[x] = r; env[not_(x)] = not_(r)
                        ts = [subst(t, env) for t in ts]; break
                else: continue
                break

    def refute(L, label, hyps, mults, depth=0, **kw):
        """no inputs satisfy hyps: one problem per way to satisfy their disjunctions, every hypothesis times every multiplier"""
        c = []; todo = list(hyps)
        while True:         # unit propagation
            flat = []
            for h in todo: flat += list(h.a) if h.op == 'and' else [not_(y) for y in h.a[0].a] if h.op == 'not' and h.a[0].op == 'or' else [h]
            env = {}
            for h in flat:
                if h.op in ('le', 'eq', 'not', 'bv'): env[h] = TRUE; env[not_(h)] = FALSE
            new = []
            for h in flat:
                e = {k: v for k, v in env.items() if k is not h and k is not not_(h)}
                g = subst(h, e) if any(k in e for k in walk([h])) else h
                if g is not TRUE and g not in new: new.append(g)
            if FALSE in new: return True
            if new == todo: break
            todo = new
        def alg():
            return L.s.alg(label, todo, FALSE, times=[(h, mults) for h in todo if h.op in ('le', 'eq')], **kw)
        for i, h in enumerate(todo):
            if h.op == 'or':
                return depth < 14 and all(L.refute(label, todo[:i] + todo[i + 1:] + [y], mults, depth + 1, **kw) for y in h.a)
        c = next((x.a[0] for x in walk(todo) if x.op in ('ite', 'bite') and x.a[0].op in ('le', 'eq', 'and', 'or', 'not')), None)
        if c is None: return alg()
        if alg(): return True
        return depth < 14 and all(L.refute(label, todo + [y], mults, depth + 1, **kw) for y in (c, not_(c)))

    def refute_real(L, label, hyps, goal, gm=(), mults=(), divs=True, **kw):
        """hyps imply goal, whose unknowns may be real; case split over the conditional terms in hyps"""
        return L.s.alg(label, hyps, goal, real=True, times=list(mults) + [(None, list(gm))], divs=divs, **kw)

    def settle(L, ts, label, mults, **kw):
        """replace comparisons inside the facts ts that the other facts decide"""
        done = set(); env = {}
        def norm(ts):
            while True:
                flat = []
                for t in ts: flat += list(t.a) if t.op == 'and' else [not_(y) for y in t.a[0].a] if t.op == 'not' and t.a[0].op == 'or' else [t]
                for t in flat:
                    if t.op in ('le', 'eq', 'not'): env[t] = TRUE; env[not_(t)] = FALSE
                new = []
                for t in flat:
                    if t in env: r = t
                    else: r = subst(t, env)
                    if r.op in ('le', 'eq', 'not') and r is not t and r in env: continue
                    if t in env and any(y in env and y is not t for y in walk(t.a)):
                        r = subst(t, {k: v for k, v in env.items() if k is not t and k is not not_(t)})
                    if r is not TRUE and r not in new: new.append(r)
                if new == ts: return ts
                ts = new
        ts = norm(list(ts))
        while True:
            at = [x for x in walk([y for t in ts for y in ([t] if t.op not in ('le', 'eq') else t.a)]) if x.op in ('le', 'eq') and x not in done and x not in env and not any(y.op in ('ite', 'bite') for y in walk(x.a))]
            if not at: return ts
            x = at[0]; done.add(x); done.add(not_(x))
            for y in (x, not_(x)):
                if L.s.alg(label, ts, y, **{k: v for k, v in kw.items() if k == 'divs'}) or L.refute(label, ts + [not_(y)], mults, **kw):
                    ts = norm(ts + [y]); break

    def sample(L, q, t, n=12):
        """t at a few concrete inputs; a filter before asking the solver"""
        import random
        R = random.Random(7)
        vs = {y.a for y in walk([t]) if y.op in ('v', 'bv')}
        for i in range(n):
            big = i % 3
            m = {'sn': R.randrange(1, 1 << (20, 40, 5)[big]), 'sd': R.randrange(1, 1 << (20, 5, 40)[big]), 'pn': R.randrange(0, 1 << 30), 'pd': R.randrange(1, 1 << 20),
                 'A': R.randrange(1, 1 << 40), 'B': R.randrange(1, 1 << 40), 'x': R.randrange(1, 1 << (20, 30, 40)[big])}
            for v, r, up in q.aux.get('roots', ()):
                w = evaluate(v, m); z = isqrt(w * U)
                m[r.a] = z + (1 if up and z * z < w * U else 0)
            if not all(k in m for k in vs): return True
            if not evaluate(t, m):
                if all(evaluate(p, m) for p in q.pc if all(y.a in m for y in walk([p]) if y.op in ('v', 'bv'))): return False
        return True


def swfline(p, x, A, B, d): return 'swf lin:%d:%d:%d:%d %d %d %d %d' % (*p, x, A if d == 0 else B, B if d == 0 else A, d)


def exact(p):
    from fractions import Fraction as F
    return F(p[0], p[1]), F(p[2], p[3])


def covered(p, A, B, x, d, t, g):
    """the price the collateral implies moves at least (buy) / at most (sale) by slope times the bonded tokens moved"""
    from fractions import Fraction as F
    m, e = exact(p); u = F(1, U)
    T0 = max(F(0), e * e + 2 * m * A - 2 * u)           # square of the price before, less rounding
    if d == 0:
        T1 = e * e + 2 * m * (A + t + (F(1, 2) + 3 * u if g == B else 0)); k = m * (g - u)
        if k <= 0: return True
        r = T1 - T0 - k * k                             # sqrt(T0) + k <= sqrt(T1)
        return r >= 0 and 4 * T0 * k * k <= r * r
    T1 = e * e + 2 * m * (A - g + 3 * u); k = m * (t + u + (F(1, 2) if g == A else 0))
    r = T0 - T1 - k * k                                 # sqrt(T0) <= sqrt(T1) + k
    return r <= 0 or r * r <= 4 * T1 * k * k


TOL = 2 * 10**8


def contract(s):
    """the upper bound used for roots rounded up follows from the nine digits of P26"""
    r, E = V('r', 0, None), V('E', 0, None)
    g = le(mul(r, r), add(mulc(4, E), C(4)))
    w = sub(mulc(TOL, r), C(TOL))
    if not s.alg('small roots', [le(r, C(1))], g, times=[(le(r, C(1)), [r])]): s.undecided('small roots')
    h = le(mul(w, w), mulc((TOL + 1) ** 2, E))
    if not s.alg('upper bound of a root rounded up', [h], g, squares=[sub(r, C(2))]): s.undecided('upper bound of a root rounded up')


def lincase(R):
    """a trade: curve, balances and amount of any magnitude, often placed where the curve runs out"""
    def rnd(b=64):
        k = R.random()
        if k < .2: return R.randrange(0, 4)
        n = R.randrange(1, b + 1); v = R.getrandbits(n)
        if k < .4: v = 10 ** R.randrange(0, 20)
        elif k < .5: v = (1 << n) - R.randrange(0, 2)
        return v % (1 << 64)
    b = R.choice((64, 64, 32, 16))
    sn, sd, pn, pd = max(1, rnd(b)), max(1, rnd(b)), rnd(b), max(1, rnd(b))
    if R.random() < .3: sd = min(sn * R.randrange(1, 1000), (1 << 64) - 1)
    if sn * U // sd < 1: return None
    d = R.randrange(2); B, x = rnd(b), max(1, rnd(b))
    if R.random() < .6:      # collateral for a chosen position
        N = rnd(R.choice((20, 32, 40, 63)))
        f = lambda n: sn * n * n // (2 * sd) + pn * n // pd
        A = f(N) + R.choice((0, 0, 1, -1, 2))
        if d == 0 and R.random() < .6: x = f(N + B) - A + R.randrange(-2, 3)
        elif d == 1 and R.random() < .6: x = N + R.randrange(-2, 3)
    else: A = rnd(b)
    if not (0 <= A < 1 << 64 and 0 <= B < 1 << 64 and 1 <= x < 1 << 64): return None
    p = [sn, sd, pn, pd]
    return [swfline(p, x, A, B, d)], 'lin_oracle', (p, A, B, x, d)
