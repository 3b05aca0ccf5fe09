"""Polynomial reasoning for obligations whose products the general solvers cannot bring together: every term is expanded
to a polynomial, each monomial becomes one real unknown bounded below by 0 where its factors are, hypotheses may be
multiplied by stated non-negative terms, and the resulting linear problem is decided by z3.  Only 'unsat' is used."""
import z3, time
from term import *
from smt import STAT


class Poly:
    def __init__(s):
        s.memo = {}; s.z = {}; s.side = []; s.seen = set(); s.atoms = {}; s.pos = set()

    def poly(s, t):
        """{monomial (tuple of atom ids): coefficient}"""
        r = s.memo.get(t)
        if r is None:
            for x in walk([t]):
                if x not in s.memo and not x.isb: s.memo[x] = s._p(x)
            r = s.memo[t]
        return r

    def _p(s, x):
        if x.op == 'c': return {(): x.a} if x.a else {}
        if x.op == 'lin':
            r = {(): x.a[0]} if x.a[0] else {}
            for y, k in x.a[1]:
                for m, c in s.memo[y].items():
                    r[m] = r.get(m, 0) + k * c
            return {m: c for m, c in r.items() if c}
        if x.op == 'mul': return s.times(s.memo[x.a[0]], s.memo[x.a[1]])
        s.atoms[x.id] = x
        return {(x.id,): 1}

    def times(s, p, q):
        r = {}
        for m, c in p.items():
            for n, d in q.items():
                k = tuple(sorted(m + n))
                r[k] = r.get(k, 0) + c * d
        return {m: c for m, c in r.items() if c}

    def mono(s, m):
        if m not in s.z:
            v = z3.Real('m!%d' % len(s.z))
            s.z[m] = v
            ts = [s.atoms[i] for i in m]
            lo = 1
            for t in ts: lo = None if lo is None or t.lo is None or t.lo < 0 else lo * t.lo
            if lo is not None: s.side.append(v >= lo)
            elif all(s.nonneg(t) for t in ts): s.side.append(v >= 0)
            elif len(ts) == 1 and ts[0].lo is not None: s.side.append(v >= ts[0].lo)
            elif all(m.count(i) % 2 == 0 for i in m): s.side.append(v >= 0)
            if lo is not None:
                hi = 1
                for t in ts: hi = None if hi is None or t.hi is None else hi * t.hi
                if hi is not None: s.side.append(v <= hi)
            elif len(ts) == 1 and ts[0].hi is not None: s.side.append(v <= ts[0].hi)
        return s.z[m]

    def nonneg(s, t):
        if t.lo is not None and t.lo >= 0 or t in s.pos: return True
        if t.op == 'lin': return t.a[0] >= 0 and all(k >= 0 and s.nonneg(y) for y, k in t.a[1])
        return t.op == 'mul' and all(s.nonneg(y) for y in t.a)

    def expr(s, p):
        return z3.Sum([z3.RealVal(c) if not m else c * s.mono(m) for m, c in p.items()]) if p else z3.RealVal(0)

    def sign(s, p, op):
        """p <= 0 or p == 0, the two sides separated"""
        l = s.expr({m: c for m, c in p.items() if c > 0}); r = s.expr({m: -c for m, c in p.items() if c < 0})
        return l <= r if op == 'le' else l < r if op == 'lt' else l == r

    def form(s, t):
        op = t.op
        if op == 'true': return z3.BoolVal(True)
        if op == 'false': return z3.BoolVal(False)
        if op in ('le', 'eq'): return s.sign(s.poly(t.a[0]), op)
        if op == 'not':
            y = t.a[0]
            return z3.Not(s.form(y))
        if op == 'and': return z3.And(*[s.form(y) for y in t.a])
        if op == 'or': return z3.Or(*[s.form(y) for y in t.a])
        if op == 'bv': return z3.Bool(t.a)
        return z3.Bool('b!%d' % t.id)                 # anything else: unconstrained

    def fact(s, t):
        """[(poly, 'le'|'eq')] conjuncts of t usable as polynomial facts"""
        if t.op == 'and': return [f for y in t.a for f in s.fact(y)]
        if t.op in ('le', 'eq'): return [(s.poly(t.a[0]), t.op)]
        if t.op == 'not' and t.a[0].op == 'or': return [f for y in t.a[0].a for f in s.fact(not_(y))]
        return []


def decide(hyps, goal, times=(), pairs=(), squares=(), tops=(), divs=True, timeout=20, real=False):
    """True if hyps imply goal.  times: (fact, [non-negative terms]); the fact GOAL stands for the negated goal;
    pairs: facts to multiply with each other; real: the goal's unknowns need not be integers (hypotheses stay as given); squares: terms whose square is non-negative, or (term, non-negative multiplier); tops: (bounded term, non-negative multiplier); divs: multipliers for the
    defining facts of quotients (True: none)"""
    S = Poly(); t0 = time.time(); nonneg = S.nonneg
    hs = set(h for x in hyps for h in ([x] + (list(x.a) if x.op == 'and' else [])))
    def divisor(d): return d.lo is not None and d.lo >= 1 or not_(eq(d, C(0))) in hs and (nonneg(d) or ge(d, C(0)) in hs)
    for x in walk(list(hyps) + [goal]):         # quotients of non-negative by positive numbers
        if x.op == 'div' and (x.lo is None or x.lo < 0) and nonneg(x.a[0]) and divisor(x.a[1]): S.pos.add(x)
    zs = [S.form(h) for h in hyps if h is not TRUE]
    ng = not_(goal)
    if real:            # unknowns of the goal need not be integers
        if goal.op != 'le': raise ValueError('goal')
        gf = [({m: -c for m, c in S.poly(goal.a[0]).items()}, 'lt')]
        zs.append(S.sign(*gf[0]))
    else:
        zs.append(S.form(ng)); gf = S.fact(ng)
    for f, ms in times:
        if f is not None and f not in hs and f is not TRUE: raise ValueError('not a hypothesis')
        for p, op in gf if f is None else S.fact(f):
            for m in ms:
                if op != 'eq' and not nonneg(m): raise ValueError('multiplier may be negative')
                zs.append(S.sign(S.times(p, S.poly(m)), 'le' if op == 'lt' and (m.lo or 0) < 1 else op))
    for f, g in pairs:
        for p, o1 in gf if f is None else S.fact(f):
            for q, o2 in gf if g is None else S.fact(g):
                r = S.times(p, q)
                zs.append(S.sign({m: -c for m, c in r.items()}, 'lt' if o1 == o2 == 'lt' else 'le') if 'eq' not in (o1, o2) else S.sign(r, 'eq'))
    for t in squares:
        t, k = t if isinstance(t, tuple) else (t, C(1))
        if not nonneg(k): raise ValueError('multiplier may be negative')
        p = S.poly(t); zs.append(S.sign({m: -c for m, c in S.times(S.times(p, p), S.poly(k)).items()}, 'le'))
    for t, m in tops:
        if not nonneg(m) or t.hi is None: raise ValueError('no bound')
        p = dict(S.poly(t)); p[()] = p.get((), 0) - t.hi
        zs.append(S.sign(S.times(p, S.poly(m)), 'le'))
    done = set()
    while True:
        new = [a for a in S.atoms.values() if a.op == 'div' and a.id not in done]
        if not new: break
        for a in new:
            done.add(a.id)
            n, d = a.a
            if not divisor(d): continue
            w = {m: -c for m, c in S.poly(d).items()}; w[()] = w.get((), 0) + 1
            zs.append(S.sign(w, 'le'))
            q = S.times(S.poly(a), S.poly(d)); P = S.poly(n)
            lo = {m: q.get(m, 0) - P.get(m, 0) for m in set(q) | set(P)}
            up = {m: -c for m, c in lo.items()}
            for m, c in S.poly(d).items(): up[m] = up.get(m, 0) - c
            up[()] = up.get((), 0) + 1
            for k in [C(1)] + (list(divs) if divs is not True else []):
                if not nonneg(k): raise ValueError('multiplier may be negative: %r %s %s' % (k, k.lo, k.op))
                kp = S.poly(k)
                zs.append(S.sign(S.times(lo, kp), 'le')); zs.append(S.sign(S.times(up, kp), 'le'))
    sv = z3.SolverFor('QF_LRA'); sv.set('timeout', int(timeout * 1000))
    for z in zs: sv.add(z)
    for z in S.side: sv.add(z)
    r = sv.check()
    dt = time.time() - t0
    STAT['queries'] += 1; STAT['solver_s'] += dt
    STAT['unsat' if r == z3.unsat else 'unknown'] += 1
    return r == z3.unsat, dt
