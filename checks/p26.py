from common import *
import itertools

D = TB + 'dfs_precise_number::DFSPreciseNumber'
SB = D + '::sqrt_babylonian'
ONE = 10**18


def rootinvs(leaves, fixed):
    """candidate invariants of a loop that looks for the integer root of a loop-constant value"""
    out = []
    ints = [p for p, v in leaves if not v.isb]; bools = [p for p, v in leaves if v.isb]
    for x in fixed:
        for p in ints:
            out.append((f'(u+1)^2>x', lambda m, p=p, x=x: gt(mul(add(m[p], C(1)), add(m[p], C(1))), x)))
            out.append((f'u>=1 or x=0', lambda m, p=p, x=x: or_(ge(m[p], C(1)), eq(x, C(0)))))
            out.append((f'u<=x', lambda m, p=p, x=x: le(m[p], x)))
            out.append((f'u<=x/2+1', lambda m, p=p, x=x: le(mulc(2, m[p]), add(x, C(2)))))
            out.append((f'u^2<=x', lambda m, p=p, x=x: le(mul(m[p], m[p]), x)))
            for b in bools:
                for val in (0, 1):
                    out.append((f'flag={val} -> u^2<=x', lambda m, p=p, x=x, b=b, val=val: implies(m[b] if val else not_(m[b]), le(mul(m[p], m[p]), x))))
        for p, q in itertools.permutations(ints, 2):
            out.append((f'w>=u -> u^2<=x', lambda m, p=p, q=q, x=x: implies(ge(m[q], m[p]), le(mul(m[p], m[p]), x))))
            out.append((f'u<=w', lambda m, p=p, q=q: le(m[p], m[q])))
    return out


def setup(c):
    c.bounds = ['every 256-bit raw value', 'the Newton loop is cut at an inductive invariant found and proved by the solver, not unrolled']
    c.assume = ['the uint crate\'s 256-bit arithmetic is exact or reports overflow']

    c.desc = 'The loop in sqrt_babylonian is cut at an inductive invariant (found and proved by the solver) giving the exact integer root for every u64; sqrt_u64 is then run for every bit length of the raw value with that contract.'

    def h64(x): return '%064x' % x

    def isq(x, up):
        from math import isqrt
        r = isqrt(x)
        return r + 1 if up and r * r < x else r

    @c.oracle
    def sqrt_oracle(out, a):
        v, up = a
        o = out[0].split()
        if o[0] != 'some': return f'root of raw {v} rounded {"up" if up else "down"}: {out[0]}'
        r = int(o[1], 16); e = isq(v * ONE, up)
        w = None
        if up and r < e: w = 'below the root'
        if not up and r > e: w = 'above the root'
        if abs(r - e) * TOL > e + TOL: w = 'less than nine digits right'
        if v == 0 and r: w = 'not zero'
        if w: return f'root of raw {v} rounded {"up" if up else "down"} is raw {r}: {w} (exact root {e})'

    def spec(s, q, y, x, up, rep, lab=''):
        if up: s.ob(lab + 'least root at or above', q.pc, and_(ge(mul(y, y), x), or_(eq(y, C(0)), lt(mul(sub(y, C(1)), sub(y, C(1))), x))), rep)
        else: s.ob(lab + 'greatest root at or below', q.pc, and_(le(mul(y, y), x), gt(mul(add(y, C(1)), add(y, C(1))), x)), rep)

    def root(s, up):
        X = s.X; st = St()
        X.cut = lambda d: TB in d['name']; X.invs = rootinvs; X.ends = True
        x = V('x', 0, U64)
        # a raw value whose root is that of x: x itself padded to 64 bits when short
        rep = lambda m: ([f'dfs sqrt{"u" if up else "d"} {h64(m["x"])}'], 'sqrt_oracle', (m['x'], up))
        for q, k, v in splitopt(s.call(SB, [x, TRUE if up else FALSE], st)):
            if k == 'panic': s.fail('never aborts', q.pc, rep); continue
            if k == 'none': s.fail('always answers', q.pc, rep); continue
            s.wit('answers', q.pc)
            spec(s, q, v, x, up, rep)
        for n in X.loopnotes:
            if not n[2]: s.fail('the loop ends', [], None)
        s.notes = [f'{n[0].rsplit("::", 1)[1]}: invariant {n[1]}, terminates {n[2]}' for n in X.loopnotes]

    def sq(s, up, lo, hi):
        X = s.X; st = St()
        def hook(X_, q, args, d, t):
            if len(args) != 2 or not isinstance(args[0], T): return NotImplemented
            x, u = args
            if not (u is TRUE or u is FALSE): return NotImplemented
            if isc(x): return some(C(isq(x.a, u is TRUE)))
            q.aux['n'] = q.aux.get('n', 0) + 1
            y = V(f'root{q.aux["n"]}', 0, 1 << 32)
            q.pc += [ge(mul(y, y), x), or_(eq(y, C(0)), lt(mul(sub(y, C(1)), sub(y, C(1))), x))] if u is TRUE else [le(mul(y, y), x), gt(mul(add(y, C(1)), add(y, C(1))), x)]
            return some(y)
        if have: X.hooks[SB] = hook
        X.cut = lambda d: TB in d['name']; X.invs = rootinvs; X.ends = True
        v = V('v', lo, hi)
        r0 = X.alloc(st, s.struct(D, {'value': v}))
        rep = lambda m: ([f'dfs sqrt{"u" if up else "d"} {h64(m["v"])}'], 'sqrt_oracle', (m['v'], up))
        for q, k, z in splitopt(s.call(D + '::sqrt_u64', [Ref(r0), TRUE if up else FALSE], st)):
            if k == 'panic': s.fail('never aborts', q.pc, rep); continue
            if k == 'none': s.fail('always answers', q.pc, rep); continue
            s.wit('answers', q.pc)
            r = asint(X.field(z, X.tyfind(D), 'value'))
            e2 = mulc(ONE, v)            # square of the exact raw root
            s.ob('rounded up never below' if up else 'rounded down never above', q.pc, ge(mul(r, r), e2) if up else le(mul(r, r), e2), rep)
            # |r - e| <= e / TOL + 1
            if up:
                w = sub(mulc(TOL, r), C(TOL))          # (r - 1) TOL <= (TOL + 1) e
                s.ob('nine digits', q.pc, or_(le(r, C(1)), le(mul(w, w), mulc((TOL + 1) ** 2, e2))), rep)
            else:
                w = add(mulc(TOL, r), C(TOL))          # (r + 1) TOL >= (TOL - 1) e
                s.ob('nine digits', q.pc, ge(mul(w, w), mulc((TOL - 1) ** 2, e2)), rep)
        for n in X.loopnotes:
            if not n[2]: s.fail('the loop ends', [], None)
    have = SB in c.P.byname
    for up in (0, 1):
        if have: c.scenario(f'integer root {"up" if up else "down"}', lambda s, up=up: root(s, up))
        for i in range(0, 256, 16):
            c.scenario(f'root {"up" if up else "down"} of values of {i + 1}-{i + 16} bits', lambda s, up=up, i=i: sq(s, up, 0 if i == 0 else 1 << i, (1 << (i + 16)) - 1))


TOL = 2 * 10**8
