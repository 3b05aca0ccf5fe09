from common import *

D = TB + 'dfs_precise_number::DFSPreciseNumber'
ONE = 10**18
M = U256


def h64(x): return '%064x' % x


def parse(o):
    t = o.split()
    if t[0] == 'none': return None
    if t[0] == 'some': return int(t[1], 16)
    return o


def want(op, a, b, p, o):
    """what the property says about op on the raw values a, b (raw = value * 10^18); o: printed answer"""
    if o in ('panic', 'abort'): return 'aborts'
    if op in ('lt', 'gt', 'le', 'ge', 'aeq'):
        w = {'lt': a < b, 'gt': a > b, 'le': a <= b, 'ge': a >= b, 'aeq': abs(a - b) < p}[op]
        return None if o == str(w).lower() else f'says {o}'
    if op == 'usub':
        v, n = o.split()
        return None if (int(v, 16), n) == (abs(a - b), str(a < b).lower()) else f'gives {o}'
    if op == 'imp':
        r = parse_opt(o); w = (a + ONE // 2) // ONE
        if w > U128: return None if r is None else f'gives {r} beyond 128 bits'
        return None if r == [w] else f'gives {r}, expected {w}'
    r = parse(o)
    if op == 'new': return None if r == a * ONE else f'gives {r}'
    if op == 'add': return None if r == (a + b if a + b <= M else None) else f'gives {r}'
    if op == 'sub': return None if r == (a - b if a >= b else None) else f'gives {r}'
    if op == 'floor': return None if r == a // ONE * ONE else f'gives {r}'
    if op == 'ceil':
        w = -(-a // ONE) * ONE
        if r is None and a + ONE > M: return None
        return None if r == w else f'gives {r}, expected {w}'
    if op == 'mul':
        if a * b + ONE // 2 <= M: return None if r == (a * b + ONE // 2) // ONE else f'gives {r}'
        if r is None: return None
        return None if r * ONE <= a * b and a * b - r * ONE < ONE * max(1, min(a, b)) + ONE else f'gives {r}, more than the operand off'
    if op == 'div':
        if b == 0: return None if r is None else f'gives {r}'
        if b < ONE: return None
        if a * ONE + ONE // 2 <= M: return None if r is not None and abs(r * b - a * ONE) <= b else f'gives {r}'
        if r is None: return None
        return None if abs(r * b - a * ONE) <= b * ONE else f'gives {r}, more than one whole number off'
    if op == 'spl':
        if r is None: return None
        return None if abs(r * 10**6 - a) <= 10**6 else f'gives {r}e-12'


METH = {'new': 'new', 'imp': 'to_imprecise', 'floor': 'floor', 'ceil': 'ceiling', 'add': 'checked_add', 'sub': 'checked_sub', 'mul': 'checked_mul', 'div': 'checked_div',
        'usub': 'unsigned_sub', 'lt': 'less_than', 'gt': 'greater_than', 'le': 'less_than_or_equal', 'ge': 'greater_than_or_equal', 'aeq': 'almost_eq', 'spl': 'to_spl_precise_number'}
UN = ('imp', 'floor', 'ceil', 'spl')


def setup(c):
    c.desc = 'Every public operation of DFSPreciseNumber except the square root (P26); 256-bit integers are exact integers with overflow cases split.'
    c.bounds = ['every 256-bit operand (every 128-bit one for the constructor), raw value = number times 10^18', 'no loops']
    c.outside = ['products whose raw 512-bit product overflows and quotients whose scaled numerator overflows are only held to a coarser error', 'division by less than one']
    c.assume = ['the uint crate\'s 256-bit arithmetic is exact or reports overflow', 'release profile arithmetic (overflow wraps)']

    @c.oracle
    def dfs_oracle(out, a):
        w = want(*a, out[0])
        if w: return f'{a[0]} of raw {a[1]}, {a[2]}: {w}'

    def f(s, op):
        X = s.X; st = St()
        a = V('a', 0, U128 if op == 'new' else U256); b = V('b', 0, U256); p = V('p', 0, U256)
        one = C(ONE); half = C(ONE // 2)
        def num(v): return s.struct(D, {'value': v})
        ra = Ref(X.alloc(st, num(a))); rb = Ref(X.alloc(st, num(b)))
        args = [a] if op == 'new' else [ra] if op in UN else [ra, rb] + ([p] if op == 'aeq' else [])
        rep = lambda m: ([f'dfs {op} ' + (str(m['a']) if op == 'new' else ' '.join([h64(m['a'])] + ([h64(m['b'])] if op not in UN else []) + ([h64(m['p'])] if op == 'aeq' else [])))],
                         'dfs_oracle', (op, m['a'], m['b'], m['p']))
        outs = s.call(D + '::' + METH[op], args, st)
        ab = ite(lt(a, b), sub(b, a), sub(a, b))
        if op in ('lt', 'gt', 'le', 'ge', 'aeq'):
            w = {'lt': lt(a, b), 'gt': gt(a, b), 'le': le(a, b), 'ge': ge(a, b), 'aeq': lt(ab, p)}[op]
            for q, k, v in outs:
                if k == 'panic': s.fail('never aborts', q.pc, rep)
                else: s.ob('agrees with the values', q.pc, iff(v, w), rep); s.wit('answers', q.pc)
            return
        if op == 'usub':
            for q, k, v in outs:
                if k == 'panic': s.fail('never aborts', q.pc, rep); continue
                s.wit('answers', q.pc)
                s.ob('difference and sign', q.pc, and_(eq(X.field(v.f[0], X.tyfind(D), 'value'), ab), iff(v.f[1], lt(a, b))), rep)
            return
        for q, k, v in splitopt(outs):
            if k == 'panic': s.fail('never aborts', q.pc, rep); continue
            if k == 'some':
                s.wit('answers', q.pc)
                r = v if op == 'imp' else X.field(v, X.tyfind(PN if op == 'spl' else D), 'value')
                r = asint(r)
            else:
                s.wit('reports failure', q.pc)
                r = None
            no = FALSE if r is None else None
            def g(lab, t): s.ob(lab, q.pc, t, rep)
            if op == 'new': g('exact', no or eq(r, mulc(ONE, a)))
            elif op == 'add': g('exact or overflow reported', gt(add(a, b), C(M)) if r is None else eq(r, add(a, b)))
            elif op == 'sub': g('exact or underflow reported', lt(a, b) if r is None else eq(r, sub(a, b)))
            elif op == 'floor': g('whole number below', no or eq(r, mulc(ONE, div(a, one))))
            elif op == 'ceil': g('whole number above or overflow reported', gt(add(a, one), C(M)) if r is None else eq(r, mulc(ONE, div(add(a, C(ONE - 1)), one))))
            elif op == 'imp':
                w = div(add(a, half), one)
                g('rounded half up, or beyond 128 bits reported', gt(w, C(U128)) if r is None else and_(eq(r, w), le(r, C(U128))))
            elif op == 'mul':
                P = mul(a, b); fits = le(add(P, half), C(M))
                if r is None: g('failure only beyond 256 bits', not_(fits)); continue
                g('rounded to nearest', implies(fits, and_(le(mulc(ONE, r), add(P, half)), lt(add(P, half), add(mulc(ONE, r), one)))))
                lo, hi = (b, a)
                for x, y in ((a, b), (b, a)):
                    # r = floor(max / ONE) * min
                    s.ob('beyond 256 bits at most the product and within the smaller operand', q.pc + [not_(fits), le(x, y)],
                         and_(le(mulc(ONE, r), P), lt(P, add(add(mulc(ONE, r), mulc(ONE, x)), one))), rep,
                         lemmas=[s.lem('mono', mulc(ONE, div(y, one)), y, x), s.lem('smono', y, mulc(ONE, add(div(y, one), C(1))), x), s.lem('mono', y, mulc(ONE, add(div(y, one), C(1))), x)])
            elif op == 'div':
                fits = le(add(mulc(ONE, a), half), C(M))
                if r is None: g('failure only for zero or beyond 256 bits', or_(eq(b, C(0)), not_(fits))); continue
                g('never for a zero divisor', gt(b, C(0)))
                rb_ = mul(r, b)
                g('within one unit of the last decimal', implies(and_(fits, ge(b, one)), and_(le(sub(rb_, mulc(ONE, a)), b), le(sub(mulc(ONE, a), rb_), b))))
                g('beyond 256 bits within one whole number', implies(and_(not_(fits), ge(b, one)), and_(le(sub(rb_, mulc(ONE, a)), mulc(ONE, b)), le(sub(mulc(ONE, a), rb_), mulc(ONE, b)))))
            elif op == 'spl':
                if r is None: g('failure only beyond the range of the other type', gt(a, C(U128 // 2 * ONE))); continue
                g('same number to its last decimal', and_(le(sub(mulc(10**6, r), a), C(10**6)), le(sub(a, mulc(10**6, r)), C(10**6))))
    for op in METH: c.scenario(op, lambda s, op=op: f(s, op))


PN = 'spl_math::precise_number::PreciseNumber'
