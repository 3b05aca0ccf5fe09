"""Hash-consed integer/boolean terms with interval analysis, and their SMT translation.

Integer terms denote mathematical integers.  `div`/`mod` are only ever built for a non-negative
dividend and a positive divisor (the executor forks on a zero divisor first).
"""
import itertools
from math import gcd

_tab = {}
_ids = itertools.count(1)
INF = None


class T:
    __slots__ = ('op', 'a', 'lo', 'hi', 'id', 'isb', 'smt')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o


def _mk(op, a, lo, hi, isb=False):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op; t.a = a; t.lo = lo; t.hi = hi; t.id = next(_ids); t.isb = isb; t.smt = None
        _tab[k] = t
    return t


def C(n):
    n = int(n)
    return _mk('c', n, n, n)


def V(name, lo, hi):
    """integer variable with inclusive bounds (lo/hi may be None)"""
    t = _mk('v', name, lo, hi)
    assert t.lo == lo and t.hi == hi, name
    return t


TRUE = _mk('true', (), None, None, True)
FALSE = _mk('false', (), None, None, True)


def B(x):
    return TRUE if x else FALSE


def BVar(name):
    return _mk('bv', name, None, None, True)


def isc(t):
    return t.op == 'c'


def val(t):
    return t.a


# ---- linear combinations ------------------------------------------------------------------

def _lin(t):
    """(const, {term: coef})"""
    if t.op == 'c': return t.a, {}
    if t.op == 'lin': return t.a[0], dict(t.a[1])
    return 0, {t: 1}


def _mklin(c, d):
    d = {t: k for t, k in d.items() if k != 0}
    if not d: return C(c)
    if c == 0 and len(d) == 1:
        (t, k), = d.items()
        if k == 1: return t
    items = tuple(sorted(d.items(), key=lambda x: x[0].id))
    key = ('lin', (c, items))
    r = _tab.get(key)
    if r is not None: return r
    lo = hi = c
    for t, k in items:
        l, h = (t.lo, t.hi) if k > 0 else (t.hi, t.lo)
        lo = None if lo is None or l is None else lo + k * l
        hi = None if hi is None or h is None else hi + k * h
    # x - y*(x div y)  and  x*y - ... are not tightened here
    return _mk('lin', (c, items), lo, hi)


def add(a, b):
    if a.op == 'c' and b.op == 'c': return C(a.a + b.a)
    if a.op == 'c' and a.a == 0: return b
    if b.op == 'c' and b.a == 0: return a
    c1, d1 = _lin(a); c2, d2 = _lin(b)
    for t, k in d2.items(): d1[t] = d1.get(t, 0) + k
    return _mklin(c1 + c2, d1)


def mulc(k, a):
    if k == 0: return C(0)
    if k == 1: return a
    if a.op == 'c': return C(k * a.a)
    c, d = _lin(a)
    return _mklin(c * k, {t: x * k for t, x in d.items()})


def neg(a): return mulc(-1, a)


def sub(a, b): return add(a, neg(b))


def _mulb(xs, ys):
    vs = []
    for x in xs:
        for y in ys:
            if x is None or y is None: return None, None
            vs.append(x * y)
    return min(vs), max(vs)


def mul(a, b):
    if a.op == 'c': return mulc(a.a, b)
    if b.op == 'c': return mulc(b.a, a)
    # pull out the common constant factor of a pure multiple (k*x)
    for p, q in ((a, b), (b, a)):
        if p.op == 'lin' and p.a[0] == 0 and len(p.a[1]) == 1:
            t, k = p.a[1][0]
            return mulc(k, mul(t, q))
        if p.op == 'ite' and p.a[1].op == 'c' and p.a[2].op == 'c':
            return ite(p.a[0], mulc(p.a[1].a, q), mulc(p.a[2].a, q))
    if a.id > b.id: a, b = b, a
    if a.lo is not None and b.lo is not None and a.lo >= 0 and b.lo >= 0:
        lo = a.lo * b.lo
        hi = None if a.hi is None or b.hi is None else a.hi * b.hi
    else:
        lo, hi = _mulb((a.lo, a.hi), (b.lo, b.hi))
    return _mk('mul', (a, b), lo, hi)


def div(a, b):
    """floor division, a >= 0, b > 0"""
    if b.op == 'c':
        k = b.a
        if k == 0: return _mk('divz', (a,), 0, None)
        if k == 1: return a
        if a.op == 'c': return C(a.a // k)
        if a.lo is not None and a.hi is not None and a.lo // k == a.hi // k: return C(a.lo // k)
        c, d = _lin(a)
        # split a = k*X + Y with 0 <= Y < k
        q = {}; r = {}
        for t, x in d.items():
            q[t] = x // k; r[t] = x - k * (x // k)
        qc = c // k; rc = c - k * qc
        Y = _mklin(rc, r)
        if Y.lo is not None and Y.hi is not None and Y.lo // k == Y.hi // k:
            return add(_mklin(qc, q), C(Y.lo // k))
        if d and a.op != 'div':
            g = k
            for x in d.values(): g = gcd(g, x)
            if g > 1: return div(_mklin(c // g, {t: x // g for t, x in d.items()}), C(k // g))   # the rest of c is below g
        if a.op == 'div' and a.a[1].op == 'c':
            return div(a.a[0], C(a.a[1].a * k))
        if a.op == 'ite' and (a.a[1].op == 'c' and a.a[2].op == 'c'):
            return ite(a.a[0], div(a.a[1], b), div(a.a[2], b))
        lo = 0 if a.lo is None else max(0, a.lo // k)
        hi = None if a.hi is None else a.hi // k
        return _mk('div', (a, b), lo, hi)
    if a.op == 'c' and a.a == 0: return C(0)
    if a is b: return C(1)
    if a.op == 'mul' and a.a[0] is b: return a.a[1]
    if a.op == 'mul' and a.a[1] is b: return a.a[0]
    if a.op == 'lin':
        # (k*x*b)/b
        c, d = _lin(a)
        if c == 0 and len(d) == 1:
            (t, k), = d.items()
            if t is b: return C(k)
            if t.op == 'mul' and b in t.a:
                o = t.a[1] if t.a[0] is b else t.a[0]
                return mulc(k, o)
    if b.op == 'lin':
        # (g*X + r) / (g*Y) with 0 <= r < g
        cb, db = _lin(b)
        ca, da = _lin(a)
        g = cb
        for x in db.values(): g = gcd(g, x)
        for x in da.values(): g = gcd(g, x)
        g = abs(g)
        if g > 1:
            return div(_mklin(ca // g, {t: x // g for t, x in da.items()}), _mklin(cb // g, {t: x // g for t, x in db.items()}))
    if a.hi is not None and b.lo is not None and a.hi < b.lo: return C(0)
    blo = 1 if b.lo is None or b.lo < 1 else b.lo
    hi = None if a.hi is None else a.hi // blo
    lo = 0
    if a.lo is not None and b.hi is not None and b.hi > 0: lo = a.lo // b.hi
    return _mk('div', (a, b), lo, hi)


def mod(a, b):
    if b.op == 'c':
        k = b.a
        if k == 0: return _mk('modz', (a,), 0, None)
        if a.op == 'c': return C(a.a % k)
        if a.lo is not None and a.hi is not None and a.lo >= 0 and a.hi < k: return a
    return sub(a, mul(b, div(a, b)))


def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if c.op == 'not': return ite(c.a[0], b, a)
    if a.isb:
        if a is TRUE and b is FALSE: return c
        if a is FALSE and b is TRUE: return not_(c)
        if a is TRUE: return or_(c, b)
        if a is FALSE: return and_(not_(c), b)
        if b is TRUE: return or_(not_(c), a)
        if b is FALSE: return and_(c, a)
        return _mk('bite', (c, a, b), None, None, True)
    lo = None if a.lo is None or b.lo is None else min(a.lo, b.lo)
    hi = None if a.hi is None or b.hi is None else max(a.hi, b.hi)
    return _mk('ite', (c, a, b), lo, hi)


def min_(a, b): return ite(le(a, b), a, b)
def max_(a, b): return ite(le(a, b), b, a)


# ---- bytes --------------------------------------------------------------------------------

def ext(x, off, n):
    """(x div 256^off) mod 256^n for x >= 0"""
    if x.op == 'c': return C((x.a >> (8 * off)) & ((1 << (8 * n)) - 1))
    if x.op == 'ext' and off + n <= x.a[2]:
        return ext(x.a[0], x.a[1] + off, n)
    if x.hi is not None:
        if x.hi < (1 << (8 * off)): return C(0)
        if off == 0 and x.hi < (1 << (8 * n)): return x
    if x.op == 'ite' and all(y.op == 'c' for y in x.a[1:]):
        return ite(x.a[0], ext(x.a[1], off, n), ext(x.a[2], off, n))
    if x.op == 'cat':
        # cat holds (pieces low-to-high) of (term, nbytes)
        pos = 0
        for t, m in x.a:
            if off >= pos and off + n <= pos + m: return ext(t, off - pos, n)
            pos += m
    hi = (1 << (8 * n)) - 1
    if x.hi is not None: hi = min(hi, x.hi >> (8 * off)) if x.hi < (1 << (8 * (off + n))) else hi
    return _mk('ext', (x, off, n), 0, hi)


def cat(pieces):
    """little-endian concatenation of (term, nbytes) pieces"""
    out = []
    for t, n in pieces:
        if t.op == 'cat':
            out.extend(t.a)
            m = sum(k for _, k in t.a)
            if m < n: out.append((C(0), n - m))
            elif m > n: raise ValueError('cat')
            continue
        out.append((t, n))
    res = []
    for t, n in out:
        if res:
            p, m = res[-1]
            if p.op == 'c' and t.op == 'c':
                res[-1] = (C(p.a + (t.a << (8 * m))), m + n); continue
            if p.op == 'ext' and t.op == 'ext' and p.a[0] is t.a[0] and p.a[1] + m == t.a[1] and p.a[2] == m and t.a[2] == n:
                res[-1] = (ext(p.a[0], p.a[1], m + n), m + n); continue
            # top of a value whose high part is zero by range
            if t.op == 'c' and t.a == 0 and p.hi is not None:
                res[-1] = (p, m + n); continue
            # low bytes of x followed by its remaining bytes
            if t.op == 'ext' and p.op == 'ext' and p.a[0] is t.a[0] and p.a[1] + m == t.a[1]:
                x = ext(p.a[0], p.a[1], m + n)
                res[-1] = (x, m + n); continue
        res.append((t, n))
    if len(res) == 1: return res[0][0]
    lo = 0; hi = 0; s = 0
    for t, n in res:
        hi += ((t.hi if t.hi is not None else (1 << (8 * n)) - 1) << s); s += 8 * n
    return _mk('cat', tuple(res), lo, hi)


# ---- booleans -----------------------------------------------------------------------------

def not_(a):
    if a is TRUE: return FALSE
    if a is FALSE: return TRUE
    if a.op == 'not': return a.a[0]
    if a.op == 'le':  # d <= 0  ->  1 - d <= 0
        return _le0(sub(C(1), a.a[0]))
    return _mk('not', (a,), None, None, True)


def and_(*xs):
    out = []
    seen = set()
    for x in xs:
        ys = x.a if x.op == 'and' else (x,)
        for y in ys:
            if y is FALSE: return FALSE
            if y is TRUE or y in seen: continue
            if not_(y) in seen: return FALSE
            seen.add(y); out.append(y)
    if not out: return TRUE
    if len(out) == 1: return out[0]
    return _mk('and', tuple(out), None, None, True)


def or_(*xs):
    out = []
    seen = set()
    for x in xs:
        ys = x.a if x.op == 'or' else (x,)
        for y in ys:
            if y is TRUE: return TRUE
            if y is FALSE or y in seen: continue
            if not_(y) in seen: return TRUE
            seen.add(y); out.append(y)
    if not out: return FALSE
    if len(out) == 1: return out[0]
    return _mk('or', tuple(out), None, None, True)


def implies(a, b): return or_(not_(a), b)
def iff(a, b): return ite(a, b, not_(b))


def _constleaves(t, d=0):
    if t.op == 'c': return True
    return t.op == 'ite' and d < 40 and _constleaves(t.a[1], d + 1) and _constleaves(t.a[2], d + 1)


def _pushite(f, t):
    if t.op == 'c': return f(t)
    return ite(t.a[0], _pushite(f, t.a[1]), _pushite(f, t.a[2]))


def _le0(d):
    """d <= 0"""
    if d.hi is not None and d.hi <= 0: return TRUE
    if d.lo is not None and d.lo > 0: return FALSE
    c, m = _lin(d)
    if len(m) == 1:
        (t, k), = m.items()
        if t.op == 'ite' and _constleaves(t):
            return _pushite(lambda x: B(c + k * x.a <= 0), t)
        if abs(k) != 1:  # k*t + c <= 0
            if k > 0: d = add(t, C(-((-c) // k)))
            else: d = add(neg(t), C(-((-c) // (-k))))
            if d.hi is not None and d.hi <= 0: return TRUE
            if d.lo is not None and d.lo > 0: return FALSE
    elif m:
        g = 0
        from math import gcd
        for k in m.values(): g = gcd(g, k)
        if g > 1:
            d = _mklin(-((-c) // g), {t: k // g for t, k in m.items()})
    return _mk('le', (d,), None, None, True)


def le(a, b): return _le0(sub(a, b))
def lt(a, b): return _le0(add(sub(a, b), C(1)))
def ge(a, b): return le(b, a)
def gt(a, b): return lt(b, a)


def eq(a, b):
    if a is b: return TRUE
    if a.isb:
        if a is TRUE: return b
        if b is TRUE: return a
        if a is FALSE: return not_(b)
        if b is FALSE: return not_(a)
        return ite(a, b, not_(b))
    if a.op == 'cat' or b.op == 'cat':
        r = _eqcat(a, b)
        if r is not None: return r
    d = sub(a, b)
    if d.op == 'c': return B(d.a == 0)
    if d.hi is not None and d.hi < 0: return FALSE
    if d.lo is not None and d.lo > 0: return FALSE
    c, m = _lin(d)
    if len(m) == 1:
        (t, k), = m.items()
        if c % k != 0: return FALSE
        if t.op == 'ite' and _constleaves(t):
            return _pushite(lambda x: B(c + k * x.a == 0), t)
        d = add(t, C(c // k))
    else:
        items = sorted(m.items(), key=lambda x: x[0].id)
        from math import gcd
        g = abs(items[0][1])
        for _, k in items: g = gcd(g, k)
        if c % g: return FALSE
        if items[0][1] < 0: g = -g
        d = _mklin(c // g, {t: k // g for t, k in items})
    return _mk('eq', (d,), None, None, True)


def _eqcat(a, b):
    def cuts(t):
        pos = 0; s = set()
        if t.op == 'cat':
            for _, n in t.a: pos += n; s.add(pos)
        return s, pos
    ca, na = cuts(a); cb, nb = cuts(b)
    n = max(na, nb)
    for t in (a, b):
        if t.op != 'cat' and (t.hi is None or t.lo is None or t.lo < 0 or t.hi >= (1 << (8 * n))):
            return None
    pts = sorted(ca | cb | {n})
    # only cut where both sides can be cut exactly
    out = []; p = 0
    for q in pts:
        x, y = ext(a, p, q - p), ext(b, p, q - p)
        if (a.op == 'cat' and x.op == 'ext' and x.a[0] is a) or (b.op == 'cat' and y.op == 'ext' and y.a[0] is b):
            continue
        out.append(eq(x, y)); p = q
    if p != n: return None
    return and_(*out)


def ne(a, b): return not_(eq(a, b))


def bit(b): return ite(b, C(1), C(0))


# ---- printing / evaluation ----------------------------------------------------------------

def show(t, d=0):
    if d > 12: return '…'
    op = t.op
    if op == 'c': return str(t.a) if abs(t.a) < 10**6 else hex(t.a)
    if op in ('v', 'bv'): return t.a
    if op == 'lin':
        return '(' + ' + '.join([f'{k}*{show(x, d+1)}' if k != 1 else show(x, d+1) for x, k in t.a[1]] + ([str(t.a[0])] if t.a[0] else [])) + ')'
    if op == 'cat': return 'cat(' + ','.join(f'{show(x, d+1)}:{n}' for x, n in t.a) + ')'
    if op == 'ext': return f'{show(t.a[0], d+1)}[{t.a[1]}+{t.a[2]}]'
    if op in ('true', 'false'): return op
    if op == 'uf': return f'{t.a[0]}(' + ','.join(show(x, d+1) for x in t.a[1:]) + ')'
    return f'{op}(' + ', '.join(show(x, d + 1) for x in t.a) + ')'


def uf(name, lo, hi, *args):
    """uninterpreted function application (bounded result)"""
    return _mk('uf', (name,) + args, lo, hi)


def ufb(name, *args):
    return _mk('ufb', (name,) + args, None, None, True)


def children(t):
    if t.op in ('c', 'v', 'bv', 'true', 'false'): return ()
    if t.op == 'lin': return tuple(x for x, _ in t.a[1])
    if t.op == 'cat': return tuple(x for x, _ in t.a)
    if t.op == 'ext': return (t.a[0],)
    if t.op in ('uf', 'ufb'): return t.a[1:]
    return t.a


def walk(roots):
    """post-order, each node once"""
    seen = set(); out = []
    st = [(r, False) for r in roots]
    while st:
        t, done = st.pop()
        if done: out.append(t); continue
        if t in seen: continue
        seen.add(t)
        st.append((t, True))
        for c in children(t):
            if c not in seen: st.append((c, False))
    return out


def evaluate(t, env, ufs=None):
    """evaluate under env: dict var name -> int/bool.  ufs: dict (name,args)->value"""
    m = {}
    for x in walk([t]):
        op = x.op
        if op == 'c': v = x.a
        elif op in ('v', 'bv'):
            v = env[x.a]
        elif op == 'true': v = True
        elif op == 'false': v = False
        elif op == 'lin': v = x.a[0] + sum(k * m[y] for y, k in x.a[1])
        elif op == 'mul': v = m[x.a[0]] * m[x.a[1]]
        elif op == 'div': v = m[x.a[0]] // m[x.a[1]] if m[x.a[1]] else 0
        elif op in ('ite', 'bite'): v = m[x.a[1]] if m[x.a[0]] else m[x.a[2]]
        elif op == 'ext': v = (m[x.a[0]] >> (8 * x.a[1])) & ((1 << (8 * x.a[2])) - 1)
        elif op == 'cat':
            v = 0; s = 0
            for y, n in x.a: v += m[y] << s; s += 8 * n
        elif op == 'not': v = not m[x.a[0]]
        elif op == 'and': v = all(m[y] for y in x.a)
        elif op == 'or': v = any(m[y] for y in x.a)
        elif op == 'le': v = m[x.a[0]] <= 0
        elif op == 'eq': v = m[x.a[0]] == 0
        elif op in ('uf', 'ufb'): v = ufs[(x.a[0],) + tuple(m[y] for y in x.a[1:])]
        else: raise ValueError(op)
        m[x] = v
    return m[t]


def subst(t, env):
    """rebuild t with variables (by name) or terms replaced: env maps T -> T"""
    m = {}
    for x in walk([t]):
        if x in env: m[x] = env[x]; continue
        op = x.op
        if op in ('c', 'v', 'bv', 'true', 'false'): r = x
        elif op == 'lin':
            r = C(x.a[0])
            for y, k in x.a[1]: r = add(r, mulc(k, m[y]))
        elif op == 'mul': r = mul(m[x.a[0]], m[x.a[1]])
        elif op == 'div': r = div(m[x.a[0]], m[x.a[1]])
        elif op in ('ite', 'bite'): r = ite(m[x.a[0]], m[x.a[1]], m[x.a[2]])
        elif op == 'ext': r = ext(m[x.a[0]], x.a[1], x.a[2])
        elif op == 'cat': r = cat([(m[y], n) for y, n in x.a])
        elif op == 'not': r = not_(m[x.a[0]])
        elif op == 'and': r = and_(*[m[y] for y in x.a])
        elif op == 'or': r = or_(*[m[y] for y in x.a])
        elif op == 'le': r = _le0(m[x.a[0]])
        elif op == 'eq': r = eq(m[x.a[0]], C(0))
        elif op == 'uf': r = uf(x.a[0], x.lo, x.hi, *[m[y] for y in x.a[1:]])
        elif op == 'ufb': r = ufb(x.a[0], *[m[y] for y in x.a[1:]])
        else: raise ValueError(op)
        m[x] = r
    return m[t]
