"""shared pieces of the property checks"""
import sys, os
from lib import *

FK = {'trading': ('trading_fee', 'trade_fee'), 'owner_trading': ('owner_trading_fee', 'owner_trade_fee'),
      'owner_withdraw': ('owner_withdraw_fee', 'owner_withdraw_fee'), 'host': ('host_fee', 'host_fee')}


def feeline(m, d): return ' '.join(str(m[v.a] if not isc(v) else v.a) for v in (d[f] for f in FEEF))
def fval(m, d): return [m[d[f].a] if not isc(d[f]) else d[f].a for f in FEEF]


def is_some(v): return isc(v.vi) and v.vi.a == 1
def some_v(v): return v.p[1].f[0]
def is_ok(v): return isc(v.vi) and v.vi.a == 0


def pyfee(x, n, d):
    """the specified fee: None when it cannot be a number"""
    if n == 0 or x == 0: return 0
    if d == 0: return None
    return max(1, x * n // d)


def parse_opt(s):
    t = s.split()
    if t[0] == 'none': return None
    if t[0] == 'some': return [int(x) for x in t[1:]]
    return s


def tv(m, t):
    """value of a term under the model"""
    return evaluate(t, m)


def splitopt(outs):
    """-> list of (state, 'some'|'none'|'panic', payload) with symbolic discriminants split"""
    r = []
    for st, k, v in outs:
        if k == 'panic': r.append((st, 'panic', v)); continue
        if isc(v.vi): r.append((st, 'some' if v.vi.a == 1 else 'none', v.p[1].f[0] if v.vi.a == 1 else None)); continue
        a = st.copy(); a.pc.append(eq(v.vi, C(0))); r.append((a, 'none', None))
        b = st.copy(); b.pc.append(eq(v.vi, C(1))); r.append((b, 'some', v.p[1].f[0]))
    return r


def splitres(outs):
    r = []
    for st, k, v in outs:
        if k == 'panic': r.append((st, 'panic', v)); continue
        if isc(v.vi): r.append((st, 'ok' if v.vi.a == 0 else 'err', v.p.get(v.vi.a))); continue
        a = st.copy(); a.pc.append(eq(v.vi, C(0))); r.append((a, 'ok', v.p.get(0)))
        b = st.copy(); b.pc.append(eq(v.vi, C(1))); r.append((b, 'err', v.p.get(1)))
    return r


def structf(X, v, tyname, *names):
    t = X.tyfind(tyname)
    return [X.field(v, t, n) for n in names]


SWF = TB + 'curve::calculator::SwapWithoutFeesResult'
TTR = TB + 'curve::calculator::TradingTokenResult'
SRES = TB + 'curve::base::SwapResult'


def cline(kind, m, d):
    return ':'.join([kind] + [str(m[v.a]) if not isc(v) else str(v.a) for v in d.values()])


UFB = TB + 'curve::base::SwapCurve'


def virtname(virt): return virt.split('|')[0].rsplit('::', 1)[1]


def ufcalc(s, st, answers):
    """A calculator of unknown behaviour.  answers: {method: f() -> value}; calls are recorded in st.aux['calls'].
    Methods not listed run the real code of the constant-product calculator."""
    X = s.X

    def hook(X_, q, virt, ct, args, t):
        m = virtname(virt)
        if m not in answers: return NotImplemented
        q.aux['calls'] = q.aux.get('calls', ()) + ((m, tuple(args[1:])),)
        return answers[m](q, args[1:])
    X.virt_hook = hook
    return s.scurve(st, 'cp', UNIT)


def maybe(q, name, v):
    """Some(v) or None, both possible"""
    b = BVar(name)
    a = q.copy(); a.pc.append(not_(b)); q.pc.append(b)
    return [(q, 'ret', some(v)), (a, 'ret', NONE)]


def isfee(v, x, n, d):
    """v is the specified fee of amount x at n/d"""
    xn = mul(x, n)
    z = or_(eq(n, C(0)), eq(x, C(0)))
    return and_(implies(z, eq(v, C(0))),
                implies(not_(z), and_(ge(d, C(1)), or_(and_(eq(v, C(1)), lt(xn, d)), and_(ge(v, C(1)), le(mul(v, d), xn), lt(xn, add(mul(v, d), d)))))))


def nofee(x, n, d): return and_(ne(n, C(0)), ne(x, C(0)), eq(d, C(0)))
