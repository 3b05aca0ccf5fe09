"""The five user instructions: symbolic execution of the processor with symbolic accounts and an unknown curve,
the specification of every successful outcome (as terms) and the same specification in Python for native replay."""
from proc import *
from common import *

SLOTS = {
    'swap': [('swap', 'pool'), ('auth', 'raw'), ('uauth', 'raw'), ('src', 'token'), ('vs', 'token'), ('vd', 'token'), ('dst', 'token'), ('mint', 'mint'), ('fee', 'token'), ('tp', 'raw')],
    'dep': [('swap', 'pool'), ('auth', 'raw'), ('uauth', 'raw'), ('sa', 'token'), ('sb', 'token'), ('a', 'token'), ('b', 'token'), ('mint', 'mint'), ('dst', 'token'), ('tp', 'raw')],
    'wd': [('swap', 'pool'), ('auth', 'raw'), ('uauth', 'raw'), ('mint', 'mint'), ('src', 'token'), ('a', 'token'), ('b', 'token'), ('da', 'token'), ('db', 'token'), ('fee', 'token'), ('tp', 'raw')],
    'deps': [('swap', 'pool'), ('auth', 'raw'), ('uauth', 'raw'), ('src', 'token'), ('a', 'token'), ('b', 'token'), ('mint', 'mint'), ('dst', 'token'), ('tp', 'raw')],
    'wds': [('swap', 'pool'), ('auth', 'raw'), ('uauth', 'raw'), ('mint', 'mint'), ('src', 'token'), ('a', 'token'), ('b', 'token'), ('dst', 'token'), ('fee', 'token'), ('tp', 'raw')],
}
FN = {'swap': 'process_swap', 'dep': 'process_deposit_all_token_types', 'wd': 'process_withdraw_all_token_types',
      'deps': 'process_deposit_single_token_type_exact_amount_in', 'wds': 'process_withdraw_single_token_type_exact_amount_out'}
ARGS = {'swap': ['x', 'min'], 'dep': ['n', 'maxa', 'maxb'], 'wd': ['n', 'mina', 'minb'], 'deps': ['x', 'min'], 'wds': ['x', 'max']}
METH = {'swap_without_fees': ('swf', 2), 'pool_tokens_to_trading_tokens': ('p2t', 2), 'deposit_single_token_type': ('dep', 1), 'withdraw_single_token_type_exact_out': ('wd', 1)}
NPS = 1000000000
ROLE = {'AtoB': 0, 'BtoA': 1}


def slots(ins, host=False): return SLOTS[ins] + ([('host', 'token')] if host else [])


class Run:
    """all outcomes of one instruction on a pool with a curve of the given kind"""

    def __init__(self, s, ins, kind, host=False, args=None, real=None, cpar=None, init=TRUE, watch=False):
        self.s = s; self.ins = ins; self.kind = kind
        self.init = init
        P = self.P = Proc(s, slots(ins, host), kind, cpar, init=init)
        P.watch = watch
        if real: P.real_curve(list(METH))
        else:
            P.unknown_curve({
                'swap_without_fees': lambda t: s.struct(SWF, {'source_amount_swapped': V(t + '_t', 0, U128), 'destination_amount_swapped': V(t + '_p', 0, U128)}),
                'pool_tokens_to_trading_tokens': lambda t: s.struct(TTR, {'token_a_amount': V(t + '_a', 0, U128), 'token_b_amount': V(t + '_b', 0, U128)}),
                'deposit_single_token_type': lambda t: V(t, 0, U128),
                'withdraw_single_token_type_exact_out': lambda t: V(t, 0, U128)})
        self.args = {n: V('arg_' + n, 0, U64) for n in ARGS[ins]}
        for k, v in (args or {}).items(): self.args[k] = C(v)
        self.outs = P.run(FN[ins], list(self.args.values()))
        self.seen = {k for _, k, _ in self.outs}

    def oks(self): return [q for q, k, v in self.outs if k == 'ok']

    def K(self, n): return self.P.by[n].key

    # -- replay ------------------------------------------------------------------------------

    def want(self, q):
        w = {'pda': self.P.pda()}
        for i, (m, a, r) in enumerate(q.aux.get('calls', ())):
            for j, t in enumerate(self.flat(a)): w[f'call{i}.{j}'] = t
        return w

    def flat(self, a): return [x.vi if isinstance(x, En) else x for x in a]

    def replay(self, q, fail=None):
        def rep(m):
            fl = -1
            for i, e in enumerate(q.ev):
                if e.fail: fl = i
            line, m2, bump = self.P.line(m, self.ins, [tv(m2_, t) for m2_ in (m,) for t in self.args.values()], fl)
            P = self.P
            d = {'ins': self.ins, 'kind': self.kind, 'prog': tv(m2, P.prog), 'args': {k: tv(m2, t) for k, t in self.args.items()}, 'fail': fl, 'init': self.init is TRUE,
                 'bump': bump if bump is not None else tv(m2, P.bump), 'rec': {k: tv(m2, v) for k, v in P.rec.items()}, 'fees': [tv(m2, P.fd[f]) for f in FEEF],
                 'curve': ':'.join([self.kind] + [str(tv(m2, v)) for v in P.cd.values()]), 'acc': {}, 'order': [a.name for a in P.acc]}
            first = {}
            for a in P.acc:
                k = tv(m2, a.key)
                b = bytes(tv(m2, x) for x in a.bytes)
                if k in first:
                    # equal keys are one account: first owner, longest data (as the driver does)
                    f = first[k]
                    if len(b) > len(f['data']): f['data'] = b
                    d['acc'][a.name] = f
                else:
                    d['acc'][a.name] = first[k] = {'key': k, 'owner': tv(m2, a.owner), 'signer': bool(tv(m2, a.signer)), 'writable': bool(tv(m2, a.writable)), 'data': b}
            d['pda'] = m['pda']
            o = Native.run([f'pda {h32(d["prog"])} {h32(d["acc"]["swap"]["key"])}'])[0].split()
            d['pda'] = int.from_bytes(bytes.fromhex(o[0]), 'little')
            d['pdaok'] = int(o[1]) == d['bump']
            return [line], 'insn_oracle', d
        return rep

    def refine(self, q):
        def ref(m):
            facts = []; here = []
            for i, (meth, a, r) in enumerate(q.aux.get('calls', ())):
                cmd, n = METH[meth]
                fa = self.flat(a)
                vals = [m[f'call{i}.{j}'] if not isc(t) else t.a for j, t in enumerate(fa)]
                if any(not 0 <= v <= U128 for v in vals): continue
                hyp = and_(*[eq(t, C(v)) for t, v in zip(fa, vals)], *[eq(v, C(tv(m, v))) for v in self.P.cd.values()])
                curve = ':'.join([self.kind] + [str(tv(m, v)) for v in self.P.cd.values()])
                here.append(hyp)
                out = parse_opt(Native.run([f'{cmd} {curve} ' + ' '.join(map(str, vals))])[0])
                if isinstance(out, str): out = None
                if r is NONE:
                    if out is not None: facts.append(not_(hyp))
                else:
                    if out is None: facts.append(not_(hyp)); continue
                    v = some_v(r)
                    ts = [v] if n == 1 else structf(self.s.X, v, SWF if cmd == 'swf' else TTR, *(('source_amount_swapped', 'destination_amount_swapped') if cmd == 'swf' else ('token_a_amount', 'token_b_amount')))
                    cur = and_(*[eq(t, C(x)) for t, x in zip(ts, out)])
                    if all(tv(m, t) == x for t, x in zip(ts, out)): continue
                    facts.append(implies(hyp, cur))
            return facts, here
        return ref

    PAR = {'cp': [[]], 'cpr': [[2], [1], [7]], 'stable': [[100]], 'offset': [[1000000], [5]], 'lin': [[1, 2, 300, 7], [2, 1000, 5, 1]]}
    FEES = [[1, 100, 1, 50, 1, 40, 1, 5], [0, 0, 0, 0, 0, 0, 0, 0], [1, 100, 0, 1, 0, 1, 0, 1], [0, 1, 1, 20, 1, 10, 1, 3], [0, 1, 1, 1000000, 1, 1000000, 1, 2]]

    def pins(self):
        P = self.P; out = []
        bal = {'swap': ('vs', 'vd')}.get(self.ins, ('a', 'b'))
        A, B_ = P.by[bal[0]]['amount'], P.by[bal[1]]['amount']
        sup = P.by['mint']['supply']
        amt = self.args['x' if 'x' in self.args else 'n']
        for par in self.PAR[self.kind]:
            for fs in self.FEES:
                for a, b, sp, x in ((3000000, 1000000, 1000000000, 50000), (1000000, 3000000, 2000000, 5000), (1000000, 1000000, 1000, 10), (40000, 5000000, 0, 5000), (0, 700000, 900000, 60000)):
                    if self.kind != 'lin' and a == 0: continue
                    pin = [eq(v, C(p)) for v, p in zip(P.cd.values(), par)] + [eq(P.fd[f], C(v)) for f, v in zip(FEEF, fs)]
                    pin += [eq(A, C(a)), eq(B_, C(b)), eq(sup, C(sp)), eq(amt, C(x))]
                    if FALSE in pin: continue
                    out.append((pin, 4))
        for par in self.PAR[self.kind][:1]:
            for fs in ([0, 0, 0, 0, 0, 0, 0, 0], [1, 7, 1, 5, 1, 4, 1, 3]):
                # a small world: every amount in it can be tried
                pin = [eq(v, C(p)) for v, p in zip(P.cd.values(), par)] + [eq(P.fd[f], C(v)) for f, v in zip(FEEF, fs)]
                for a, b in ((30, 11), (11, 30)):
                    q = pin + [eq(A, C(a)), eq(B_, C(b)), eq(sup, C(90)), le(C(1), amt), le(amt, C(24))]
                    if FALSE not in q: out.append((q, 30))
        for lo in (63, 40, 20):
            out.append(([ge(t, C(1 << lo)) for t in (A, B_, sup)] + [ge(amt, C(1 << lo - 8)), le(amt, C(1 << lo - 4))] + [ge(v, C(1)) for v in P.cd.values()], 12))
        return [(p, n) for p, n in out if FALSE not in p]

    def ob(self, label, q, goal):
        s = self.s
        rf = Refiner(self.P.distinct(), self.P.prefer()[:1], self.pins, self.refine(q))
        s.ob(label, q.pc, goal, self.replay(q), self.want(q), refiner=rf)

    # -- specification as terms ----------------------------------------------------------------

    def rec_ok(self, fee=True):
        """the pool's own accounts"""
        P = self.P; r = P.rec
        c = [('the pool state belongs to the program', eq(P.by['swap'].owner, P.prog)),
             ('the authority is the pool\'s own', eq(self.K('auth'), P.pda())),
             ('recorded pool mint', eq(self.K('mint'), r['pool_mint'])),
             ('recorded token program', eq(self.K('tp'), r['token_program_id']))]
        if fee: c.append(('recorded fee account', eq(self.K('fee'), r['pool_fee_account'])))
        if self.ins != 'swap':
            c += [('recorded vault A', eq(self.K('a'), r['token_a'])), ('recorded vault B', eq(self.K('b'), r['token_b']))]
        return c

    def call(self, q, meth):
        cs = [c for c in q.aux.get('calls', ()) if c[0] == meth]
        return cs

    def ask(self, q, meth, args, extra=TRUE):
        """[(condition that this call is the one specified, result)]; the calls are memoised by argument terms"""
        out = []
        for m, a, r in self.call(q, meth):
            if len(a) != len(args): raise Unsupported('calculator signature')
            out.append((and_(*[eq(x.vi, y.vi) if isinstance(y, En) else eq(x, y) for x, y in zip(a, args)]), r))
        return out

    def moves(self, q, transfers=(), mints=(), burns=()):
        """exactly these movements and no failed or foreign invocation"""
        if any(e.fail for e in q.ev): return FALSE
        if not known_events(q.ev): return FALSE
        P = self.P
        return and_(moves_exactly(q.ev, 'transfer', transfers), moves_exactly(q.ev, 'mint_to', mints), moves_exactly(q.ev, 'burn', burns))

    def signed(self, q):
        P = self.P
        return and_(signed(q.ev, self.K('swap'), self.K('auth'), P.bump), *[eq(e.prog, P.rec['token_program_id']) for e in q.ev],
                    *[e.metas[2][1] for e in q.ev if e.kind()])


class Refiner:
    def __init__(s, sound, prefer, pins, refine): s.sound = sound; s.prefer = prefer; s._pins = pins; s.refine = refine

    @property
    def pins(s): return s._pins()


def swap_aspects(R, q, aspects):
    """obligations of a successful trade: yields (aspect, label, goal)"""
    P = R.P; K = R.K; s = R.s; r = P.rec
    if 'bind' in aspects:
        for l, g in R.rec_ok(): yield 'bind', l, g
        yield 'bind', 'recorded vaults in opposite roles', or_(and_(eq(K('vs'), r['token_a']), eq(K('vd'), r['token_b'])), and_(eq(K('vs'), r['token_b']), eq(K('vd'), r['token_a'])))
        yield 'bind', 'user accounts are not the vaults they are paired with', and_(ne(K('src'), K('vs')), ne(K('dst'), K('vd')))
        yield 'bind', 'both vaults are different accounts', ne(K('vs'), K('vd'))
    x = R.args['x']
    S_, D_ = P.by['vs']['amount'], P.by['vd']['amount']
    f = P.fd
    tf, of = feeterm(x, f[FEEF[0]], f[FEEF[1]]), feeterm(x, f[FEEF[2]], f[FEEF[3]])
    dv = ite(eq(K('vs'), r['token_a']), C(s.variant(CALC + 'TradeDirection', 'AtoB')), C(s.variant(CALC + 'TradeDirection', 'BtoA')))
    dirv = En(dv, {0: UNIT, 1: UNIT})
    swaps = R.ask(q, 'swap_without_fees', [sub(x, add(tf, of)), S_, D_, dirv])
    good = []; mint = []; lim = []
    for c, res in swaps:
        if res is NONE: continue
        t, p = structf(s.X, some_v(res), SWF, 'source_amount_swapped', 'destination_amount_swapped')
        T_ = add(t, add(tf, of))
        if 'settle' in aspects:
            tr = [(K('src'), K('vs'), K('uauth'), T_), (K('vd'), K('dst'), K('auth'), p)]
            good.append(and_(c, moves_exactly(q.ev, 'transfer', tr)))
        if 'mint' in aspects:
            isA = eq(K('vs'), r['token_a'])
            nS, nD = add(S_, T_), sub(D_, p)
            sup = P.by['mint']['supply']
            mint.append(and_(c, eq(of, C(0)), moves_exactly(q.ev, 'mint_to', []), moves_exactly(q.ev, 'burn', [])))
            for c2, w in R.ask(q, 'withdraw_single_token_type_exact_out', [of, ite(isA, nS, nD), ite(isA, nD, nS), sup, dirv]):
                if w is NONE: continue
                w = some_v(w)
                if 'host' in P.by:
                    H = P.by['host']
                    h = feeterm(w, f[FEEF[6]], f[FEEF[7]])
                    mv = [(K('mint'), H.key, K('auth'), h), (K('mint'), K('fee'), K('auth'), sub(w, h))]
                    host_ok = or_(eq(w, C(0)), and_(eq(H['mint'], K('mint')), eq(H.owner, r['token_program_id'])))
                else: mv = [(K('mint'), K('fee'), K('auth'), w)]; host_ok = TRUE
                mint.append(and_(c, c2, ne(of, C(0)), host_ok, moves_exactly(q.ev, 'mint_to', mv), moves_exactly(q.ev, 'burn', [])))
    if 'settle' in aspects:
        yield 'settle', 'only known movements and no failed one', TRUE if known_events(q.ev) and not any(e.fail for e in q.ev) else FALSE
        yield 'settle', 'exactly the computed amounts move between the user and the vaults', or_(*good) if good else FALSE
        yield 'settle', 'movements are signed by their authority under the recorded token program', R.signed(q)
    if 'mint' in aspects:
        yield 'mint', 'exactly the converted owner fee is minted, shared with a valid host', or_(*mint) if mint else FALSE
        yield 'mint', 'minting is signed by the pool under the recorded token program', R.signed(q)
    if 'limit' in aspects:
        yield 'limit', 'the user receives at least the minimum', ge(moved(q.ev, 'transfer', K('vd'), K('dst'), K('auth')), R.args['min'])


def paid(q, kind, k0, k1, ka): return moved(q.ev, kind, k0, k1, ka)


def dep_aspects(R, q, aspects):
    P = R.P; K = R.K; s = R.s
    if 'bind' in aspects:
        for l, g in R.rec_ok(fee=False): yield 'bind', l, g
        yield 'bind', 'user accounts are not the vaults they are paired with', and_(ne(K('sa'), K('a')), ne(K('sb'), K('b')))
    sup = P.by['mint']['supply']; z = eq(sup, C(0))
    n = ite(z, C(NPS), R.args['n'])
    ceil = s.rnd(1)
    good = []
    for c, res in R.ask(q, 'pool_tokens_to_trading_tokens', [n, ite(z, C(NPS), sup), P.by['a']['amount'], P.by['b']['amount'], ceil]):
        if res is NONE: continue
        ta, tb = structf(s.X, some_v(res), TTR, 'token_a_amount', 'token_b_amount')
        good.append(and_(c, ge(ta, C(1)), ge(tb, C(1)), moves_exactly(q.ev, 'transfer', [(K('sa'), K('a'), K('uauth'), ta), (K('sb'), K('b'), K('uauth'), tb)])))
    if 'settle' in aspects:
        yield 'settle', 'only known movements and no failed one', TRUE if known_events(q.ev) and not any(e.fail for e in q.ev) else FALSE
        yield 'settle', 'takes exactly the rounded-up share of both tokens, each non-zero', or_(*good) if good else FALSE
        yield 'settle', 'mints exactly what was asked, or the initial supply', and_(moves_exactly(q.ev, 'mint_to', [(K('mint'), K('dst'), K('auth'), n)]), moves_exactly(q.ev, 'burn', []))
        yield 'settle', 'movements are signed by their authority under the recorded token program', R.signed(q)
    if 'limit' in aspects:
        same = and_(eq(K('sa'), K('sb')), eq(K('a'), K('b')))
        yield 'limit', 'takes at most the maximum of A', or_(same, le(paid(q, 'transfer', K('sa'), K('a'), K('uauth')), R.args['maxa']))
        yield 'limit', 'takes at most the maximum of B', or_(same, le(paid(q, 'transfer', K('sb'), K('b'), K('uauth')), R.args['maxb']))
        yield 'limit', 'mints at least what was asked once the pool has a supply', or_(z, ge(paid(q, 'mint_to', K('mint'), K('dst'), K('auth')), R.args['n']))
    if 'nodep' in aspects: yield 'nodep', 'no deposit', FALSE


def wd_aspects(R, q, aspects):
    P = R.P; K = R.K; s = R.s
    if 'bind' in aspects:
        for l, g in R.rec_ok(): yield 'bind', l, g
        yield 'bind', 'user accounts are not the vaults they are paired with', and_(ne(K('da'), K('a')), ne(K('db'), K('b')))
    sup = P.by['mint']['supply']; n = R.args['n']
    A, B_ = P.by['a']['amount'], P.by['b']['amount']
    wf = ite(eq(K('fee'), K('src')), C(0), feeterm(n, P.fd[FEEF[4]], P.fd[FEEF[5]]))
    rem = sub(n, wf)
    good = []
    for c, res in R.ask(q, 'pool_tokens_to_trading_tokens', [rem, sup, A, B_, s.rnd(0)]):
        if res is NONE: continue
        ta, tb = structf(s.X, some_v(res), TTR, 'token_a_amount', 'token_b_amount')
        ta, tb = min_(ta, A), min_(tb, B_)
        good.append(and_(c, or_(ge(ta, C(1)), eq(A, C(0))), or_(ge(tb, C(1)), eq(B_, C(0))),
                         moves_exactly(q.ev, 'transfer', [(K('src'), K('fee'), K('uauth'), wf), (K('a'), K('da'), K('auth'), ta), (K('b'), K('db'), K('auth'), tb)])))
    if 'settle' in aspects:
        yield 'settle', 'only known movements and no failed one', TRUE if known_events(q.ev) and not any(e.fail for e in q.ev) else FALSE
        yield 'settle', 'pays the fee and exactly the rounded-down share of both tokens', or_(*good) if good else FALSE
        yield 'settle', 'burns exactly the rest', and_(moves_exactly(q.ev, 'burn', [(K('src'), K('mint'), K('uauth'), rem)]), moves_exactly(q.ev, 'mint_to', []))
        yield 'settle', 'movements are signed by their authority under the recorded token program', R.signed(q)
    if 'limit' in aspects:
        yield 'limit', 'returns at least the minimum of A', ge(paid(q, 'transfer', K('a'), K('da'), K('auth')), R.args['mina'])
        yield 'limit', 'returns at least the minimum of B', ge(paid(q, 'transfer', K('b'), K('db'), K('auth')), R.args['minb'])
        same = and_(eq(K('uauth'), K('auth')), or_(and_(eq(K('src'), K('a')), eq(K('fee'), K('da'))), and_(eq(K('src'), K('b')), eq(K('fee'), K('db')))))
        yield 'limit', 'takes at most the pool tokens stated', or_(same, le(add(paid(q, 'burn', K('src'), K('mint'), K('uauth')), paid(q, 'transfer', K('src'), K('fee'), K('uauth'))), n))
    if 'noredeem' in aspects: yield 'noredeem', 'no redemption', eq(n, C(0))


def side(R, tok):
    """(user token is A's, user token is B's and not A's)"""
    P = R.P
    a = eq(P.by[tok]['mint'], P.by['a']['mint'])
    return a, and_(not_(a), eq(P.by[tok]['mint'], P.by['b']['mint']))


def halffee(R, x): return feeterm(max_(C(1), div(x, C(2))), R.P.fd[FEEF[0]], R.P.fd[FEEF[1]])


def deps_aspects(R, q, aspects):
    P = R.P; K = R.K; s = R.s
    isA, isB = side(R, 'src')
    if 'bind' in aspects:
        for l, g in R.rec_ok(fee=False): yield 'bind', l, g
        yield 'bind', 'the user token is one of the vaults\' and not the vault itself', or_(and_(isA, ne(K('src'), K('a'))), and_(isB, ne(K('src'), K('b'))))
    sup = P.by['mint']['supply']; z = eq(sup, C(0)); x = R.args['x']
    A, B_ = P.by['a']['amount'], P.by['b']['amount']
    va = K('dst'); vault = ite(isA, K('a'), K('b'))
    dirv = En(ite(isA, C(s.variant(CALC + 'TradeDirection', 'AtoB')), C(s.variant(CALC + 'TradeDirection', 'BtoA'))), {0: UNIT, 1: UNIT})
    good = [and_(z, moves_exactly(q.ev, 'mint_to', [(K('mint'), K('dst'), K('auth'), C(NPS))]))]
    for c, w in R.ask(q, 'deposit_single_token_type', [sub(x, halffee(R, x)), A, B_, sup, dirv]):
        if w is NONE: continue
        w = some_v(w)
        good.append(and_(not_(z), c, ge(w, C(1)), moves_exactly(q.ev, 'mint_to', [(K('mint'), K('dst'), K('auth'), w)])))
    if 'settle' in aspects:
        yield 'settle', 'only known movements and no failed one', TRUE if known_events(q.ev) and not any(e.fail for e in q.ev) else FALSE
        yield 'settle', 'moves exactly the offered amount into the matching vault', and_(moves_exactly(q.ev, 'transfer', [(K('src'), vault, K('uauth'), x)]), moves_exactly(q.ev, 'burn', []))
        yield 'settle', 'mints exactly the curve\'s non-zero share, or the initial supply', or_(*good)
        yield 'settle', 'movements are signed by their authority under the recorded token program', R.signed(q)
    if 'limit' in aspects:
        yield 'limit', 'mints at least the minimum', ge(paid(q, 'mint_to', K('mint'), K('dst'), K('auth')), R.args['min'])
        yield 'limit', 'takes at most the offer', and_(le(paid(q, 'transfer', K('src'), K('a'), K('uauth')), x), le(paid(q, 'transfer', K('src'), K('b'), K('uauth')), x))
    if 'nodep' in aspects: yield 'nodep', 'no deposit', FALSE


def wds_aspects(R, q, aspects):
    P = R.P; K = R.K; s = R.s
    isA, isB = side(R, 'dst')
    if 'bind' in aspects:
        for l, g in R.rec_ok(): yield 'bind', l, g
        yield 'bind', 'the user token is one of the vaults\' and not the vault itself', or_(and_(isA, ne(K('dst'), K('a'))), and_(isB, ne(K('dst'), K('b'))))
    sup = P.by['mint']['supply']; x = R.args['x']
    A, B_ = P.by['a']['amount'], P.by['b']['amount']
    vault = ite(isA, K('a'), K('b'))
    dirv = En(ite(isA, C(s.variant(CALC + 'TradeDirection', 'AtoB')), C(s.variant(CALC + 'TradeDirection', 'BtoA'))), {0: UNIT, 1: UNIT})
    good = []
    for c, w in R.ask(q, 'withdraw_single_token_type_exact_out', [add(x, halffee(R, x)), A, B_, sup, dirv]):
        if w is NONE: continue
        w = some_v(w)
        wf = ite(eq(K('fee'), K('src')), C(0), feeterm(w, P.fd[FEEF[4]], P.fd[FEEF[5]]))
        good.append(and_(c, ge(add(w, wf), C(1)),
                         moves_exactly(q.ev, 'burn', [(K('src'), K('mint'), K('uauth'), w)]),
                         moves_exactly(q.ev, 'transfer', [(K('src'), K('fee'), K('uauth'), wf), (vault, K('dst'), K('auth'), x)])))
    if 'settle' in aspects:
        yield 'settle', 'only known movements and no failed one', TRUE if known_events(q.ev) and not any(e.fail for e in q.ev) else FALSE
        yield 'settle', 'burns the share, pays the fee on it and pays exactly the requested amount', or_(*good) if good else FALSE
        yield 'settle', 'mints nothing', moves_exactly(q.ev, 'mint_to', [])
        yield 'settle', 'movements are signed by their authority under the recorded token program', R.signed(q)
    if 'limit' in aspects:
        same = and_(eq(K('uauth'), K('auth')), eq(K('fee'), K('dst')), or_(eq(K('src'), K('a')), eq(K('src'), K('b'))))
        yield 'limit', 'takes at most the maximum of pool tokens', or_(same, le(add(paid(q, 'burn', K('src'), K('mint'), K('uauth')), ite(eq(K('fee'), K('src')), C(0), paid(q, 'transfer', K('src'), K('fee'), K('uauth')))), R.args['max']))
        yield 'limit', 'pays at least the requested amount', or_(ge(paid(q, 'transfer', K('a'), K('dst'), K('auth')), x), ge(paid(q, 'transfer', K('b'), K('dst'), K('auth')), x))
    if 'noredeem' in aspects: yield 'noredeem', 'no redemption', eq(x, C(0))


ASPECTS = {'swap': swap_aspects, 'dep': dep_aspects, 'wd': wd_aspects, 'deps': deps_aspects, 'wds': wds_aspects}


def decide(s, ins, kind, aspects, host=False, real=None, cpar=None, args=None):
    R = Run(s, ins, kind, host, args, real, cpar)
    oks = R.oks()
    if not oks and not (ins in ('dep', 'deps') and kind in ('offset', 'lin')) and 'noredeem' not in aspects: raise Unsupported('no successful outcome to examine')
    for q in oks:
        for a, l, g in ASPECTS[ins](R, q, aspects):
            if a in aspects: R.ob(f'{a}: {l}', q, g)
        if not any(e.fail for e in q.ev): s.wit('success is possible', q.pc)
    return R, oks


def uninit(s, ins, kind):
    """a pool state marked uninitialised never serves"""
    R = Run(s, ins, kind, init=FALSE)
    for q in R.oks(): R.ob('bind: an uninitialised pool state is refused', q, FALSE)
    if not R.outs: raise Unsupported('no outcome')
    s.wit('refused', R.outs[0][0].pc)


# ---- the same specification, concretely ------------------------------------------------------------

def le8(b, o): return int.from_bytes(b[o:o + 8], 'little')
def le32(b, o): return int.from_bytes(b[o:o + 32], 'little')


def parse_events(t):
    out = []
    if not t.strip(): return out
    for e in t.strip().split('|'):
        prog, metas, data, infos, seeds = e.split(';')
        kk = lambda h: int.from_bytes(bytes.fromhex(h), 'little')
        d = bytes.fromhex(data)
        mt = [(kk(x.split(':')[0]), x.split(':')[1] == '1') for x in metas.split(',') if x]
        kind = {3: 'transfer', 7: 'mint_to', 8: 'burn'}.get(d[0]) if len(d) == 9 and len(mt) >= 3 else None
        out.append({'prog': kk(prog), 'metas': mt, 'kind': kind, 'amount': le8(d, 1) if len(d) == 9 else None,
                    'seeds': [[bytes.fromhex(y) for y in x.split('+')] for x in seeds.split(',') if x]})
    return out


def totals(evs):
    r = {}
    for e in evs:
        if not e['kind']: r['unknown'] = 1; continue
        k = (e['kind'], e['metas'][0][0], e['metas'][1][0], e['metas'][2][0])
        r[k] = r.get(k, 0) + e['amount']
    return {k: v for k, v in r.items() if v}


def want_totals(lst):
    r = {}
    for kind, a, b, au, amt in lst:
        r[(kind, a, b, au)] = r.get((kind, a, b, au), 0) + amt
    return {k: v for k, v in r.items() if v}


def ncurve(d, cmd, *a):
    if any(not 0 <= int(v) <= U128 for v in a): return None
    r = parse_opt(Native.run([f'{cmd} {d["curve"]} ' + ' '.join(str(int(v)) for v in a)])[0])
    return None if isinstance(r, str) else r


def check_insn(d, out):
    """[(aspect, what is wrong)] of one native execution"""
    res, evs, datas = out.split(' # ')
    if res != 'ok': return []
    evs = parse_events(evs)
    K = {n: a['key'] for n, a in d['acc'].items()}
    acc = d['acc']; rec = d['rec']; f = d['fees']; args = d['args']; ins = d['ins']
    bad = []

    def b(aspect, cond, text):
        if not cond: bad.append((aspect, text))
    if 0 <= d['fail'] < len(evs): b('settle', False, f'{ins} succeeds although token program call {d["fail"]} fails')
    b('bind', d['init'], f'{ins} succeeds on a pool state marked uninitialised')
    b('bind', acc['swap']['owner'] == d['prog'], f'{ins} succeeds on a pool state not owned by the program')
    b('bind', d['pdaok'] and K['auth'] == d['pda'], f'{ins} succeeds with an authority that is not the pool\'s')
    b('bind', K['mint'] == rec['pool_mint'], f'{ins} succeeds with a mint that is not the pool\'s')
    b('bind', K['tp'] == rec['token_program_id'], f'{ins} succeeds with a token program that is not the recorded one')
    if 'fee' in K: b('bind', K['fee'] == rec['pool_fee_account'], f'{ins} succeeds with a fee account that is not the recorded one')
    if ins == 'swap':
        b('bind', {(rec['token_a'], rec['token_b']): 1, (rec['token_b'], rec['token_a']): 1}.get((K['vs'], K['vd'])), 'trade succeeds with vaults that are not the pool\'s two vaults')
        b('bind', K['vs'] != K['vd'], 'trade succeeds with one vault in both roles')
        b('bind', K['src'] != K['vs'] and K['dst'] != K['vd'], 'trade succeeds with a vault as the user account')
    else:
        b('bind', K['a'] == rec['token_a'] and K['b'] == rec['token_b'], f'{ins} succeeds with vaults that are not the pool\'s')
    for e in evs:
        if e['metas'] and len(e['metas']) > 2:
            b('settle', e['metas'][2][1], 'a movement is not signed by its authority')
            b('mint', e['metas'][2][1], 'a movement is not signed by its authority')
            if e['metas'][2][0] == K['auth']:
                g = [h32(K['swap']), '%02x' % d['bump']] in [[x.hex() for x in sd] for sd in e['seeds']]
                b('settle', g, 'a movement of the pool\'s tokens lacks the pool\'s signer seeds')
                b('mint', g, 'a movement of the pool\'s tokens lacks the pool\'s signer seeds')
        b('settle', e['prog'] == rec['token_program_id'], 'a movement through a foreign token program')
        b('mint', e['prog'] == rec['token_program_id'], 'a movement through a foreign token program')
    got = totals(evs)
    b('settle', 'unknown' not in got, 'an unknown token program instruction')
    tok = lambda n: le8(acc[n]['data'], 64)
    mintof = lambda n: le32(acc[n]['data'], 0)
    sup = le8(acc['mint']['data'], 36)
    part = lambda kinds: {k: v for k, v in got.items() if k[0] in kinds}

    def cmp(aspect, kinds, lst, text):
        w = want_totals(lst)
        g = part(kinds)
        if w != g:
            nm = {v: k for k, v in K.items()}
            sh = lambda r: {(k[0],) + tuple(nm.get(x, hex(x)) for x in k[1:]): v for k, v in r.items()}
            bad.append((aspect, f'{text}: moved {sh(g)}, expected {sh(w)}'))
    U = K['uauth']; P_ = K['auth']
    if ins == 'swap':
        x = args['x']; S_, D_ = tok('vs'), tok('vd')
        tf, of = pyfee(x, f[0], f[1]), pyfee(x, f[2], f[3])
        isA = K['vs'] == rec['token_a']; dr = 0 if isA else 1
        r = None if tf is None or of is None or tf + of > x else ncurve(d, 'swf', x - tf - of, S_, D_, dr)
        if r is None: bad += [('settle', 'trade succeeds although nothing could be computed'), ('mint', 'trade succeeds although nothing could be computed')]
        else:
            t, p = r; T_ = t + tf + of
            cmp('settle', ('transfer',), [('transfer', K['src'], K['vs'], U, T_), ('transfer', K['vd'], K['dst'], P_, p)], f'trade of {x} (fees {tf}+{of}) computed {T_} for {p}')
            nS, nD = S_ + T_, D_ - p
            w = [0] if of == 0 else ncurve(d, 'wd', of, nS if isA else nD, nD if isA else nS, sup, dr)
            if w is None: bad.append(('mint', 'trade succeeds although the owner fee has no value in pool tokens'))
            else:
                w = w[0]; lst = []
                if 'host' in K and w:
                    b('mint', mintof('host') == K['mint'], 'fee shared with a host account of another mint')
                    b('mint', acc['host']['owner'] == rec['token_program_id'], 'fee shared with a host account that is no token account')
                    h = pyfee(w, f[6], f[7])
                    if h is None: bad.append(('mint', 'host fee of a zero denominator')); h = 0
                    lst = [('mint_to', K['mint'], K['host'], P_, h), ('mint_to', K['mint'], K['fee'], P_, w - h)]
                elif w: lst = [('mint_to', K['mint'], K['fee'], P_, w)]
                cmp('mint', ('mint_to', 'burn'), lst, f'owner fee {of} is worth {w} pool tokens')
        b('limit', got.get(('transfer', K['vd'], K['dst'], P_), 0) >= args['min'], f'trade delivers less than the minimum {args["min"]}')
        return bad
    A, B_ = tok('a'), tok('b')
    if ins == 'dep':
        b('bind', K['sa'] != K['a'] and K['sb'] != K['b'], 'deposit succeeds from a vault')
        bad.append(('nodep', f'two-sided deposit succeeds on {d["curve"]}'))
        n = args['n'] if sup else NPS
        r = ncurve(d, 'p2t', n, sup or NPS, A, B_, 1)
        if r is None or not r[0] or not r[1]: bad.append(('settle', f'deposit for {n} pool tokens succeeds although the share is {r}'))
        else: cmp('settle', ('transfer',), [('transfer', K['sa'], K['a'], U, r[0]), ('transfer', K['sb'], K['b'], U, r[1])], f'deposit for {n} pool tokens')
        cmp('settle', ('mint_to', 'burn'), [('mint_to', K['mint'], K['dst'], P_, n)], f'deposit for {n} pool tokens')
        if not (K['sa'] == K['sb'] and K['a'] == K['b']):
            b('limit', got.get(('transfer', K['sa'], K['a'], U), 0) <= args['maxa'], 'deposit takes more of A than the maximum')
            b('limit', got.get(('transfer', K['sb'], K['b'], U), 0) <= args['maxb'], 'deposit takes more of B than the maximum')
        b('limit', not sup or got.get(('mint_to', K['mint'], K['dst'], P_), 0) >= args['n'], 'deposit mints less than asked')
    elif ins == 'wd':
        b('bind', K['da'] != K['a'] and K['db'] != K['b'], 'withdrawal succeeds to a vault')
        n = args['n']
        if n: bad.append(('noredeem', f'withdrawal succeeds on {d["curve"]}'))
        wf = 0 if K['fee'] == K['src'] else pyfee(n, f[4], f[5])
        r = None if wf is None or wf > n else ncurve(d, 'p2t', n - wf, sup, A, B_, 0)
        if r is None: bad.append(('settle', f'withdrawal of {n} succeeds although nothing could be computed'))
        else:
            ta, tb = min(A, r[0]), min(B_, r[1])
            b('settle', ta or not A, 'withdrawal pays nothing from a non-empty vault A')
            b('settle', tb or not B_, 'withdrawal pays nothing from a non-empty vault B')
            cmp('settle', ('transfer', 'burn', 'mint_to'), [('transfer', K['src'], K['fee'], U, wf), ('transfer', K['a'], K['da'], P_, ta), ('transfer', K['b'], K['db'], P_, tb), ('burn', K['src'], K['mint'], U, n - wf)], f'withdrawal of {n} pool tokens')
        b('limit', got.get(('transfer', K['a'], K['da'], P_), 0) >= args['mina'], 'withdrawal returns less of A than the minimum')
        b('limit', got.get(('transfer', K['b'], K['db'], P_), 0) >= args['minb'], 'withdrawal returns less of B than the minimum')
        alias = U == P_ and ((K['src'], K['fee']) in ((K['a'], K['da']), (K['b'], K['db'])))
        b('limit', alias or got.get(('burn', K['src'], K['mint'], U), 0) + got.get(('transfer', K['src'], K['fee'], U), 0) <= n, 'withdrawal takes more pool tokens than stated')
    elif ins == 'deps':
        x = args['x']
        isA = mintof('src') == mintof('a'); isB = not isA and mintof('src') == mintof('b')
        bad.append(('nodep', f'single-sided deposit succeeds on {d["curve"]}'))
        if not isA and not isB: return bad + [('bind', 'a deposit of a foreign token succeeds'), ('settle', 'a deposit of a foreign token succeeds')]
        v = K['a'] if isA else K['b']
        b('bind', K['src'] != v, 'deposit succeeds from a vault')
        cmp('settle', ('transfer', 'burn'), [('transfer', K['src'], v, U, x)], f'deposit of {x}')
        fee = pyfee(max(1, x // 2), f[0], f[1])
        w = [NPS] if not sup else None if fee is None or x == 0 else ncurve(d, 'dep', x - fee, A, B_, sup, 0 if isA else 1)
        if not w or not w[0]: bad.append(('settle', f'deposit of {x} succeeds although its share is {w}'))
        else: cmp('settle', ('mint_to',), [('mint_to', K['mint'], K['dst'], P_, w[0])], f'deposit of {x}')
        b('limit', got.get(('mint_to', K['mint'], K['dst'], P_), 0) >= args['min'], 'deposit mints less than the minimum')
        b('limit', got.get(('transfer', K['src'], v, U), 0) <= x, 'deposit takes more than offered')
    else:
        x = args['x']
        isA = mintof('dst') == mintof('a'); isB = not isA and mintof('dst') == mintof('b')
        if x: bad.append(('noredeem', f'single-sided withdrawal succeeds on {d["curve"]}'))
        if not isA and not isB: return bad + [('bind', 'a withdrawal to a foreign token account succeeds'), ('settle', 'a withdrawal to a foreign token account succeeds')]
        v = K['a'] if isA else K['b']
        b('bind', K['dst'] != v, 'withdrawal succeeds to a vault')
        fee = pyfee(max(1, x // 2), f[0], f[1])
        w = None if fee is None or x == 0 else ncurve(d, 'wd', x + fee, A, B_, sup, 0 if isA else 1)
        if w is None: bad.append(('settle', f'withdrawal of {x} succeeds although it has no share'))
        else:
            w = w[0]
            wf = 0 if K['fee'] == K['src'] else pyfee(w, f[4], f[5])
            if wf is None or w + wf == 0: bad.append(('settle', f'withdrawal of {x} for {w} pool tokens succeeds (fee {wf})'))
            else: cmp('settle', ('transfer', 'burn', 'mint_to'), [('transfer', K['src'], K['fee'], U, wf), ('burn', K['src'], K['mint'], U, w), ('transfer', v, K['dst'], P_, x)], f'withdrawal of {x}')
        tk = got.get(('burn', K['src'], K['mint'], U), 0) + (0 if K['src'] == K['fee'] else got.get(('transfer', K['src'], K['fee'], U), 0))
        b('limit', U == P_ and K['fee'] == K['dst'] and K['src'] in (K['a'], K['b']) or tk <= args['max'], f'withdrawal takes {tk} pool tokens, maximum {args["max"]}')
        b('limit', got.get(('transfer', v, K['dst'], P_), 0) >= x, 'withdrawal pays less than requested')
    return bad


def oracle(c, aspects):
    @c.oracle
    def insn_oracle(out, d):
        if out[0] == 'abort': return None
        for a, t in check_insn(d, out[0]):
            if a in aspects: return t
