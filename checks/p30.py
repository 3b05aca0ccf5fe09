from init import *


def tokread(P, n):
    b = P.by[n]
    return and_(eq(b.owner, P.rec['token_program_id']), ge(b['state'], C(1)), le(b['state'], C(2)), *[le(b[t], C(1)) for t in ('dtag', 'ntag', 'ctag')])


def mintread(P):
    b = P.by['mint']
    return and_(eq(b.owner, P.rec['token_program_id']), eq(b['init'], C(1)), le(b['atag'], C(1)), le(b['ftag'], C(1)))


READ = {'swap': ['vs', 'vd'], 'dep': ['a', 'b'], 'wd': ['a', 'b'], 'deps': ['src', 'a', 'b'], 'wds': ['dst', 'a', 'b']}


def base(R):
    """every stated condition on the accounts and the pool"""
    P = R.P; K = R.K; r = P.rec
    c = [g for _, g in R.rec_ok(fee='fee' in P.by)]
    from intercepts import pda
    c.append(pda([(P.acc[0].key, 32), (P.bump, 1)], P.prog)[1])
    c.append(eq(K('tp'), C(TPID)))
    c += [tokread(P, n) for n in READ[R.ins]] + [mintread(P)]
    for i in (0, 2, 4, 6):
        n, d = P.fd[FEEF[i]], P.fd[FEEF[i + 1]]
        c.append(or_(and_(eq(n, C(0)), eq(d, C(0))), lt(n, d)))
    if R.ins == 'swap':
        c += [or_(and_(eq(K('vs'), r['token_a']), eq(K('vd'), r['token_b'])), and_(eq(K('vs'), r['token_b']), eq(K('vd'), r['token_a']))),
              ne(K('vs'), K('vd')), ne(K('src'), K('vs')), ne(K('dst'), K('vd'))]
    elif R.ins == 'dep': c += [ne(K('sa'), K('a')), ne(K('sb'), K('b'))]
    elif R.ins == 'wd': c += [ne(K('da'), K('a')), ne(K('db'), K('b'))]
    else:
        u = 'src' if R.ins == 'deps' else 'dst'
        isA, isB = side(R, u)
        c += [or_(and_(isA, ne(K(u), K('a'))), and_(isB, ne(K(u), K('b'))))]
    return and_(*c)


def reasons(R, q):
    """legitimate reasons to refuse a request that meets `base`"""
    P = R.P; K = R.K; s = R.s; f = P.fd; a = R.args; why = []
    big = lambda t: ge(t, C(1 << 64))
    sup = P.by['mint']['supply']
    dirv = lambda c: En(ite(c, C(s.variant(CALC + 'TradeDirection', 'AtoB')), C(s.variant(CALC + 'TradeDirection', 'BtoA'))), {0: UNIT, 1: UNIT})
    if R.ins == 'swap':
        x = a['x']; S_, D_ = P.by['vs']['amount'], P.by['vd']['amount']
        of = feeterm(x, f[FEEF[2]], f[FEEF[3]]); tot = add(feeterm(x, f[FEEF[0]], f[FEEF[1]]), of)
        why.append(lt(x, tot))
        isA = eq(K('vs'), P.rec['token_a']); dv = dirv(isA)
        for c, res in R.ask(q, 'swap_without_fees', [sub(x, tot), S_, D_, dv]):
            if res is NONE: why.append(c); continue
            t, p = structf(s.X, some_v(res), SWF, 'source_amount_swapped', 'destination_amount_swapped')
            T_ = add(t, tot)
            why.append(and_(c, or_(big(T_), big(p), lt(D_, p), lt(p, a['min']))))
            nS, nD = add(S_, T_), sub(D_, p)
            for c2, w in R.ask(q, 'withdraw_single_token_type_exact_out', [of, ite(isA, nS, nD), ite(isA, nD, nS), sup, dv]):
                if w is NONE: why.append(and_(c, c2, ne(of, C(0)))); continue
                w = some_v(w); h = C(0); bad = FALSE
                if 'host' in P.by:
                    h = feeterm(w, f[FEEF[6]], f[FEEF[7]])
                    bad = and_(ge(w, C(1)), or_(not_(tokread(P, 'host')), ne(P.by['host']['mint'], K('mint'))))
                why.append(and_(c, c2, ne(of, C(0)), or_(big(h), big(sub(w, h)), bad)))
    elif R.ins == 'dep':
        A, B_ = P.by['a']['amount'], P.by['b']['amount']
        z = eq(sup, C(0)); n = ite(z, C(NPS), a['n'])
        for c, res in R.ask(q, 'pool_tokens_to_trading_tokens', [n, ite(z, C(NPS), sup), A, B_, s.rnd(1)]):
            if res is NONE: why.append(c); continue
            ta, tb = structf(s.X, some_v(res), TTR, 'token_a_amount', 'token_b_amount')
            why.append(and_(c, or_(lt(ta, C(1)), lt(tb, C(1)), lt(a['maxa'], ta), lt(a['maxb'], tb))))
    elif R.ins == 'wd':
        A, B_ = P.by['a']['amount'], P.by['b']['amount']; n = a['n']
        wf = ite(eq(K('fee'), K('src')), C(0), feeterm(n, f[FEEF[4]], f[FEEF[5]]))
        for c, res in R.ask(q, 'pool_tokens_to_trading_tokens', [sub(n, wf), sup, A, B_, s.rnd(0)]):
            if res is NONE: why.append(c); continue
            ta, tb = structf(s.X, some_v(res), TTR, 'token_a_amount', 'token_b_amount')
            why.append(and_(c, or_(big(ta), big(tb), lt(min_(ta, A), a['mina']), lt(min_(tb, B_), a['minb']), and_(eq(ta, C(0)), ne(A, C(0))), and_(eq(tb, C(0)), ne(B_, C(0))))))
    elif R.ins == 'deps':
        A, B_ = P.by['a']['amount'], P.by['b']['amount']; x = a['x']
        isA, isB = side(R, 'src'); z = eq(sup, C(0))
        why.append(and_(z, lt(C(NPS), a['min'])))
        why.append(and_(not_(z), eq(x, C(0))))
        for c, w in R.ask(q, 'deposit_single_token_type', [sub(x, halffee(R, x)), A, B_, sup, dirv(isA)]):
            c = and_(c, not_(z))
            if w is NONE: why.append(c); continue
            w = some_v(w)
            why.append(and_(c, or_(big(w), lt(w, C(1)), lt(w, a['min']))))
    else:
        A, B_ = P.by['a']['amount'], P.by['b']['amount']; x = a['x']
        isA, isB = side(R, 'dst')
        why.append(eq(x, C(0)))
        for c, w in R.ask(q, 'withdraw_single_token_type_exact_out', [add(x, halffee(R, x)), A, B_, sup, dirv(isA)]):
            if w is NONE: why.append(c); continue
            w = some_v(w)
            wf = ite(eq(K('fee'), K('src')), C(0), feeterm(w, f[FEEF[4]], f[FEEF[5]]))
            t = add(w, wf)
            why.append(and_(c, or_(lt(t, C(1)), big(t), lt(a['max'], t))))
    return why


def honoured(s, ins, kind, host=False):
    R = Run(s, ins, kind, host)
    b = base(R); n = 0
    for q, k, v in R.outs:
        if any(e.fail for e in q.ev): continue
        if k == 'ok':
            s.wit('a request meeting every condition is honoured', q.pc + [b]); continue
        n += 1
        R.ob(f'{"abort" if k == "panic" else "refusal"} has a stated reason', q, not_(and_(b, *[not_(w) for w in reasons(R, q)])))
    if not n: raise Unsupported('no refusal to examine')
    s.notes.append(f'{ins}: {n} refusing outcomes')


# ---- concretely ----------------------------------------------------------------------------------

def unmet(d):
    """the stated condition on accounts and pool that is not met, if any"""
    acc = d['acc']; K = {n: a['key'] for n, a in acc.items()}; rec = d['rec']; f = d['fees']; ins = d['ins']
    l4 = lambda b, o: int.from_bytes(b[o:o + 4], 'little')
    if not d['init'] or acc['swap']['owner'] != d['prog']: return 'pool state'
    if not d['pdaok'] or K['auth'] != d['pda']: return 'authority'
    if K['mint'] != rec['pool_mint'] or K['tp'] != rec['token_program_id'] or K['tp'] != TPID: return 'mint or token program'
    if 'fee' in K and K['fee'] != rec['pool_fee_account']: return 'fee account'
    for n in READ[ins]:
        t = acc[n]['data']
        if acc[n]['owner'] != K['tp'] or len(t) != 165 or t[108] not in (1, 2) or any(l4(t, o) > 1 for o in (72, 109, 129)): return n
    m = acc['mint']['data']
    if acc['mint']['owner'] != K['tp'] or len(m) != 82 or m[45] != 1 or l4(m, 0) > 1 or l4(m, 46) > 1: return 'mint'
    if not all(f[i] < f[i + 1] or f[i] == f[i + 1] == 0 for i in (0, 2, 4, 6)): return 'fees'
    if ins == 'swap':
        if (K['vs'], K['vd']) not in ((rec['token_a'], rec['token_b']), (rec['token_b'], rec['token_a'])): return 'vaults'
        if K['vs'] == K['vd'] or K['src'] == K['vs'] or K['dst'] == K['vd']: return 'same account'
        return None
    if K['a'] != rec['token_a'] or K['b'] != rec['token_b']: return 'vaults'
    if ins == 'dep': return 'same account' if K['sa'] == K['a'] or K['sb'] == K['b'] else None
    if ins == 'wd': return 'same account' if K['da'] == K['a'] or K['db'] == K['b'] else None
    u = 'src' if ins == 'deps' else 'dst'
    mu, ma, mb = (le32(acc[n]['data'], 0) for n in (u, 'a', 'b'))
    if mu == ma: return 'same account' if K[u] == K['a'] else None
    if mu == mb: return 'same account' if K[u] == K['b'] else None
    return 'foreign token'


def le4b(b, o): return int.from_bytes(b[o:o + 4], "little")


def reason(d):
    acc = d['acc']; K = {n: a['key'] for n, a in acc.items()}; f = d['fees']; g = d['args']; ins = d['ins']
    tok = lambda n: le8(acc[n]['data'], 64)
    sup = le8(acc['mint']['data'], 36); big = lambda v: v >= 1 << 64
    if ins == 'swap':
        x = g['x']; S_, D_ = tok('vs'), tok('vd'); isA = K['vs'] == d['rec']['token_a']; dr = 0 if isA else 1
        of = pyfee(x, f[2], f[3]); t_ = pyfee(x, f[0], f[1]) + of
        if t_ > x: return 'fees'
        r = ncurve(d, 'swf', x - t_, S_, D_, dr)
        if r is None: return 'not computable'
        t, p = r; T_ = t + t_
        if big(T_) or big(p) or p > D_ or p < g['min']: return 'amounts'
        if not of: return None
        nS, nD = S_ + T_, D_ - p
        w = ncurve(d, 'wd', of, nS if isA else nD, nD if isA else nS, sup, dr)
        if w is None: return 'owner fee'
        w = w[0]; h = 0
        if 'host' in K and w:
            t = acc['host']['data']; l4 = lambda b, o: int.from_bytes(b[o:o + 4], 'little')
            if acc['host']['owner'] != K['tp'] or len(t) != 165 or t[108] not in (1, 2) or any(l4(t, o) > 1 for o in (72, 109, 129)) or le32(t, 0) != K['mint']: return 'host'
            h = pyfee(w, f[6], f[7])
        return 'owner fee size' if big(h) or big(w - h) else None
    if ins == 'dep':
        if d['kind'] in ('offset', 'lin'): return 'no deposits'
        r = ncurve(d, 'p2t', g['n'] if sup else NPS, sup or NPS, tok('a'), tok('b'), 1)
        return 'amounts' if r is None or not all(r) or r[0] > g['maxa'] or r[1] > g['maxb'] else None
    if ins == 'wd':
        n = g['n']; wf = 0 if K['fee'] == K['src'] else pyfee(n, f[4], f[5])
        A, B_ = tok('a'), tok('b')
        r = ncurve(d, 'p2t', n - wf, sup, A, B_, 0)
        return 'amounts' if r is None or big(r[0]) or big(r[1]) or min(r[0], A) < g['mina'] or min(r[1], B_) < g['minb'] or (A and not r[0]) or (B_ and not r[1]) else None
    u = 'src' if ins == 'deps' else 'dst'
    dr = 0 if le32(acc[u]['data'], 0) == le32(acc['a']['data'], 0) else 1
    x = g['x']; fee = pyfee(max(1, x // 2), f[0], f[1])
    if ins == 'deps':
        if d['kind'] in ('offset', 'lin'): return 'no deposits'
        w = [NPS] if not sup else [0] if x == 0 else ncurve(d, 'dep', x - fee, tok('a'), tok('b'), sup, dr)
        return 'amounts' if w is None or big(w[0]) or not w[0] or w[0] < g['min'] else None
    w = [0] if x == 0 else ncurve(d, 'wd', x + fee, tok('a'), tok('b'), sup, dr)
    if w is None: return 'amounts'
    w = w[0]; t = w + (0 if K['fee'] == K['src'] else pyfee(w, f[4], f[5]))
    return 'amounts' if not t or big(t) or t > g['max'] else None


def setup(c):
    c.desc = 'all five user instructions with a curve of unknown behaviour, and creation on a blank account: every path that refuses or aborts, apart from a refusal of the token program, implies that a stated condition is missing or that the curve, the limits or the sizes give a stated reason.'
    c.bounds = BOUNDS; c.assume = ASSUME
    c.outside = ['token program calls that the token program itself refuses', 'what each curve declines to compute (P17 to P24, P27, P28)']

    @c.oracle
    def insn_oracle(out, d):
        if out[0] == 'abort': return f'{d["ins"]} aborts the program' if not unmet(d) else None
        res = out[0].split(' # ')[0]
        if res == 'ok' or d['fail'] >= 0 or unmet(d) or reason(d): return None
        return f'{d["ins"]} on {d["curve"]} of {d["args"]} is refused ({res}) although every stated condition is met'
    for kind in CURVES:
        for ins in SLOTS:
            if ins in ('dep', 'deps') and kind in ('offset', 'lin'): continue
            for host in ((False, True) if ins == 'swap' else (False,)):
                c.scenario(f'{ins} {kind}{" host" if host else ""}', lambda s, kind=kind, host=host, ins=ins: honoured(s, ins, kind, host))
    init_oracle(c, ('honour', 'safe'))
    for kind in CURVES: c.scenario(f'create {kind}', lambda s, kind=kind: created(s, kind, ('honour',), 'zero'))
