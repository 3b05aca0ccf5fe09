"""The error a refusal carries names a reason that holds"""
from p30 import tokread, mintread, READ, le4b
from init import *
import entrypoint as EP

NAMES = ['AlreadyInUse', 'InvalidProgramAddress', 'InvalidOwner', 'InvalidOutputOwner', 'ExpectedMint', 'ExpectedAccount', 'EmptySupply', 'InvalidSupply', 'InvalidDelegate', 'InvalidInput',
         'IncorrectSwapAccount', 'IncorrectPoolMint', 'InvalidOutput', 'CalculationFailure', 'InvalidInstruction', 'RepeatedMint', 'ExceededSlippage', 'InvalidCloseAuthority', 'InvalidFreezeAuthority',
         'IncorrectFeeAccount', 'ZeroTradingTokens', 'FeeCalculationFailure', 'ConversionFailure', 'InvalidFee', 'IncorrectTokenProgramId', 'UnsupportedCurveType', 'InvalidCurve', 'UnsupportedCurveOperation']
PROGRAM = 'IncorrectProgramId'
CPIERR = 0xdead
NEEDS = {'cp': ('a', 'b'), 'stable': ('a', 'b'), 'cpr': ('a',), 'offset': ('a',), 'lin': ('b',)}     # vaults that must not be empty at creation


def tokcontent(b): return and_(ge(b['state'], C(1)), le(b['state'], C(2)), *[le(b[t], C(1)) for t in ('dtag', 'ntag', 'ctag')])
def mintcontent(b): return and_(eq(b['init'], C(1)), le(b['atag'], C(1)), le(b['ftag'], C(1)))
def nofee(x, n, d):
    """the fee is not a number"""
    return and_(ne(x, C(0)), ne(n, C(0)), or_(eq(d, C(0)), gt(mul(x, n), C(U128))))


def errof(s, v):
    """(name of the ProgramError, number)"""
    e = v.f[0] if isinstance(v, Agg) else v
    X = s.X
    if not isinstance(e, En) or not isc(e.vi): raise Unsupported('error value')
    t = [t for t in X.T if t.get('full') == 'anchor_lang::prelude::ProgramError' or t.get('name') == 'solana_program::program_error::ProgramError'][0]
    n = t['v'][e.vi.a]['n']
    if n != 'Custom': return n, None
    p = e.p[e.vi.a].f[0]
    if not isc(p): raise Unsupported('error number')
    return 'Custom', p.a


def cause(R, q, name, code):
    """the condition the error documents"""
    P = R.P; K = R.K; s = R.s; f = P.fd; a = R.args; r = P.rec; ins = R.ins; by = P.by
    if name == PROGRAM: return or_(ne(by['swap'].owner, P.prog), ne(K('tp'), C(TPID)))
    if name != 'Custom' or code >= len(NAMES): return FALSE
    n = NAMES[code]
    big = lambda t: ge(t, C(1 << 64))
    huge = lambda t: ge(t, C(1 << 128))
    sup = by['mint']['supply']
    toks = READ[ins] + (['host'] if 'host' in by else [])
    dirv = lambda c: En(ite(c, C(s.variant(CALC + 'TradeDirection', 'AtoB')), C(s.variant(CALC + 'TradeDirection', 'BtoA'))), {0: UNIT, 1: UNIT})
    if n == 'InvalidProgramAddress':
        from intercepts import pda
        return or_(not_(pda([(P.acc[0].key, 32), (P.bump, 1)], P.prog)[1]), ne(K('auth'), P.pda()))
    if n == 'IncorrectPoolMint': return or_(ne(K('mint'), r['pool_mint']), ne(by['host']['mint'], K('mint')) if 'host' in by else FALSE)
    if n == 'IncorrectFeeAccount': return ne(K('fee'), r['pool_fee_account']) if 'fee' in by else FALSE
    if n == 'IncorrectTokenProgramId': return or_(ne(K('tp'), r['token_program_id']), *[ne(by[t].owner, r['token_program_id']) for t in toks + ['mint']])
    if n == 'ExpectedAccount': return or_(*[not_(tokcontent(by[t])) for t in toks])
    if n == 'ExpectedMint': return not_(mintcontent(by['mint']))
    if n == 'UnsupportedCurveOperation': return TRUE if ins in ('dep', 'deps') and R.kind in ('offset', 'lin') else FALSE
    u = {'deps': 'src', 'wds': 'dst'}.get(ins)
    if u: isA, isB = side(R, u)
    if n == 'IncorrectSwapAccount':
        if ins == 'swap': return not_(and_(or_(eq(K('vs'), r['token_a']), eq(K('vs'), r['token_b'])), or_(eq(K('vd'), r['token_a']), eq(K('vd'), r['token_b']))))
        return or_(ne(K('a'), r['token_a']), ne(K('b'), r['token_b']), not_(or_(isA, isB)) if u else FALSE)
    if n == 'InvalidInput':
        if ins == 'swap': return or_(eq(K('vs'), K('vd')), eq(K('src'), K('vs')), eq(K('dst'), K('vd')))
        if ins == 'dep': return or_(eq(K('sa'), K('a')), eq(K('sb'), K('b')))
        if ins == 'wd': return or_(eq(K('da'), K('a')), eq(K('db'), K('b')))
        return or_(eq(K(u), K('a')), eq(K(u), K('b')))
    z = eq(sup, C(0))
    out = []           # alternatives

    def when(name_, c):
        if n == name_: out.append(c)
    if ins == 'swap':
        x = a['x']; S_, D_ = by['vs']['amount'], by['vd']['amount']
        tf, of = feeterm(x, f[FEEF[0]], f[FEEF[1]]), feeterm(x, f[FEEF[2]], f[FEEF[3]])
        tot = add(tf, of)
        when('ZeroTradingTokens', or_(nofee(x, f[FEEF[0]], f[FEEF[1]]), nofee(x, f[FEEF[2]], f[FEEF[3]]), lt(x, tot)))
        isA = eq(K('vs'), r['token_a']); dv = dirv(isA)
        for c, res in R.ask(q, 'swap_without_fees', [sub(x, tot), S_, D_, dv]):
            if res is NONE: when('ZeroTradingTokens', c); continue
            t, p = structf(s.X, some_v(res), SWF, 'source_amount_swapped', 'destination_amount_swapped')
            T_ = add(t, tot)
            when('ZeroTradingTokens', and_(c, or_(huge(T_), huge(add(S_, T_)), lt(D_, p))))
            when('ExceededSlippage', and_(c, lt(p, a['min'])))
            when('ConversionFailure', and_(c, or_(big(T_), big(p))))
            nS, nD = add(S_, T_), sub(D_, p)
            for c2, w in R.ask(q, 'withdraw_single_token_type_exact_out', [of, ite(isA, nS, nD), ite(isA, nD, nS), sup, dv]):
                c2 = and_(c, c2, ne(of, C(0)))
                if w is NONE: when('FeeCalculationFailure', c2); continue
                w = some_v(w)
                h = C(0)
                if 'host' in by:
                    h = feeterm(w, f[FEEF[6]], f[FEEF[7]])
                    when('FeeCalculationFailure', and_(c2, or_(nofee(w, f[FEEF[6]], f[FEEF[7]]), lt(w, h))))
                when('ConversionFailure', and_(c2, or_(big(h), big(sub(w, h)))))
    elif ins == 'dep':
        A, B_ = by['a']['amount'], by['b']['amount']
        m = ite(z, C(NPS), a['n'])
        for c, res in R.ask(q, 'pool_tokens_to_trading_tokens', [m, ite(z, C(NPS), sup), A, B_, s.rnd(1)]):
            if res is NONE: when('ZeroTradingTokens', c); continue
            ta, tb = structf(s.X, some_v(res), TTR, 'token_a_amount', 'token_b_amount')
            when('ZeroTradingTokens', and_(c, or_(eq(ta, C(0)), eq(tb, C(0)))))
            when('ExceededSlippage', and_(c, or_(lt(a['maxa'], ta), lt(a['maxb'], tb))))
            when('ConversionFailure', and_(c, or_(big(ta), big(tb))))
    elif ins == 'wd':
        A, B_ = by['a']['amount'], by['b']['amount']; x = a['n']
        isfee = eq(K('fee'), K('src'))
        wf = ite(isfee, C(0), feeterm(x, f[FEEF[4]], f[FEEF[5]]))
        when('FeeCalculationFailure', and_(not_(isfee), nofee(x, f[FEEF[4]], f[FEEF[5]])))
        when('CalculationFailure', lt(x, wf))
        for c, res in R.ask(q, 'pool_tokens_to_trading_tokens', [sub(x, wf), sup, A, B_, s.rnd(0)]):
            if res is NONE: when('ZeroTradingTokens', c); continue
            ta, tb = structf(s.X, some_v(res), TTR, 'token_a_amount', 'token_b_amount')
            when('ZeroTradingTokens', and_(c, or_(eq(ta, C(0)), eq(tb, C(0)))))
            when('ExceededSlippage', and_(c, or_(lt(min_(ta, A), a['mina']), lt(min_(tb, B_), a['minb']))))
            when('ConversionFailure', and_(c, or_(big(ta), big(tb))))
    else:
        A, B_ = by['a']['amount'], by['b']['amount']; x = a['x']
        half = halffee(R, x); fn, fd = f[FEEF[0]], f[FEEF[1]]
        bad = nofee(max_(C(1), div(x, C(2))), fn, fd)
        when('ZeroTradingTokens', and_(ne(x, C(0)), bad))
        when('ZeroTradingTokens', eq(x, C(0)))
        if ins == 'deps':
            when('ZeroTradingTokens', lt(x, half))
            when('ExceededSlippage', lt(ite(z, C(NPS), C(0)), a['min']) if not R.call(q, 'deposit_single_token_type') else and_(z, lt(C(NPS), a['min'])))
            for c, w in R.ask(q, 'deposit_single_token_type', [sub(x, half), A, B_, sup, dirv(isA)]):
                c = and_(c, not_(z))
                if w is NONE: when('ZeroTradingTokens', c); continue
                w = some_v(w)
                when('ZeroTradingTokens', and_(c, eq(w, C(0))))
                when('ConversionFailure', and_(c, big(w)))
                when('ExceededSlippage', and_(c, lt(w, a['min'])))
        else:
            for c, w in R.ask(q, 'withdraw_single_token_type_exact_out', [add(x, half), A, B_, sup, dirv(isA)]):
                if w is NONE: when('ZeroTradingTokens', c); continue
                w = some_v(w)
                isfee = eq(K('fee'), K('src'))
                wf = ite(isfee, C(0), feeterm(w, f[FEEF[4]], f[FEEF[5]]))
                t = add(w, wf)
                when('FeeCalculationFailure', and_(c, not_(isfee), nofee(w, f[FEEF[4]], f[FEEF[5]])))
                when('CalculationFailure', and_(c, huge(t)))
                when('ConversionFailure', and_(c, or_(big(t), big(w), big(wf))))
                when('ZeroTradingTokens', and_(c, eq(t, C(0))))
                when('ExceededSlippage', and_(c, lt(a['max'], t)))
    return or_(*out)


def named(s, ins, kind, host):
    R = Run(s, ins, kind, host); n = 0; seen = set()
    for q, k, v in R.outs:
        if k != 'err': continue
        n += 1
        name, code = errof(s, v)
        if any(e.fail for e in q.ev): R.ob('the token program\'s error is passed on', q, TRUE if (name, code) == ('Custom', CPIERR) else FALSE); continue
        nm = NAMES[code] if name == 'Custom' and code < len(NAMES) else name
        R.ob(f'error {nm} names a reason that holds', q, cause(R, q, name, code))
        seen.add(nm)
        s.wit(f'refused: {nm}', q.pc)
    if not n: raise Unsupported('no refusal to examine')
    s.notes.append(f'{n} refusals, errors {sorted(seen)}')


# ---- creation -------------------------------------------------------------------------------------

def icause(R, name, code):
    P = R.P; B = P.by; K = R.K; fd = R.fd
    T = ('a', 'b', 'fee', 'dst')
    if name == PROGRAM: return ne(K('tp'), C(TPID))
    if name != 'Custom' or code >= len(NAMES): return FALSE
    con = R.cfd is not None
    meets = {i: c for i, (_, c) in enumerate(R.meets())} if con else {}
    fees = [or_(and_(eq(fd[FEEF[i]], C(0)), eq(fd[FEEF[i + 1]], C(0))), lt(fd[FEEF[i]], fd[FEEF[i + 1]])) for i in (0, 2, 4, 6)]
    used = and_(eq(R.prev[0], C(1)), eq(R.prev[1], C(1)), or_(*[eq(R.prev[291], C(k)) for k in (0, 1, 2, 3, 30)]))
    return {
        'AlreadyInUse': used,
        'InvalidProgramAddress': ne(K('auth'), R.auth),
        'InvalidOwner': or_(ne(B['a']['owner'], R.auth), ne(B['b']['owner'], R.auth), eq(B['mint']['atag'], C(0)), ne(B['mint']['authority'], R.auth), not_(meets[1]) if con else FALSE),
        'InvalidOutputOwner': or_(eq(B['dst']['owner'], R.auth), eq(B['fee']['owner'], R.auth)),
        'ExpectedMint': not_(mintcontent(B['mint'])),
        'ExpectedAccount': or_(*[not_(tokcontent(B[n])) for n in T]),
        'EmptySupply': or_(*[eq(B[v]['amount'], C(0)) for v in NEEDS[R.kind]]),
        'InvalidSupply': or_(ne(B['mint']['supply'], C(0)), ne(B['a']['amount'], C(0)) if R.kind == 'lin' else FALSE),
        'InvalidDelegate': or_(ne(B['a']['dtag'], C(0)), ne(B['b']['dtag'], C(0))),
        'IncorrectPoolMint': ne(B['fee']['mint'], K('mint')),
        'RepeatedMint': eq(B['a']['mint'], B['b']['mint']),
        'InvalidCloseAuthority': or_(ne(B['a']['ctag'], C(0)), ne(B['b']['ctag'], C(0))),
        'InvalidFreezeAuthority': ne(B['mint']['ftag'], C(0)),
        'InvalidFee': or_(not_(and_(*fees)), not_(meets[2]) if con else FALSE),
        'IncorrectTokenProgramId': or_(*[ne(B[n].owner, K('tp')) for n in T + ('mint',)]),
        'UnsupportedCurveType': not_(meets[0]) if con else FALSE,
        'InvalidCurve': not_(curvegood(R.kind, list(R.cd.values()))),
    }.get(NAMES[code], FALSE)


def inamed(s, kind, ntypes):
    R = Init(s, kind, 'any', ntypes); n = 0; seen = set()
    for q, k, v in R.outs:
        if k != 'err': continue
        n += 1
        name, code = errof(s, v)
        if any(e.fail for e in q.ev): R.ob('the token program\'s error is passed on', q, TRUE if (name, code) == ('Custom', CPIERR) else FALSE); continue
        nm = NAMES[code] if name == 'Custom' and code < len(NAMES) else name
        R.ob(f'error {nm} names a reason that holds', q, icause(R, name, code))
        seen.add(nm)
        s.wit(f'refused: {nm}', q.pc)
    if not n: raise Unsupported('no refusal to examine')
    s.notes.append(f'{n} refusals, errors {sorted(seen)}')


# ---- the entry point ---------------------------------------------------------------------------

def passed(s, name):
    """the entry point hands the operation's error on"""
    fn, n, slots, sg, wr = EP.DOC[name]
    data = [C(b) for b in EP.tag(name)] + [V(f'd{i}', 0, 255) for i in range(8, 8 + 8 * n)]
    E = EP.Entry(s, data, len(slots), slots=slots)
    rep = lambda m: (['b58 ' + '00' * 32], 'entry_oracle', name)
    k_ = 0
    for q, k, v in E.outs:
        if k != 'err' or not q.aux.get('proc') or q.aux['procok']: continue
        k_ += 1
        e = v.f[0] if isinstance(v, Agg) else v
        t = [t for t in s.X.T if t.get('full') == 'anchor_lang::prelude::ProgramError' or t.get('name') == 'solana_program::program_error::ProgramError'][0]
        if not isc(e.vi): raise Unsupported('error value')
        s.ob('the operation\'s error is passed on', q.pc, eq(asint(e.p[e.vi.a].f[0]), V('code', 0, (1 << 32) - 1)) if t['v'][e.vi.a]['n'] == 'Custom' else FALSE, rep)
        s.wit('refused by the operation', q.pc)
    if not k_: raise Unsupported('no refusal by the operation')


def errscenes(name):
    """scenes and arguments the operation refuses: (operation's answer, entry point's answer)"""
    fn, n, slots, sg, wr = EP.DOC[name]
    for sc in EP.scenes(name):
        base = EP.scene(name, *sc)
        base[sg][2] = 1
        als = [EP.canon(name)[0]] + ([x for x in EP.edges(name, sc, EP.canon(name)[:1])] if not name.startswith('init') else [])
        for i in [None] + list(range(len(slots))):
            accs = [list(x) for x in base]
            if i is not None: accs[i][0] ^= 0x5a5a; accs[i][1] ^= 0x77
            for args in als if i is None else als[:1]:
                if name == 'initialize_constant_price': da = [str(x) for x in args[:8]] + [f'cpr:{args[8]}']
                elif name == 'initialize_linear_price': da = ['0', '1'] * 4 + ['lin:' + ':'.join(map(str, args))]
                else: da = [str(x) for x in args]
                data = EP.tag(name) + b''.join(x.to_bytes(8, 'little') for x in args)
                l = EP.accline(accs)
                o = Native.run([f'proc {EP.SHORT[name]} {h32(EP.PROG)} -1 {len(da)} {" ".join(da)} {l}', f'proc entry {h32(EP.PROG)} -1 1 {data.hex()} {l}'])
                yield [x.split(' # ')[0] for x in o]


# ---- concretely -----------------------------------------------------------------------------------

def pyerr(res):
    """(name, number) of the driver's 'err Custom(16)'"""
    e = res.split(' ', 1)[1]
    return ('Custom', int(e[7:-1])) if e.startswith('Custom(') else (e, None)


def tokok(b): return len(b) == 165 and b[108] in (1, 2) and all(le4b(b, o) < 2 for o in (72, 109, 129))
def mintok(b): return len(b) == 82 and b[45] == 1 and le4b(b, 0) < 2 and le4b(b, 46) < 2
def pynofee(x, n, d): return bool(x and n and (not d or x * n > U128))


def pycause(d, name, code):
    acc = d['acc']; K = {n: a['key'] for n, a in acc.items()}; rec = d['rec']; f = d['fees']; g = d['args']; ins = d['ins']
    if name == PROGRAM: return acc['swap']['owner'] != d['prog'] or K['tp'] != TPID
    if name != 'Custom' or code >= len(NAMES): return False
    n = NAMES[code]
    tok = lambda x: le8(acc[x]['data'], 64)
    toks = READ[ins] + (['host'] if 'host' in K else [])
    big = lambda v: v >= 1 << 64
    huge = lambda v: v >= 1 << 128
    if n == 'InvalidProgramAddress': return not d['pdaok'] or K['auth'] != d['pda']
    if n == 'IncorrectPoolMint': return K['mint'] != rec['pool_mint'] or 'host' in K and le32(acc['host']['data'], 0) != K['mint']
    if n == 'IncorrectFeeAccount': return 'fee' in K and K['fee'] != rec['pool_fee_account']
    if n == 'IncorrectTokenProgramId': return K['tp'] != rec['token_program_id'] or any(acc[t]['owner'] != rec['token_program_id'] for t in toks + ['mint'])
    if n == 'ExpectedAccount': return any(not tokok(acc[t]['data']) for t in toks)
    if n == 'ExpectedMint': return not mintok(acc['mint']['data'])
    if n == 'UnsupportedCurveOperation': return ins in ('dep', 'deps') and d['kind'] in ('offset', 'lin')
    u = {'deps': 'src', 'wds': 'dst'}.get(ins)
    if u: mu, ma, mb = (le32(acc[x]['data'], 0) for x in (u, 'a', 'b'))
    if n == 'IncorrectSwapAccount':
        if ins == 'swap': return not (K['vs'] in (rec['token_a'], rec['token_b']) and K['vd'] in (rec['token_a'], rec['token_b']))
        return K['a'] != rec['token_a'] or K['b'] != rec['token_b'] or bool(u) and mu not in (ma, mb)
    if n == 'InvalidInput':
        if ins == 'swap': return K['vs'] == K['vd'] or K['src'] == K['vs'] or K['dst'] == K['vd']
        if ins == 'dep': return K['sa'] == K['a'] or K['sb'] == K['b']
        if ins == 'wd': return K['da'] == K['a'] or K['db'] == K['b']
        return K[u] in (K['a'], K['b'])
    sup = le8(acc['mint']['data'], 36)
    why = set()
    F = lambda x, i: pyfee(x, f[i], f[i + 1]) if f[i + 1] or not (x and f[i]) else 0
    if ins == 'swap':
        x = g['x']; S_, D_ = tok('vs'), tok('vd'); isA = K['vs'] == rec['token_a']; dr = 0 if isA else 1
        of = F(x, 2); tot = F(x, 0) + of
        if pynofee(x, f[0], f[1]) or pynofee(x, f[2], f[3]) or x < tot: return n == 'ZeroTradingTokens'
        r = ncurve(d, 'swf', x - tot, S_, D_, dr)
        if r is None: return n == 'ZeroTradingTokens'
        t, p = r; T_ = t + tot
        if huge(T_) or huge(S_ + T_) or D_ < p: return n == 'ZeroTradingTokens'
        if p < g['min']: why.add('ExceededSlippage')
        if big(T_) or big(p): why.add('ConversionFailure')
        if of:
            nS, nD = S_ + T_, D_ - p
            w = ncurve(d, 'wd', of, nS if isA else nD, nD if isA else nS, sup, dr)
            if w is None: why.add('FeeCalculationFailure')
            else:
                w = w[0]; h = 0
                if 'host' in K:
                    h = F(w, 6)
                    if pynofee(w, f[6], f[7]) or w < h: why.add('FeeCalculationFailure')
                if big(h) or big(w - h): why.add('ConversionFailure')
        return n in why
    if ins == 'dep':
        r = ncurve(d, 'p2t', g['n'] if sup else NPS, sup or NPS, tok('a'), tok('b'), 1)
        if r is None: return n == 'ZeroTradingTokens'
        if not all(r): why.add('ZeroTradingTokens')
        if r[0] > g['maxa'] or r[1] > g['maxb']: why.add('ExceededSlippage')
        if big(r[0]) or big(r[1]): why.add('ConversionFailure')
        return n in why
    if ins == 'wd':
        x = g['n']; own = K['fee'] == K['src']
        if not own and pynofee(x, f[4], f[5]): return n == 'FeeCalculationFailure'
        wf = 0 if own else F(x, 4)
        if x < wf: return n == 'CalculationFailure'
        A, B_ = tok('a'), tok('b')
        r = ncurve(d, 'p2t', x - wf, sup, A, B_, 0)
        if r is None: return n == 'ZeroTradingTokens'
        if not all(r): why.add('ZeroTradingTokens')
        if big(r[0]) or big(r[1]): why.add('ConversionFailure')
        if min(r[0], A) < g['mina'] or min(r[1], B_) < g['minb']: why.add('ExceededSlippage')
        return n in why
    dr = 0 if mu == ma else 1
    x = g['x']; half = max(1, x // 2)
    if ins == 'deps':
        if not sup: w = [NPS]
        elif not x: w = [0]
        elif pynofee(half, f[0], f[1]) or x < F(half, 0): w = None
        else: w = ncurve(d, 'dep', x - F(half, 0), tok('a'), tok('b'), sup, dr)
        if not sup and not x and n == 'ZeroTradingTokens': return True
        if w is None: return n == 'ZeroTradingTokens'
        if not w[0]: why.add('ZeroTradingTokens')
        if big(w[0]): why.add('ConversionFailure')
        if w[0] < g['min']: why.add('ExceededSlippage')
        return n in why
    if not x: w = [0]
    elif pynofee(half, f[0], f[1]): w = None
    else: w = ncurve(d, 'wd', x + F(half, 0), tok('a'), tok('b'), sup, dr)
    if w is None: return n == 'ZeroTradingTokens'
    w = w[0]; own = K['fee'] == K['src']
    if not own and pynofee(w, f[4], f[5]): return n == 'FeeCalculationFailure'
    t = w + (0 if own else F(w, 4))
    if huge(t): why.add('CalculationFailure')
    if big(t): why.add('ConversionFailure')
    if not t or not x: why.add('ZeroTradingTokens')
    if t > g['max']: why.add('ExceededSlippage')
    return n in why


def pyicause(d, name, code, prev):
    acc = d['acc']; K = {n: a['key'] for n, a in acc.items()}; f = d['fees']; auth = d['pda']; k = d['con']
    if name == PROGRAM: return K['tp'] != TPID
    if name != 'Custom' or code >= len(NAMES): return False
    n = NAMES[code]; T = ('a', 'b', 'fee', 'dst')
    tok = lambda x: acc[x]['data']
    if n == 'AlreadyInUse': return len(prev) == 324 and prev[0] == 1 and prev[1] == 1 and prev[291] in (0, 1, 2, 3, 30)
    if n == 'InvalidProgramAddress': return K['auth'] != auth
    if n == 'ExpectedMint': return not mintok(tok('mint'))
    if n == 'ExpectedAccount': return any(not tokok(tok(x)) for x in T)
    if n == 'IncorrectTokenProgramId': return any(acc[x]['owner'] != K['tp'] for x in T + ('mint',))
    if n == 'InvalidCurve': return not pycurve(d['kind'], d['p'])
    if n == 'UnsupportedCurveType': return bool(k) and d['kind'] not in k['types']
    if n == 'InvalidFee':
        return not all(f[i] < f[i + 1] or f[i] == f[i + 1] == 0 for i in (0, 2, 4, 6)) or bool(k) and not (all(f[i] >= k['fees'][i] for i in (0, 2, 4)) and all(f[i] == k['fees'][i] for i in (1, 3, 5, 6, 7)))
    # the rest needs readable accounts
    if any(len(tok(x)) != 165 for x in T) or len(tok('mint')) != 82: return True
    own = lambda x: le32(tok(x), 32)
    if n == 'InvalidOwner': return own('a') != auth or own('b') != auth or le4b(tok('mint'), 0) != 1 or le32(tok('mint'), 4) != auth or bool(k) and not (k['ok'] and own('fee') == k['key'])
    if n == 'InvalidOutputOwner': return own('dst') == auth or own('fee') == auth
    if n == 'EmptySupply': return any(not le8(tok(v), 64) for v in NEEDS[d['kind']])
    if n == 'InvalidSupply': return le8(tok('mint'), 36) != 0 or d['kind'] == 'lin' and le8(tok('a'), 64) != 0
    if n == 'InvalidDelegate': return bool(le4b(tok('a'), 72) or le4b(tok('b'), 72))
    if n == 'InvalidCloseAuthority': return bool(le4b(tok('a'), 129) or le4b(tok('b'), 129))
    if n == 'InvalidFreezeAuthority': return le4b(tok('mint'), 46) != 0
    if n == 'IncorrectPoolMint': return le32(tok('fee'), 0) != K['mint']
    if n == 'RepeatedMint': return le32(tok('a'), 0) == le32(tok('b'), 0)
    return False


def setup(c):
    c.desc = 'every refusing path of the five user instructions (curve of unknown behaviour) and of creation: the error value it returns and the condition that error documents.'
    c.bounds = BOUNDS + ['creation: the pool account with any previous 324 bytes, without constraints and with a constraint allowing one curve type']
    c.assume = ASSUME
    c.outside = ['which of several reasons that hold is named', 'log messages']

    @c.oracle
    def insn_oracle(out, d):
        if out[0] in ('abort', 'panic'): return None
        res = out[0].split(' # ')[0]
        if not res.startswith('err '): return None
        name, code = pyerr(res)
        if d['fail'] >= 0 and len([e for e in out[0].split(' # ')[1].split('|') if e.strip()]) >= d['fail']:
            if (name, code) == ('Custom', CPIERR): return None
        if not pycause(d, name, code): return f'{d["ins"]} on {d["curve"]} of {d["args"]} is refused with {name} {NAMES[code] if name == "Custom" and code < len(NAMES) else code}, which does not hold'

    @c.oracle
    def init_oracle(out, d):
        if out[0] in ('abort', 'panic'): return None
        res = out[0].split(' # ')[0]
        if not res.startswith('err '): return None
        name, code = pyerr(res)
        if d['fail'] >= 0 and (name, code) == ('Custom', CPIERR): return None
        if not pyicause(d, name, code, d['acc']['swap']['data']): return f'creation of a {d["kind"]} pool is refused with {name} {NAMES[code] if name == "Custom" and code < len(NAMES) else code}, which does not hold'
    @c.oracle
    def entry_oracle(out, name):
        for d, e in errscenes(name):
            if d.startswith('err ') and e != d: return f'{name}: the operation is refused with {d[4:]}, the entry point answers {e}'
    for name in EP.DOC: c.scenario(f'entry {name}', lambda s, name=name: passed(s, name))
    for kind in CURVES:
        for ins in SLOTS:
            for host in ((False, True) if ins == 'swap' else (False,)):
                c.scenario(f'{ins} {kind}{" host" if host else ""}', lambda s, kind=kind, host=host, ins=ins: named(s, ins, kind, host))
        for nt in (None, 1): c.scenario(f'create {kind}{" constrained" if nt else ""}', lambda s, kind=kind, nt=nt: inamed(s, kind, nt))
