"""Instructions built with the crate's own client types: account lists and data as documented and as the entry point reads them"""
from entrypoint import *
from insnmeta import ASSUME

# client type, argument fields, account fields in documented order
CL = {
    'initialize_constant_price': ('InitializeConstantPrice', 'initialize', 'Initialize', FEEF + ['token_b_price'], ['token_swap', 'swap_authority', 'token_a', 'token_b', 'pool', 'fee', 'destination', 'token_program']),
    'initialize_linear_price': ('InitializeLinearPrice', 'initialize', 'Initialize', ['slope_numerator', 'slope_denominator', 'initial_token_a_price_numerator', 'initial_token_a_price_denominator'],
                                ['token_swap', 'swap_authority', 'token_a', 'token_b', 'pool', 'fee', 'destination', 'token_program']),
    'swap': ('Swap', 'swap', 'Swap', ['amount_in', 'minimum_amount_out'],
             ['token_swap', 'swap_authority', 'user_transfer_authority', 'source', 'swap_source', 'swap_destination', 'destination', 'pool_mint', 'pool_fee', 'token_program']),
    'deposit_all_token_types': ('DepositAllTokenTypes', 'deposit_all_token_types', 'DepositAllTokenTypes', ['pool_token_amount', 'maximum_token_a_amount', 'maximum_token_b_amount'],
                                ['token_swap', 'swap_authority', 'user_transfer_authority', 'source_a', 'source_b', 'token_a', 'token_b', 'pool_mint', 'destination', 'token_program']),
    'withdraw_all_token_types': ('WithdrawAllTokenTypes', 'withdraw_all_token_types', 'WithdrawAllTokenTypes', ['pool_token_amount', 'minimum_token_a_amount', 'minimum_token_b_amount'],
                                 ['token_swap', 'swap_authority', 'user_transfer_authority', 'pool_mint', 'source', 'swap_token_a', 'swap_token_b', 'destination_token_a', 'destination_token_b', 'fee_account', 'token_program']),
    'deposit_single_token_type_exact_amount_in': ('DepositSingleTokenTypeExactAmountIn', 'deposit_single_token_type_exact_amount_in', 'DepositSingleTokenTypeExactAmountIn', ['source_token_amount', 'minimum_pool_token_amount'],
                                                  ['token_swap', 'swap_authority', 'user_transfer_authority', 'source_token', 'swap_token_a', 'swap_token_b', 'pool_mint', 'destination', 'token_program']),
    'withdraw_single_token_type_exact_amount_out': ('WithdrawSingleTokenTypeExactAmountOut', 'withdraw_single_token_type_exact_amount_out', 'WithdrawSingleTokenTypeExactAmountOut', ['destination_token_amount', 'maximum_pool_token_amount'],
                                                    ['token_swap', 'swap_authority', 'user_transfer_authority', 'pool_mint', 'pool_token_source', 'swap_token_a', 'swap_token_b', 'destination', 'pool_fee_account', 'token_program']),
}
META = 'anchor_lang::prelude::AccountMeta'
INS = {'swap': 'swap', 'dep': 'deposit_all_token_types', 'wd': 'withdraw_all_token_types', 'deps': 'deposit_single_token_type_exact_amount_in', 'wds': 'withdraw_single_token_type_exact_amount_out', 'init': 'initialize_constant_price'}


def setup(c):
    c.desc = ('InstructionData::data and ToAccountMetas::to_account_metas of every client type, the entry point run on what they yield, and the processor operations: every account whose content an operation or a '
              'token program call it makes changes, and every authority it relies on, is marked in the list.')
    c.bounds = ['every argument and key', 'any accounts that carry at least the marks of the list', 'operations: ' + BOUNDS[0], BOUNDS[2]]
    c.assume = ASSUME
    c.outside = ['a caller overriding the signer mark of the client type (to_account_metas(Some(..)))', 'the TypeScript client (P29)']

    @c.oracle
    def client_oracle(out, d):
        name, args, keys = d
        fn, n, slots, sg, wr = DOC[name]
        w = (tag(name) + b''.join(x.to_bytes(8, 'little') for x in args)).hex()
        if out[0] != w: return f'{name} client data for {args} is {out[0]}, documented {w}'
        w = ','.join(f'{h32(k)}:{int(i == sg)}:{int(i in wr)}' for i, k in enumerate(keys))
        if out[1] != w: return f'{name} client accounts (key:signer:writable) {out[1]}, documented {w}'
        r = tryall(name, canon(name), True, len(slots), 8 + 8 * n, bytes.fromhex(out[0])[:8])
        if r: return f'{name}: entry gives "{r[2][1][:300]}" on the client\'s accounts and data, expected "{r[3][:300]}"'

    def evmetas(evs):
        for e in evs.split('|'):
            if e.strip():
                for x in e.strip().split(';')[1].split(','):
                    if x: k, s_, w = x.split(':'); yield int.from_bytes(bytes.fromhex(k), 'little'), s_ == '1', w == '1'

    @c.oracle
    def marks_oracle(out, d):
        if out[0] in ('abort', 'panic'): return None
        res, evs, datas = out[0].split(' # ')
        if res != 'ok': return None
        order = d['order']; fn, n, slots, sg, wr = DOC[INS[d['ins']]]
        K = [d['acc'][x]['key'] for x in order]
        for k, s_, w in evmetas(evs):
            if w and k not in [K[i] for i in wr]: return f'{d["ins"]} changes account {h32(k)} which the instruction does not mark writable'
            if s_ and k not in (K[sg], d['pda']): return f'{d["ins"]} needs the signature of {h32(k)} which the instruction does not mark'
        after = datas.split(',')
        for i, x in enumerate(order):
            if after[i] not in ('', '-', d['acc'][x]['data'].hex()) and K[i] not in [K[j] for j in wr]: return f'{d["ins"]} writes {x} which the instruction does not mark writable'

    def client(s, name):
        X = s.X
        ct, mod, at, af, kf = CL[name]
        fn, n, slots, sg, wr = DOC[name]
        a = {f: V('a_' + f, 0, U64) for f in af}
        k = {f: V('key_' + sl[0], 0, U256) for f, sl in zip(kf, slots)}

        def rep(m):
            av = [m[t.a] for t in a.values()]; kv = [m[t.a] or i + 1 for i, t in enumerate(k.values())]
            return [f'cdata {name} ' + ' '.join(map(str, av)), f'cmetas {name} ' + ' '.join(h32(x) for x in kv)], 'client_oracle', (name, av, kv)
        ity = TB + 'instruction::' + ct
        st = St()
        iv = s.struct(ity, a)
        spec = [C(b) for b in tag(name)] + [ext(t, i, 1) for t in a.values() for i in range(8)]
        mty = f'{TB}instructions::{mod}::__client_accounts_{mod}::{at}'
        bty = {f: bytes_of(t, 32) for f, t in k.items()}
        datas = []
        for q, kk, v in s.call(f'<{ity} as anchor_lang::InstructionData>::data', [Ref(X.alloc(st, iv))], st):
            if kk != 'ret': s.fail('building the data never aborts', q.pc, rep); continue
            d = vec(X, q, v, 'u8')
            s.ob('the data is the tag and the arguments in order', q.pc, and_(*[eq(asint(x), y) for x, y in zip(d, spec)]) if len(d) == len(spec) else FALSE, rep)
            datas.append((q.pc, d))
        st = St()
        mv = s.struct(mty, {f: t for f, t in bty.items()})
        nm = 0
        for q, kk, v in s.call(f'<{mty} as anchor_lang::ToAccountMetas>::to_account_metas', [Ref(X.alloc(st, mv)), NONE], st):
            if kk != 'ret': s.fail('building the account list never aborts', q.pc, rep); continue
            ms = []
            for m in vec(X, q, v, META):
                pk, si, w = structf(X, m, META, 'pubkey', 'is_signer', 'is_writable')
                ms.append((term_of(pk), asb(si), asb(w)))
            s.ob('the account list is the documented one', q.pc, and_(*[and_(eq(p, t), iff(si, TRUE if i == sg else FALSE), iff(w, TRUE if i in wr else FALSE)) for i, ((p, si, w), t) in enumerate(zip(ms, k.values()))])
                 if len(ms) == len(slots) else FALSE, rep)
            nm += 1
            for dpc, d in datas:
                s2 = S(c, s.name)
                E = Entry(s2, [asint(x) for x in d], len(ms), q.pc + dpc, slots=slots)
                E.data = [asint(x) for x in d]
                for (p, si, w), ac in zip(ms, E.P.acc):
                    E_as = [implies(si, ac.signer), implies(w, ac.writable), eq(p, ac.key)]
                    E.asm = getattr(E, 'asm', []) + E_as
                for q2, k2, v2 in E.outs:
                    h = q2.pc + E.asm
                    recs = q2.aux.get('proc', ())
                    s.ob('the entry point runs the operation with the accounts and arguments given', h, right(E, name, recs[0]) if len(recs) == 1 and k2 != 'panic' else FALSE, rep)
                    if recs: s.wit('runs', h)
                for kf_, vf in s2.X.seen_fns.items(): s.X.seen_fns.setdefault(kf_, vf)
        if not nm or not datas: raise Unsupported('nothing built')
    for name in DOC: c.scenario('client ' + name, lambda s, name=name: client(s, name))

    def asd(rep, ins):
        def f(m):
            l, o, d = rep(m)
            d = dict(d, ins=ins)
            if 'order' not in d: d['order'] = [x for x, _ in ISLOTS]
            return l, 'marks_oracle', d
        return f

    def marked(s, P, q, ins, pda):
        fn, n, slots, sg, wr = DOC[INS[ins]]
        W = [P.acc[i].key for i in wr]
        g = []
        for e in q.ev:
            for k, si, w in e.metas:
                g += [implies(asb(w), or_(*[eq(k, x) for x in W])), implies(asb(si), or_(eq(k, P.acc[sg].key), eq(k, pda)))]
        for i, a in enumerate(P.acc):
            if i not in wr and a.bytes: g += [eq(asint(s.X.load(q, Ref(P.dref[a.name], (('i', C(j)),)))), t) for j, t in enumerate(a.bytes)]
        return and_(*g)

    def ops(s, ins, kind):
        R = Run(s, ins, kind)
        n = 0
        for q in R.oks():
            n += 1
            rf = Refiner(R.P.distinct(), R.P.prefer()[:1], R.pins, R.refine(q))
            s.ob('changes only accounts marked writable, relies only on marked signatures', q.pc, marked(s, R.P, q, ins, R.P.pda()), asd(R.replay(q), ins), R.want(q), refiner=rf)
            if not any(e.fail for e in q.ev): s.wit('succeeds', q.pc)
        if not n and ins not in ('dep', 'deps'): raise Unsupported('no successful outcome to examine')
        s.notes.append(f'{len(R.outs)} outcomes, {n} successful')
    for ins in ('swap', 'dep', 'wd', 'deps', 'wds'):
        for kind in CURVES:
            if ins in ('dep', 'deps') and kind in ('offset', 'lin'): continue
            c.scenario(f'marks {ins} {kind}', lambda s, ins=ins, kind=kind: ops(s, ins, kind))

    def init(s, kind):
        R = Init(s, kind)
        n = 0
        X = s.X
        for q, k, v in R.outs:
            if k != 'ok': continue
            n += 1
            rep = asd(R.replay(q), 'init')
            s.ob('changes only accounts marked writable, relies only on marked signatures', q.pc + R.P.distinct(), marked(s, R.P, q, 'init', R.auth), rep, R.want(), hunt=R.P.prefer())
            if not any(e.fail for e in q.ev): s.wit('creation succeeds', q.pc + R.P.distinct())
        if not n: raise Unsupported('creation never succeeds')
    for kind in CURVES: c.scenario(f'marks init {kind}', lambda s, kind=kind: init(s, kind))


def vec(X, st, v, of): return Proc.vec(None, X, st, v, X.tyfind(f'std::vec::Vec<{of}>'))
