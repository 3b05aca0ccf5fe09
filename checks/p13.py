from entrypoint import *


def setup(c):
    c.desc = ('token_bonding_curve::entry (dispatch, argument decoding, account validation and instruction handlers, all real code) with symbolic payload and accounts, up to the call of the '
              'Processor operation, which is recorded and may succeed or fail. Counterexamples are replayed by running the entry point and the operation itself natively on the same accounts.')
    c.bounds = ['every argument, key, owner, signer and writable flag', 'payload lengths 0 to the full length plus 8 for every instruction', 'account lists from empty to one more than documented',
                'unknown tags: every 8 bytes other than the seven instructions and the interface-description tag of the framework']
    c.assume = ['release profile arithmetic (overflow wraps)', 'equal account keys are allowed', 'the instruction tags are the first 8 bytes of SHA-256 of "global:" and the instruction name, as the client and framework define them']
    c.outside = ['the framework\'s interface-description instructions', 'heap exhaustion']

    @c.oracle
    def entry_oracle(out, d):
        name, model, signer, nacc, dlen, tagb = d
        r = tryall(name, canon(name) + model, signer, nacc, dlen, tagb)
        if r: return f'{name} with signer={int(signer)}, {nacc} accounts, {dlen} bytes: entry gives "{r[2][1][:300]}", expected "{r[3][:300]}" (direct: {r[0][:120]}..)'

    def rep(E, name, nacc, dlen):
        def f(m):
            fn, n, slots, sg, wr = DOC[name]
            bs = bytes(m[t.a] if not isc(t) else t.a for t in E.data)
            args = [int.from_bytes(bs[8 + 8 * i:16 + 8 * i].ljust(8, b'\0'), 'little') for i in range(n)]
            signer = bool(m[E.P.acc[sg].signer.a]) if sg < nacc else True
            return ['b58 ' + '00' * 32], 'entry_oracle', (name, [args], signer, nacc, dlen, bs[:8])
        return f

    def bsig(E, i): return E.P.acc[i].signer

    class Pins:
        sound = []; prefer = []

        def __init__(s, E, name): s.E = E; s.name = name

        @property
        def pins(s):
            out = []
            for args in canon(s.name):
                ts = args_of(s.name, s.E.data)
                for i in range(len(args)): out.append(([eq(t, C(a)) for j, (t, a) in enumerate(zip(ts, args)) if j != i], 1))
                out.append(([and_(ge(t, C(max(1, a // 2))), le(t, C(a + a // 8 + 1))) for t, a in zip(ts, args)], 1))
            return out

        def refine(s, m): return [], []

    def full(s, name, nacc, dlen):
        fn, n, slots, sg, wr = DOC[name]
        data = [C(b) for b in tag(name)] + [V(f'd{i}', 0, 255) for i in range(8, dlen)]
        data = data[:dlen]
        E = Entry(s, data, nacc, slots=slots)
        enough = nacc >= len(slots) and dlen >= 8 + 8 * n
        r = rep(E, name, nacc, dlen)
        rf = Pins(E, name) if enough else None
        ob = lambda l, q, g: s.ob(l, q.pc, g, r, refiner=rf)
        if not E.outs: raise Unsupported('no outcome')
        sgd = bsig(E, sg) if sg < nacc else FALSE
        for q, k, v in E.outs:
            recs = q.aux.get('proc', ())
            if k == 'panic': s.fail('never aborts', q.pc, r); continue
            if not enough:
                ob('rejects missing bytes and accounts', q, FALSE) if k == 'ok' or recs else None
                continue
            doc = and_(sgd, *[E.P.acc[i].writable for i in wr])
            if recs:
                ob('runs exactly the instruction\'s own operation, with its accounts and arguments', q, right(E, name, recs[0]) if len(recs) == 1 else FALSE)
                ob('demands the documented signature', q, sgd)
            if k == 'ok':
                ob('succeeds only if the operation did', q, TRUE if recs and q.aux['procok'] else FALSE)
                s.wit('succeeds', q.pc)
            else: ob('passes on what the operation did', q, not_(doc) if not recs else TRUE if not q.aux['procok'] else FALSE)
        if not enough: s.wit('rejected', E.outs[0][0].pc); s.notes.append(f'{len(E.outs)} outcomes')
    for name, (fn, n, slots, sg, wr) in DOC.items():
        L = 8 + 8 * n; K = len(slots)
        c.scenario(name, lambda s, name=name, K=K, L=L: full(s, name, K, L))
        c.scenario(f'{name} extra', lambda s, name=name, K=K, L=L: (full(s, name, K + 1, L + 8)))

        def short(s, name=name, K=K, L=L):
            for d in range(8, L): full(s, name, K, d)
            for k in range(K): full(s, name, k, L)
        c.scenario(f'{name} short', short)

    def unknown(s, dlen):
        names = list(DOC)
        data = [V(f'u{i}', 0, 255) for i in range(min(8, dlen))] + [V(f'd{i}', 0, 255) for i in range(8, dlen)]
        ne_ = lambda t: or_(*[ne(a, C(b)) for a, b in zip(data, t)])
        asm = [ne_(tag(n)) for n in names] + [ne_(IDL)] if dlen >= 8 else []
        E = Entry(s, data, 11, asm)
        name = 'swap'

        def r(m):
            bs = bytes(m[t.a] for t in data)
            al = [(n, tryall(n, canon(n), True, len(DOC[n][2]), max(len(bs), 8 + 8 * DOC[n][1]) if dlen >= 8 else len(bs), bs[:8])) for n in names]
            n = ([n for n, x in al if x] or ['swap'])[0]
            return ['b58 ' + '00' * 32], 'entry_oracle', (n, [], True, len(DOC[n][2]), max(len(bs), 8 + 8 * DOC[n][1]) if dlen >= 8 else len(bs), bs[:8])
        for q, k, v in E.outs:
            if k == 'panic': s.fail('never aborts', q.pc, r)
            elif k == 'ok' or q.aux.get('proc'): s.fail('an unknown tag is rejected', q.pc, r)
        if not E.outs: raise Unsupported('no outcome')
        s.notes.append(f'{len(E.outs)} outcomes')
        s.wit('rejected', E.outs[0][0].pc)
    for d in list(range(9)) + [24, 80]: c.scenario(f'unknown tag {d}', lambda s, d=d: unknown(s, d))
