from init import *

PK = 'solana_program::program_pack::Pack'
SV1 = TB + 'state::SwapV1'
FEES = TB + 'curve::fees::Fees'
CODE = {0: 'cp', 1: 'cpr', 2: 'stable', 3: 'offset', 30: 'lin'}
KEYS = STF[2:9]


def setup(c):
    c.desc = ('SwapVersion::{pack, unpack, is_initialized}, SwapV1, Fees and SwapCurve packing, all five calculators: every state is packed into a buffer of arbitrary previous content and read '
              'back; every 324-byte string is unpacked, re-packed and read again.')
    c.bounds = ['every field of the state, fees and curve at full width; every previous content of the buffer', 'every byte string of length 324; every length from 0 to 400 as to rejection', 'no loops']
    c.assume = ['release profile arithmetic (overflow wraps)', 'the curve object matches its type tag']
    c.outside = ['packing into an empty buffer aborts (the program never does this)']

    # -- reading values ---------------------------------------------------------------------------
    def curvet(X, st, cv):
        """(type index, kind of the calculator, its parameters)"""
        ct, box = structf(X, cv, UFB, 'curve_type', 'calculator')
        bx = leafptr(box)
        kind = [k for k, (n, f) in CURVES.items() if bx.meta and bx.meta[0] == 'dyn' and X.tyfind(n) == bx.meta[1]]
        if not kind: raise Unsupported('unknown calculator')
        k = kind[0]
        return ct.vi, k, structf(X, X.load(st, Ref(bx.root, bx.path)), CURVES[k][0], *CURVES[k][1]) if CURVES[k][1] else []

    def feest(X, v): return structf(X, v, FEES, *FEEF)

    def statet(X, st, v):
        f = dict(zip(STF, structf(X, v, SV1, *STF)))
        return dict(init=asb(f['is_initialized']), bump=asint(f['bump_seed']), fees=feest(X, f['fees']), curve=curvet(X, st, f['swap_curve']), **{k: term_of(f[k]) for k in KEYS})

    def viaget(s, st, ref):
        X = s.X
        obj = Ref(ref.root, ref.path)

        def get(m):
            o = s.call(f'<{SV1} as {TB}state::SwapState>::{m}', [obj], st)
            if len(o) != 1 or o[0][1] != 'ret': raise Unsupported('getter forks')
            return o[0][2]
        g = {'token_program_id': 'token_program_id', 'token_a': 'token_a_account', 'token_b': 'token_b_account', 'pool_mint': 'pool_mint', 'token_a_mint': 'token_a_mint', 'token_b_mint': 'token_b_mint', 'pool_fee_account': 'pool_fee_account'}
        return dict(init=asb(get('is_initialized')), bump=asint(get('bump_seed')), fees=feest(X, X.load(st, get('fees'))), curve=curvet(X, st, X.load(st, get('swap_curve'))), **{k: term_of(X.load(st, get(g[k]))) for k in KEYS})

    def samecurve(a, b): return and_(eq(a[0], b[0]), *[eq(x, y) for x, y in zip(a[2], b[2])]) if a[1] == b[1] else FALSE

    def samestate(a, b):
        return and_(iff(a['init'], b['init']), eq(a['bump'], b['bump']), samecurve(a['curve'], b['curve']), *[eq(x, y) for x, y in zip(a['fees'], b['fees'])], *[eq(a[k], b[k]) for k in KEYS])

    # -- oracles ----------------------------------------------------------------------------------
    @c.oracle
    def round_oracle(out, d):
        """out: packed bytes of the described state over a garbage buffer"""
        t = out[0].split()
        if t[0] != 'ok': return f'packing a state fails: {out[0]}'
        b = bytes.fromhex(t[1])
        u = Native.run(['unpack ' + t[1], 'unpack1 ' + t[1][2:], 'isinit ' + t[1]])
        exp = d['fields']
        if u[1].split() != ['ok'] + exp: return f'state {exp} reads back as {u[1]}'
        if exp[0] == '1' and u[0].split() != ['ok'] + exp: return f'state {exp} reads back as {u[0]}'
        if exp[0] == '0' and u[0].startswith('ok'): return 'an uninitialised state reads back as a pool'
        if u[2] != ('true' if exp[0] == '1' else 'false'): return f'is_initialized is {u[2]} on state {exp}'

    @c.oracle
    def bytes_oracle(out, d):
        b = d
        good = len(b) == 324 and b[0] == 1 and b[1] == 1 and b[291] in CODE
        u, u1, ii = out
        if u == 'panic' or u1 == 'panic': return f'reading {b.hex()} aborts'
        if u.startswith('ok') != good: return f'reading {b.hex()} gives {u}'
        if ii != ('true' if good else 'false'): return f'is_initialized of {b.hex()} is {ii}'
        if good:
            f = u.split()[1:]
            par = [int.from_bytes(bytes.fromhex(f[17])[1 + 8 * i:9 + 8 * i], 'little') for i in range(4)]
            k = CODE.get(bytes.fromhex(f[17])[0])
            if k is None: return f'reading {b.hex()} gives an unknown curve'
            cu = ':'.join([k] + [str(x) for x in par[:len(CURVES[k][1])]])
            o = Native.run(['pack ' + ' '.join(f[:17]) + f' {cu} 170 324'])[0].split()
            if o[0] != 'ok': return f'{b.hex()} reads as {u} which does not pack'
            u2 = Native.run(['unpack ' + o[1]])[0]
            if u2 != u: return f'{b.hex()} reads as {u}, re-encodes and reads as {u2}'

    @c.oracle
    def part_oracle(out, d):
        kind, arg = d
        b = out[0] if kind != 'bytes' else None
        if kind == 'fees':
            r = Native.run(['funpack ' + out[0]])[0]
            if r.split() != ['ok'] + [str(x) for x in arg]: return f'fees {arg} read back as {r}'
        elif kind == 'curve':
            r = Native.run(['cunpack ' + out[0]])[0].split()
            if r != ['ok', out[0]]: return f'curve {arg} packs to {out[0]} and reads back as {r}'
            k = arg.split(':')
            b = bytes.fromhex(out[0])
            got = [int.from_bytes(b[1 + 8 * i:9 + 8 * i], 'little') for i in range(len(k) - 1)]
            if CODE.get(b[0]) != k[0] or sorted(got) != sorted(int(x) for x in k[1:]): return f'curve {arg} packs to {out[0]}'

    def statearg(m, d, cd, kind, init):
        f = ['1' if init else '0', str(m['rec_bump'])] + [h32(m['rec_' + k]) for k in KEYS] + [str(x) for x in fval(m, d)]
        cu = cline(kind, m, cd)
        return f, cu

    def mkstate(s, st, kind, init):
        fv, fd = s.fees(); cv, cd = s.curve(kind)
        vals = {n: bytes_of(V('rec_' + n, 0, U256), 32) for n in KEYS}
        vals.update(is_initialized=init, bump_seed=V('rec_bump', 0, 255), fees=fv, swap_curve=s.scurve(st, kind, cv))
        return s.struct(SV1, vals), fd, cd

    def wantstate(s, kind, fd, cd, init):
        return dict(init=init, bump=V('rec_bump', 0, 255), fees=[fd[f] for f in FEEF], curve=(C(s.variant(TB + 'curve::base::CurveType', KN[kind])), kind, list(cd.values())), **{k: V('rec_' + k, 0, U256) for k in KEYS})

    def state(s, kind, init):
        X = s.X; st = St()
        sv, fd, cd = mkstate(s, st, kind, TRUE if init else FALSE)
        buf = X.alloc(st, Agg(tuple(V(f'old{i}', 0, 255) for i in range(324))))
        sl = Ref(buf, (('i', C(0)),), C(324))
        want = wantstate(s, kind, fd, cd, TRUE if init else FALSE)

        def rep(m):
            f, cu = statearg(m, fd, cd, kind, init)
            # the driver fills the buffer with one byte value
            line = 'pack ' + ' '.join(f) + f' {cu} {m["old323"]} 324'
            b = Native.run(['cpack ' + cu])[0]
            pk = bytes.fromhex(b)
            return [line], 'round_oracle', {'fields': f + [b[:2 + 16 * len(cd)] .ljust(66, '0')]}
        vt = s.variant(TB + 'state::SwapVersion', 'SwapV1')
        for q, k, v in splitres(s.call(TB + 'state::SwapVersion::pack', [En(C(vt), {vt: Agg((sv,))}), sl], st)):
            if k != 'ok': s.fail('packing succeeds', q.pc, rep); continue
            s.wit('packed', q.pc)
            for q2, k2, v2 in splitres(s.call(f'<{SV1} as {PK}>::unpack_from_slice', [Ref(buf, (('i', C(1)),), C(323))], q.copy())):
                if k2 != 'ok': s.fail('the state reads back', q2.pc, rep)
                else: s.ob('the state reads back as it was written', q2.pc, samestate(statet(X, q2, v2.f[0]), want), rep)
            for q2, k2, v2 in splitres(s.call(TB + 'state::SwapVersion::unpack', [sl], q.copy())):
                if k2 == 'panic' or (k2 == 'ok') != init: s.fail('only initialised states read back as pools', q2.pc, rep)
                elif k2 == 'ok': s.ob('the pool reads back as it was written', q2.pc, samestate(viaget(s, q2, leafptr(v2)), want), rep)
            for q2, k2, v2 in s.call(TB + 'state::SwapVersion::is_initialized', [sl], q.copy()):
                if k2 != 'ret': s.fail('the flag is readable', q2.pc, rep)
                else: s.ob('the flag is read back', q2.pc, iff(asb(v2), TRUE if init else FALSE), rep)
    for kind in CURVES:
        for init in (True, False): c.scenario(f'state {kind} {"initialised" if init else "uninitialised"}', lambda s, kind=kind, init=init: state(s, kind, init))

    def anybytes(s, n):
        X = s.X; st = St()
        bs = [V(f'b{i}', 0, 255) for i in range(n)]
        buf = X.alloc(st, Agg(tuple(bs)))
        sl = Ref(buf, (('i', C(0)),), C(n))
        good = and_(eq(bs[0], C(1)), eq(bs[1], C(1)), or_(*[eq(bs[291], C(k)) for k in CODE])) if n == 324 else FALSE
        rep = lambda m: (lambda h: ([f'unpack {h.hex() or "-"}', f'unpack1 {h[1:].hex() or "-"}' if len(h) == 324 else 'b58 ' + '00' * 32, f'isinit {h.hex() or "-"}'], 'bytes_oracle', h))(bytes(m[b.a] for b in bs))
        for q, k, v in splitres(s.call(TB + 'state::SwapVersion::unpack', [sl], st.copy())):
            if k == 'panic': s.fail('reading never aborts', q.pc, rep); continue
            s.ob('reads exactly the well-formed strings', q.pc, good if k == 'ok' else not_(good), rep)
            if k != 'ok': continue
            s.wit('read', q.pc)
            # read the state itself, write it again over anything, read it again
            for q2, k2, v2 in splitres(s.call(f'<{SV1} as {PK}>::unpack_from_slice', [Ref(buf, (('i', C(1)),), C(n - 1))], q.copy())):
                if k2 != 'ok': s.fail('the state inside reads as well', q2.pc, rep); continue
                one = statet(X, q2, v2.f[0])
                s.ob('getters agree with the state', q2.pc, samestate(viaget(s, q2, leafptr(v)), one), rep)
                b2 = X.alloc(q2, Agg(tuple(V(f'old{i}', 0, 255) for i in range(324))))
                sl2 = Ref(b2, (('i', C(0)),), C(324))
                vt = s.variant(TB + 'state::SwapVersion', 'SwapV1')
                for q3, k3, v3 in splitres(s.call(TB + 'state::SwapVersion::pack', [En(C(vt), {vt: Agg((v2.f[0],))}), sl2], q2)):
                    if k3 != 'ok': s.fail('what was read can be written', q3.pc, rep); continue
                    for q4, k4, v4 in splitres(s.call(TB + 'state::SwapVersion::unpack', [sl2], q3)):
                        if k4 != 'ok': s.fail('what was re-encoded reads', q4.pc, rep)
                        else: s.ob('re-encodes to the same meaning', q4.pc, samestate(viaget(s, q4, leafptr(v4)), one), rep)
        for q, k, v in s.call(TB + 'state::SwapVersion::is_initialized', [sl], st):
            if k != 'ret': s.fail('the flag is readable', q.pc, rep)
            else: s.ob('a pool is there exactly if it reads', q.pc, iff(asb(v), good), rep)
    c.scenario('bytes 324', lambda s: anybytes(s, 324))

    def lengths(s, rng):
        for n in rng: anybytes(s, n)
        s.wit('lengths', [])
    LEN = [n for n in list(range(0, 401)) + [512, 648, 1024] if n != 324]
    for i in range(8): c.scenario(f'other lengths {i}', lambda s, i=i: lengths(s, LEN[i::8]))

    def packlen(s):
        X = s.X
        vt = s.variant(TB + 'state::SwapVersion', 'SwapV1')
        st0 = St()
        sv, fd, cd = mkstate(s, st0, 'cpr', TRUE)
        for n in list(range(0, 330)) + [512]:
            if n == 324: continue
            st = st0.copy()
            buf = X.alloc(st, Agg(tuple(C(0) for i in range(n))))
            rep = lambda m, n=n: (lambda f: (['pack ' + ' '.join(f[0]) + f' {f[1]} 0 {n}'], 'len_oracle', n))(statearg(m, fd, cd, 'cpr', True))
            for q, k, v in splitres(s.call(TB + 'state::SwapVersion::pack', [En(C(vt), {vt: Agg((sv,))}), Ref(buf, (('i', C(0)),), C(n))], st)):
                if k == 'ok': s.fail('a buffer of another length is refused', q.pc, rep)
                elif n and k == 'panic': s.fail('a buffer of another length is refused without aborting', q.pc, rep)
        s.wit('lengths', [])
    c.scenario('buffer lengths', packlen)

    @c.oracle
    def len_oracle(out, n):
        if out[0].startswith('ok') or out[0] == 'panic' and n: return f'packing into {n} bytes: {out[0][:60]}'

    def fees(s):
        X = s.X; st = St()
        fv, fd = s.fees()
        buf = X.alloc(st, Agg(tuple(V(f'old{i}', 0, 255) for i in range(64))))
        sl = Ref(buf, (('i', C(0)),), C(64))
        rep = lambda m: ([f'fpack {feeline(m, fd)}'], 'part_oracle', ('fees', fval(m, fd)))
        for q, k, v in s.call(f'<{FEES} as {PK}>::pack_into_slice', [Ref(X.alloc(st, fv)), sl], st):
            if k != 'ret': s.fail('writing fees never aborts', q.pc, rep); continue
            for q2, k2, v2 in splitres(s.call(f'<{FEES} as {PK}>::unpack_from_slice', [sl], q)):
                if k2 != 'ok': s.fail('fees read back', q2.pc, rep)
                else: s.ob('fees read back as written', q2.pc, and_(*[eq(x, fd[f]) for x, f in zip(feest(X, v2.f[0]), FEEF)]), rep); s.wit('read', q2.pc)
    c.scenario('fees', fees)

    def curve(s, kind):
        X = s.X; st = St()
        cv, cd = s.curve(kind)
        buf = X.alloc(st, Agg(tuple(V(f'old{i}', 0, 255) for i in range(33))))
        sl = Ref(buf, (('i', C(0)),), C(33))
        sc = s.scurve(st, kind, cv)
        rep = lambda m: ([f'cpack {cline(kind, m, cd)}'], 'part_oracle', ('curve', cline(kind, m, cd)))
        want = (C(s.variant(TB + 'curve::base::CurveType', KN[kind])), kind, list(cd.values()))
        for q, k, v in s.call(f'<{UFB} as {PK}>::pack_into_slice', [Ref(X.alloc(st, sc)), sl], st):
            if k != 'ret': s.fail('writing a curve never aborts', q.pc, rep); continue
            for q2, k2, v2 in splitres(s.call(f'<{UFB} as {PK}>::unpack_from_slice', [sl], q)):
                if k2 != 'ok': s.fail('the curve reads back', q2.pc, rep)
                else: s.ob('the curve reads back as written', q2.pc, samecurve(curvet(X, q2, v2.f[0]), want), rep); s.wit('read', q2.pc)
    for kind in CURVES: c.scenario(f'curve {kind}', lambda s, kind=kind: curve(s, kind))

    def curvebytes(s):
        X = s.X; st = St()
        bs = [V(f'b{i}', 0, 255) for i in range(33)]
        buf = X.alloc(st, Agg(tuple(bs)))
        rep = lambda m: (lambda h: ([f'cunpack {h.hex()}'], 'cb_oracle', h))(bytes(m[b.a] for b in bs))
        idx = {s.variant(TB + 'curve::base::CurveType', n): k for k, n in KN.items()}
        for q, k, v in splitres(s.call(f'<{UFB} as {PK}>::unpack_from_slice', [Ref(buf, (('i', C(0)),), C(33))], st)):
            good = or_(*[eq(bs[0], C(x)) for x in CODE])
            if k == 'panic': s.fail('reading a curve never aborts', q.pc, rep)
            elif k == 'err': s.ob('only unknown curve types are rejected', q.pc, not_(good), rep); s.wit('rejected', q.pc)
            else:
                t, kind, p = curvet(X, q, v.f[0])
                code = [x for x, n in CODE.items() if n == kind][0]
                s.ob('the stored type is the one read', q.pc, and_(eq(bs[0], C(code)), eq(t, C(s.variant(TB + 'curve::base::CurveType', KN[kind])))), rep)
    c.scenario('curve bytes', curvebytes)

    @c.oracle
    def cb_oracle(out, h):
        good = h[0] in CODE
        if out[0].startswith('ok') != good: return f'reading curve {h.hex()} gives {out[0]}'
        if good and bytes.fromhex(out[0].split()[1])[0] != h[0]: return f'curve {h.hex()} reads as {out[0]}'
