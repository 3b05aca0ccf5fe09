from entrypoint import *

KINDS = {'ConstantProduct': 'cp', 'ConstantPrice': 'cpr:1', 'Stable': 'stable:1', 'Offset': 'offset:1', 'LinearPrice': 'lin:1:1:1:1'}


def setup(c):
    c.desc = ('SwapConstraints::{validate_curve, validate_fees} with symbolic constraint and pool fees, every curve type against every set of up to three allowed types; '
              'process_initialize under symbolic constraints (owner address string, allowed types, fees): every successful path meets them, and every refusal is of a '
              'configuration that misses them or is unsafe, unreadable or cannot be minted (so the constraints refuse nothing else).')
    c.bounds = ['every fee field: every u64', 'allowed-type lists of length 0 to 3 (symbolic contents)', 'pool creation: lists of length 0 and 2, a 44-character owner string that decodes to any or no key', 'pool creation on a blank pool account'] + IBOUNDS[:1]
    c.assume = ASSUME[:4] + ['decoding of the owner string is an uninterpreted function']
    init_oracle(c, ('meets',))
    for kind in ('cp', 'cpr', 'stable', 'offset', 'lin'):
        for n in (0, 2): c.scenario(f'creation {kind} {n}', lambda s, kind=kind, n=n: created(s, kind, ('meets',), prior='zero', ntypes=n))
    
    @c.oracle
    def con_oracle(out, a):
        types, t, cf, f = a
        okc = t in types
        okf = all(f[i] >= cf[i] for i in (0, 2, 4)) and all(f[i] == cf[i] for i in (1, 3, 5, 6, 7))
        w = f'{str(okc).lower()} {str(okf).lower()}'
        if out[0] != w: return f'curve {t} against {types}, fees {f} against {cf}: {out[0]}, expected {w}'

    def con(s, st, types, fv):
        X = s.X
        key = X.alloc(st, Agg(tuple(C(b) for b in b'x')))
        arr = X.alloc(st, Agg(tuple(types)))
        fr = X.alloc(st, fv)
        t = s.ty(SC)
        return X.mk(t, [{'owner_key': Ref(key.root if isinstance(key, Ref) else key, (('i', C(0)),), C(1)),
                         'valid_curve_types': Ref(arr.root if isinstance(arr, Ref) else arr, (('i', C(0)),), C(len(types))),
                         'fees': Ref(fr)}[f] for f in X.T[t]['v'][0]['fn']])
    names = list(KINDS)

    def symtype(s, nm):
        """a symbolic curve type"""
        ct = s.ty(TB + 'curve::base::CurveType')
        idx = {s.variant(TB + 'curve::base::CurveType', n): n for n in names}
        v = V(nm, 0, len(idx) - 1)
        return En(v, {i: UNIT for i in idx}), v

    def fees(s):
        X = s.X; st = St()
        cf, cd = s.fees('c'); fv, fd = s.fees('f')
        sc = X.alloc(st, con(s, st, [], cf)); fr = X.alloc(st, fv)
        good = and_(*[ge(fd[FEEF[i]], cd[FEEF[i]]) for i in (0, 2, 4)], *[eq(fd[FEEF[i]], cd[FEEF[i]]) for i in (1, 3, 5, 6, 7)])
        rep = lambda m: ([f'con - {feeline(m, cd)} cp {feeline(m, fd)}'], 'con_oracle', ([], 'cp', fval(m, cd), fval(m, fd)))
        for q, k, v in splitres(s.call(SC + "::<'a>::validate_fees" if SC + "::<'a>::validate_fees" in s.ctx.P.byname else SC + "::<'_>::validate_fees", [Ref(sc), Ref(fr)], st)):
            if k == 'panic': s.fail('never aborts', q.pc, rep)
            elif k == 'ok': s.ob('accepts only fees meeting the constraints', q.pc, good, rep); s.wit('accepted', q.pc)
            else: s.ob('rejects only fees missing the constraints', q.pc, not_(good), rep); s.wit('rejected', q.pc)
    c.scenario('fees', fees)

    def curve(s, n):
        X = s.X; st = St()
        cf, cd = s.fees('c')
        idx = {s.variant(TB + 'curve::base::CurveType', x): x for x in names}
        tys = [symtype(s, f't{i}') for i in range(n)]
        me, mv = symtype(s, 'me')
        sc = X.alloc(st, con(s, st, [t for t, _ in tys], cf))
        box = Ref(X.alloc(st, UNIT), (), ('dyn', s.ty(CURVES['cp'][0])))
        cur = X.alloc(st, s.struct(UFB, {'curve_type': me, 'calculator': box}))
        good = or_(*[eq(v, mv) for _, v in tys]) if tys else FALSE
        kd = lambda i: KINDS[idx[i]]
        rep = lambda m: ([f'con {",".join(kd(m[v.a]) for _, v in tys) or "-"} {" ".join(["0"] * 8)} {kd(m["me"])} {" ".join(["0"] * 8)}'], 'con_oracle',
                         ([kd(m[v.a]) for _, v in tys], kd(m['me']), [0] * 8, [0] * 8))
        nm = [x for x in s.ctx.P.byname if x.startswith(SC) and x.endswith('validate_curve')]
        for q, k, v in splitres(s.call(nm[0], [Ref(sc), Ref(cur)], st)):
            if k == 'panic': s.fail('never aborts', q.pc, rep)
            elif k == 'ok': s.ob('accepts only allowed types', q.pc, good, rep)
            else: s.ob('rejects only other types', q.pc, not_(good), rep); s.wit('rejected', q.pc)
    for n in range(4): c.scenario(f'curve types {n}', lambda s, n=n: curve(s, n))

    # the deployed configuration reaches pool creation
    P2 = proddump()

    @c.oracle
    def prod_oracle(out, name):
        bad = tryprod(name)
        if bad: return f'production build: {name} {bad}'

    def tryprod(name):
        sc = scenes(name)[0]
        accs = scene(name, 1000000, 1000000, *sc[2:]) if name.endswith('constant_price') else scene(name, *sc)
        args = [0, 10000, 5, 10000, 0, 0, 20, 100, 7] if name.endswith('constant_price') else canon(name)[0]
        data = tag(name) + b''.join(x.to_bytes(8, 'little') for x in args)
        right_ = int.from_bytes(intercepts.b58decode(PRODKEY), 'little')

        def line(owner):
            al = [list(x) for x in accs]
            al[5][4] = tokenb(SK['mint'], owner, 0)
            return f'norm proc entry {h32(PROG)} -1 1 {data.hex()} {accline(al)}'
        o = Native.prod([line(SK['owner']), line(right_)])
        if o[0] != 'refused': return 'creates a pool whose fees go to someone else than the configured owner'
        if name.endswith('constant_price') and o[1] == 'refused': return 'refuses a pool meeting the configuration'

    def prod(s, name):
        from ex import Exec
        s.X = Exec(P2)
        fn, n, slots, sg, wr = DOC[name]
        data = [C(b) for b in tag(name)] + [V(f'd{i}', 0, 255) for i in range(8, 8 + 8 * n)]
        E = Entry(s, data, len(slots), slots=slots)
        X = s.X
        n = 0
        for q, k, v in E.outs:
            for fn_, a, r in q.aux.get('proc', ()):
                n += 1
                con = r['con']
                rep = lambda m: (['b58 ' + '00' * 32], 'prod_oracle', name)
                if not (isc(con.vi) and con.vi.a == 1): s.fail('the deployed constraints reach pool creation', q.pc, rep); continue
                ok_, ty, fe = structf(X, some_v(con), SC, 'owner_key', 'valid_curve_types', 'fees')
                s.ob('the configured owner is demanded', q.pc, TRUE if intercepts.strval(X, q, ok_) == PRODKEY else FALSE, rep)
                s.wit('creation runs', q.pc)
        if not n: raise Unsupported('creation not reached')
    for name in DOC:
        if name.startswith('init'): c.scenario(f'production {name}', lambda s, name=name: prod(s, name))
