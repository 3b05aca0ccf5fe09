"""Pool creation: symbolic execution of process_initialize with symbolic accounts, previous pool bytes, fees, curve and
deployment constraints; its specification as terms and in Python."""
from insn import *
from insnmeta import *
import intercepts

ISLOTS = [('swap', 'pool'), ('auth', 'raw'), ('a', 'token'), ('b', 'token'), ('mint', 'mint'), ('fee', 'token'), ('dst', 'token'), ('tp', 'raw')]
KN = {'cp': 'ConstantProduct', 'cpr': 'ConstantPrice', 'stable': 'Stable', 'offset': 'Offset', 'lin': 'LinearPrice'}
SC = TB + 'constraints::SwapConstraints'
ADDRLEN = 44
TPID = int.from_bytes(bytes.fromhex('06ddf6e1d765a193d9cbe146ceeb79ac1cb485ed5f5b37913a8cf5857eff00a9'), 'little')
GET = {'token_program_id': 'tp', 'token_a_account': 'a', 'token_b_account': 'b', 'pool_mint': 'mint', 'pool_fee_account': 'fee'}


def curvegood(kind, p):
    if kind in ('cpr', 'offset'): return ne(p[0], C(0))
    if kind == 'lin': return and_(ne(p[0], C(0)), ne(p[1], C(0)), ne(p[3], C(0)), ge(mulc(10**18, p[0]), p[1]))
    return TRUE


def supplygood(kind, a, b):
    if kind == 'lin': return and_(eq(a, C(0)), ne(b, C(0)))
    if kind in ('cpr', 'offset'): return ne(a, C(0))
    return and_(ne(a, C(0)), ne(b, C(0)))


def pycurve(kind, p):
    if kind in ('cpr', 'offset'): return p[0] != 0
    if kind == 'lin': return p[0] != 0 and p[1] != 0 and p[3] != 0 and p[0] * 10**18 >= p[1]
    return True


def pysupply(kind, a, b):
    if kind == 'lin': return a == 0 and b != 0
    if kind in ('cpr', 'offset'): return a != 0
    return a != 0 and b != 0


class Init:
    def __init__(self, s, kind, prior='any', ntypes=None, watch=False):
        self.s = s; self.kind = kind; self.prior = prior; self.ntypes = ntypes
        if prior == 'pool':
            P = self.P = Proc(s, ISLOTS, kind)
        else:
            self.prev = [V(f'prev{i}', 0, 255) for i in range(324)] if prior == 'any' else [C(0)] * 324
            P = self.P = Proc(s, ISLOTS, None, blank=self.prev)
        X = P.X; st = P.st; P.watch = watch
        fv, self.fd = s.fees('n')
        cv, self.cd = s.curve(kind, 'n')
        cur = s.scurve(st, kind, cv)
        con = En(C(0), {0: UNIT})
        self.cfd = None
        if ntypes is not None:
            cf, self.cfd = s.fees('k')
            ct = s.ty(TB + 'curve::base::CurveType')
            self.tidx = {s.variant(TB + 'curve::base::CurveType', n): k for k, n in KN.items()}
            self.tv = [V(f't{i}', 0, 4) for i in range(ntypes)]
            arr = X.alloc(st, Agg(tuple(En(v, {i: UNIT for i in self.tidx}) for v in self.tv)))
            okb = [V(f'okey{i}', 0, 255) for i in range(ADDRLEN)]
            key = X.alloc(st, Agg(tuple(okb)))
            self.okok, self.okey = intercepts.b58uf(okb)
            fr = X.alloc(st, cf)
            sct = s.ty(SC)
            v = {'owner_key': Ref(key, (('i', C(0)),), C(ADDRLEN)), 'valid_curve_types': Ref(arr, (('i', C(0)),), C(ntypes)), 'fees': Ref(fr)}
            scv = X.mk(sct, [v[f] for f in X.T[sct]['v'][0]['fn']])
            con = some(scv)
        self.outs = splitres(s.call(TB + 'processor::Processor::process_initialize',
                                    [Ref(X.alloc(st, bytes_of(P.prog, 32))), fv, cur, P.infos, Ref(X.alloc(st, con))], st))
        self.bump = intercepts.fpabump([(P.acc[0].key, 32)], P.prog)
        self.auth = intercepts.pda([(P.acc[0].key, 32), (self.bump, 1)], P.prog)[0]

    def K(self, n): return self.P.by[n].key

    # -- specification ---------------------------------------------------------------------------

    def safe(self):
        """[(what, condition)] of a safe configuration"""
        P = self.P; B = P.by; K = self.K; tp = K('tp'); fd = self.fd
        c = [('the authority is the pool\'s own', eq(K('auth'), self.auth)),
             ('both vaults belong to the authority', and_(eq(B['a']['owner'], self.auth), eq(B['b']['owner'], self.auth))),
             ('the vaults hold different tokens', ne(B['a']['mint'], B['b']['mint'])),
             ('no vault has a delegate', and_(eq(B['a']['dtag'], C(0)), eq(B['b']['dtag'], C(0)))),
             ('no vault has a close authority', and_(eq(B['a']['ctag'], C(0)), eq(B['b']['ctag'], C(0)))),
             ('the pool mint is empty', eq(B['mint']['supply'], C(0))),
             ('the pool mint is minted by the authority', and_(eq(B['mint']['atag'], C(1)), eq(B['mint']['authority'], self.auth))),
             ('the pool mint cannot be frozen', eq(B['mint']['ftag'], C(0))),
             ('the pool mint is initialised', eq(B['mint']['init'], C(1))),
             ('the fee account holds the pool mint', eq(B['fee']['mint'], K('mint'))),
             ('the fee account is not the authority\'s', ne(B['fee']['owner'], self.auth)),
             ('the destination is not the authority\'s', ne(B['dst']['owner'], self.auth)),
             ('token accounts belong to the given token program', and_(*[eq(B[n].owner, tp) for n in ('a', 'b', 'fee', 'dst', 'mint')])),
             ('token accounts are initialised', and_(*[and_(ge(B[n]['state'], C(1)), le(B[n]['state'], C(2))) for n in ('a', 'b', 'fee', 'dst')]))]
        for nm, (n, d) in zip(('trading', 'owner trading', 'owner withdraw', 'host'), ((0, 1), (2, 3), (4, 5), (6, 7))):
            n, d = fd[FEEF[n]], fd[FEEF[d]]
            c.append((f'valid {nm} fee', or_(and_(eq(n, C(0)), eq(d, C(0))), lt(n, d))))
        c.append(('acceptable curve parameters', curvegood(self.kind, list(self.cd.values()))))
        c.append(('acceptable starting balances', supplygood(self.kind, B['a']['amount'], B['b']['amount'])))
        return c

    def readable(self):
        """the account contents are well-formed token accounts, the token program is the one there is"""
        B = self.P.by; tag = lambda t: le(t, C(1))
        return and_(eq(self.K('tp'), C(TPID)), *[and_(tag(B[n]['dtag']), tag(B[n]['ntag']), tag(B[n]['ctag'])) for n in ('a', 'b', 'fee', 'dst')], tag(B['mint']['atag']), tag(B['mint']['ftag']))

    def meets(self):
        """[(what, condition)] of the deployment constraints"""
        f, k = self.fd, self.cfd
        me = [i for i, n in self.tidx.items() if n == self.kind][0]
        return [('the curve type is allowed', or_(*[eq(v, C(me)) for v in self.tv]) if self.tv else FALSE),
                ('the fee account belongs to the configured owner', and_(self.okok, eq(self.P.by['fee']['owner'], self.okey))),
                ('fee fractions meet the configured ones', and_(*[ge(f[FEEF[i]], k[FEEF[i]]) for i in (0, 2, 4)], *[eq(f[FEEF[i]], k[FEEF[i]]) for i in (1, 3, 5, 6, 7)]))]

    def records(self, q):
        """[(what, condition)]: what reading the pool account back yields"""
        s = self.s; X = s.X; P = self.P
        r = s.call(TB + 'state::SwapVersion::unpack', [Ref(P.dref['swap'], (('i', C(0)),), C(324))], q.copy())
        out = []
        for st, k, v in splitres(r):
            if k != 'ok':
                out.append((st, [('the created state reads back', FALSE)])); continue
            ref = leafptr(v)
            obj = Ref(ref.root, ref.path)
            g = lambda m: [o for o in s.call(f'<{TB}state::SwapV1 as {TB}state::SwapState>::{m}', [obj], st)]

            def get(m):
                o = g(m)
                if len(o) != 1 or o[0][1] != 'ret': raise Unsupported('getter forks')
                return o[0][2]
            c = [('marked initialised', asb(get('is_initialized'))), ('authority bump', eq(asint(get('bump_seed')), self.bump))]
            for m, n in GET.items(): c.append((f'recorded {m}', eq(term_of(X.load(st, get(m))), self.K(n))))
            c.append(('recorded mint of A', eq(term_of(X.load(st, get('token_a_mint'))), P.by['a']['mint'])))
            c.append(('recorded mint of B', eq(term_of(X.load(st, get('token_b_mint'))), P.by['b']['mint'])))
            fv = X.load(st, get('fees'))
            c.append(('recorded fees', and_(*[eq(t, self.fd[n]) for t, n in zip(structf(X, fv, TB + 'curve::fees::Fees', *FEEF), FEEF)])))
            cv = X.load(st, get('swap_curve'))
            ct, box = structf(X, cv, UFB, 'curve_type', 'calculator')
            want = s.variant(TB + 'curve::base::CurveType', KN[self.kind])
            bx = leafptr(box)
            same = eq(ct.vi, C(want))
            if bx.meta and bx.meta[0] == 'dyn' and bx.meta[1] == s.ty(CURVES[self.kind][0]):
                if self.cd: same = and_(same, *[eq(t, v) for t, v in zip(structf(X, X.load(st, Ref(bx.root, bx.path)), CURVES[self.kind][0], *self.cd), self.cd.values())])
                c.append(('recorded curve', same))
            else: c.append(('recorded curve', FALSE))
            out.append((st, c))
        return out

    def minted(self, q):
        """exactly the initial supply is minted to the destination, signed by the pool, under the given token program"""
        if any(e.fail for e in q.ev) or not known_events(q.ev): return FALSE
        K = self.K
        return and_(moves_exactly(q.ev, 'mint_to', [(K('mint'), K('dst'), K('auth'), C(NPS))]), moves_exactly(q.ev, 'transfer', []), moves_exactly(q.ev, 'burn', []),
                    signed(q.ev, K('swap'), K('auth'), self.bump), *[eq(e.prog, K('tp')) for e in q.ev], *[e.metas[2][1] for e in q.ev])

    def unchanged(self, q):
        return and_(*[eq(asint(self.s.X.load(q, Ref(self.P.dref['swap'], (('i', C(i)),)))), t) for i, t in enumerate(self.P.by['swap'].bytes)])

    # -- obligations -------------------------------------------------------------------------------

    def want(self):
        w = {'pda': self.auth, 'bumpv': self.bump}
        if self.cfd: w['okok'] = self.okok; w['okeyv'] = self.okey
        return w

    def hyps(self, q): return q.pc

    def ob(self, label, q, goal, pc=None, lemmas=(), rep=None):
        self.s.ob(label, (pc or q.pc) + self.P.distinct(), goal, rep or self.replay(q), self.want(), lemmas=lemmas, hunt=self.P.prefer())

    def replay(self, q):
        def rep(m):
            P = self.P
            fl = -1
            for i, e in enumerate(q.ev):
                if e.fail: fl = i
            args = fval(m, self.fd) + [cline(self.kind, m, self.cd)]
            con = None
            # substitution of the program-derived address also in the configured owner
            line, m2, bump = P.line(m, 'init', args, fl)
            real = int.from_bytes(bytes.fromhex(Native.run([f'pda {h32(tv(m2, P.prog))} {h32(tv(m2, P.acc[0].key))}'])[0].split()[0]), 'little')
            if self.cfd:
                ok_ = m.get('okeyv', 0)
                if ok_ == m['pda']: ok_ = real
                good = bool(m.get('okok', True))
                types = [self.tidx[m[v.a]] for v in self.tv]
                con = {'ok': good, 'key': ok_, 'types': types, 'fees': fval(m, self.cfd)}
                par = {'cp': 'cp', 'cpr': 'cpr:1', 'stable': 'stable:1', 'offset': 'offset:1', 'lin': 'lin:1:1:1:1'}
                s_ = intercepts.b58encode(ok_.to_bytes(32, 'little')) if good else 'zzz'
                args = args + [s_, ','.join(par[t] for t in types) or '-'] + con['fees']
                line, m2, bump = P.line(m, 'init', args, fl)
            d = {'kind': self.kind, 'p': [tv(m2, v) for v in self.cd.values()], 'fees': fval(m, self.fd), 'con': con, 'fail': fl, 'pda': real, 'bump': bump,
                 'prog': tv(m2, P.prog), 'acc': {}, 'prior': self.prior, 'curve': cline(self.kind, m, self.cd)}
            first = {}
            for a in P.acc:
                k = tv(m2, a.key); bs = bytes(tv(m2, x) for x in a.bytes)
                if k in first:
                    if len(bs) > len(first[k]['data']): first[k]['data'] = bs
                else: first[k] = {'key': k, 'owner': tv(m2, a.owner), 'data': bs}
                d['acc'][a.name] = first[k]
            return [line], 'init_oracle', d
        return rep


def asb(v): return v if v.isb else ne(v, C(0))


def check_init(d, out):
    res, evs, datas = out.split(' # ')
    acc = d['acc']; K = {n: a['key'] for n, a in acc.items()}
    bad = []
    tok = lambda n: acc[n]['data']
    f = d['fees']; auth = d['pda']; mb = tok('mint')
    le4 = lambda b, o: int.from_bytes(b[o:o + 4], 'little')
    a, b_ = tok('a'), tok('b')
    safe = [('the authority is not the pool\'s', K['auth'] == auth)]
    for n in ('a', 'b', 'fee', 'dst'):
        safe.append((f'{n} is no token account', len(tok(n)) == 165 and tok(n)[108] in (1, 2) and acc[n]['owner'] == K['tp']))
    safe.append(('the mint is no mint', len(mb) == 82 and mb[45] == 1 and acc['mint']['owner'] == K['tp']))
    if all(x for _, x in safe[1:]):
        safe += [('a vault is not owned by the authority', le32(a, 32) == auth and le32(b_, 32) == auth), ('both vaults hold the same token', le32(a, 0) != le32(b_, 0)),
                 ('a vault has a delegate', not le4(a, 72) and not le4(b_, 72)), ('a vault has a close authority', not le4(a, 129) and not le4(b_, 129)),
                 ('the pool mint is not empty', not le8(mb, 36)), ('the pool mint is minted by another authority', le4(mb, 0) == 1 and le32(mb, 4) == auth),
                 ('the pool mint can be frozen', not le4(mb, 46)), ('the fee account is of another mint', le32(tok('fee'), 0) == K['mint']),
                 ('the fee account is the authority\'s', le32(tok('fee'), 32) != auth), ('the destination is the authority\'s', le32(tok('dst'), 32) != auth),
                 ('unacceptable starting balances', pysupply(d['kind'], le8(a, 64), le8(b_, 64)))]
    safe.append(('invalid fees', all(f[i] < f[i + 1] or f[i] == f[i + 1] == 0 for i in (0, 2, 4, 6))))
    safe.append(('unacceptable curve parameters', pycurve(d['kind'], d['p'])))
    meets = []
    if d['con']:
        k = d['con']
        meets = [('the curve type is not allowed', d['kind'] in k['types']),
                 ('the fee account belongs to someone else than the configured owner', k['ok'] and len(tok('fee')) == 165 and le32(tok('fee'), 32) == k['key']),
                 ('fees do not meet the constraints', all(f[i] >= k['fees'][i] for i in (0, 2, 4)) and all(f[i] == k['fees'][i] for i in (1, 3, 5, 6, 7)))]
    if res == 'ok':
        for t, c in safe:
            if not c: bad.append(('safe', f'a {d["kind"]} pool is created although {t}'))
        for t, c in meets:
            if not c: bad.append(('meets', f'a {d["kind"]} pool is created although {t}'))
        if d['prior'] == 'pool': bad.append(('again', 'a pool is created over an initialised pool'))
        got = Native.run(['unpack ' + datas.split(',')[0]])[0].split()
        h = lambda n: h32(K[n])
        exp = ['ok', '1', str(d['bump']), h('tp'), h('a'), h('b'), h('mint'), h32(le32(a, 0)), h32(le32(b_, 0)), h('fee')] + [str(x) for x in f] + [Native.run(['cpack ' + d['curve']])[0]]
        if got != exp: bad.append(('record', f'the created pool reads back as {" ".join(got)}, expected {" ".join(exp)}'))
        es = parse_events(evs)
        w = want_totals([('mint_to', K['mint'], K['dst'], K['auth'], NPS)])
        if totals(es) != w: bad.append(('mint', f'creation moves {totals(es)}, expected {w}'))
        for e in es:
            if e['prog'] != K['tp']: bad.append(('mint', 'minting through a foreign token program'))
            if not e['metas'][2][1] or [h32(K['swap']), '%02x' % d['bump']] not in [[x.hex() for x in sd] for sd in e['seeds']]: bad.append(('mint', 'minting lacks the pool\'s signature'))
        if d['fail'] == 0: bad.append(('mint', 'creation succeeds although minting fails'))
    else:
        if d['con'] and d['prior'] == 'zero' and d['fail'] < 0 and K['tp'] == TPID and all(c for _, c in safe + meets) and all(le4(tok(n), o) < 2 for n in ('a', 'b', 'fee', 'dst') for o in (72, 109, 129)):
            bad.append(('meets', f'a {d["kind"]} pool meeting the deployment constraints is refused'))
        if not d['con'] and d['prior'] == 'zero' and d['fail'] < 0 and K['tp'] == TPID and all(c for _, c in safe) and all(le4(tok(n), o) < 2 for n in ('a', 'b', 'fee', 'dst') for o in (72, 109, 129)):
            bad.append(('honour', f'a {d["kind"]} pool of a safe configuration is refused ({res})'))
        if res == 'panic': bad.append(('safe', 'creation aborts'))
        if d['prior'] == 'pool' and datas.split(',')[0] != acc['swap']['data'].hex(): bad.append(('again', 'a refused creation changes the pool'))
    return bad


def init_oracle(c, aspects):
    @c.oracle
    def init_oracle(out, d):
        if out[0] == 'abort': return None
        for a, t in check_init(d, out[0]):
            if a in aspects: return t


def created(s, kind, aspects, prior='any', ntypes=None):
    """obligations of every outcome of pool creation"""
    R = Init(s, kind, prior, ntypes)
    n = 0
    for q, k, v in R.outs:
        if k == 'panic': R.ob('creation never aborts', q, FALSE) if 'safe' in aspects or 'honour' in aspects else None; continue
        if k == 'err':
            if 'meets' in aspects and not any(e.fail for e in q.ev):
                R.ob('rejects only unsafe configurations and those missing the constraints', q, not_(and_(R.readable(), *[c for _, c in R.safe() + R.meets()])))
            if 'honour' in aspects and not any(e.fail for e in q.ev): R.ob('honours every safe configuration', q, not_(and_(R.readable(), *[c for _, c in R.safe()])))
            continue
        n += 1
        if 'safe' in aspects:
            R.ob('creates only a safe configuration: ' + '; '.join(l for l, _ in R.safe()), q, and_(*[g for _, g in R.safe()]))
        if 'meets' in aspects:
            R.ob('creates only if ' + '; '.join(l for l, _ in R.meets()), q, and_(*[g for _, g in R.meets()]))
        if 'record' in aspects:
            for st, cs in R.records(q): R.ob('reads back as supplied: ' + '; '.join(l for l, _ in cs), q, and_(*[g for _, g in cs]), pc=st.pc)
        if 'mint' in aspects: R.ob('mints exactly the initial supply to the destination', q, R.minted(q))
        if not any(e.fail for e in q.ev): s.wit('creation succeeds', q.pc + P_(R))
    if not n and ntypes != 0: raise Unsupported('creation never succeeds')
    s.notes.append(f'{len(R.outs)} outcomes, {n} successful')


def P_(R): return R.P.distinct()


def again(s, kind, newkind):
    R = Init(s, newkind, 'pool') if kind == newkind else Init2(s, kind, newkind)
    for q, k, v in R.outs:
        if k == 'ok': R.ob('an initialised pool is never created again', q, FALSE)
        R.ob('an initialised pool is left unchanged', q, R.unchanged(q))
        R.ob('no token moves when the pool already exists', q, FALSE if q.ev else TRUE)
    if not R.outs: raise Unsupported('no outcome')
    s.wit('refused', R.outs[0][0].pc)


class Init2(Init):
    """creation with another curve over an initialised pool"""

    def __init__(self, s, old, kind):
        self._old = old
        import proc
        global Proc
        orig = Proc
        try:
            Proc = lambda s_, slots, k=None, **kw: orig(s_, slots, old, **kw)
            Init.__init__(self, s, kind, 'pool')
        finally: Proc = orig
