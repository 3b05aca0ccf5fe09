"""Instruction-processor harness: symbolic accounts, real pool bytes, recorded token-program invocations."""
import random
from common import *

AI = 'anchor_lang::prelude::AccountInfo'
ST = TB + 'state::'
STF = ['is_initialized', 'bump_seed', 'token_program_id', 'token_a', 'token_b', 'pool_mint', 'token_a_mint', 'token_b_mint', 'pool_fee_account', 'fees', 'swap_curve']
CT = {'cp': 'ConstantProduct', 'cpr': 'ConstantPrice', 'stable': 'Stable', 'offset': 'Offset', 'lin': 'LinearPrice'}


class Acc:
    """one slot of the account list"""

    def __init__(s, name, kind):
        s.name = name; s.kind = kind
        s.key = V('key_' + name, 0, U256); s.owner = V('own_' + name, 0, U256)
        s.signer = BVar('sig_' + name); s.writable = BVar('wr_' + name)
        s.lam = V('lam_' + name, 0, U64)
        p = name + '.'
        s.f = {}
        if kind == 'token':
            f = s.f
            for n, w in (('mint', 32), ('owner', 32), ('amount', 8), ('dtag', 4), ('delegate', 32), ('state', 1), ('ntag', 4), ('native', 8), ('damount', 8), ('ctag', 4), ('close', 32)):
                f[n] = (V(p + n, 0, (1 << 8 * w) - 1), w)
        elif kind == 'mint':
            f = s.f
            for n, w in (('atag', 4), ('authority', 32), ('supply', 8), ('decimals', 1), ('init', 1), ('ftag', 4), ('freeze', 32)):
                f[n] = (V(p + n, 0, (1 << 8 * w) - 1), w)
        s.bytes = []
        for t, w in s.f.values(): s.bytes += [ext(t, i, 1) for i in range(w)]

    def __getitem__(s, n): return s.f[n][0]


def keyref(X, st, t): return Ref(X.alloc(st, bytes_of(t, 32)))


RC = {}


def rc(X, st, ty, inner):
    """Rc<RefCell<inner>>"""
    nn = X.sfields(ty)[0]                       # NonNull<RcInner<..>>
    it = X.T[nn]['targs'][0]                    # RcInner
    rcell = X.sfields(it)[2]
    RC['borrow'] = list(X.T[rcell]['v'][0]['fn']).index('borrow')
    fs = []
    for f, n in zip(X.sfields(rcell), X.T[rcell]['v'][0]['fn']):
        fs.append(C(0) if n == 'borrow' else inner)
    v = X.mk(it, [C(1), C(1), X.mk(rcell, fs)])
    return Ref(('h', X.alloc(st, None)) if False else heapref(X, st, v))


def heapref(X, st, v):
    import intercepts
    return intercepts.heap(X, st, v)


class Proc:
    def __init__(self, s, slots, kind=None, cpar=None, blank=None, init=TRUE):
        """slots: [(name, kind)]; the first one is the pool state account"""
        self.s = s; X = self.X = s.X; st = self.st = St()
        self.acc = [Acc(n, k) for n, k in slots]
        self.by = {a.name: a for a in self.acc}
        self.prog = V('prog', 0, U256)
        self.kind = kind
        self.calls = ()
        if kind:
            fv, self.fd = s.fees()
            self.rec = {n: V('rec_' + n, 0, U256) for n in STF[2:9]}
            self.bump = V('rec_bump', 0, 255)
            cv, self.cd = s.curve(kind, lo=0)
            for k, v in (cpar or {}).items(): self.cd[k] = C(v)
            if cpar: cv = s.struct(CURVES[kind][0], self.cd)
            vals = {n: bytes_of(t, 32) for n, t in self.rec.items()}
            vals.update(is_initialized=init, bump_seed=self.bump, fees=fv, swap_curve=s.scurve(st, kind, cv))
            sv = s.struct(ST + 'SwapV1', vals)
            buf = X.alloc(st, Agg((C(0),) * 324))
            vt = s.variant(ST + 'SwapVersion', 'SwapV1')
            outs = s.call(ST + 'SwapVersion::pack', [En(C(vt), {vt: Agg((sv,))}), Ref(buf, (('i', C(0)),), C(324))], st)
            if len(outs) != 1 or outs[0][1] != 'ret' or not is_ok(outs[0][2]): raise Unsupported('packing a pool state forks or fails')
            st = self.st = outs[0][0]
            self.by[slots[0][0]].bytes = list(st.mem[buf].f)
        elif blank is not None:
            self.by[slots[0][0]].bytes = list(blank)
        self.dref = {}; self.lref = {}; self.oref = {}; self.cells = {}
        self.watch = False
        X.cpi = self.cpi
        self.mayfail = True
        self.infos = self.mkinfos(st)
        self.pdaterm = None

    # -- accounts ----------------------------------------------------------------------------

    def mkinfos(self, st):
        X = self.X; ty = X.tyfind(AI + "<'_>")
        t = X.T[ty]['v'][0]
        ft = dict(zip(t['fn'], t['f']))
        els = []
        for a in self.acc:
            lam = Ref(X.alloc(st, a.lam))
            dr = X.alloc(st, Agg(tuple(a.bytes)))
            own = keyref(X, st, a.owner)
            self.dref[a.name] = dr; self.lref[a.name] = lam; self.oref[a.name] = own
            v = {'key': keyref(X, st, a.key), 'is_signer': a.signer, 'is_writable': a.writable,
                 'lamports': rc(X, st, ft['lamports'], lam),
                 'data': rc(X, st, ft['data'], Ref(dr, (('i', C(0)),), C(len(a.bytes)))),
                 'owner': own, 'executable': FALSE, 'rent_epoch': C(0)}
            self.cells[a.name] = (v['data'], v['lamports'])
            els.append(X.mk(ty, [v[n] for n in t['fn']]))
        r = X.alloc(st, Agg(tuple(els)))
        return Ref(r, (('i', C(0)),), C(len(els)))

    # -- curve -------------------------------------------------------------------------------

    def unknown_curve(self, shape):
        """calculator methods in shape answer with free variables; {method: f(tag) -> value}"""
        def hook(X, q, virt, ct, args, t):
            m = virtname(virt)
            if m not in shape: return NotImplemented
            a = tuple(args[1:])
            cs = q.aux.get('calls', ())
            for m2, a2, r2 in cs:
                if m2 == m and same(a, a2): return r2
            tag = f'{m}{len(cs)}'
            b = BVar('some_' + tag)
            n = q.copy()
            q.pc.append(b); n.pc.append(not_(b))
            v = some(shape[m](tag))
            q.aux['calls'] = cs + ((m, a, v),)
            n.aux['calls'] = cs + ((m, a, NONE),)
            return [(q, 'ret', v), (n, 'ret', NONE)]
        self.X.virt_hook = hook

    def real_curve(self, methods):
        """the real calculator, with its calls recorded"""
        def hook(X, q, virt, ct, args, t):
            m = virtname(virt)
            if m not in methods: return NotImplemented
            e = X.P.vt[(virt, ct)]
            a = tuple(args[1:])
            outs = X.call(q, e['inst'], [Ref(args[0].root, args[0].path, None)] + list(args[1:]), t)
            r = []
            for o in outs:
                if o[1] == 'ret': o[0].aux['calls'] = o[0].aux.get('calls', ()) + ((m, a, o[2]),)
                r.append(o)
            return r
        self.X.virt_hook = hook

    # -- cross-program invocation ----------------------------------------------------------------

    def vec(self, X, st, v, ty):
        """elements of a Vec value"""
        t = X.T[ty]
        fn = t['v'][0]['fn']
        fs = X.fields(v, ty)
        ln = fs[fn.index('len')]
        p = leafptr(fs[fn.index('buf')])
        if not isc(ln): raise Unsupported('symbolic vector length')
        return [X.load(st, X.offset(p, C(i))) for i in range(ln.a)]

    def cpi(self, X, st, a, d, t):
        ixt = X.pointee(t['at'][0]) if t and t.get('at') else X.tyfind('solana_program::instruction::Instruction')
        ix = X.load(st, a[0])
        T_ = X.T[ixt]['v'][0]
        f = dict(zip(T_['fn'], X.fields(ix, ixt))); ft = dict(zip(T_['fn'], T_['f']))
        prog = term_of(f['program_id'])
        metas = []
        mt = X.T[ft['accounts']]['targs'][0]
        for m in self.vec(X, st, f['accounts'], ft['accounts']):
            pk, sg, wr = structf(X, m, 'anchor_lang::prelude::AccountMeta' if False else X.T[mt]['full'], 'pubkey', 'is_signer', 'is_writable')
            metas.append((term_of(pk), sg, wr))
        data = [asint(b) for b in self.vec(X, st, f['data'], ft['data'])]
        infos = []
        ai = X.tyfind(AI + "<'_>")
        if not isc(a[1].meta): raise Unsupported('account list length')
        for i in range(a[1].meta.a):
            v = X.load(st, X.offset(a[1], C(i)))
            k, dat = X.field(v, ai, 'key'), X.field(v, ai, 'data')
            infos.append((term_of(X.load(st, k)), dat))
        seeds = ()
        if len(a) > 2:
            if not isc(a[2].meta): raise Unsupported('seed list length')
            import intercepts
            seeds = tuple(tuple(intercepts.seedkey(X, st, X.load(st, X.offset(a[2], C(i))))) for i in range(a[2].meta.a))
        ev = Ev(prog, metas, data, [k for k, _ in infos], seeds)
        out = []
        # an account of the call that is still borrowed makes the call fail before it happens
        held = []
        for pk, sg, wr in metas:
            for a in self.acc:
                for fl in self.flags(st, a.name):
                    if not (isc(fl) and fl.a == 0): held.append(and_(eq(pk, a.key), or_(*[eq(pk, k) for k, _ in infos]), or_(lt(fl, C(0)), and_(ne(fl, C(0)), wr))))
        held = or_(*held) if held else FALSE
        if held is not FALSE:
            from intercepts import perr
            st2 = None
            for n, yes in X.fork(st, held):
                if yes: out.append((n, 'ret', perr(X, n, 'AccountBorrowFailed')))
                else: st2 = n
            if st2 is None: return out
            st = st2; st.ev = list(st.ev)
        if self.watch:
            st.aux['drift'] = st.aux.get('drift', ()) + (self.drift(st),)
        st.ev.append(ev)
        if self.mayfail:
            n = st.copy(); n.ev = list(st.ev); n.ev[-1] = ev.failed()
            from intercepts import perr
            out.append((n, 'ret', perrv(X, n, 'Custom', C(0xdead))))
        # effect on the balances the callee was shown
        k = ev.kind()
        if k and len(infos) >= 2:
            amt = ev.amount()
            eff = {'transfer': ((0, 64, -1), (1, 64, 1)), 'mint_to': ((0, 36, 1), (1, 64, 1)), 'burn': ((0, 64, -1), (1, 36, -1))}[k]
            for i, off, sg in eff: self.bump_amount(X, st, infos[i][1], off, amt, sg)
        if self.watch: st.aux['kept'] = self.content(st)
        out.append((st, 'ret', ok(UNIT)))
        return out

    # -- what accounts hold besides what the token program did to them ---------------------------

    def flags(self, st, name):
        """borrow counters of an account's data and lamports"""
        return [asint(self.X.load(st, Ref(c.root, ())).f[2].f[RC['borrow']]) for c in self.cells[name]]

    def content(self, st):
        X = self.X; out = {}
        for a in self.acc:
            v = X.load(st, Ref(self.dref[a.name]))
            out[a.name] = (tuple(asint(x) for x in v.f), asint(X.load(st, self.lref[a.name])), term_of(X.load(st, self.oref[a.name])))
        return out

    def drift(self, st, skip=()):
        """every account still holds what it held at the start, or what the token program last left there"""
        kept = st.aux.get('kept'); now = self.content(st); c = []
        for a in self.acc:
            b, l, o = kept[a.name] if kept else (tuple(asint(x) for x in a.bytes), a.lam, a.owner)
            nb, nl, no = now[a.name]
            if len(b) != len(nb): return FALSE
            if a.name not in skip: c += [eq(x, y) for x, y in zip(b, nb)]
            c += [eq(l, nl), eq(o, no)]
        return and_(*c)

    def bump_amount(self, X, st, dat, off, amt, sg):
        sl = self.slice_of(X, st, dat)
        if not isc(sl.meta) or sl.meta.a < off + 8: return
        b = [asint(X.load(st, X.offset(sl, C(off + i)))) for i in range(8)]
        v = cat([(x, 1) for x in b])
        v = ext(add(v, amt) if sg > 0 else add(sub(v, amt), C(1 << 64)), 0, 8)
        for i in range(8): X.store(st, X.offset(sl, C(off + i)), ext(v, i, 1))

    def slice_of(self, X, st, dat):
        v = X.load(st, dat)
        return leafptr(v)

    # -- running -------------------------------------------------------------------------------

    def run(self, fn, args):
        return splitres(self.s.call(TB + 'processor::Processor::' + fn, [Ref(self.X.alloc(self.st, bytes_of(self.prog, 32)))] + args + [self.infos], self.st))

    def pda(self):
        from intercepts import pda
        return pda([(self.acc[0].key, 32), (self.bump, 1)], self.prog)[0]

    def distinct(self):
        """equal keys are the same account"""
        r = []
        for i, a in enumerate(self.acc):
            for b in self.acc[i + 1:]:
                if a.bytes and b.bytes and len(a.bytes) != len(b.bytes): r.append(ne(a.key, b.key)); continue
                if a.kind == b.kind and a.f:
                    r.append(implies(eq(a.key, b.key), and_(eq(a.owner, b.owner), *[eq(a[n], b[n]) for n in a.f])))
                else: r.append(implies(eq(a.key, b.key), eq(a.owner, b.owner)))
        return r

    def prefer(self):
        ks = [a.key for a in self.acc]
        al = [ne(x, y) for i, x in enumerate(ks) for y in ks[i + 1:]]
        return [al + [ne(k, C(0)) for k in ks], self.distinct()]

    # -- replay --------------------------------------------------------------------------------

    def line(self, m, fn, args, fail=-1):
        """command for the native driver; the program-derived address in the model is replaced by the real one"""
        sub_ = {}
        bump = None
        prog = m['prog']
        if 'pda' in m:
            key = m[self.acc[0].key.a]
            o = Native.run([f'pda {h32(prog)} {h32(key)}'])[0].split()
            # real addresses mostly come with bump 255 or 254: another pool key of the same standing has the model's bump, or one nearer to it
            target = m.get('bumpv', m.get('rec_bump'))
            if isinstance(target, int) and target < int(o[1]):
                k2, o2 = otherkey(prog, target)
                if int(o2[1]) < int(o[1]): sub_[key] = k2; o = o2
            real, bump = int.from_bytes(bytes.fromhex(o[0]), 'little'), int(o[1])
            sub_[m['pda']] = real
        m2 = M(m)
        for k, v in m.items():
            if type(v) is int and v in sub_ and (k.startswith(('key_', 'own_', 'rec_')) and k != 'rec_bump' or k.split('.')[-1] in ('mint', 'owner', 'delegate', 'close', 'authority', 'freeze')): m2[k] = sub_[v]
        if bump is not None and self.kind: m2['rec_bump'] = bump
        accs = []
        conc = {}
        for a in self.acc:
            bs = bytes(tv(m2, b) for b in a.bytes)
            kk = tv(m2, a.key)
            accs.append(f'{h32(kk)}:{h32(tv(m2, a.owner))}:{int(tv(m2, a.signer))}:{int(tv(m2, a.writable))}:{tv(m2, a.lam)}:{bs.hex() or "-"}')
        return f'proc {fn} {h32(prog)} {fail} {len(args)} ' + ' '.join(str(x) for x in args) + ' ' + ' '.join(accs), m2, bump


OTHER = {}


def otherkey(prog, target):
    if prog not in OTHER:
        r = random.Random(1)
        ks = [r.getrandbits(256) for _ in range(2000)]
        best = {}
        for k, o in zip(ks, Native.run([f'pda {h32(prog)} {h32(k)}' for k in ks])): o = o.split(); best.setdefault(int(o[1]), (k, o))
        OTHER[prog] = best
    best = OTHER[prog]
    return best[min((b for b in best if b >= target), default=min(best))]


def perrv(X, st, name, payload):
    ty = [i for i, t in enumerate(X.T) if t.get('full') == 'anchor_lang::prelude::ProgramError' or t.get('name') == 'solana_program::program_error::ProgramError'][0]
    i = [v['n'] for v in X.T[ty]['v']].index(name)
    return err(En(C(i), {i: Agg((payload,))}))


def h32(v): return int(v).to_bytes(32, 'little').hex()


def leafptr(v):
    if isinstance(v, Ref): return v
    if isinstance(v, Agg):
        for x in v.f:
            r = leafptr(x)
            if r is not None: return r
    return None


def same(a, b):
    if len(a) != len(b): return False
    for x, y in zip(a, b):
        if isinstance(x, T) or isinstance(y, T):
            if x is not y: return False
        elif isinstance(x, En) and isinstance(y, En):
            if x.vi is not y.vi: return False
        elif isinstance(x, Ref) and isinstance(y, Ref):
            if (x.root, x.path) != (y.root, y.path): return False
        else: return False
    return True


class Ev:
    """a token-program invocation"""
    KIND = {3: 'transfer', 7: 'mint_to', 8: 'burn'}

    def __init__(s, prog, metas, data, infos, seeds, fail=False):
        s.prog = prog; s.metas = metas; s.data = data; s.infos = infos; s.seeds = seeds; s.fail = fail

    def failed(s): return Ev(s.prog, s.metas, s.data, s.infos, s.seeds, True)

    def kind(s):
        if len(s.data) == 9 and isc(s.data[0]) and len(s.metas) >= 3: return s.KIND.get(s.data[0].a)
        return None

    def amount(s): return cat([(b, 1) for b in s.data[1:9]])


def moved(evs, kind, k0, k1, ka):
    """total amount moved by invocations of this kind between exactly these accounts under this authority"""
    r = C(0)
    for e in evs:
        if e.kind() != kind: continue
        r = add(r, ite(and_(eq(e.metas[0][0], k0), eq(e.metas[1][0], k1), eq(e.metas[2][0], ka)), e.amount(), C(0)))
    return r


def moves_exactly(evs, kind, expected):
    """for every triple of accounts, exactly the expected total moves; expected: [(from, to, authority, amount)]"""
    K = [V('anyk' + str(i), 0, U256) for i in range(3)]
    exp = C(0)
    for a, b, au, amt in expected:
        exp = add(exp, ite(and_(eq(K[0], a), eq(K[1], b), eq(K[2], au)), amt, C(0)))
    return eq(moved(evs, kind, *K), exp)


def known_events(evs): return all(e.kind() for e in evs)


def signed(evs, swapkey, auth, bump):
    """every invocation under the pool's authority carries the pool's signer seeds"""
    r = []
    for e in evs:
        c = []
        for sd in e.seeds:
            if len(sd) == 2 and sd[0][1] == 32 and sd[1][1] == 1: c.append(and_(eq(sd[0][0], swapkey), eq(sd[1][0], bump)))
        r.append(implies(eq(e.metas[2][0], auth), or_(*c) if c else FALSE))
    return and_(*r)


def feeterm(x, n, d):
    """the specified fee where it is defined"""
    q = div(mul(x, n), d)
    return ite(or_(eq(n, C(0)), eq(x, C(0))), C(0), ite(eq(q, C(0)), C(1), q))
