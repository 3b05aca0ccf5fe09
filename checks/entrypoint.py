"""The program's entry point: symbolic execution of dispatch, argument decoding, account validation and handlers up to the
call of the matching Processor operation, which is recorded."""
import hashlib
from init import *

# documented accounts, signer and writable ones per instruction
DOC = {
    'initialize_constant_price': ('process_initialize', 9, ISLOTS, 0, (0, 4, 6)),
    'initialize_linear_price': ('process_initialize', 4, ISLOTS, 0, (0, 4, 6)),
    'swap': ('process_swap', 2, SLOTS['swap'], 2, (3, 4, 5, 6, 7, 8)),
    'deposit_all_token_types': ('process_deposit_all_token_types', 3, SLOTS['dep'], 2, (3, 4, 5, 6, 7, 8)),
    'withdraw_all_token_types': ('process_withdraw_all_token_types', 3, SLOTS['wd'], 2, (3, 4, 5, 6, 7, 8, 9)),
    'deposit_single_token_type_exact_amount_in': ('process_deposit_single_token_type_exact_amount_in', 2, SLOTS['deps'], 2, (3, 4, 5, 6, 7)),
    'withdraw_single_token_type_exact_amount_out': ('process_withdraw_single_token_type_exact_amount_out', 2, SLOTS['wds'], 2, (3, 4, 5, 6, 7, 8)),
}
SHORT = {'initialize_constant_price': 'init', 'initialize_linear_price': 'init', 'swap': 'swap', 'deposit_all_token_types': 'dep', 'withdraw_all_token_types': 'wd',
         'deposit_single_token_type_exact_amount_in': 'deps', 'withdraw_single_token_type_exact_amount_out': 'wds'}
IDL = hashlib.sha256(b'anchor:idl').digest()[:8][::-1]


def tag(n): return hashlib.sha256(b'global:' + n.encode()).digest()[:8]


class Entry:
    def __init__(self, s, data, nacc, assume=None, slots=None):
        self.s = s; X = s.X
        P = self.P = Proc(s, [((slots[i][0] if slots and i < len(slots) else f'x{i}'), 'raw') for i in range(nacc)])
        st = P.st
        if assume: st.pc += assume
        self.data = data
        buf = X.alloc(st, Agg(tuple(data)))
        n0 = [0]

        def hook(X, q, a, d, t):
            fn = d['name'].rsplit('::', 1)[1]
            n0[0] += 1
            b = BVar(f'done{n0[0]}')
            n = q.copy()
            rec = (fn, tuple(a), self.snap(X, q, fn, a))
            q.aux['proc'] = n.aux['proc'] = q.aux.get('proc', ()) + (rec,)
            q.aux['procok'] = True; n.aux['procok'] = False
            q.pc.append(b); n.pc.append(not_(b))
            return [(q, 'ret', ok(UNIT)), (n, 'ret', perrv(X, n, 'Custom', V('code', 0, (1 << 32) - 1)))]
        X.hookp.append((lambda n, d: n.startswith(TB + 'processor::Processor::process_'), hook))
        self.outs = splitres(s.call(TB + 'entry', [Ref(X.alloc(st, bytes_of(P.prog, 32))), P.infos, Ref(buf, (('i', C(0)),), C(len(data)))], st))

    def snap(self, X, q, fn, a):
        """what the operation is given"""
        init = fn == 'process_initialize'
        sl = a[3] if init else a[-1]
        ai = X.tyfind(AI + "<'_>")
        if not isc(sl.meta): raise Unsupported('account list length')
        accs = []
        for i in range(sl.meta.a):
            v = X.load(q, X.offset(sl, C(i)))
            k, o, sg, wr, da, la = (X.field(v, ai, n) for n in ('key', 'owner', 'is_signer', 'is_writable', 'data', 'lamports'))
            accs.append((term_of(X.load(q, k)), term_of(X.load(q, o)), sg, wr, leafptr(da), leafptr(la)))
        r = {'prog': term_of(X.load(q, a[0])), 'accs': accs}
        if init:
            r['fees'] = structf(X, a[1], TB + 'curve::fees::Fees', *FEEF)
            ct, box = structf(X, a[2], UFB, 'curve_type', 'calculator')
            bx = leafptr(box)
            r['type'] = ct.vi; r['calc'] = bx.meta[1]
            nm = [k for k, (n, f) in CURVES.items() if s_ty(X, n) == bx.meta[1]]
            r['kind'] = nm[0] if nm else None
            r['par'] = structf(X, X.load(q, Ref(bx.root, bx.path)), CURVES[nm[0]][0], *CURVES[nm[0]][1]) if nm and CURVES[nm[0]][1] else []
            c = a[4]
            r['con'] = X.load(q, c)
        else: r['args'] = list(a[1:-1])
        return r


def s_ty(X, n): return X.tyfind(n)


def args_of(name, data):
    n = DOC[name][1]
    return [cat([(b, 1) for b in data[8 + 8 * i:16 + 8 * i]]) for i in range(n)]


def right(E, name, rec):
    """the recorded operation is the instruction's own, with its accounts and arguments"""
    s = E.s; P = E.P
    fn, n, slots, sg, wr = DOC[name]
    f, a, r = rec
    if f != fn or len(r['accs']) != len(slots): return FALSE
    args = args_of(name, E.data)
    c = [eq(r['prog'], P.prog)]
    infos = P.infos
    X = s.X
    for i, (k, o, sig, w, da, la) in enumerate(r['accs']):
        ac = P.acc[i]
        c += [eq(k, ac.key), eq(o, ac.owner), iff(asb(sig), ac.signer), iff(asb(w), ac.writable)]
        if da is None or la is None: return FALSE
    # the account's data cells are the caller's
    st = P.st
    ai = X.tyfind(AI + "<'_>")
    for i in range(len(slots)):
        v = X.load(st, X.offset(infos, C(i)))
        da, la = leafptr(X.field(v, ai, 'data')), leafptr(X.field(v, ai, 'lamports'))
        if (da.root, da.path) != (r['accs'][i][4].root, r['accs'][i][4].path) or (la.root, la.path) != (r['accs'][i][5].root, r['accs'][i][5].path): return FALSE
    if fn != 'process_initialize': return and_(*c, *[eq(asint(x), y) for x, y in zip(r['args'], args)]) if len(r['args']) == len(args) else FALSE
    kind = 'cpr' if name.endswith('constant_price') else 'lin'
    if r['kind'] != kind: return FALSE
    c.append(eq(r['type'], C(s.variant(TB + 'curve::base::CurveType', KN[kind]))))
    fees = args[:8] if kind == 'cpr' else [C(0), C(1)] * 4
    if kind == 'cpr': c += [eq(x, y) for x, y in zip(r['fees'], fees)]
    else: c += [eq(x, C(0)) for x in r['fees'][::2]] + []
    par = args[8:] if kind == 'cpr' else args
    return and_(*c, *[eq(asint(x), y) for x, y in zip(r['par'], par)])


# ---- concrete scenes ------------------------------------------------------------------------------

PROG = 0x77
SK = {'swap': 0x101, 'uauth': 0x102, 'ua': 0x111, 'ub': 0x112, 'up': 0x113, 'va': 0x121, 'vb': 0x122, 'mint': 0x131, 'ma': 0x141, 'mb': 0x142, 'fee': 0x151, 'owner': 0x161}


def tokenb(mint, owner, amount): return mint.to_bytes(32, 'little') + owner.to_bytes(32, 'little') + amount.to_bytes(8, 'little') + bytes(36) + b'\x01' + bytes(56)
def mintb(auth, supply): return (1).to_bytes(4, 'little') + auth.to_bytes(32, 'little') + supply.to_bytes(8, 'little') + b'\x09\x01' + bytes(36)


def scene(name, A, B, sup, curve, fees):
    """accounts under which the operation itself works: [[key, owner, signer, writable, data]]"""
    o = Native.run([f'pda {h32(PROG)} {h32(SK["swap"])}'])[0].split()
    auth, bump = int.from_bytes(bytes.fromhex(o[0]), 'little'), o[1]
    ins = SHORT[name]
    a = {'auth': (auth, 0, b''), 'uauth': (SK['uauth'], 0, b''), 'tp': (TPID, 0, b''), 'mint': (SK['mint'], TPID, mintb(auth, sup)),
         'fee': (SK['fee'], TPID, tokenb(SK['mint'], SK['owner'], 0)), 'ua': (SK['ua'], TPID, tokenb(SK['ma'], SK['uauth'], 10**12)), 'ub': (SK['ub'], TPID, tokenb(SK['mb'], SK['uauth'], 10**12)),
         'up': (SK['up'], TPID, tokenb(SK['mint'], SK['uauth'], 10**12)), 'va': (SK['va'], TPID, tokenb(SK['ma'], auth, A)), 'vb': (SK['vb'], TPID, tokenb(SK['mb'], auth, B))}
    if ins == 'init': a['swap'] = (SK['swap'], PROG, bytes(324))
    else:
        r = Native.run([f'pack 1 {bump} {h32(TPID)} {h32(SK["va"])} {h32(SK["vb"])} {h32(SK["mint"])} {h32(SK["ma"])} {h32(SK["mb"])} {h32(SK["fee"])} {fees} {curve} 0 324'])[0].split()
        a['swap'] = (SK['swap'], PROG, bytes.fromhex(r[1]))
    nm = {'src': 'ua', 'dst': 'ub', 'vs': 'va', 'vd': 'vb', 'sa': 'ua', 'sb': 'ub', 'a': 'va', 'b': 'vb', 'da': 'ua', 'db': 'ub'}
    if ins in ('dep', 'deps', 'init'): nm['dst'] = 'up'
    if ins in ('wd', 'wds'): nm['src'] = 'up'
    if ins == 'wds': nm['dst'] = 'ua'
    fn, n, slots, sg, wr = DOC[name]
    return [[a[nm.get(x, x)][0], a[nm.get(x, x)][1], 1 if i == sg else 0, 1, a[nm.get(x, x)][2]] for i, (x, _) in enumerate(slots)]


def accline(accs): return ' '.join(f'{h32(k)}:{h32(o)}:{s}:{w}:0:{d.hex() or "-"}' for k, o, s, w, d in accs)


def scenes(name):
    if name.startswith('init'):
        return [(1000000, 0, 0, 'cpr:1', '0 0 0 0 0 0 0 0')] if name.endswith('constant_price') else [(0, 1000000, 0, 'cpr:1', '0 0 0 0 0 0 0 0')]
    return [(A, B, sup, cu, fe) for A, B, sup in ((3000000, 1000000, 1000000000), (10**15, 10**15, 10**15), (1000000, 3000000, 1000000000)) for cu in ('cp', 'cpr:2') for fe in ('0 1 0 1 0 1 0 1', '1 100 1 50 1 40 1 5')]


def canon(name):
    """argument lists that work in some scene"""
    return {'initialize_constant_price': [[1, 100, 2, 101, 3, 102, 4, 103, 7], [0, 1, 0, 1, 0, 1, 0, 1, 5]], 'initialize_linear_price': [[3, 5, 7, 11], [10, 2, 4, 1]],
            'swap': [[50000, 1], [10**12, 77]], 'deposit_all_token_types': [[10**6, 10**6, 2 * 10**6], [10**6, 2 * 10**6, 10**6], [10**6, 2900, 1100]],
            'withdraw_all_token_types': [[10**6, 1, 2], [10**6, 2800, 900]], 'deposit_single_token_type_exact_amount_in': [[50000, 1]],
            'withdraw_single_token_type_exact_amount_out': [[5000, 10**8], [1000, 10**9]]}[name]


def edges(name, sc, arglists):
    """argument lists at which the operation itself turns from accepting to refusing, one argument at a time"""
    accs = scene(name, *sc)
    accs[DOC[name][3]][2] = 1
    line = accline(accs)

    def ok(args): return Native.run([f'norm proc {SHORT[name]} {h32(PROG)} -1 {len(args)} {" ".join(map(str, args))} {line}'])[0].startswith('ok')
    out = []
    if name.startswith('init'): return out
    for args in arglists:
        if not ok(args): continue
        for i in range(len(args)):
            for far in (0, 2**64 - 1):
                g, b = args[i], far
                if ok(args[:i] + [b] + args[i + 1:]): continue
                while abs(g - b) > 1:
                    m = (g + b) // 2
                    if ok(args[:i] + [m] + args[i + 1:]): g = m
                    else: b = m
                out += [args[:i] + [g] + args[i + 1:], args[:i] + [b] + args[i + 1:]]
    return out


def tryall(name, arglists, signer, nacc, dlen, tagb):
    """runs entry and the operation itself on concrete scenes; the first difference, or None"""
    fn, n, slots, sg, wr = DOC[name]
    for sc in scenes(name):
        accs = scene(name, *sc)
        accs[sg][2] = int(signer)
        for args in list(arglists) + (edges(name, sc, arglists) if signer and nacc >= len(slots) and dlen >= 8 + 8 * n and tagb == tag(name) else []):
            data = (tagb + b''.join(x.to_bytes(8, 'little') for x in args))[:dlen]
            data += bytes(max(0, dlen - len(data)))
            al = accs[:nacc] + [[0x900 + i, 0x901, 0, 0, b''] for i in range(nacc - len(accs))]
            good = signer and nacc >= len(slots) and dlen >= 8 + 8 * n and tagb == tag(name)
            if name == 'initialize_constant_price': da = [str(x) for x in args[:8]] + [f'cpr:{args[8]}']
            elif name == 'initialize_linear_price': da = ['0', '1'] * 4 + ['lin:' + ':'.join(map(str, args))]
            else: da = [str(x) for x in args]
            direct = f'norm proc {SHORT[name]} {h32(PROG)} -1 {len(da)} {" ".join(da)} {accline(accs)}'
            ent = f'norm proc entry {h32(PROG)} -1 1 {data.hex() or "-"} {accline(al)}'
            o = Native.run([direct, ent])
            w = o[0] if good else 'refused'
            if o[1] != w: return (direct, ent, o, w)
    return None
