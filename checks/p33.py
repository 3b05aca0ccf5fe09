from init import *

"""Only the token program changes accounts: what the instructions themselves write."""

EFF = {3: ((0, 64, -1), (1, 64, 1)), 7: ((0, 36, 1), (1, 64, 1)), 8: ((0, 64, -1), (1, 36, -1))}


def check_kept(d, out):
    """final data, lamports and owners against the initial ones and the recorded token program calls"""
    res, evs, datas = out[0].split(' # ')
    if res != 'ok': return None
    data = {a['key']: bytearray(a['data']) for a in d['acc'].values()}
    kk = lambda h: int.from_bytes(bytes.fromhex(h), 'little')
    for e in evs.strip().split('|') if evs.strip() else []:
        prog, metas, dat, infos, seeds = e.split(';')
        b = bytes.fromhex(dat); ks = [kk(k) for k in infos.split(',') if k]
        if len(b) != 9 or len(ks) < 2: continue
        for i, off, sg in EFF.get(b[0], ()):
            a = data[ks[i]]
            if len(a) >= off + 8: a[off:off + 8] = ((le8(a, off) + sg * le8(b, 1)) % 2**64).to_bytes(8, 'little')
    last = out[1].split()
    for i, (n, h) in enumerate(zip(d['order'], datas.split(','))):
        a = d['acc'][n]
        got = b'' if h == '-' else bytes.fromhex(h)
        if got != bytes(data[a['key']]) and not (n == 'swap' and d.get('creates')): return f'the data of account {n} was changed'
        lam, own = last[i].split(':')
        if kk(own) != a['owner']: return f'the owner of account {n} was changed'
        if int(lam) != a['lam']: return f'the lamports of account {n} were changed'
    return None


def lams(P, rep, order):
    def f(m):
        lines, _, d = rep(m)
        # account fields as in the line
        for n, t in zip(order, lines[0].split()[-len(order):]):
            if 'lam' not in d['acc'][n]: d['acc'][n]['lam'] = int(t.split(':')[4])
        d['order'] = order
        return lines + ['last'], 'kept_oracle', d
    return f


def trade(s, ins, kind, host=False):
    R = Run(s, ins, kind, host, watch=True)
    oks = R.oks(); P = R.P
    if not oks and not (ins in ('dep', 'deps') and kind in ('offset', 'lin')): raise Unsupported('no successful outcome to examine')
    order = [a.name for a in P.acc]
    for q in oks:
        rf = Refiner(P.distinct(), P.prefer()[:1], R.pins, R.refine(q))
        g = and_(*q.aux.get('drift', ()), P.drift(q))
        s.ob('data, lamports and owner of every account are what the token program left', q.pc, g, lams(P, R.replay(q), order), R.want(q), refiner=rf)
        if not any(e.fail for e in q.ev): s.wit('success is possible', q.pc)
    s.notes.append(f'{len(oks)} successful outcomes, {len(order)} accounts')


def create(s, kind):
    R = Init(s, kind, watch=True); P = R.P
    order = [a.name for a in P.acc]
    oks = [q for q, k, v in R.outs if k == 'ok']
    if not oks: raise Unsupported('creation never succeeds')
    for q in oks:
        def rep(m, q=q):
            lines, o, d = R.replay(q)(m)
            d['creates'] = True
            return lines, o, d
        g = and_(*q.aux.get('drift', ()), P.drift(q, ('swap',)))
        R.ob('creation writes only the pool account', q, g, rep=lams(P, rep, order))
        if not any(e.fail for e in q.ev): s.wit('creation succeeds', q.pc + P_(R))
    s.notes.append(f'{len(oks)} successful outcomes, {len(order)} accounts')


def setup(c):
    c.desc = ('The five instructions with symbolic accounts and a curve of unknown behaviour, and process_initialize; at every token program call and at the end of every successful path, each byte of each '
              'account, its lamports and its owner are compared with what they were at the start or what the last token program call left.')
    c.bounds = BOUNDS + IBOUNDS[:1]; c.assume = ASSUME
    c.outside = ['a changed account length (realloc) and changes undone before the next token program call']

    @c.oracle
    def kept_oracle(out, d):
        if out[0] == 'abort': return None
        return check_kept(d, out)
    for kind in CURVES:
        for ins in ('swap', 'dep', 'wd', 'deps', 'wds'):
            c.scenario(f'{ins} {kind}', lambda s, ins=ins, kind=kind: trade(s, ins, kind))
        c.scenario(f'swap {kind} host', lambda s, kind=kind: trade(s, 'swap', kind, True))
        c.scenario(f'creation {kind}', lambda s, kind=kind: create(s, kind))
