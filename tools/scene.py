"""concrete processor scenes for demonstrations"""
import subprocess
DRV = '/tmp/w/drv0'
PROG = 0x77
TP = int.from_bytes(bytes.fromhex('06ddf6e1d765a193d9cbe146ceeb79ac1cb485ed5f5b37913a8cf5857eff00a9'), 'little')
SLOTS = {'swap': 'swap auth uauth src vs vd dst mint fee tp', 'dep': 'swap auth uauth sa sb a b mint dst tp', 'wd': 'swap auth uauth mint src a b da db fee tp',
         'deps': 'swap auth uauth src a b mint dst tp', 'wds': 'swap auth uauth mint src a b dst fee tp', 'init': 'swap auth a b mint fee dst tp'}
NARG = {'swap': 2, 'dep': 3, 'wd': 3, 'deps': 2, 'wds': 2}


def h(v): return int(v).to_bytes(32, 'little').hex()
def run(l): return subprocess.run([DRV], input=l + '\n', stdout=subprocess.PIPE, text=True).stdout.split('\n')[0]
def le(v, n): return int(v).to_bytes(n, 'little')


def token(mint, owner, amount, delegate=None, close=None, state=1):
    return (le(mint, 32) + le(owner, 32) + le(amount, 8) + le(delegate is not None, 4) + le(delegate or 0, 32) + le(state, 1) + le(0, 12) + le(0, 8) + le(close is not None, 4) + le(close or 0, 32)).hex()


def mint(auth, supply, freeze=None, init=1):
    return (le(auth is not None, 4) + le(auth or 0, 32) + le(supply, 8) + le(9, 1) + le(init, 1) + le(freeze is not None, 4) + le(freeze or 0, 32)).hex()


K = {'swap': 0x101, 'uauth': 0x102, 'ua': 0x111, 'ub': 0x112, 'up': 0x113, 'va': 0x121, 'vb': 0x122, 'mint': 0x131, 'ma': 0x141, 'mb': 0x142, 'fee': 0x151, 'host': 0x152, 'owner': 0x161, 'other': 0x171}


def scene(ins, args, curve='cpr:2', fees='1 100 1 50 1 40 1 5', A=3000000, B=1000000, sup=1000000000, dir=0, host=None, put=None, con=None, state=None, fail=-1, norm=True, init=1):
    """put: {slot: {key/owner/signer/writable/data}}; dir 1: the user gives token B"""
    auth, bump = run(f'pda {h(PROG)} {h(K["swap"])}').split()
    auth = int.from_bytes(bytes.fromhex(auth), 'little')
    a = {
        'swap': dict(key=K['swap'], owner=PROG), 'auth': dict(key=auth, owner=0), 'uauth': dict(key=K['uauth'], owner=0, signer=1), 'tp': dict(key=TP, owner=0),
        'mint': dict(key=K['mint'], owner=TP, data=mint(auth, sup)), 'fee': dict(key=K['fee'], owner=TP, data=token(K['mint'], K['owner'], 0)),
        'ua': dict(key=K['ua'], owner=TP, data=token(K['ma'], K['uauth'], 10 ** 12)), 'ub': dict(key=K['ub'], owner=TP, data=token(K['mb'], K['uauth'], 10 ** 12)),
        'up': dict(key=K['up'], owner=TP, data=token(K['mint'], K['uauth'], 10 ** 12)),
        'va': dict(key=K['va'], owner=TP, data=token(K['ma'], auth, A)), 'vb': dict(key=K['vb'], owner=TP, data=token(K['mb'], auth, B)),
        'host': dict(key=K['host'], owner=TP, data=token(K['mint'], K['other'], 0)),
    }
    if ins == 'init':
        a['mint']['data'] = mint(auth, 0); a['swap']['data'] = '00' * 324
    else:
        r = run(f'pack {init} {bump} {h(TP)} {h(K["va"])} {h(K["vb"])} {h(K["mint"])} {h(K["ma"])} {h(K["mb"])} {h(K["fee"])} {fees} {curve} 0 324').split()
        a['swap']['data'] = r[1]
    u, v = ('ua', 'ub') if dir == 0 else ('ub', 'ua')
    names = {'src': u, 'dst': v, 'vs': 'v' + u[1], 'vd': 'v' + v[1], 'sa': 'ua', 'sb': 'ub', 'a': 'va', 'b': 'vb', 'da': 'ua', 'db': 'ub'}
    if ins in ('dep', 'deps', 'init'): names['dst'] = 'up'
    if ins in ('wd', 'wds'): names['src'] = 'up'
    if ins == 'deps': names['src'] = u
    if ins == 'wds': names['dst'] = u
    ss = SLOTS[ins].split() + (['host'] if host else [])
    accs = []
    for s in ss:
        d = dict(a[names.get(s, s)])
        d.update((put or {}).get(s, {}))
        accs.append(f'{h(d["key"])}:{h(d["owner"])}:{d.get("signer", 0)}:{d.get("writable", 1)}:0:{d.get("data") or "-"}')
    if ins == 'init':
        args = fees.split() + [curve] + (list(con) if con else [])
    return ('norm ' if norm else '') + f'proc {ins} {h(PROG)} {fail} {len(args)} ' + ' '.join(str(x) for x in args) + ' ' + ' '.join(accs)
