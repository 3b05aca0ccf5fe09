"""Check harness: regenerates the MIR dump from /repo, runs scenarios (symbolic execution plus
obligations) in parallel processes, replays counterexamples natively and writes the evidence."""
import sys, os, time, json, pickle, subprocess, traceback, signal, re, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from term import *
import smt, poly
from smt import check, STAT
from load import load
from ex import *
import ex

V_ = os.path.dirname(os.path.dirname(HERE))
BUILD = os.environ.get('VERIF_BUILD', os.path.join(V_, '.build'))
U64 = (1 << 64) - 1
U128 = (1 << 128) - 1
U256 = (1 << 256) - 1
TB = 'token_bonding_curve::'
CALC = TB + 'curve::calculator::'
CURVES = {
    'cp': (TB + 'curve::constant_product::ConstantProductCurve', []),
    'cpr': (TB + 'curve::constant_price::ConstantPriceCurve', ['token_b_price']),
    'stable': (TB + 'curve::stable::StableCurve', ['amp']),
    'offset': (TB + 'curve::offset::OffsetCurve', ['token_b_offset']),
    'lin': (TB + 'curve::linear_price::LinearPriceCurve', ['slope_numerator', 'slope_denominator', 'initial_token_a_price_numerator', 'initial_token_a_price_denominator']),
}
FEEF = ['trade_fee_numerator', 'trade_fee_denominator', 'owner_trade_fee_numerator', 'owner_trade_fee_denominator',
        'owner_withdraw_fee_numerator', 'owner_withdraw_fee_denominator', 'host_fee_numerator', 'host_fee_denominator']


LEMMAS = {
    # a <= b, c >= 0 -> a*c <= b*c
    'mono': (3, lambda a, b, c: implies(and_(le(a, b), ge(c, C(0))), le(mul(a, c), mul(b, c)))),
    # a < b, c > 0 -> a*c < b*c
    'smono': (3, lambda a, b, c: implies(and_(lt(a, b), gt(c, C(0))), lt(mul(a, c), mul(b, c)))),
    # 0<=a<=b, 0<=c<=d -> a*c <= b*d
    'mono2': (4, lambda a, b, c, d: implies(and_(le(C(0), a), le(a, b), le(C(0), c), le(c, d)), le(mul(a, c), mul(b, d)))),
    # 0 <= a < b, 0 <= c  -> a*c + c <= b*c
    'step': (3, lambda a, b, c: implies(and_(lt(a, b), ge(c, C(0))), le(add(mul(a, c), c), mul(b, c)))),
    # q*d <= n < (q+1)*d determines q
    'divu': (4, lambda n, d, q, k: implies(and_(gt(d, C(0)), le(mul(q, d), n), lt(n, add(mul(q, d), d)), le(mul(k, d), n), lt(n, add(mul(k, d), d))), eq(q, k))),
}


class Inconclusive(Exception):
    pass


def dump():
    os.makedirs(BUILD, exist_ok=True)
    out = os.environ.get('VERIF_DUMP')
    if out and os.path.exists(out): return out
    out = os.path.join(BUILD, f'mir-{os.getpid()}.jsonl')
    p = subprocess.run([os.path.join(V_, 'engine', 'dump.sh'), out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        print(p.stdout[-3000:]); print('cannot encode the current tree'); sys.exit(2)
    return out


PRODKEY = 'HfoTxFR1Tm6kGmWgYWD6J7YHVy1UwqSULUGVLXkJqaKN'


def proddump():
    """the program as configured for deployment (feature production)"""
    out = os.path.join(BUILD, f'mirprod-{os.getpid()}.jsonl')
    p = subprocess.run([os.path.join(V_, 'engine', 'dump.sh'), out, '--features', 'production'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       env=dict(os.environ, SWAP_PROGRAM_OWNER_FEE_ADDRESS=PRODKEY))
    if p.returncode != 0:
        print(p.stdout[-3000:]); print('cannot encode the production configuration'); sys.exit(2)
    try: return load(out)
    finally: os.unlink(out)


class Native:
    """the real code, compiled natively"""
    path = None

    @classmethod
    def prod(cls, lines):
        """run lines on a build with feature production (main process only: replaces the default build's binary)"""
        cls.build()
        keep = cls.path
        p = subprocess.run([os.path.join(V_, 'engine', 'replay.sh'), '--features', 'token-bonding-curve/production'], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                           env=dict(os.environ, SWAP_PROGRAM_OWNER_FEE_ADDRESS=PRODKEY))
        if p.returncode != 0: raise Inconclusive('production replay driver does not build: ' + p.stderr[-1500:])
        try:
            cls.path = p.stdout.strip().split('\n')[-1]
            return cls.run(lines)
        finally:
            cls.path = None
            if keep: cls.build() if not os.environ.get('VERIF_REPLAY') else None

    @classmethod
    def build(cls):
        if cls.path: return
        b = os.environ.get('VERIF_REPLAY')
        if b: cls.path = b; return
        p = subprocess.run([os.path.join(V_, 'engine', 'replay.sh')], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if p.returncode != 0: raise Inconclusive('native replay driver does not build: ' + p.stderr[-1500:])
        cls.path = p.stdout.strip().split('\n')[-1]

    @classmethod
    def run(cls, lines, timeout=120):
        cls.build()
        p = subprocess.run([cls.path], input='\n'.join(lines) + '\n', stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=timeout)
        out = p.stdout.split('\n')[:-1]
        while len(out) < len(lines): out.append('abort')
        return out


class Ob:
    def __init__(s, label, asserts, replay, want, timeout, hunt, lemmas, key, refiner=None):
        s.refiner = refiner
        s.label = label; s.asserts = asserts; s.replay = replay; s.want = want; s.timeout = timeout; s.hunt = hunt
        s.lemmas = lemmas; s.key = key


class S:
    """one scenario"""

    def __init__(self, ctx, name):
        self.ctx = ctx; self.name = name
        self.X = Exec(ctx.P)
        self.obs = []; self.wits = []
        self.par = 1
        self.giveup = 0
        self.notes = []
        self.lemdone = set()
        self.res = []          # (label, status, secs, extra)

    @property
    def thorough(self): return self.ctx.tier == 'thorough'

    # -- naming ------------------------------------------------------------------------------

    def fn(self, name):
        ks = self.X.P.byname.get(name)
        if not ks: raise Unsupported('no function ' + name)
        if len(ks) != 1: raise Unsupported('ambiguous function ' + name)
        return ks[0]

    def call(self, name, args, st=None, X=None):
        X = X or self.X
        st = st or St()
        outs = X.call(st, self.fn(name), args)
        return outs

    def ty(self, name): return self.X.tyfind(name)

    def struct(self, tyname, vals):
        t = self.ty(tyname)
        fn = self.X.T[t]['v'][0]['fn']
        if set(fn) != set(vals): raise Unsupported(f'fields of {tyname}: {fn}')
        return self.X.mk(t, [vals[f] for f in fn])

    def variant(self, tyname, var):
        """index of a variant by name"""
        t = self.X.T[self.ty(tyname)]
        for i, v in enumerate(t['v']):
            if v['n'] == var: return i
        raise Unsupported(f'no variant {var}')

    def unitvar(self, tyname, var):
        i = self.variant(tyname, var)
        return En(C(i), {i: UNIT})

    def fees(self, pre='f'):
        """symbolic Fees value and dict of its fields"""
        d = {f: V(pre + '_' + f, 0, U64) for f in FEEF}
        return self.struct(TB + 'curve::fees::Fees', d), d

    def dirv(self, d): return self.unitvar(CALC + 'TradeDirection', ('AtoB', 'BtoA')[d])
    def rnd(self, d): return self.unitvar(CALC + 'RoundDirection', ('Floor', 'Ceiling')[d])

    def curve(self, kind, pre='c', lo=0):
        n, fs = CURVES[kind]
        d = {f: V(pre + '_' + f, lo, U64) for f in fs}
        return self.struct(n, d) if fs else UNIT, d

    def meth(self, kind, m):
        return f'<{CURVES[kind][0]} as {CALC}CurveCalculator>::{m}'

    def scurve(self, st, kind, val):
        """SwapCurve value with a real boxed calculator of the given kind"""
        X = self.X
        n = {'cp': 'ConstantProduct', 'cpr': 'ConstantPrice', 'stable': 'Stable', 'offset': 'Offset', 'lin': 'LinearPrice'}[kind]
        box = Ref(X.alloc(st, val), (), ('dyn', self.ty(CURVES[kind][0])))
        return self.struct(TB + 'curve::base::SwapCurve', {'curve_type': self.unitvar(TB + 'curve::base::CurveType', n), 'calculator': box})

    # -- obligations -------------------------------------------------------------------------

    def ob(self, label, hyps, goal, replay=None, want=None, timeout=None, hunt=None, lemmas=(), key=None, refiner=None):
        """the goal holds whenever the hypotheses do"""
        self.obs.append(Ob(label, list(hyps) + [not_(goal)], replay, want or {}, timeout, hunt, list(lemmas), key, refiner))

    def undecided(self, label):
        """an intermediate step could not be shown"""
        self.res.append((label, 'unknown', 0, ''))

    def wit(self, label, hyps):
        """the hypotheses are satisfiable (vacuity guard)"""
        self.wits.append((label, list(hyps)))

    def fail(self, label, hyps, replay=None, want=None, key=None):
        """reaching these hypotheses is a violation"""
        self.ob(label, hyps, FALSE, replay, want, key=key)

    def lem(self, name, *ts):
        """instance of a lemma; the lemma itself becomes an obligation of this scenario (over all integers)"""
        n, f = LEMMAS[name]
        if name not in self.lemdone:
            self.lemdone.add(name)
            self.obs.append(Ob('lemma ' + name, [not_(f(*[V(f'lem!{i}', None, None) for i in range(n)]))], None, {}, None, None, [], None))
        return f(*ts)

    def prove(self, label, hyps, goal, lemmas=(), timeout=30, must=()):
        """decide an intermediate fact now; a proved one counts as a discharged obligation.
        Hypotheses are first restricted to those about the terms of the goal; must: always kept"""
        if goal is TRUE: return True
        nl = lambda ts: {x for x in walk(ts) if x.op in ('mul', 'div')}
        keep = nl([goal] + list(must) + list(lemmas))
        rel = [h for h in hyps if nl([h]) <= keep]
        tries = [list(must) + rel] if len(rel) < len(hyps) else []
        for hs in tries + [list(must) + list(hyps)]:
            r = check(hs + [not_(goal)] + list(lemmas), timeout=timeout, solvers=self.ctx.solvers)
            if r.status == 'unsat': break
        if r.status != 'unsat': return False
        self.res.append((label, 'unsat', r.secs, r.solver))
        return True

    def alg(self, label, hyps, goal, **kw):
        """decide an intermediate fact by polynomial reasoning (poly.decide); a proved one counts as discharged"""
        if goal is TRUE: return True
        ok, dt = poly.decide(hyps, goal, **kw)
        if ok: self.res.append((label, 'unsat', dt, 'z3 (linear over monomials)'))
        return ok

    # -- solving -----------------------------------------------------------------------------

    def solve_refined(self, o):
        """Obligation over functions left uninterpreted (curve answers).  A model is checked natively; where the
        real function answers differently, that answer is added as a fact and the query repeated.  refiner.sound are
        facts true of every real execution, refiner.prefer / refiner.pins only steer the search for a counterexample."""
        t = o.timeout or (300 if self.thorough else 60)
        rf = o.refiner
        r = check(o.asserts, timeout=t, solvers=self.ctx.solvers)
        if r.status == 'sat' and rf.sound: r = check(o.asserts + rf.sound, timeout=t, solvers=self.ctx.solvers)
        if r.status != 'sat': return (r.status, r.secs, r.solver)
        if self.giveup >= 4: return ('sat', r.secs, {}, None)
        t0 = time.time(); secs = r.secs
        st = {'rep': None, 'm': dict(r.model), 'facts': [], 'secs': r.secs}
        cap = 900 if self.thorough else 100

        def attempt(extra, n):
            """search under the extra constraints; True: confirmed, 'unsat': nothing left, None: gave up"""
            stick = []
            while n > 0 and time.time() - t0 < cap:
                n -= 1
                wants = [eq(V('want!' + k, None, None), x) if not x.isb else iff(BVar('want!' + k), x) for k, x in o.want.items()]
                r = check(o.asserts + rf.sound + st['facts'] + extra + stick + wants, timeout=15, solvers=self.ctx.solvers)
                st['secs'] += r.secs
                if r.status != 'sat':
                    if stick: stick = []; continue
                    return 'unsat' if r.status == 'unsat' else None
                m = st['m'] = dict(r.model)
                for k in o.want:
                    if 'want!' + k in m: m[k] = m['want!' + k]
                try:
                    st['rep'] = rep = o.replay(M(m))
                    if self.ctx.oracles[rep[1]](Native.run(rep[0]), rep[2]): return True
                    new, here = rf.refine(M(m))
                except Exception as e:
                    st['rep'] = ('error', traceback.format_exc()[-800:]); return None
                if not new:
                    if stick: stick = []; continue
                    return None
                st['facts'] += new
                stick = here          # the same question again, with the real answer
            return None
        pref = list(rf.prefer[0]) if rf.prefer else []
        for pin, n in rf.pins:
            if attempt(pref + list(pin), n) is True: return ('sat', st['secs'], st['m'], tuple(st['rep']) + (True,))
        for pr in (pref, []):
            r = attempt(pr, 25)
            if r is True: return ('sat', st['secs'], st['m'], tuple(st['rep']) + (True,))
            if r == 'unsat' and not pr: return ('unsat', st['secs'], 'refined')
        rep = st['rep']; m = st['m']; secs = st['secs']
        self.giveup += 1
        return ('sat', secs, m, rep)

    def solve1(self, o):
        if o.refiner: return self.solve_refined(o)
        t = o.timeout or (300 if self.thorough else 60)
        wants = []; names = {}
        for k, term in o.want.items():
            v = V('want!' + k, None, None) if not term.isb else BVar('want!' + k)
            wants.append(eq(v, term)); names[k] = 'want!' + k
        # lemmas only help an unsat verdict; a model found without wants/lemmas is still checked natively
        r = check(o.asserts + o.lemmas, timeout=t, solvers=self.ctx.solvers)
        if r.status == 'unsat': return ('unsat', r.secs, r.solver)
        if r.status == 'unknown' and o.hunt:
            for h in o.hunt:
                r2 = check(o.asserts + list(h), timeout=min(t, 20), solvers=self.ctx.solvers)
                if r2.status == 'sat': r = r2; break
        if r.status == 'unknown': return ('unknown', r.secs, None)
        # concrete counterexample
        m = dict(r.model)
        if wants:
            fix = [eq(V(k, None, None), C(v)) for k, v in ()]
            vs = {x.a: x for a in o.asserts for x in walk([a]) if x.op in ('v', 'bv')}
            pin = [eq(vs[k], C(v)) if not vs[k].isb else (vs[k] if v else not_(vs[k])) for k, v in m.items() if k in vs]
            r3 = check(o.asserts + pin + wants, timeout=t, solvers=self.ctx.solvers)
            if r3.status == 'sat': m.update(r3.model)
            else:
                r3 = check(o.asserts + wants, timeout=t, solvers=self.ctx.solvers)
                if r3.status == 'sat': m = dict(r3.model)
            for k, n in names.items():
                if n in m: m[k] = m[n]
        rep = None
        if o.replay:
            try: rep = o.replay(M(m))
            except Exception as e: return ('sat', r.secs, m, ('error', traceback.format_exc()[-800:]))
        return ('sat', r.secs, m, rep)

    def solve(self):
        # one reachable path per label is enough
        got = {}
        for lab, h in self.wits:
            if got.get(lab) == 'sat': continue
            r = check(h, timeout=60, solvers=self.ctx.solvers)
            if got.get(lab) != 'unknown' or r.status == 'sat': got[lab] = r.status
        for lab, stt in got.items(): self.res.append(('W:' + lab, stt, 0, None))
        if self.par > 1 and len(self.obs) > 1:
            outs = pmap([lambda o=o: self.solve1(o) for o in self.obs], self.par, stats=True)
        else:
            outs = []
            for o in self.obs:
                outs.append(self.solve1(o))
                if outs[-1][0] == 'sat' and self.ctx.stop_on_sat and (not o.refiner or len(outs[-1][3] or ()) == 4): break
        for o, r in zip(self.obs, outs):
            self.res.append((o.label, r[0], r[1], (r[2], r[3], o.key) if r[0] == 'sat' else r[2]))
        if self.thorough and all(r[0] == 'unsat' for r in outs): self.recheck(outs)

    def recheck(self, outs):
        """thorough tier, on top of the verdicts: the other solver is asked again, and the encoding is tested against the
        real code: models of each obligation's path are replayed natively and judged by the oracle of the replay"""
        end = time.time() + float(os.environ.get('VERIF_RECHECK', '900'))
        agree = none = runs = 0
        done = set()
        for o, r in zip(self.obs, outs):
            if time.time() > end: break
            if r[2] not in ('simplifier', 'refined'):
                r2 = check(o.asserts + o.lemmas, timeout=10, solvers=('z3', 'z3nl') if r[2] == 'cvc5' else ('cvc5',), quick=1500 if r[2] == 'cvc5' else 0)
                if r2.status == 'unsat': agree += 1
                elif r2.status == 'sat': self.res.append((o.label + ' (second solver disagrees)', 'unknown', r2.secs, r2.solver))
                else: none += 1
            if not o.replay: continue
            ways = [[]] + [list(h) for h in (o.hunt or [])[:2]]
            if o.refiner: ways += [list(o.refiner.prefer[0])] if o.refiner.prefer else []
            if o.refiner: ways += [list(p) for p, n in o.refiner.pins[:6]]
            for w in ways:
                r2 = check(o.asserts[:-1] + w, timeout=3)
                if r2.status != 'sat': continue
                try:
                    rep = o.replay(M(dict(r2.model)))
                    if rep is None or tuple(rep[0]) in done: continue
                    done.add(tuple(rep[0]))
                    if self.ctx.oracles[rep[1]](Native.run(rep[0]), rep[2]):
                        self.res.append((o.label + ' (native replay of a path)', 'sat', r2.secs, (dict(r2.model), rep, o.key))); return
                    runs += 1
                except Inconclusive: raise
                except Exception as e: self.notes.append('cross-check: ' + repr(e)[:120])
        self.notes.append(f'second solver: {agree} agree, {none} not answered in time; {runs} paths replayed natively')
        STAT['agree'] = STAT.get('agree', 0) + agree; STAT['replayed'] = STAT.get('replayed', 0) + runs


class M(dict):
    """model with 0 for variables the query did not mention"""

    def __missing__(self, k): return 0


def pmap(fns, n, stats=False, stop=None, timeout=None):
    """run thunks in forked children, at most n at a time; results in order"""
    import select
    res = [None] * len(fns)
    todo = list(range(len(fns)))[::-1]
    live = {}
    stopped = False
    t0 = time.time()
    sys.stdout.flush()
    try:
        while todo or live:
            while todo and len(live) < n and not stopped:
                i = todo.pop()
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    os.close(r)
                    os.setpgid(0, 0)
                    try:
                        for k in STAT: STAT[k] = 0
                        v = ('ok', fns[i](), dict(STAT))
                    except (Unsupported, Inconclusive) as e:
                        v = ('unsup', str(e), dict(STAT))
                    except BaseException:
                        v = ('exc', traceback.format_exc()[-500:], dict(STAT))
                    try:
                        with os.fdopen(w, 'wb') as f: pickle.dump(v, f)
                    finally:
                        os._exit(0)
                os.close(w)
                live[r] = (i, pid, b'')
            if stopped and not live: break
            rd, _, _ = select.select(list(live), [], [], 1.0)
            for r in rd:
                i, pid, buf = live[r]
                d = os.read(r, 1 << 20)
                if d: live[r] = (i, pid, buf + d); continue
                os.close(r); del live[r]; os.waitpid(pid, 0)
                try: v = pickle.loads(buf)
                except Exception: v = ('exc', 'worker died', {})
                for k, x in v[2].items(): STAT[k] = STAT.get(k, 0) + x
                if v[0] == 'ok': res[i] = v[1] if stats else ('ok', v[1])
                else:
                    if stats: res[i] = ('unknown', 0, v[1])
                    else: res[i] = v[:2]
                if stop and stop(res[i]): stopped = True; todo = []
            if stopped: break
            if timeout and time.time() - t0 > timeout: break
    finally:
        for r, (i, pid, _) in live.items():
            try: os.killpg(pid, signal.SIGKILL)
            except OSError:
                try: os.kill(pid, signal.SIGKILL)
                except OSError: pass
            try: os.waitpid(pid, 0)
            except OSError: pass
    return res


class Ctx:
    def __init__(self, prop, tier):
        self.prop = prop; self.tier = tier
        self.scen = []
        self.bounds = []; self.assume = []; self.outside = []
        self.solvers = ('z3', 'cvc5', 'z3nl')
        self.stop_on_sat = True
        self.workers = 8
        self.P = None
        self.desc = ''
        self.oracles = {}
        self.search = None      # rng -> (lines, oracle name, data): inputs to try natively when the solver leaves something undecided

    def scenario(self, name, f): self.scen.append((name, f))

    def oracle(self, f):
        self.oracles[f.__name__] = f
        return f


def hunt(ctx, secs):
    """an obligation is undecided: look for a concrete violation.  Never used to claim that a property holds"""
    import random
    rng = random.Random(1); t0 = time.time()
    while time.time() - t0 < secs:
        cs = [ctx.search(rng) for _ in range(2000)]
        cs = [c for c in cs if c]
        i = 0
        while i < len(cs):
            part = cs[i:]
            p = [l for c in part for l in c[0]]
            out = Native.run(p)
            k = 0
            for c in part:
                o = out[k:k + len(c[0])]; k += len(c[0]); i += 1
                dead = 'abort' in o
                if dead: o = Native.run(c[0])
                v = ctx.oracles[c[1]](o, c[2])
                if v: return c[0], o, v
                if dead: break
    return None


def known(prop):
    p = os.path.join(V_, 'known-findings.txt')
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l.strip())
            if m and m.group(1) == prop: out.append((m.group(2), m.group(3)))
    return out


def main(prop, tier, setup):
    t0 = time.time()
    ctx = Ctx(prop, tier)
    d = dump()
    tdump = time.time() - t0
    try:
        ctx.P = load(d)
    finally:
        if not os.environ.get('VERIF_DUMP') and not os.environ.get('VERIF_KEEP'):
            try: os.unlink(d)
            except OSError: pass
    try:
        setup(ctx)
    except Unsupported as e:
        print('INCONCLUSIVE property=%s setup: %s' % (prop, e)); sys.exit(2)
    only = os.environ.get('VERIF_ONLY')
    if only: ctx.scen = [x for x in ctx.scen if re.search(only, x[0])]
    seen = {}

    def runner(name, f):
        def g():
            s = S(ctx, name)
            t = time.time()
            f(s)
            tx = time.time() - t
            s.solve()
            return dict(res=s.res, fns=s.X.seen_fns, notes=s.notes, tx=tx, tt=time.time() - t)
        return g
    budget = 850 if tier == 'quick' else 6 * 3600
    if tier == 'thorough': Native.build()
    if 'VERIF_BUDGET' in os.environ: budget = float(os.environ['VERIF_BUDGET'])
    def confirmed(o):
        if not o or o[0] != 'ok': return False
        return any(lab[:2] != 'W:' and stt == 'sat' and ex[1] and len(ex[1]) == 4 and ex[2] is None for lab, stt, _, ex in o[1]['res'])
    outs = pmap([runner(n, f) for n, f in ctx.scen], ctx.workers, timeout=budget - tdump - 60, stop=confirmed)
    fns = {}
    incon = []; cands = []; nob = 0; nun = 0; wsat = 0
    labels = []
    notes = []
    for (n, _), o in zip(ctx.scen, outs):
        if o is None: incon.append(f'{n}: not finished'); continue
        if o[0] != 'ok': incon.append(f'{n}: {o[1]}'); continue
        r = o[1]
        for k, v in r['fns'].items():
            if fns.get(k) != 'real': fns[k] = v
        notes += [f'{n}: {x}' for x in r['notes']]
        for lab, stt, secs, extra in r['res']:
            if lab.startswith('W:'):
                if stt == 'sat': wsat += 1
                else: incon.append(f'{n}: vacuity witness {lab[2:]}: {stt}')
                continue
            nob += 1
            labels.append({'scenario': n, 'obligation': lab, 'verdict': stt, 's': round(secs, 3)})
            if stt == 'unsat': nun += 1
            elif stt == 'sat': cands.append((n, lab, extra[0], extra[1], extra[2]))
            else: incon.append(f'{n}: {lab}: {stt} {extra or ""}')
    viol = []; kf = []
    kn = known(prop)
    for n, lab, model, rep, key in cands:
        hit = [x for x in kn if key is not None and x[0] == key]
        if rep is None or rep[0] == 'error':
            incon.append(f'{n}: {lab}: counterexample without replay {rep}'); continue
        lines, oname, data = rep[:3]
        try:
            out = Native.run(lines)
            v = ctx.oracles[oname](out, data)
        except Inconclusive as e:
            incon.append(f'{n}: {lab}: {e}'); continue
        except Exception:
            incon.append(f'{n}: {lab}: replay failed: {traceback.format_exc()[-600:]}'); continue
        if not v:
            incon.append(f'{n}: {lab}: counterexample does not reproduce natively: {lines} -> {out}'); continue
        if hit:
            kf.append((hit[0], n, lab)); continue
        viol.append((n, lab, lines, out, v))
        break
    if (incon or tier == 'thorough') and not viol and ctx.search:
        left = min(150, budget - (time.time() - t0) - 15)
        try: v = hunt(ctx, left)
        except Exception: v = None; incon.append('search: ' + traceback.format_exc()[-300:])
        if v: viol.append(('undecided by the solver' if incon else 'native search', incon[0][:200] if incon else 'thorough tier') + v)
    wall = time.time() - t0
    os.makedirs(os.path.join(V_, 'evidence'), exist_ok=True)
    for (key, text), n, lab in kf: print(f'KNOWN-FINDING: property={prop} {text}')
    code = 0
    if viol:
        n, lab, lines, out, v = viol[0]
        rp = os.path.join(V_, 'evidence', f'{prop}.replay.txt')
        with open(rp, 'w') as f:
            f.write(f'property {prop}\nscenario {n}\nobligation {lab}\nwhat: {v}\n')
            f.write('feed these lines to the binary built by engine/replay.sh:\n')
            for a, b in zip(lines, out): f.write(f'> {a}\n< {b}\n')
        print(f'scenario {n}: {lab}: {v}')
        print(f'VIOLATION property={prop} replay={rp}')
        code = 1
    elif incon:
        for x in incon[:20]: print('INCONCLUSIVE ' + x)
        code = 2
    ev = {
        'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'other',
        'coverage': {
            'explanation': 'Symbolic execution of the compiler MIR of /repo (regenerated on this run) with all inputs symbolic within the stated bounds; each obligation is the negated property on a path and was decided by SMT (z3, cvc5). ' + ctx.desc,
            'functions_encoded': sorted(k for k, v in fns.items() if v == 'real'),
            'functions_modelled': sorted(k for k, v in fns.items() if v != 'real'),
            'bounds': ctx.bounds, 'outside_bounds': ctx.outside,
            'scenarios': len(ctx.scen), 'obligations': nob, 'discharged': nun, 'known_findings': len(kf),
            'vacuity_witnesses_sat': wsat,
            'queries': STAT['queries'], 'feasibility_queries': STAT['feas'],
            'verdicts': {k: STAT[k] for k in ('unsat', 'sat', 'unknown', 'trivial')},
            'solver_seconds': round(STAT['solver_s'] + STAT['feas_s'], 3), 'dump_seconds': round(tdump, 1),
            'second_solver_agrees': STAT.get('agree', 0), 'paths_replayed_natively': STAT.get('replayed', 0),
            'obligation_list': labels[:2000], 'notes': notes, 'inconclusive': incon[:50],
        },
        'assumptions': ctx.assume, 'wall_s': round(wall, 2), 'violations': len(viol),
    }
    with open(os.path.join(V_, 'evidence', f'{prop}.json'), 'w') as f: json.dump(ev, f, indent=1)
    print(f'{prop} {tier}: {len(ctx.scen)} scenarios, {nob} obligations ({nun} discharged), {wsat} witnesses, {STAT["queries"]} queries, {wall:.1f} s -> exit {code}')
    if os.environ.get('VERIF_V'):
        for (n, _), o in zip(ctx.scen, outs):
            if o and o[0] == 'ok': print(f"  {n}: exec {o[1]['tx']:.2f}s total {o[1]['tt']:.2f}s obs {len(o[1]['res'])} {o[1]['notes']}")
        for l in sorted(labels, key=lambda x: -x['s'])[:12]: print('   ', l)
    sys.exit(code)
