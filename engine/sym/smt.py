"""Lowering of terms to z3, feasibility checks and the obligation portfolio."""
import subprocess, tempfile, os, time, shutil, re
import z3
from term import *

STAT = {'feas': 0, 'feas_s': 0.0, 'queries': 0, 'solver_s': 0.0, 'unsat': 0, 'sat': 0, 'unknown': 0, 'trivial': 0}


def sum_(l): return z3.IntVal(0) if not l else l[0] if len(l) == 1 else z3.Sum(l)    # (+ x) is not SMT-LIB


class Lower:
    """relax=True drops the definitions of non-linear terms (over-approximation)"""

    def __init__(self, relax=False):
        self.relax = relax
        self.m = {}
        self.side = []      # side constraints (definitions), asserted globally
        self.vars = {}      # var name -> z3 const
        self.ufs = {}
        self.n = 0

    def fresh(self, p):
        self.n += 1
        return z3.Int(f'{p}!{self.n}')

    def bounds(self, z, t):
        if t.lo is not None: self.side.append(z >= t.lo)
        if t.hi is not None: self.side.append(z <= t.hi)

    def lower(self, t):
        if t in self.m: return self.m[t]
        for x in walk([t]):
            if x not in self.m: self.m[x] = self._low(x)
        return self.m[t]

    def _low(self, x):
        m = self.m; op = x.op
        if op == 'c': return z3.IntVal(x.a)
        if op == 'true': return z3.BoolVal(True)
        if op == 'false': return z3.BoolVal(False)
        if op == 'v':
            z = z3.Int(x.a); self.vars[x.a] = z; self.bounds(z, x); return z
        if op == 'bv':
            z = z3.Bool(x.a); self.vars[x.a] = z; return z
        if op == 'lin':
            return sum_([z3.IntVal(x.a[0])] * (x.a[0] != 0) + [m[y] if k == 1 else k * m[y] for y, k in x.a[1]])
        if op == 'mul':
            if self.relax:
                z = self.fresh('m'); self.bounds(z, x); return z
            return m[x.a[0]] * m[x.a[1]]
        if op == 'div':
            a, b = x.a
            q = self.fresh('q')
            if b.op == 'c':
                self.side.append(b.a * q <= m[a]); self.side.append(m[a] <= b.a * q + (b.a - 1))
            elif self.relax:
                self.bounds(q, x)
                self.side.append(z3.Implies(m[b] >= 1, q <= m[a]))
            else:
                r = self.fresh('r')
                # a = b*q + r, 0 <= r < b   (only for a positive divisor)
                d = z3.And(m[a] == m[b] * q + r, r >= 0, r < m[b], q >= 0)
                if b.lo is not None and b.lo >= 1: self.side.append(d)
                else: self.side.append(z3.Implies(m[b] >= 1, d))
                self.bounds(q, x)
            return q
        if op == 'ext':
            y, off, n = x.a
            e = self.fresh('e')
            self.side.append(e >= 0); self.side.append(e < (1 << (8 * n)))
            s = e * (1 << (8 * off)) if off else e
            if off:
                l = self.fresh('el'); self.side.append(l >= 0); self.side.append(l < (1 << (8 * off))); s = s + l
            if y.hi is None or y.hi >= (1 << (8 * (off + n))):
                h = self.fresh('eh'); self.side.append(h >= 0)
                if y.hi is not None: self.side.append(h <= y.hi >> (8 * (off + n)))
                s = s + h * (1 << (8 * (off + n)))
            self.side.append(m[y] == s)
            return e
        if op == 'cat':
            s = 0; r = []
            for y, n in x.a:
                r.append(m[y] * (1 << s) if s else m[y]); s += 8 * n
            return sum_(r)
        if op in ('ite', 'bite'): return z3.If(m[x.a[0]], m[x.a[1]], m[x.a[2]])
        if op == 'not': return z3.Not(m[x.a[0]])
        if op == 'and': return z3.And(*[m[y] for y in x.a])
        if op == 'or': return z3.Or(*[m[y] for y in x.a])
        if op == 'le': return self._cmp(x.a[0], 'le')
        if op == 'eq': return self._cmp(x.a[0], 'eq')
        if op in ('uf', 'ufb'):
            name = x.a[0]; args = x.a[1:]
            k = (name, tuple(a.isb for a in args))
            f = self.ufs.get(k)
            if f is None:
                f = z3.Function(name, *([z3.BoolSort() if a.isb else z3.IntSort() for a in args] + [z3.BoolSort() if op == 'ufb' else z3.IntSort()]))
                self.ufs[k] = f
            z = f(*[m[a] for a in args]) if args else f()
            if op == 'uf': self.bounds(z, x)
            return z
        raise ValueError(op)

    def _cmp(self, d, k):
        m = self.m
        if d.op != 'lin':
            return (m[d] <= 0) if k == 'le' else (m[d] == 0)
        pos = []; neg = []
        c, items = d.a
        for y, x in items:
            if x > 0: pos.append(m[y] if x == 1 else x * m[y])
            else: neg.append(m[y] if x == -1 else (-x) * m[y])
        if c > 0: pos.append(z3.IntVal(c))
        if c < 0: neg.append(z3.IntVal(-c))
        L = sum_(pos); R = sum_(neg)
        return (L <= R) if k == 'le' else (L == R)


class Feas:
    """incremental relaxed feasibility of path conditions"""

    def __init__(self, timeout=3000):
        self.s = z3.SolverFor('QF_UFLIA') if False else z3.Solver()
        self.s.set('timeout', timeout)
        self.L = Lower(relax=True)
        self.k = 0
        self.lits = {}
        self.cache = {}

    def lit(self, t):
        if t in self.lits: return self.lits[t]
        z = self.L.lower(t)
        b = z3.Bool(f'lit!{len(self.lits)}')
        while self.k < len(self.L.side):
            self.s.add(self.L.side[self.k]); self.k += 1
        self.s.add(z3.Implies(b, z))
        self.lits[t] = b
        return b

    def feasible(self, conj):
        """False only if the conjunction is certainly unsatisfiable"""
        ts = []
        for t in conj:
            if t is FALSE: return False
            if t is TRUE: continue
            ts.append(t)
        key = frozenset(ts)
        r = self.cache.get(key)
        if r is not None: return r
        t0 = time.time()
        lits = [self.lit(t) for t in ts]
        r = self.s.check(*lits) != z3.unsat
        STAT['feas'] += 1; STAT['feas_s'] += time.time() - t0
        self.cache[key] = r
        return r


def script(asserts, extra=()):
    """SMT-LIB text for the conjunction; returns (text, Lower)"""
    L = Lower()
    zs = [L.lower(t) for t in asserts]
    s = z3.Solver()
    for c in L.side: s.add(c)
    for z in zs: s.add(z)
    for z in extra: s.add(z)
    return s.to_smt2(), L


def _run(cmd, text, timeout):
    try:
        p = subprocess.run(cmd, input=text, capture_output=True, text=True, timeout=timeout + 5)
        return p.stdout
    except subprocess.TimeoutExpired:
        return 'timeout'


SOLVERS = {
    'z3': lambda t: ['z3-new', '-in', f'-T:{t}'],
    'z3nl': lambda t: ['z3-new', '-in', f'-T:{t}', 'tactic.default_tactic=qfnia'],
    'z3old': lambda t: ['z3', '-in', f'-T:{t}'],
    'cvc5': lambda t: ['cvc5', '--lang=smt2', f'--tlimit={t*1000}', '--produce-models', '--nl-ext-tplanes', '-q'],
    'cvc5b': lambda t: ['cvc5', '--lang=smt2', f'--tlimit={t*1000}', '--produce-models', '-q'],
}


def solve_text(text, varnames, timeout, solvers=('z3', 'cvc5')):
    """portfolio; -> (status, model dict, solver, seconds)"""
    t0 = time.time()
    head = '(set-option :produce-models true)\n'
    body = text.replace('(set-info :status unknown)', '')
    body = re.sub(r'^;.*$', '', body, flags=re.M)
    logic = '(set-logic ALL)\n'
    gets = ''
    decl = set(re.findall(r'\(declare-(?:fun|const) \|?([^\s|]+)\|? ', body))
    varnames = [v for v in varnames if v in decl]
    if varnames:
        gets = '(get-value (' + ' '.join('|' + v + '|' for v in varnames) + '))\n'
    full = head + logic + body + '\n' + gets
    procs = []
    for s in solvers:
        f = tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False); f.write(full); f.close()
        cmd = SOLVERS[s](timeout)
        cmd = [c for c in cmd if c != '-in'] + [f.name]
        o = tempfile.TemporaryFile('w+')
        procs.append((s, subprocess.Popen(cmd, stdout=o, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL), o, f.name))
    res = ('unknown', None, None)
    live = list(procs)
    bad = []
    while live and time.time() - t0 < timeout + 5:
        for e in list(live):
            s, p, o, fn = e
            if p.poll() is None: continue
            live.remove(e)
            o.seek(0); out = o.read()
            first = out.strip().split('\n', 1)[0].strip() if out.strip() else ''
            if first == 'unsat':
                res = ('unsat', None, s); break
            if first == 'sat':
                rest = out.strip().split('\n', 1)[1] if '\n' in out.strip() else ''
                res = ('sat', parse_values(rest), s); break
            bad.append((s, out[:200]))
        if res[0] != 'unknown': break
        time.sleep(0.005)
    for s, p, o, fn in procs:
        if p.poll() is None:
            p.kill(); p.wait()
        o.close()
        try: os.unlink(fn)
        except OSError: pass
    return res[0], res[1], res[2], time.time() - t0


def parse_values(s):
    toks = re.findall(r'\(|\)|\|[^|]*\||[^\s()]+', s)
    pos = 0

    def rd():
        nonlocal pos
        t = toks[pos]; pos += 1
        if t == '(':
            l = []
            while toks[pos] != ')': l.append(rd())
            pos += 1
            return l
        return t

    def num(x):
        if isinstance(x, list):
            if x[0] == '-': return -num(x[1])
            raise ValueError(x)
        if x == 'true': return True
        if x == 'false': return False
        return int(x)
    m = {}
    try:
        e = rd()
    except IndexError:
        return m
    if not isinstance(e, list) or e[:1] == ['error']: return m
    for k, v in e:
        m[k.strip('|')] = num(v)
    return m


class Result:
    def __init__(s, status, model=None, solver=None, secs=0.0):
        s.status = status; s.model = model; s.solver = solver; s.secs = secs


def check(asserts, timeout=30, solvers=('z3', 'cvc5'), want=None, quick=1500):
    """decide satisfiability of the conjunction.  want: extra term list whose values are wanted"""
    asserts = [a for a in asserts if a is not TRUE]
    STAT['queries'] += 1
    if any(a is FALSE for a in asserts) or and_(*asserts) is FALSE:
        STAT['trivial'] += 1; STAT['unsat'] += 1
        return Result('unsat', solver='simplifier')
    t0 = time.time()
    L = Lower()
    zs = [L.lower(t) for t in asserts]
    s = z3.Solver()
    for c in L.side: s.add(c)
    for z in zs: s.add(z)
    r = z3.unknown
    if quick:
        s.set('timeout', quick)
        r = s.check()
    if r == z3.unsat:
        STAT['unsat'] += 1; STAT['solver_s'] += time.time() - t0
        return Result('unsat', solver='z3', secs=time.time() - t0)
    if r == z3.sat:
        m = s.model(); d = {}
        for n, z in L.vars.items():
            v = m.eval(z, model_completion=True)
            d[n] = z3.is_true(v) if z3.is_bool(z) else v.as_long()
        STAT['sat'] += 1; STAT['solver_s'] += time.time() - t0
        res = Result('sat', d, 'z3', time.time() - t0); res.z3model = m; res.lower = L
        return res
    if timeout <= quick / 1000:
        STAT['unknown'] += 1; STAT['solver_s'] += time.time() - t0
        return Result('unknown', secs=time.time() - t0)
    s = z3.Solver()     # a solver that has been asked may have rewritten its assertions and dropped variables
    for c in L.side: s.add(c)
    for z in zs: s.add(z)
    st, mod, who, secs = solve_text(s.to_smt2(), list(L.vars), timeout, solvers)
    STAT[st] = STAT.get(st, 0) + 1; STAT['solver_s'] += time.time() - t0
    return Result(st, mod, who, time.time() - t0)
