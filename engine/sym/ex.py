"""Symbolic executor for the dumped MIR.

Values: T (integers / booleans, U256 included), Agg (structs, tuples, arrays), En (enums), Ref
(references, raw pointers, boxes: anything that collapses to a pointer), FnV (function pointers),
None (uninitialised).  A struct with exactly one non-zero-sized field is represented by that field.
"""
import sys
from term import *
from smt import Feas, STAT

sys.setrecursionlimit(20000)


class Unsupported(Exception):
    pass


def amgm(ts):
    """for every quotient q of a/b: (q + 1 + b)^2 >= 4 (q + 1) b"""
    out = []
    for x in walk(ts):
        if x.op == 'div' and not isc(x.a[1]):
            q1 = add(x, C(1)); b = x.a[1]; s = add(q1, b)
            out.append(ge(mul(s, s), mulc(4, mul(q1, b))))
    return out


class Agg:
    __slots__ = ('f',)

    def __init__(s, f): s.f = f
    def __repr__(s): return '{' + ', '.join(map(repr, s.f[:12])) + (', …' if len(s.f) > 12 else '') + '}'


class En:
    __slots__ = ('vi', 'p')

    def __init__(s, vi, p): s.vi = vi; s.p = p
    def __repr__(s): return f'En({s.vi!r},{s.p})'


class Ref:
    __slots__ = ('root', 'path', 'meta')

    def __init__(s, root, path=(), meta=None): s.root = root; s.path = path; s.meta = meta
    def __repr__(s): return f'&{s.root}{list(s.path)}' + (f'#{s.meta}' if s.meta is not None else '')


class FnV:
    __slots__ = ('key',)

    def __init__(s, key): s.key = key


UNIT = Agg(())
Z = ('z',)


def some(v): return En(C(1), {1: Agg((v,))})
NONE = En(C(0), {0: UNIT})
def ok(v): return En(C(0), {0: Agg((v,))})
def err(v): return En(C(1), {1: Agg((v,))})


class St:
    __slots__ = ('mem', 'pc', 'ev', 'aux', 'steps')

    def __init__(s):
        s.mem = {}; s.pc = []; s.ev = []; s.aux = {}; s.steps = 0

    def copy(s):
        n = St.__new__(St)
        n.mem = dict(s.mem); n.pc = list(s.pc); n.ev = list(s.ev); n.aux = dict(s.aux); n.steps = s.steps
        return n


def explode(v):
    """a U256 term as its four words"""
    return Agg(tuple(ext(v, 8 * i, 8) for i in range(4)))


def asint(v):
    if isinstance(v, T): return v
    if isinstance(v, Agg) and len(v.f) == 4: return cat([(asint(x), 8) for x in v.f])
    raise Unsupported(f'integer expected, got {v!r:.80}')


def merge(c, a, b):
    if a is b: return a
    if isinstance(a, T) and isinstance(b, T): return ite(c, a, b)
    if a is None: return b
    if b is None: return a
    if isinstance(a, Agg) and isinstance(b, Agg) and len(a.f) == len(b.f):
        return Agg(tuple(merge(c, x, y) for x, y in zip(a.f, b.f)))
    if isinstance(a, En) and isinstance(b, En):
        p = dict(a.p)
        for k, v in b.p.items(): p[k] = merge(c, p[k], v) if k in p else v
        return En(ite(c, a.vi, b.vi), p)
    if isinstance(a, Ref) and isinstance(b, Ref) and a.root == b.root and len(a.path) == len(b.path):
        path = []
        for x, y in zip(a.path, b.path):
            if x == y: path.append(x)
            elif type(x) is tuple and type(y) is tuple and x[0] == 'i' == y[0]: path.append(('i', ite(c, x[1], y[1])))
            else: raise Unsupported('merge refs')
        m = a.meta
        if a.meta is not b.meta:
            if not (isinstance(a.meta, T) and isinstance(b.meta, T)): raise Unsupported('merge meta')
            m = ite(c, a.meta, b.meta)
        return Ref(a.root, tuple(path), m)
    raise Unsupported(f'merge {type(a)} {type(b)}')


def eqv(a, b):
    """structural equality of two values (bytes/ints)"""
    if isinstance(a, T) and isinstance(b, T):
        return eq(a, b)
    if isinstance(a, T): a = explode(a)
    if isinstance(b, T): b = explode(b)
    if isinstance(a, Agg) and isinstance(b, Agg) and len(a.f) == len(b.f):
        if a.f and all(isinstance(x, T) and not x.isb and x.lo is not None and x.lo >= 0 and x.hi is not None and x.hi < 256 for x in a.f + b.f):
            return eq(cat([(x, 1) for x in a.f]), cat([(x, 1) for x in b.f]))
        return and_(*[eqv(x, y) for x, y in zip(a.f, b.f)])
    if isinstance(a, En) and isinstance(b, En):
        c = eq(a.vi, b.vi)
        for k in a.p:
            if k in b.p: c = and_(c, implies(eq(a.vi, C(k)), eqv(a.p[k], b.p[k])))
        return c
    raise Unsupported(f'eqv {a!r:.60} {b!r:.60}')


def bytes_of(t, n):
    return Agg(tuple(ext(t, i, 1) for i in range(n)))


def term_of(a):
    """little-endian integer of a byte array"""
    return cat([(x, 1) for x in a.f])


# destructors that only free memory (or drop elements, looked at separately)
NODROP = {'alloc::raw_vec::RawVec', 'std::vec::IntoIter', 'std::array::IntoIter', 'std::array::iter::iter_inner::PolymorphicIter', 'std::array::Guard',
          'std::array::drain::Drain', 'core::io::CustomOwner', 'core::io::error::repr::Repr', 'std::hint::select_unpredictable::DropOnPanic'}


class Exec:
    def __init__(self, P, feas=None):
        self.cut = None; self.invs = None; self.loopnotes = []; self.peel = 0; self.short = 0; self.ends = False; self.loopmemo = None; self.looplen = {}
        self.P = P
        self.T = P.types
        self.feas = feas or Feas()
        self._inner = {}
        self._matters = {}
        self.nroot = 0
        self.arrel = {}             # pointers to arrays of bytes seen as pointers to their first byte
        self.wrap = True            # release profile: arithmetic overflow wraps
        self.seen_fns = {}          # name -> 'real' | 'intercept'
        self.maxsteps = 400000
        self.hooks = {}             # exact callee name -> f(X, st, args, call)
        self.hookp = []             # (predicate, f)
        self.virt_hook = None       # f(X, st, virt, ct, args, call) or NotImplemented
        self.trace = False
        self.stack = []
        self.oob = 0
        self.npaths = 0
        self.maxfork = 64
        self.merge_fns = []
        self.cpi = None
        self.exact = {}
        import intercepts
        self.ic = intercepts
        # local Drop impls that must be run
        self.dropimpls = {}
        for k, d in P.fns.items():
            if d['name'].endswith(' as std::ops::Drop>::drop'):
                self.dropimpls[d['name']] = k

    # ---- types -----------------------------------------------------------------------------

    def size(self, ty): return self.T[ty]['size']

    def inner(self, ty):
        """collapse newtypes"""
        r = self._inner.get(ty)
        if r is not None: return r
        t = self.T[ty]
        r = ty
        k = t['k']
        if k == 'pat': r = self.inner(t['e'])
        elif t['size'] != 0 and not self.isu256(ty):
            fs = self.sfields(ty)
            if fs is not None:
                nz = [f for f in fs if self.size(f) != 0]
                if len(nz) == 1: r = self.inner(nz[0])
        self._inner[ty] = r
        return r

    def isu256(self, ty):
        t = self.T[ty]
        return t['k'] == 'adt' and t['name'].endswith('::U256')

    def sfields(self, ty):
        """field types of a struct-like type, else None"""
        t = self.T[ty]; k = t['k']
        if k == 'tuple': return t['f']
        if k == 'closure':
            u = t['ups']
            return u if isinstance(u, list) else self.T[u]['f']
        if k == 'adt' and t['ak'] in ('struct', 'union'): return t['v'][0]['f']
        return None

    def nt(self, ty):
        """is the type a collapsed newtype (represented by its one non-zero-sized field)?"""
        t = self.T[ty]
        if t['size'] == 0 or self.isu256(ty): return False
        fs = self.sfields(ty)
        return fs is not None and sum(1 for f in fs if self.size(f) != 0) == 1

    def kind(self, ty): return self.T[self.inner(ty)]['k']

    def name(self, ty):
        t = self.T[ty]
        return t.get('full') or t.get('name') or t['k'] + (str(t.get('bits', '')))

    def inhabited(self, ty):
        t = self.T[ty]
        if t['k'] == 'never': return False
        if t['k'] == 'adt':
            if t['ak'] == 'enum': return any(all(self.inhabited(f) for f in v['f']) for v in t['v'])
            if t['ak'] == 'struct': return all(self.inhabited(f) for f in t['v'][0]['f']) if t['size'] == 0 else True
        if t['k'] == 'tuple': return all(self.inhabited(f) for f in t['f']) if t['size'] == 0 else True
        return True

    def zst(self, ty):
        t = self.T[ty]
        if t['k'] == 'adt' and t['ak'] == 'enum':
            for i, v in enumerate(t['v']):
                if all(self.inhabited(f) for f in v['f']):
                    return En(C(i), {i: Agg(tuple(self.zst(f) for f in v['f']))})
            return UNIT
        fs = self.sfields(ty)
        if fs: return Agg(tuple(self.zst(f) for f in fs))
        return UNIT

    def mk(self, ty, fields):
        """struct-like value from its full field list"""
        if self.nt(ty):
            for f, v in zip(self.sfields(ty), fields):
                if self.size(f) != 0: return v
        return Agg(tuple(fields))

    def fields(self, v, ty):
        """full field list of a struct-like value"""
        fs = self.sfields(ty)
        if self.nt(ty):
            return [v if self.size(f) != 0 else self.zst(f) for f in fs]
        if self.size(ty) == 0: return [self.zst(f) for f in fs]
        return list(v.f) + [None] * (len(fs) - len(v.f))

    def field(self, v, ty, name):
        t = self.T[ty]
        i = t['v'][0]['fn'].index(name)
        return self.fields(v, ty)[i]

    def setfield(self, v, ty, name, x):
        t = self.T[ty]
        i = t['v'][0]['fn'].index(name)
        fs = self.fields(v, ty); fs[i] = x
        return self.mk(ty, fs)

    def tyfind(self, name):
        """type index by full path name (unique)"""
        r = [i for i, t in enumerate(self.T) if t.get('full') == name or t.get('name') == name]
        if not r: raise Unsupported('no type ' + name)
        return r[0]

    def pointee(self, ty):
        """pointee type of a (possibly wrapped) pointer type"""
        i = ty
        while True:
            t = self.T[i]
            if t['k'] in ('ref', 'ptr'): return t['e']
            if t['k'] == 'pat': i = t['e']; continue
            if t['k'] == 'adt' and t.get('name') in ('std::boxed::Box', 'std::ptr::Unique', 'std::ptr::NonNull', 'std::boxed::BoxRaw'): return t['targs'][0]
            fs = self.sfields(i)
            nz = [f for f in fs if self.size(f) != 0] if fs is not None else []
            if len(nz) != 1: raise Unsupported('pointee of ' + self.name(ty))
            i = nz[0]

    def isptr(self, ty): return self.kind(ty) in ('ref', 'ptr')

    # ---- memory ----------------------------------------------------------------------------

    def newroot(self, n=1):
        r = self.nroot; self.nroot += n
        return r

    def alloc(self, st, v):
        r = self.newroot(); st.mem[r] = v
        return r

    def index(self, v, k):
        if isinstance(v, T): v = explode(v)
        if v is None: return None
        if isc(k):
            if k.a < 0: raise Unsupported('negative index')
            return v.f[k.a] if k.a < len(v.f) else None
        n = len(v.f)
        lo = max(0, k.lo or 0); hi = min(n - 1, k.hi if k.hi is not None else n - 1)
        if hi - lo > 400: raise Unsupported('symbolic index over a large array')
        r = v.f[hi]
        for i in range(hi - 1, lo - 1, -1): r = merge(eq(k, C(i)), v.f[i], r)
        return r

    def rd(self, v, path):
        for e in path:
            if v is None: return None
            if type(e) is int:
                if isinstance(v, T): v = explode(v)
                if not isinstance(v, Agg): raise Unsupported(f'field of {v!r:.60}')
                v = v.f[e] if e < len(v.f) else None
            else:
                t = e[0]
                if t == 'i': v = self.index(v, e[1])
                elif t == 'v':
                    if not isinstance(v, En): raise Unsupported(f'variant of {v!r:.60}')
                    v = v.p.get(e[1])
                elif t == 'w':
                    if isinstance(v, T): v = explode(v)
                    k, n = e[1], e[2]
                    if not isc(k):
                        v = Agg(tuple(self.index(v, add(k, C(j))) for j in range(n)))
                    else:
                        s = v.f[k.a:k.a + n]
                        v = Agg(s + (None,) * (n - len(s)))
                elif t == 's1': v = Agg((v,))
                elif t == 'z': return self.zst(e[1]) if len(e) > 1 else UNIT
                else: raise Unsupported('path ' + t)
        return v

    def wr(self, v, path, i, new):
        if i == len(path): return new
        e = path[i]
        if type(e) is int:
            if isinstance(v, T): v = explode(v)
            f = list(v.f) if v is not None else []
            while len(f) <= e: f.append(None)
            f[e] = self.wr(f[e], path, i + 1, new)
            return Agg(tuple(f))
        t = e[0]
        if t == 'i':
            if isinstance(v, T): v = explode(v)
            k = e[1]
            f = list(v.f) if v is not None else []
            if isc(k):
                while len(f) <= k.a: f.append(None)
                f[k.a] = self.wr(f[k.a], path, i + 1, new)
            else:
                lo = max(0, k.lo or 0); hi = min(len(f) - 1, k.hi if k.hi is not None else len(f) - 1)
                if hi - lo > 400: raise Unsupported('symbolic index over a large array')
                for j in range(lo, hi + 1):
                    f[j] = merge(eq(k, C(j)), self.wr(f[j], path, i + 1, new), f[j])
            return Agg(tuple(f))
        if t == 'v':
            p = dict(v.p) if v is not None else {}
            p[e[1]] = self.wr(p.get(e[1]), path, i + 1, new)
            return En(v.vi if v is not None else C(e[1]), p)
        if t == 'w':
            if isinstance(v, T): v = explode(v)
            k, n = e[1], e[2]
            if not isc(k): raise Unsupported('symbolic window write')
            f = list(v.f) if v is not None else []
            while len(f) < k.a + n: f.append(None)
            sub_ = self.wr(Agg(tuple(f[k.a:k.a + n])), path, i + 1, new)
            if isinstance(sub_, T): sub_ = bytes_of(sub_, n)
            f[k.a:k.a + n] = sub_.f
            return Agg(tuple(f))
        if t == 's1':
            r = self.wr(Agg((v,)), path, i + 1, new)
            return r.f[0]
        if t == 'z': return v
        raise Unsupported('path ' + t)

    def load(self, st, ref):
        if ref.root not in st.mem:
            raise Unsupported(f'load through dangling pointer {ref}')
        return self.rd(st.mem[ref.root], ref.path)

    def store(self, st, ref, v):
        if ref.root not in st.mem: raise Unsupported('store through dangling pointer')
        if ref.path: st.mem[ref.root] = self.wr(st.mem[ref.root], ref.path, 0, v)
        else: st.mem[ref.root] = v

    def fpath(self, ty, i):
        """path element(s) for field i of struct-like type"""
        fs = self.sfields(ty)
        if fs is None: raise Unsupported('field of ' + self.name(ty))
        if self.size(fs[i]) == 0: return (('z', fs[i]),)
        if self.nt(ty): return ()
        return (i,)

    def place(self, st, fr, p):
        """-> (Ref, type)"""
        base, locs = fr
        root = base + p[0]; path = (); ty = locs[p[0]]; meta = None; var = None
        for e in p[1:]:
            if e == '*':
                v = self.rd(st.mem.get(root), path)
                if not isinstance(v, Ref):
                    raise Unsupported(f'deref of {v!r:.80} : {self.name(ty)}')
                root, path, meta = v.root, v.path, v.meta
                ty = self.pointee(ty); var = None
                continue
            k = e[0]
            if k == 'f':
                if var is not None:
                    path = path + (e[1],); var = None
                else:
                    path = path + self.fpath(self.res(ty), e[1])
                ty = e[2]
                if meta is not None:
                    if self.T[ty]['size'] >= 0: meta = None
                    elif self.T[ty]['k'] == 'slice' and not isinstance(meta, tuple): path = self.toelem(Ref(root, path)).path
            elif k == 'v':
                var = e[1]; path = path + (('v', e[1]),)
            elif k == 'oc': ty = e[1]
            elif k in ('i', 'ci'):
                t = self.T[self.inner(ty)]
                if k == 'i': j = st.mem[base + e[1]]
                else:
                    if e[3]:
                        L = C(t['n']) if t['k'] == 'array' else meta
                        j = sub(L, C(e[1]))
                    else: j = C(e[1])
                path = self.idx(path, j, t['k'] == 'slice'); ty = t['e']; meta = None
            elif k == 'ss':
                t = self.T[self.inner(ty)]
                L = C(t['n']) if t['k'] == 'array' else meta
                end = sub(L, C(e[2])) if e[3] else C(e[2])
                n = sub(end, C(e[1]))
                if t['k'] == 'array':
                    if not isc(n): raise Unsupported('subslice')
                    path = path + (('w', C(e[1]), n.a),)
                    ty = self.arrty(t['e'], n.a)
                else:
                    path = self.idx(path, C(e[1]), True); meta = n
            else: raise Unsupported('projection ' + str(e))
        return Ref(root, path, meta), ty

    def res(self, ty):
        return ty

    def arrty(self, e, n):
        for i, t in enumerate(self.T):
            if t['k'] == 'array' and t['e'] == e and t['n'] == n: return i
        raise Unsupported('array type')

    def idx(self, path, j, slice_):
        """index into an array place, or offset an element pointer (slice)"""
        if slice_:
            if path and type(path[-1]) is tuple and path[-1][0] == 'i':
                return path[:-1] + (('i', add(path[-1][1], j)),)
            if isc(j) and j.a == 0: return path
            raise Unsupported('slice place')
        if path and type(path[-1]) is tuple and path[-1][0] == 'w':
            return path[:-1] + (('i', add(path[-1][1], j)),)
        return path + (('i', j),)

    def offset(self, r, j):
        if not isinstance(r, Ref): raise Unsupported('offset of non-pointer')
        if isc(j) and j.a == 0: return r
        if r.path and type(r.path[-1]) is tuple and r.path[-1][0] == 'i':
            return Ref(r.root, r.path[:-1] + (('i', add(r.path[-1][1], j)),), r.meta)
        if r.path and type(r.path[-1]) is tuple and r.path[-1][0] == 'w':
            # stepping whole arrays
            w = r.path[-1]
            return Ref(r.root, r.path[:-1] + (('w', add(w[1], mulc(w[2], j)), w[2]),), r.meta)
        return Ref(r.root, r.path + (('s1',), ('i', j)), r.meta)

    # ---- operands and constants --------------------------------------------------------------

    def const(self, st, c, ty):
        k = c['c']
        if self.size(ty) == 0: return self.zst(ty)
        if k == 'int':
            v = int(c['v'])
            kk = self.kind(ty)
            if kk == 'bool': return B(v)
            if kk == 'int':
                t = self.T[self.inner(ty)]
                if t['signed'] and v >= 1 << (t['bits'] - 1): v -= 1 << t['bits']
                return C(v)
            if kk in ('ptr', 'ref', 'fnptr'): return Ref('int', (('i', C(v)),))
            return C(v)
        if k == 'agg':
            return self.cagg(st, c, ty)
        if k == 'arr':
            t = self.T[self.inner(ty)]
            return Agg(tuple(self.const(st, x, t['e']) for x in c['f']))
        if k == 'zst': return self.zst(ty)
        if k == 'fn': return FnV(c.get('inst') or c.get('fn'))
        if k == 'ref':
            root = ('a', c['alloc'])
            meta = None
            if c.get('dyn') is not None: meta = ('dyn', c['dyn'])
            if root not in st.mem:
                if c.get('static'):
                    root = ('static', c['static'])
                    if root not in st.mem: st.mem[root] = None if c.get('v') is None else self.const(st, c['v'], c['ty'])
                else:
                    st.mem[root] = self.const(st, c['v'], c['ty'])
            t = self.T[self.inner(ty)]
            e = t.get('e')
            if e is not None and self.T[e]['k'] == 'slice' and self.T[c['ty']]['k'] == 'array':
                return Ref(root, (('i', C(0)),), C(self.T[c['ty']]['n']))
            return Ref(root, (), meta)
        if k == 'slice':
            root = ('a', c['alloc'])
            t = self.T[self.inner(ty)]
            et = self.T[t['e']].get('e')
            if root not in st.mem: st.mem[root] = Agg(tuple(self.const(st, x, et) for x in c['f']))
            return Ref(root, (('i', C(0)),), C(len(c['f'])))
        if k == 'str':
            root = ('a', c['alloc'])
            if root not in st.mem: st.mem[root] = Agg(tuple(C(x) for x in c['b']))
            t = self.T[self.inner(ty)]
            e = self.T[t['e']] if 'e' in t else {}
            if e.get('k') == 'array': return Ref(root, ())
            return Ref(root, (('i', C(0)),), C(len(c['b'])))
        if k == 'uninit': return None
        if k == 'union':
            if all(x is None for x in c['bytes']): return None
            if 'field' in c and self.nt(ty): return self.const(st, c['v'], self.sfields(ty)[c['field']])
        if k == 'dangling':
            t = self.T[self.inner(ty)]
            e = t.get('e')
            meta = C(int(c.get('len', 0))) if e is not None and self.T[e]['k'] in ('slice', 'str') else None
            return Ref('dangling', (('i', C(0)),), meta)
        raise Unsupported('constant ' + str(c)[:120] + ' : ' + self.name(ty))

    def cagg(self, st, c, ty):
        t = self.T[ty]
        if t['k'] == 'adt' and t['ak'] == 'enum':
            v = t['v'][c['var']]
            return En(C(c['var']), {c['var']: Agg(tuple(self.const(st, x, f) for x, f in zip(c['f'], v['f'])))})
        if self.isu256(ty):
            return asint(self.const(st, c['f'][0], t['v'][0]['f'][0]))
        if t['k'] == 'pat': return self.cagg(st, c, t['e'])
        fs = self.sfields(ty)
        if fs is None:
            if t['k'] == 'array': return Agg(tuple(self.const(st, x, t['e']) for x in c['f']))
            raise Unsupported('const agg ' + self.name(ty))
        return self.mk(ty, [self.const(st, x, f) for x, f in zip(c['f'], fs)])

    def oper(self, st, fr, o):
        if 'k' in o: return self.const(st, o['k'], o['ty'])
        if 'rt' in o: return FALSE
        p = o.get('cp') or o.get('mv')
        if len(p) == 1: return st.mem.get(fr[0] + p[0])
        r, _ = self.place(st, fr, p)
        if r.root not in st.mem: raise Unsupported(f'read of {r} {p}')
        return self.rd(st.mem[r.root], r.path)

    def opty(self, fr, o):
        if 'ty' in o: return o['ty']
        p = o.get('cp') or o.get('mv')
        return None

    # ---- arithmetic --------------------------------------------------------------------------

    def rng(self, ty):
        t = self.T[self.inner(ty)]
        if t['k'] == 'bool': return 0, 1
        if t['k'] == 'adt': return 0, (1 << 256) - 1
        b = t['bits']
        if t['signed']: return -(1 << (b - 1)), (1 << (b - 1)) - 1
        return 0, (1 << b) - 1

    def wrapto(self, v, ty):
        lo, hi = self.rng(ty)
        if v.lo is not None and v.hi is not None and v.lo >= lo and v.hi <= hi: return v
        m = hi - lo + 1
        if v.lo is not None and v.hi is not None:
            if v.lo >= lo and v.hi <= hi + m: return ite(le(v, C(hi)), v, sub(v, C(m)))
            if v.lo >= lo - m and v.hi <= hi: return ite(ge(v, C(lo)), v, add(v, C(m)))
            if v.lo >= lo - m and v.hi <= hi + m:
                return ite(gt(v, C(hi)), sub(v, C(m)), ite(lt(v, C(lo)), add(v, C(m)), v))
        if isc(v): return C((v.a - lo) % m + lo)
        # shift to non-negative first
        if v.lo is not None:
            s = 0
            if v.lo < lo: s = ((lo - v.lo) // m + 1) * m
            w = add(v, C(s - lo))
            n = m.bit_length() - 1
            r = ext(w, 0, n // 8)
            return add(r, C(lo))
        raise Unsupported('wrap of an unbounded term')

    def inrange(self, v, ty):
        lo, hi = self.rng(ty)
        return and_(ge(v, C(lo)), le(v, C(hi)))

    def arith(self, op, a, b, ty):
        if op.startswith('Add'): return add(a, b)
        if op.startswith('Sub'): return sub(a, b)
        if op.startswith('Mul'): return mul(a, b)
        raise Unsupported(op)

    def shamt(self, b, ty):
        if not isc(b): raise Unsupported('symbolic shift amount')
        bits = self.T[self.inner(ty)]['bits']
        return b.a % bits

    def binop(self, st, op, a, b, ty):
        if op == 'Offset': return self.offset(a, b)
        if isinstance(a, Ref) or isinstance(b, Ref): return self.ptrcmp(op, a, b)
        if isinstance(a, FnV) or isinstance(b, FnV): raise Unsupported('fn pointer comparison')
        if isinstance(a, Agg) and isinstance(b, Agg) and self.kind(ty) != 'adt':
            if not a.f and not b.f: a = b = C(0)
        if isinstance(a, En):
            raise Unsupported('binop on enum')
        if a is None or b is None: raise Unsupported('binop on uninitialised value')
        if not a.isb: a = asint(a)
        if op in ('Eq', 'Ne'):
            r = eq(a, b)
            return r if op == 'Eq' else not_(r)
        if op in ('Lt', 'Le', 'Gt', 'Ge', 'Cmp'):
            if a.isb: a = bit(a); b = bit(b)
            if op == 'Lt': return lt(a, b)
            if op == 'Le': return le(a, b)
            if op == 'Gt': return gt(a, b)
            if op == 'Ge': return ge(a, b)
            vi = ite(lt(a, b), C(0), ite(eq(a, b), C(1), C(2)))
            return En(vi, {0: UNIT, 1: UNIT, 2: UNIT})
        if a.isb:
            if op == 'BitAnd': return and_(a, b)
            if op == 'BitOr': return or_(a, b)
            if op == 'BitXor': return not_(eq(a, b))
            raise Unsupported('bool ' + op)
        t = self.T[self.inner(ty)]
        if op in ('Add', 'Sub', 'Mul'): return self.wrapto(self.arith(op, a, b, ty), ty)
        if op in ('AddUnchecked', 'SubUnchecked', 'MulUnchecked'):
            return self.arith(op, a, b, ty)
        if op in ('Div', 'Rem'):
            if t['signed']:
                if isc(a) and isc(b):
                    q = abs(a.a) // abs(b.a)
                    if (a.a < 0) != (b.a < 0): q = -q
                    return C(q) if op == 'Div' else C(a.a - b.a * q)
                if a.lo is None or a.lo < 0 or b.lo is None or b.lo < 0:
                    # towards zero, by magnitudes
                    mag = lambda x: ite(lt(x, C(0)), sub(C(0), x), x)
                    q = div(mag(a), mag(b)); q = ite(eq(bit(lt(a, C(0))), bit(lt(b, C(0)))), q, sub(C(0), q))
                    return q if op == 'Div' else sub(a, mul(b, q))
            return div(a, b) if op == 'Div' else mod(a, b)
        if op in ('Shl', 'ShlUnchecked'):
            if not isc(b):
                return self.shl_sym(a, b, ty)
            return self.wrapto(mulc(1 << self.shamt(b, ty), a), ty)
        if op in ('Shr', 'ShrUnchecked'):
            if not isc(b): return self.shr_sym(a, b, ty)
            n = self.shamt(b, ty)
            if t['signed'] and (a.lo is None or a.lo < 0):
                lo, hi = self.rng(ty); m = hi - lo + 1
                s = ((m >> n) + 1)
                return sub(div(add(a, C(s << n)), C(1 << n)), C(s))
            return div(a, C(1 << n))
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            return self.bitop(op, a, b, t)
        raise Unsupported('binop ' + op)

    def shl_sym(self, a, b, ty):
        lo = max(b.lo or 0, 0); hi = min(b.hi if b.hi is not None else 10**9, self.T[self.inner(ty)]['bits'] - 1)
        r = self.wrapto(mulc(1 << hi, a), ty)
        for k in range(hi - 1, lo - 1, -1): r = ite(eq(b, C(k)), self.wrapto(mulc(1 << k, a), ty), r)
        return r

    def shr_sym(self, a, b, ty):
        lo = max(b.lo or 0, 0); hi = min(b.hi if b.hi is not None else 10**9, self.T[self.inner(ty)]['bits'] - 1)
        r = div(a, C(1 << hi))
        for k in range(hi - 1, lo - 1, -1): r = ite(eq(b, C(k)), div(a, C(1 << k)), r)
        return r

    def bitop(self, op, a, b, t):
        if isc(a) and isc(b):
            f = {'BitAnd': lambda x, y: x & y, 'BitOr': lambda x, y: x | y, 'BitXor': lambda x, y: x ^ y}[op]
            v = f(a.a, b.a)
            return C(v)
        if isc(a): a, b = b, a
        if isc(b):
            m = b.a
            if op == 'BitAnd' and m >= 0:
                if m == 0: return C(0)
                # contiguous mask
                s = (m & -m).bit_length() - 1
                w = m >> s
                if w & (w + 1) == 0:
                    r = div(a, C(1 << s))
                    r = mod(r, C(w + 1))
                    return mulc(1 << s, r)
            if op in ('BitOr', 'BitXor') and m == 0: return a
            if op == 'BitXor' and not t['signed'] and m == (1 << t['bits']) - 1: return sub(C(m), a)
            if op == 'BitOr' and a.hi is not None and a.lo is not None and a.lo >= 0:
                # disjoint bits
                if m & ((1 << a.hi.bit_length()) - 1) == 0: return add(a, b)
        elif op == 'BitAnd' and a is b: return a
        elif op == 'BitOr':
            # (x << k) | y with y < 2^k
            for x, y in ((a, b), (b, a)):
                if y.hi is None or y.lo is None or y.lo < 0: continue
                k = y.hi.bit_length()
                c, d = (x.a[0], x.a[1]) if x.op == 'lin' else (0, ((x, 1),))
                if c % (1 << k) == 0 and all(q % (1 << k) == 0 for _, q in d): return add(x, y)
            if a.hi is not None and b.hi is not None and a.hi <= 1 and b.hi <= 1 and a.lo >= 0 and b.lo >= 0:
                return bit(or_(eq(a, C(1)), eq(b, C(1))))
        return self.bitblast(op, a, b, t)

    def bitblast(self, op, a, b, t):
        n = t['bits']
        if t['signed'] and any(x.lo is None or x.lo < 0 for x in (a, b)): raise Unsupported('signed bit operation')
        top = lambda x: n if x.hi is None else min(n, x.hi.bit_length())
        n = max(top(a), top(b))
        if n > 64: raise Unsupported('wide symbolic bit operation')
        r = C(0)
        for i in range(n):
            x = eq(mod(div(a, C(1 << i)), C(2)), C(1)); y = eq(mod(div(b, C(1 << i)), C(2)), C(1))
            z = and_(x, y) if op == 'BitAnd' else or_(x, y) if op == 'BitOr' else not_(eq(x, y))
            r = add(r, mulc(1 << i, bit(z)))
        return r

    def ptrcmp(self, op, a, b):
        if not (isinstance(a, Ref) and isinstance(b, Ref)): raise Unsupported(f'{op} on a pointer')

        def norm(p):
            p = list(p)
            while p and type(p[-1]) is tuple and p[-1][0] == 'i' and isc(p[-1][1]) and p[-1][1].a == 0 and False: p.pop()
            if p and type(p[-1]) is tuple and p[-1][0] == 'w': p[-1] = ('i', p[-1][1])
            if p and type(p[-1]) is tuple and p[-1][0] == 'i': return tuple(p[:-1]), p[-1][1]
            return tuple(p), None
        if a.root != b.root:
            if op in ('Eq', 'Ne'): return B(op == 'Ne')
            raise Unsupported('ordering of unrelated pointers')
        (p, i), (q, j) = norm(a.path), norm(b.path)
        if p != q or (i is None) != (j is None):
            # x vs x[0]
            if op in ('Eq', 'Ne'):
                if p == q: r = eq(i if i is not None else j, C(0))
                else: r = FALSE
                return r if op == 'Eq' else not_(r)
            raise Unsupported('pointer comparison')
        if i is None: i = j = C(0)
        r = {'Eq': eq, 'Ne': ne, 'Lt': lt, 'Le': le, 'Gt': gt, 'Ge': ge}.get(op)
        if r is None: raise Unsupported(op + ' on pointers')
        return r(i, j)

    def checked(self, op, a, b, ty):
        t = self.T[self.inner(ty)]
        if op in ('Shl', 'Shr'): raise Unsupported('checked shift')
        v = self.arith(op, asint(a), asint(b), ty)
        ovf = not_(self.inrange(v, ty))
        w = self.wrapto(v, ty)
        if w is not v: self.exact[ovf] = (w, v)
        return w, ovf

    # ---- casts -------------------------------------------------------------------------------

    def cast(self, st, ck, v, fr_, to, r):
        if ck == 'IntToInt':
            if isinstance(v, En):
                return self.wrapto(self.discr(v, fr_), to)
            if v is None: raise Unsupported('cast of uninitialised value')
            if v.isb: v = bit(v)
            return self.wrapto(v, to)
        if ck.startswith('PointerCoercion(Unsize'):
            return self.unsize(v, fr_, to)
        if ck.startswith('PointerCoercion(ReifyFnPointer') or ck.startswith('PointerCoercion(ClosureFnPointer'):
            return FnV(r.get('fn'))
        if ck.startswith('PointerCoercion'): return v
        if ck == 'PtrToPtr' or ck == 'BoxDerefTransmute': return self.ptrcast(v, fr_, to)
        if ck in ('PointerExposeProvenance', 'PointerExposeAddress'): return self.addr(v)
        if ck == 'PointerWithExposedProvenance': return Ref('int', (('i', v),))
        if ck == 'Transmute': return self.transmute(v, fr_, to)
        if ck == 'Subtype': return v
        raise Unsupported('cast ' + ck)

    def addr(self, v):
        """a non-null, maximally aligned address for a pointer (only null/alignment tests are meaningful)"""
        if not isinstance(v, Ref): raise Unsupported('address of non-pointer')
        if v.root == 'int': return v.path[0][1]
        return uf(f'addr!{v.root}', 1 << 20, 1 << 40)

    def unsize(self, v, a, b):
        pa, pb = self.pointee(a), self.pointee(b)
        ta, tb = self.T[self.inner(pa)], self.T[pb]
        if tb['k'] == 'slice':
            if ta['k'] != 'array': raise Unsupported('unsize')
            return self.toelem(v, C(ta['n']))
        if tb['k'] == 'dyn':
            if v.meta is not None: return v
            return Ref(v.root, v.path, ('dyn', pa))
        if ta['k'] == 'adt' and tb['k'] == 'adt' and ta['name'] == tb['name'] and ta['ak'] == 'struct':
            # a struct whose last field loses its size
            fa, fb = ta['v'][0]['f'][-1], tb['v'][0]['f'][-1]
            if self.T[fa]['k'] == 'array' and self.T[fb]['k'] == 'slice': return Ref(v.root, v.path, C(self.T[fa]['n']))
        raise Unsupported('unsize to ' + self.name(pb))

    def toelem(self, v, meta=None):
        if v.path and type(v.path[-1]) is tuple and v.path[-1][0] == 'w':
            return Ref(v.root, v.path[:-1] + (('i', v.path[-1][1]),), meta)
        if v.path and v.path[-1] == ('s1',):
            return Ref(v.root, v.path + (('i', C(0)),), meta)
        return Ref(v.root, v.path + (('i', C(0)),), meta)

    def ptrcast(self, v, a, b):
        if isinstance(v, FnV) or v is None: return v
        if not isinstance(v, Ref): raise Unsupported(f'pointer cast of {v!r:.60}')
        if not self.isptr(a) or not self.isptr(b): raise Unsupported('pointer cast')
        return self.retype(v, self.pointee(a), self.pointee(b))

    def retype(self, v, pa, pb):
        A, Bt = self.inner(pa), self.inner(pb)
        ta, tb = self.T[A], self.T[Bt]
        # metadata
        if ta['k'] in ('slice', 'str') and tb['k'] in ('slice', 'str'): return v
        if ta['k'] == 'dyn' and tb['k'] == 'dyn': return v
        meta = None
        if A == Bt: return Ref(v.root, v.path, v.meta)
        if ta['k'] in ('ref', 'ptr') and tb['k'] in ('ref', 'ptr'): return Ref(v.root, v.path, None)
        if self.size(pb) == 0 or self.size(pa) == 0: return Ref(v.root, v.path, None)
        ea = ta.get('e') if ta['k'] in ('slice',) else None
        if ta['k'] == 'str': ea = -1
        if ta['k'] == 'slice' and self.inner(ta['e']) == Bt: return Ref(v.root, v.path, None)
        if ta['k'] == 'str' and tb['k'] == 'int': return Ref(v.root, v.path, None)
        if tb['k'] == 'array':
            e = self.inner(tb['e'])
            if A == e or (ta['k'] == 'slice' and self.inner(ta['e']) == e):
                return self.window(v, tb['n'])
            if ta['k'] == 'array' and self.inner(ta['e']) == e:
                if ta['n'] == tb['n']: return v
                w = self.toelem(v)
                return self.window(w, tb['n'])
        if ta['k'] == 'array' and self.inner(ta['e']) == Bt:
            if v.path and type(v.path[-1]) is tuple and v.path[-1][0] == 'i': self.arrel[(v.root, v.path)] = ta['n']
            return self.toelem(v)
        if ta['k'] == 'array' and tb['k'] == 'slice': raise Unsupported('array to slice cast')
        if ta['k'] in ('dyn',): return Ref(v.root, v.path, None)
        if tb['k'] == 'dyn': raise Unsupported('cast to dyn')
        # raw byte pointers to/from freshly allocated memory
        if (ta['k'] == 'int' and ta['bits'] == 8) or (tb['k'] == 'int' and tb['bits'] == 8):
            if isinstance(v.root, tuple) and v.root[0] == 'h' or v.root in ('dangling', 'int'):
                return Ref(v.root, v.path, None)
            if tb['k'] == 'int' and tb['bits'] == 8 and ta['k'] not in ('int', 'array', 'slice'):
                return Ref(v.root, v.path, None)   # only ever used for deallocation / identity
        if ta['k'] == 'int' and tb['k'] == 'int' and ta['bits'] == tb['bits']: return v
        if ta['k'] == 'bool' and tb['k'] == 'int' and tb['bits'] == 8: return v
        if self.isu256(A) or self.isu256(Bt):
            o = tb if self.isu256(A) else ta
            if o['k'] == 'int' and o['bits'] == 64: return self.toelem(v) if self.isu256(A) else v
            if o['k'] == 'array': return v
        if isinstance(v.root, tuple) and v.root[0] == 'h': return Ref(v.root, v.path, None)
        if v.root in ('dangling', 'int'): return Ref(v.root, v.path, None)
        raise Unsupported(f'pointer cast {self.name(pa)} -> {self.name(pb)}')

    def window(self, v, n):
        if v.path and v.path[-1] == ('i', C(0)) and self.arrel.get((v.root, v.path[:-1])) == n:
            return Ref(v.root, v.path[:-1])          # back to the array it was taken from
        if v.path and type(v.path[-1]) is tuple and v.path[-1][0] == 'i':
            return Ref(v.root, v.path[:-1] + (('w', v.path[-1][1], n),))
        if n == 1: return Ref(v.root, v.path + (('s1',),))
        raise Unsupported('window')

    def leaves(self, v, ty, out):
        i = self.inner(ty); t = self.T[i]
        if self.size(ty) == 0: return
        if t['k'] in ('int', 'bool', 'ref', 'ptr', 'fnptr') or self.isu256(i): out.append((v, i)); return
        if t['k'] == 'array':
            if isinstance(v, T): v = explode(v)
            for x in (v.f if v is not None else [None] * t['n']): self.leaves(x, t['e'], out)
            return
        fs = self.sfields(i)
        if fs is not None:
            for x, f in zip(self.fields(v, i) if v is not None else [None] * len(fs), fs): self.leaves(x, f, out)
            return
        if t['k'] == 'adt' and t['ak'] == 'enum' and all(not x['f'] for x in t['v']):
            out.append((v, i)); return
        raise Unsupported('transmute leaves of ' + self.name(ty))

    def transmute(self, v, a, b):
        A, Bt = self.inner(a), self.inner(b)
        if A == Bt: return v
        ta, tb = self.T[A], self.T[Bt]
        pk = ('ref', 'ptr')
        if ta['k'] in pk and tb['k'] in pk: return self.retype(v, self.pointee(a), self.pointee(b))
        if ta['k'] in pk and tb['k'] == 'int': return self.addr(v)
        if ta['k'] == 'int' and tb['k'] in pk: return Ref('int', (('i', v),))
        if ta['k'] == 'fnptr' or tb['k'] == 'fnptr': return v
        if tb['k'] == 'adt' and tb['ak'] == 'enum' and len(tb['v']) == 2 and tb['name'] == 'std::option::Option':
            if ta['k'] == 'int': return En(ite(eq(v, C(0)), C(0), C(1)), {0: UNIT, 1: Agg((v,))})
            if ta['k'] in pk:
                if v.root == 'int' and isc(v.path[0][1]) and v.path[0][1].a == 0: return NONE
                return some(v)
        if ta['k'] == 'adt' and ta['ak'] == 'enum':
            if tb['k'] in pk and all(not x['f'] for x in ta['v']): return Ref('dangling', (('i', C(0)),))
            if all(not x['f'] for x in ta['v']) and tb['k'] == 'int': return self.wrapto(self.discr(v, A), Bt)
            if ta['name'] == 'std::option::Option' and tb['k'] == 'int':
                return ite(eq(v.vi, C(0)), C(0), asint(v.p[1].f[0])) if 1 in v.p else C(0)
            if tb['k'] == 'adt' and tb['ak'] == 'enum' and len(ta['v']) == len(tb['v']): return v
        if tb['k'] == 'adt' and tb['ak'] == 'enum' and all(not x['f'] for x in tb['v']) and ta['k'] in ('int', 'bool'):
            if isinstance(v, T) and v.isb: v = bit(v)
            vi = C(len(tb['v']) - 1)
            for k in range(len(tb['v']) - 2, -1, -1): vi = ite(eq(v, C(tb['v'][k]['d'])), C(k), vi)
            return En(vi, {k: UNIT for k in range(len(tb['v']))})
        if ta['k'] == 'bool' and tb['k'] == 'int': return bit(v)
        if ta['k'] == 'int' and tb['k'] == 'bool': return ne(v, C(0))
        if ta['k'] == 'int' and tb['k'] == 'int': return self.wrapto(v, Bt)
        if ta['k'] == 'array' and tb['k'] == 'array' and ta['n'] == tb['n'] and self.inner(ta['e']) == self.inner(tb['e']): return v
        # via leaves
        la = []; self.leaves(v, a, la)
        if any(x is None for x, _ in la): raise Unsupported('transmute of uninitialised data')
        if all(self.T[i]['k'] in ('int', 'bool') or self.isu256(i) for _, i in la):
            t = cat([(self.unsig(x, i), self.size(i)) for x, i in la])
            pos = [0]

            def take(ty):
                i = self.inner(ty); tt = self.T[i]; n = self.size(ty)
                if n == 0: return self.zst(ty)
                if tt['k'] == 'int':
                    x = ext(t, pos[0], n); pos[0] += n
                    return self.wrapto(x, i)
                if tt['k'] == 'bool':
                    x = ext(t, pos[0], n); pos[0] += n
                    return ne(x, C(0))
                if self.isu256(i):
                    x = ext(t, pos[0], 32); pos[0] += 32
                    return x
                if tt['k'] == 'array': return Agg(tuple(take(tt['e']) for _ in range(tt['n'])))
                fs = self.sfields(i)
                if fs is None: raise Unsupported('transmute to ' + self.name(ty))
                return self.mk(i, [take(f) for f in fs])
            return take(b)
        raise Unsupported(f'transmute {self.name(a)} -> {self.name(b)}')

    def unsig(self, x, i):
        if x.isb: return bit(x)
        t = self.T[i]
        if t['k'] == 'int' and t['signed'] and (x.lo is None or x.lo < 0):
            return ite(ge(x, C(0)), x, add(x, C(1 << t['bits'])))
        return x

    def discr(self, v, ty, dty=None):
        t = self.T[ty]
        while t['k'] == 'pat': t = self.T[t['e']]
        if t['k'] != 'adt' or t['ak'] != 'enum':
            return C(0)
        if v is None: raise Unsupported('discriminant of uninitialised ' + self.name(ty))
        if not isinstance(v, En): raise Unsupported(f'discriminant of {v!r:.60} : {self.name(ty)}')
        ds = [int(x['d']) for x in t['v']]
        if dty is not None and self.kind(dty) == 'int':
            i = self.T[self.inner(dty)]
            if i['signed']: ds = [d - (1 << i['bits']) if d >= 1 << (i['bits'] - 1) else d for d in ds]
        return self.mapvi(v.vi, ds)

    def mapvi(self, vi, ds):
        if isc(vi): return C(ds[vi.a])
        if all(d == i for i, d in enumerate(ds)): return vi
        if vi.op == 'ite': return ite(vi.a[0], self.mapvi(vi.a[1], ds), self.mapvi(vi.a[2], ds))
        r = C(ds[-1])
        for i in range(len(ds) - 2, -1, -1): r = ite(eq(vi, C(i)), C(ds[i]), r)
        return r

    # ---- statements --------------------------------------------------------------------------

    def rval(self, st, fr, r, dty):
        k = r['r']
        if k == 'use': return self.oper(st, fr, r['o'])
        if k == 'ref':
            ref, ty = self.place(st, fr, r['p'])
            return ref
        if k == 'discr':
            ref, ty = self.place(st, fr, r['p'])
            if self.size(ty) == 0: return self.discr(self.zst(ty), ty, dty)
            return self.discr(self.load(st, ref), ty, dty)
        if k == 'len':
            ref, ty = self.place(st, fr, r['p'])
            t = self.T[self.inner(ty)]
            return C(t['n']) if t['k'] == 'array' else ref.meta
        if k == 'repeat':
            return Agg((self.oper(st, fr, r['o']),) * r['n'])
        if k == 'bin':
            return self.binop(st, r['op'], self.oper(st, fr, r['a']), self.oper(st, fr, r['b']), r['ty'])
        if k == 'cbin':
            a = self.oper(st, fr, r['a']); b = self.oper(st, fr, r['b'])
            v, o = self.checked(r['op'], a, b, r['ty'])
            return Agg((v, o))
        if k == 'un':
            a = self.oper(st, fr, r['a'])
            op = r['op']
            if op == 'PtrMetadata':
                if isinstance(a.meta, tuple): return Ref('vt', (a.meta,))
                return a.meta if a.meta is not None else UNIT
            if op == 'Not':
                if a.isb: return not_(a)
                lo, hi = self.rng(r['ty'])
                return sub(C(lo + hi), a)
            if op == 'Neg': return self.wrapto(sub(C(0), a), r['ty'])
            raise Unsupported('unop ' + op)
        if k == 'cast':
            v = self.oper(st, fr, r['o'])
            return self.cast(st, r['ck'], v, r['from'], r['ty'], r)
        if k == 'agg':
            o = [self.oper(st, fr, x) for x in r['o']]
            ak = r['ak']
            if ak == 'array': return Agg(tuple(o))
            if ak in ('tuple', 'closure'): return self.zst(dty) if self.size(dty) == 0 else self.mk(dty, o)
            if ak == 'adt':
                ty = r['ty']; t = self.T[ty]
                if t['ak'] == 'enum':
                    return En(C(r['var']), {r['var']: Agg(tuple(o))})
                if t['ak'] == 'union':
                    if self.nt(ty):
                        f = self.sfields(ty)[r['uf']]
                        return o[0] if self.size(f) != 0 else None
                    raise Unsupported('union')
                if self.size(ty) == 0: return self.zst(ty)
                if self.isu256(ty): return asint(o[0])
                return self.mk(ty, o)
            if ak == 'rawptr':
                p, m = o
                if isinstance(m, Ref) and m.root == 'vt': m = m.path[0]
                if isinstance(m, Agg): m = None
                if m is not None and self.T[self.pointee(dty)]['k'] in ('slice', 'str') and not (p.path and type(p.path[-1]) is tuple and p.path[-1][0] == 'i'):
                    p = Ref(p.root, p.path + (('s1',), ('i', C(0))))
                return Ref(p.root, p.path, m)
            raise Unsupported('aggregate ' + str(ak))
        raise Unsupported('rvalue ' + k)

    def assign(self, st, fr, p, v):
        if len(p) == 1:
            st.mem[fr[0] + p[0]] = v; return
        ref, ty = self.place(st, fr, p)
        self.store(st, ref, v)

    def copyn(self, st, src, dst, n, ty=None):
        """copy n elements src -> dst"""
        if not isc(n): raise Unsupported('symbolic copy length')
        n = n.a
        if n == 0: return
        if n == 1 and not (src.path and type(src.path[-1]) is tuple and src.path[-1][0] == 'i'):
            self.store(st, dst, self.load(st, src)); return
        def el(r):
            return r.path and type(r.path[-1]) is tuple and r.path[-1][0] == 'i'
        s = src
        if el(s) and isc(s.path[-1][1]):
            base = self.rd(st.mem[s.root], s.path[:-1])
            if isinstance(base, T): base = explode(base)
            k = s.path[-1][1].a
            vals = (base.f if base is not None else ())[k:k + n]
            vals = tuple(vals) + (None,) * (n - len(vals))
        else:
            vals = tuple(self.load(st, self.offset(s, C(i))) for i in range(n))
        if el(dst) and isc(dst.path[-1][1]):
            base = self.rd(st.mem.get(dst.root), dst.path[:-1])
            if isinstance(base, T): base = explode(base)
            f = list(base.f) if base is not None else []
            k = dst.path[-1][1].a
            while len(f) < k + n: f.append(None)
            f[k:k + n] = vals
            self.store(st, Ref(dst.root, dst.path[:-1]), Agg(tuple(f)))
        else:
            for i in range(n): self.store(st, self.offset(dst, C(i)), vals[i])

    # ---- forking -----------------------------------------------------------------------------

    def feasible(self, st, extra=()):
        return self.feas.feasible(st.pc + list(extra))

    def fork(self, st, cond):
        """-> list of (state, bool)"""
        if cond is TRUE: return [(st, True)]
        if cond is FALSE: return [(st, False)]
        if cond in st.pc: return [(st, True)]
        n = not_(cond)
        if n in st.pc: return [(st, False)]
        a = self.feasible(st, (cond,)); b = self.feasible(st, (n,))
        if a and not b: st.pc.append(cond); return [(st, True)]
        if b and not a: st.pc.append(n); return [(st, False)]
        if not a and not b: return []
        s2 = st.copy()
        st.pc.append(cond); s2.pc.append(n)
        return [(st, True), (s2, False)]

    def forkn(self, st, conds):
        """conds exhaustive; -> list of (state, index)"""
        live = []
        for i, c in enumerate(conds):
            if c is FALSE: continue
            if c is TRUE: return [(st, i)]
            if self.feasible(st, (c,)): live.append(i)
        out = []
        for j, i in enumerate(live):
            s = st.copy() if j < len(live) - 1 else st
            out.append((s, i))
        for s, i in out:
            if len(live) > 1 or conds[i] not in s.pc: s.pc.append(conds[i])
        return out

    # ---- calls -------------------------------------------------------------------------------

    def call(self, st, key, args, t=None):
        """call an instance by key -> list of (st, kind, value)"""
        d = self.P.fns.get(key)
        if d is None: raise Unsupported('unknown callee ' + str(key)[:100])
        name = d['name']
        h = self.hooks.get(name)
        if h is None:
            for p, f in self.hookp:
                if p(name, d): h = f; break
        if h is None: h = self.ic.find(self, name, d)
        if h is not None:
            r = h(self, st, args, d, t)
            if r is not NotImplemented:
                self.seen_fns.setdefault(name, 'intercept')
                if isinstance(r, list): return r
                return [(st, 'ret', r)]
        if d['kind'] == 'item' and d.get('nobody') and t is not None and not d.get('stopped'):
            r = self.ctor(d, args, t.get('dt'))
            if r is not None: return [(st, 'ret', r)]
        if d['kind'] == 'intrinsic' or d.get('nobody') or d.get('stopped') or 'blocks' not in d:
            raise Unsupported('no body for ' + name)
        self.seen_fns[name] = 'real'
        # untuple for closures
        n = d['args']
        if n != len(args) and d.get('spread') is None:
            if t is None or 'at' not in t: raise Unsupported(f'arity of {name}')
            tt = t['at'][-1]
            args = list(args[:-1]) + self.fields(args[-1], tt)
            if len(args) != n: raise Unsupported(f'arity of {name}')
        elif d.get('spread') is not None and n != len(args):
            raise Unsupported(f'spread arity of {name}')
        return self.run(st, d, args)

    def ctor(self, d, args, ty):
        """a tuple constructor used as a function"""
        if ty is None or self.T[ty]['k'] != 'adt': return None
        a = self.T[ty]; own, _, last = d['def'].rpartition('::')
        if a['ak'] == 'enum' and own in (a['name'], 'std::prelude::v1'):
            for i, v in enumerate(a['v']):
                if v['n'] == last and len(v['f']) == len(args): return En(C(i), {i: Agg(tuple(args))})
        if a['ak'] == 'struct' and d['def'] == a['name'] and len(a['v'][0]['f']) == len(args):
            return self.zst(ty) if self.size(ty) == 0 else self.mk(ty, list(args))
        return None

    def run(self, st, d, args):
        locs = d['locals']
        base = self.newroot(len(locs))
        for i, a in enumerate(args): st.mem[base + 1 + i] = a
        fr = (base, locs)
        return self.body(st, d, fr, base, 0)

    def body(self, st, d, fr, base, start, backs=None):
        locs = d['locals']
        nl = len(locs)
        blocks = d['blocks']
        outs = []
        work = [(st, start)]
        cut = self.cut is not None and self.cut(d) and self.heads(d)
        self.stack.append(d['name'])
        if self.trace: print('  ' * len(self.stack) + d['name'][:120], file=sys.stderr)
        if len(self.stack) > 300: raise Unsupported('call depth')
        try:
            while work:
                s, bb = work.pop()
                while True:
                    s.steps += 1
                    if s.steps > self.maxsteps: raise Unsupported('step bound reached in ' + d['name'])
                    if cut and bb in cut and not (backs is not None and s.aux.pop('cutgo', None)):
                        key = (base, bb)
                        if key in s.aux.get('cut', ()):
                            # once round: the inductive step (checked in loopinv); nothing further to explore
                            if backs is not None and key == backs[0]: backs[1].append(s)
                            break
                        if not self.spare(s, d, fr, base, bb):
                            s = self.loopinv(s, d, fr, base, bb)
                            cut = self.heads(d)
                    blk = blocks[bb]
                    for x in blk['s']:
                        if x['s'] == '=':
                            p = x['p']
                            r = x['r']
                            dty = locs[p[0]] if len(p) == 1 else None
                            if dty is None and r['r'] == 'agg' and r['ak'] in ('tuple', 'closure', 'rawptr'):
                                dty = self.place(s, fr, p)[1]
                            v = self.rval(s, fr, r, dty)
                            self.assign(s, fr, p, v)
                        elif x['s'] == 'sd':
                            ref, ty = self.place(s, fr, x['p'])
                            cur = self.load(s, ref)
                            p = dict(cur.p) if isinstance(cur, En) else {}
                            p.setdefault(x['var'], UNIT)
                            self.store(s, ref, En(C(x['var']), p))
                        elif x['s'] == 'cno':
                            src, dst, n = (self.oper(s, fr, x[k]) for k in ('src', 'dst', 'n'))
                            self.copyn(s, src, dst, n)
                        else: raise Unsupported('statement ' + x['s'])
                    t = blk['t']; k = t['t']
                    if k == 'goto': bb = t['to']; continue
                    if k == 'ret':
                        v = s.mem.get(base)
                        if self.size(locs[0]) == 0: v = self.zst(locs[0])
                        self.popframe(s, base, nl)
                        outs.append((s, 'ret', v)); break
                    if k == 'switch':
                        nx = self.switch(s, fr, t)
                        if not nx: break
                        for q in nx[1:]: work.append(q)
                        s, bb = nx[0]; continue
                    if k == 'assert':
                        m = t['m']
                        c = self.oper(s, fr, t['c'])
                        if not t['exp']: c = not_(c)
                        ovf = m.startswith('overflow') and not m.startswith('overflow Sh')
                        if ovf and (c is TRUE or c is FALSE) and self.wrap:
                            bb = t['to']; continue
                        r = self.fork(s, c)
                        if ovf:
                            nx = []
                            for q, b in r:
                                if b:
                                    # no overflow: use the exact (unwrapped) value
                                    e = self.exact.get(not_(c))
                                    pl = (t['c'].get('cp') or t['c'].get('mv'))
                                    if e is not None and len(pl) == 2:
                                        cur = q.mem[base + pl[0]]
                                        q.mem[base + pl[0]] = Agg((e[1], FALSE))
                                    nx.append(q)
                                elif self.wrap: nx.append(q)
                                else:
                                    self.popframe(q, base, nl)
                                    outs.append((q, 'panic', m))
                            if not nx: break
                            for q in nx[1:]: work.append((q, t['to']))
                            s = nx[0]; bb = t['to']; continue
                        nxt = None
                        for q, b in r:
                            if b: nxt = q
                            else:
                                self.popframe(q, base, nl)
                                outs.append((q, 'panic', m))
                        if nxt is None: break
                        s = nxt; bb = t['to']; continue
                    if k == 'call':
                        rs = self.docall(s, fr, t)
                        nx = []
                        for q, kd, v in rs:
                            if kd == 'panic':
                                self.popframe(q, base, nl)
                                outs.append((q, kd, v))
                            else:
                                if t.get('to') is None:
                                    raise Unsupported('return from diverging call ' + t['name'])
                                self.assign(q, fr, t['d'], v)
                                nx.append((q, t['to']))
                        if not nx: break
                        for q in nx[1:]: work.append(q)
                        s, bb = nx[0]; continue
                    if k == 'drop':
                        if t.get('inst') and self.matters(t['ty']):
                            ref, ty = self.place(s, fr, t['p'])
                            rs = self.call(s, t['inst'], [ref], None)
                            nx = []
                            for q, kd, v in rs:
                                if kd == 'panic': self.popframe(q, base, nl); outs.append((q, kd, v))
                                else: nx.append((q, t['to']))
                            if not nx: break
                            for q in nx[1:]: work.append(q)
                            s, bb = nx[0]; continue
                        bb = t['to']; continue
                    if k == 'unreachable':
                        # only a relaxed-feasible state can get here
                        if self.feasible(s): raise Unsupported('unreachable reached in ' + d['name'])
                        break
                    if k in ('resume', 'abort'):
                        self.popframe(s, base, nl)
                        outs.append((s, 'panic', k)); break
                    raise Unsupported('terminator ' + k)
        except Unsupported as e:
            if not getattr(e, 'tr', None):
                e.tr = list(self.stack)
                e.args = (str(e) + ' @ ' + ' < '.join(x[-60:] for x in reversed(self.stack[-6:])),)
            raise
        finally:
            self.stack.pop()
        if len(outs) > 1 and self.merge_fns and any(m(d['name']) for m in self.merge_fns):
            outs = self.mergeouts(outs)
        return outs

    # ---- loops cut at an inductive invariant ---------------------------------------------------

    def heads(self, d):
        """targets of back edges"""
        h = d.get('heads!')
        if h is not None: return h
        bl = d['blocks']; h = set(); col = {}

        def succ(i):
            t = bl[i]['t']
            if t['t'] == 'switch': return [b for _, b in t['b']] + [t['else']]
            return [t['to']] if t.get('to') is not None else []
        stack = [(0, iter(succ(0)))]; col[0] = 1
        while stack:
            i, it = stack[-1]
            for j in it:
                if col.get(j) == 1: h.add(j)
                elif j not in col:
                    col[j] = 1; stack.append((j, iter(succ(j)))); break
            else:
                col[i] = 2; stack.pop()
        d['heads!'] = h
        return h

    def havoc(self, v, ty, leaves, path):
        """fresh value of the same shape; leaves collects (path, fresh term)"""
        if isinstance(v, T):
            self.nhv = getattr(self, 'nhv', 0) + 1
            if v.isb: x = BVar(f'hv!{self.nhv}')
            elif ty is not None and self.isu256(self.inner(ty)): x = V(f'hv!{self.nhv}', 0, (1 << 256) - 1)
            elif ty is not None and self.kind(ty) == 'int': x = V(f'hv!{self.nhv}', *self.rng(self.inner(ty)))
            else: raise Unsupported('loop variable of unknown type')
            leaves.append((path, x)); return x
        if isinstance(v, Agg) and ty is not None:
            k = self.kind(ty)
            if k == 'array': fs = [self.T[self.inner(ty)]['e']] * len(v.f)
            else: fs = self.sfields(self.inner(ty))
            if len(fs) != len(v.f): raise Unsupported('loop variable shape')
            return Agg(tuple(self.havoc(x, f, leaves, path + (i,)) if x is not None else None for i, (x, f) in enumerate(zip(v.f, fs))))
        if isinstance(v, En) and isc(v.vi): return None       # only usable if written before it is read
        if v is None: return None
        raise Unsupported(f'loop modifies {v!r:.60}')

    def same(self, a, b):
        if a is b: return True
        if isinstance(a, Agg) and isinstance(b, Agg) and len(a.f) == len(b.f): return all(self.same(x, y) for x, y in zip(a.f, b.f))
        if isinstance(a, En) and isinstance(b, En): return a.vi is b.vi and a.p.keys() == b.p.keys() and all(self.same(a.p[k], b.p[k]) for k in a.p)
        if isinstance(a, Ref) and isinstance(b, Ref): return a.root == b.root and a.path == b.path and a.meta == b.meta
        return False

    def spare(self, s, d, fr, base, bb):
        """run this visit of the loop head as it is: one of the first self.peel, or a loop of few iterations"""
        n = s.aux.get('visits', {}).get((base, bb), 0)
        if not self.short and not self.peel: return False
        if self.short:
            k = (d['name'], bb)
            if k not in self.looplen: self.looplen[k] = self.triallen(s, d, fr, base, bb)
            if self.looplen[k] <= self.short: return True
        if n >= self.peel: return False
        s.aux['visits'] = dict(s.aux.get('visits', {})); s.aux['visits'][(base, bb)] = n + 1
        return True

    def triallen(self, s0, d, fr, base, bb):
        """the most iterations over a few arbitrary concrete states: only decides whether to unroll or to cut"""
        import random
        R = random.Random(11); best = 0; key = (base, bb)
        for i in range(12):
            m = {}

            def conc(v):
                if isinstance(v, T):
                    for y in walk([v]):
                        if y.op == 'bv': m.setdefault(y.a, R.random() < .5)
                        elif y.op == 'v' and y.a not in m:
                            lo = y.lo or 0; hi = y.hi if y.hi is not None else lo + (1 << 64)
                            hi = min(hi, lo + (1 << 64))
                            x = R.getrandbits(R.randrange(1, 65)); m[y.a] = min(hi, max(lo, x))
                    try: x = evaluate(v, m)
                    except ZeroDivisionError: return v
                    return (TRUE if x else FALSE) if v.isb else C(x)
                if isinstance(v, Agg): return Agg(tuple(conc(x) for x in v.f))
                if isinstance(v, En): return En(conc(v.vi), {k: conc(x) for k, x in v.p.items()})
                return v
            h = s0.copy(); h.pc = []
            try:
                for r, v in list(h.mem.items()): h.mem[r] = conc(v)
                n = 0
                while n < 40:
                    h.aux['cut'] = h.aux.get('cut', frozenset()) | {key}; h.aux['cutgo'] = True
                    backs = (key, [])
                    self.body(h, d, fr, base, bb, backs)
                    if not backs[1]: break
                    h = backs[1][0].copy(); n += 1
            except Unsupported: continue
            best = max(best, n)
        return best

    def loopinv(self, s0, d, fr, base, bb):
        """Replace the state at a loop head by an arbitrary one satisfying an inductive invariant.  The invariant is
        the strongest conjunction of instances of self.invs that holds on entry and is preserved by one iteration
        (both decided by the solver)."""
        locs = fr[1]; key = (base, bb)
        mk = None
        if self.loopmemo is not None:
            def content(v, n=0):
                if isinstance(v, Agg): return tuple(content(x, n) for x in v.f)
                if isinstance(v, En): return (content(v.vi), tuple((k, content(x, n)) for k, x in sorted(v.p.items())))
                if isinstance(v, Ref):
                    if n > 4: raise Unsupported('loop over deep references')
                    try: return ('ref', content(self.load(s0, v), n + 1))
                    except (KeyError, IndexError, AttributeError, Unsupported): return 'dead'
                return v
            mk = (d['name'], bb, tuple((i, content(s0.mem[base + i])) for i in range(len(locs)) if base + i in s0.mem))
            for vs, pc, facts in self.loopmemo.get(mk, ()):
                if not pc <= set(s0.pc): continue
                h = s0.copy()
                for i, v in vs: h.mem[base + i] = v
                h.aux['cut'] = h.aux.get('cut', frozenset()) | {key}
                h.pc += facts
                return h

        def once(h):
            h = h.copy(); h.aux['cut'] = h.aux.get('cut', frozenset()) | {key}; h.aux['cutgo'] = True
            backs = (key, [])
            outs.append(self.body(h, d, fr, base, bb, backs))
            return backs[1]
        outs = []

        def used(h, bs):
            """terms that one more visit of the loop head looks at"""
            ts = []

            def coll(v):
                if isinstance(v, T): ts.append(v)
                elif isinstance(v, Agg): any(coll(x) for x in v.f)
                elif isinstance(v, En): coll(v.vi); any(coll(x) for x in v.p.values())
            for b in bs:
                ts.extend(b.pc)
                for r, v in b.mem.items():
                    if h.mem.get(r) is not v: coll(v)
            for o in outs[-1]:
                ts.extend(o[0].pc); coll(o[2])
            return set(walk(ts))

        def make(mod):
            h = s0.copy(); leaves = []
            for r in sorted(mod):
                i = r - base
                if not 0 <= i < len(locs): raise Unsupported('loop modifies memory other than its variables')
                h.mem[r] = self.havoc(s0.mem[r], locs[i], leaves, (r,))
            return h, leaves
        mod = set()
        while True:
            h, leaves = make(mod)
            bs = once(h)
            ch = {r for b in bs for r, v in b.mem.items() if r in s0.mem and r not in mod and s0.mem[r] is not None and not self.same(v, s0.mem[r])}
            if not ch: break
            mod |= ch

        def at(st, path):
            v = st.mem[path[0]]
            for i in path[1:]: v = v.f[i]
            return v
        fixed = [v for r, v in s0.mem.items() if base < r < base + len(locs) and r not in mod and isinstance(v, T) and not v.isb and not isc(v)]
        fixed = list({v: 1 for v in fixed})
        h.pc = h.pc[:0]; us = used(h, bs)
        cands = self.invs([(p, v) for p, v in leaves if v in us], fixed)                       # [(label, f(values by path))]
        K = []
        def shown(pc, c, vals):
            g = c[1](vals)
            return c[2](pc, vals) if len(c) > 2 else self.proves(pc, g)
        for c in cands:
            if shown(s0.pc, c, {p: at(s0, p) for p, _ in leaves}): K.append(c)
        while True:
            h, leaves = make(mod)
            hv = dict(leaves)
            h.pc += [c[1](hv) for c in K]
            bs = once(h)
            keep = [c for c in K if all(shown(b.pc, c, {p: at(b, p) for p, _ in leaves}) for b in bs)]
            if len(keep) == len(K): break
            K = keep
        # some variable strictly falls (or rises) on every iteration, so the loop ends
        ends = self.ends and (not bs or any(all(self.proves(b.pc, w(at(b, p), v)) for b in bs) for p, v in leaves if not v.isb for w in (lt, gt)))
        self.loopnotes.append((d['name'], [c[0] for c in K], ends))
        h = h.copy(); h.aux['cut'] = h.aux.get('cut', frozenset()) | {key}
        if mk is not None:
            # the same loop entered with the same values ends with the same values; the facts hold where this path's conditions do
            self.loopmemo.setdefault(mk, []).append(([(r - base, h.mem[r]) for r in mod], set(s0.pc), [c[1](hv) for c in K]))
        return h

    def proves(self, pc, goal):
        import smt
        if goal is TRUE: return True
        asserts = list(pc) + [not_(goal)]
        r = smt.check(asserts + amgm(asserts), timeout=10)
        return r.status == 'unsat'

    def popframe(self, s, base, n):
        m = s.mem
        for i in range(base, base + n): m.pop(i, None)

    def switch(self, s, fr, t):
        v = self.oper(s, fr, t['d'])
        ty = t['ty']
        kk = self.kind(ty)
        bs = t['b']; els = t['else']
        if isinstance(v, T) and v.isb:
            m = {int(a): b for a, b in bs}
            out = []
            for q, b in self.fork(s, v):
                out.append((q, m.get(1 if b else 0, els)))
            return out
        if not isinstance(v, T): raise Unsupported(f'switch on {v!r:.60}')
        if kk == 'int' and self.T[self.inner(ty)]['signed']:
            n = self.T[self.inner(ty)]['bits']
            vals = [(int(a) - (1 << n) if int(a) >= 1 << (n - 1) else int(a), b) for a, b in bs]
        else: vals = [(int(a), b) for a, b in bs]
        if isc(v):
            for a, b in vals:
                if a == v.a: return [(s, b)]
            return [(s, els)]
        conds = [eq(v, C(a)) for a, _ in vals]
        conds.append(and_(*[not_(c) for c in conds]))
        tg = [b for _, b in vals] + [els]
        return [(q, tg[i]) for q, i in self.forkn(s, conds)]

    def docall(self, s, fr, t):
        args = [self.oper(s, fr, a) for a in t['a']]
        if t.get('inst'):
            return self.call(s, t['inst'], args, t)
        if t.get('virt'):
            a0 = args[0]
            if not isinstance(a0, Ref) or not isinstance(a0.meta, tuple): raise Unsupported(f'virtual call on {a0!r:.80}')
            ct = a0.meta[1]
            if self.virt_hook is not None:
                r = self.virt_hook(self, s, t['virt'], ct, args, t)
                if r is not NotImplemented:
                    if isinstance(r, list): return r
                    return [(s, 'ret', r)]
            e = self.P.vt.get((t['virt'], ct))
            if e is None: raise Unsupported(f'no vtable entry {t["virt"]} for {self.name(ct)}')
            args[0] = Ref(a0.root, a0.path, None)
            return self.call(s, e['inst'], args, t)
        if t.get('ptr'):
            f = self.oper(s, fr, t['ptr']) if isinstance(t['ptr'], dict) else None
            if isinstance(f, FnV): return self.call(s, f.key, args, t)
        raise Unsupported('call ' + str(t.get('name'))[:100])

    def matters(self, ty, depth=0):
        """does dropping a value of this type have an effect we model?"""
        r = self._matters.get(ty)
        if r is not None: return r
        self._matters[ty] = False
        t = self.T[ty]; k = t['k']; r = False
        if k == 'adt':
            n = t['name']
            if n in ('std::cell::BorrowRef', 'std::cell::BorrowRefMut', 'std::cell::Ref', 'std::cell::RefMut'): r = True
            elif n in ('std::rc::Rc', 'std::rc::Weak', 'std::sync::Arc', 'std::vec::Vec', 'std::string::String', 'std::boxed::Box', 'std::sync::RwLockReadGuard'):
                r = False
                if n == 'std::vec::Vec' or n == 'std::boxed::Box': r = self.matters(t['targs'][0])
            else:
                full = t['full']
                if n not in NODROP and any(x.startswith(('<' + n + '<', '<' + n + ' as ')) for x in self.dropimpls): r = True
                for v in t['v']:
                    for f in v['f']:
                        if self.matters(f): r = True
        elif k in ('tuple', 'closure'):
            r = any(self.matters(f) for f in self.sfields(ty))
        elif k == 'array' or k == 'slice': r = self.matters(t['e'])
        self._matters[ty] = r
        return r

    # ---- merging -----------------------------------------------------------------------------

    def mergeouts(self, outs):
        """join sibling return states that differ only in path condition and scalar values"""
        pan = [o for o in outs if o[1] != 'ret']
        rets = [o for o in outs if o[1] == 'ret']
        groups = []
        for s, k, v in rets:
            for g in groups:
                if self.shape(v) == self.shape(g[0][2]) and len(s.ev) == len(g[0][0].ev):
                    g.append((s, k, v)); break
            else: groups.append([(s, k, v)])
        res = []
        for g in groups:
            cur = g[0]
            for o in g[1:]:
                m = self.merge2(cur, o)
                if m is None: res.append(cur); cur = o
                else: cur = m
            res.append(cur)
        return res + pan

    def shape(self, v):
        if isinstance(v, T): return 'b' if v.isb else 'i'
        if isinstance(v, Agg): return tuple(self.shape(x) for x in v.f)
        if isinstance(v, En): return ('e', v.vi.a if isc(v.vi) else 's', tuple(sorted((k, self.shape(x)) for k, x in v.p.items())))
        if isinstance(v, Ref): return ('r', v.root)
        return None

    def merge2(self, a, b):
        s1, k, v1 = a; s2, _, v2 = b
        i = 0
        while i < min(len(s1.pc), len(s2.pc)) and s1.pc[i] is s2.pc[i]: i += 1
        c1 = and_(*s1.pc[i:]); c2 = and_(*s2.pc[i:])
        try:
            v = merge(c1, v1, v2)
            mem = {}
            for r in s1.mem.keys() | s2.mem.keys():
                x, y = s1.mem.get(r), s2.mem.get(r)
                if x is y: mem[r] = x
                elif r not in s1.mem: mem[r] = y
                elif r not in s2.mem: mem[r] = x
                else: mem[r] = merge(c1, x, y)
        except Unsupported:
            return None
        n = s1.copy()
        n.mem = mem
        n.pc = s1.pc[:i]
        j = or_(c1, c2)
        if j is not TRUE: n.pc.append(j)
        n.steps = max(s1.steps, s2.steps)
        return (n, k, v)
