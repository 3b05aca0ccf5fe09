"""Models of what lies below the code under test: compiler intrinsics, panics, allocation, U256,
logging, spl-token account layouts, program-derived addresses.  f(X, st, args, fn, call) -> value or outcome list."""
import re
from term import *
import ex
from ex import Agg, En, Ref, FnV, UNIT, NONE, some, ok, err, Unsupported, eqv, asint, explode, bytes_of, term_of

M64 = (1 << 64) - 1
M128 = (1 << 128) - 1
M256 = (1 << 256) - 1
EXACT = {}
PATS = []
INTR = {}


def exact(*names):
    def w(f):
        for n in names: EXACT[n] = f
        return f
    return w


def pat(rx):
    def w(f):
        PATS.append((re.compile(rx), f)); return f
    return w


def intr(*names):
    def w(f):
        for n in names: INTR[n] = f
        return f
    return w


_cache = {}


def find(X, name, d):
    if d['kind'] == 'intrinsic':
        f = INTR.get(d.get('intr'))
        return f
    if name in _cache: return _cache[name]
    f = EXACT.get(name)
    if f is None:
        for rx, g in PATS:
            if rx.search(name): f = g; break
    _cache[name] = f
    return f


def panic(st, msg): return [(st, 'panic', msg)]


# ---- panics --------------------------------------------------------------------------------

@pat(r'^(core|std)::panicking::|^std::rt::(begin_panic|panic)|::unwrap_failed|expect_failed|::unwrap_none_failed|slice_index_fail|slice_(start|end)_index|len_mismatch_fail|panic_already|overflow_panic::|panic_const|panic_for_nonpositive|slice_error_fail|panic_bounds_check|begin_panic|std::process::abort|handle_alloc_error|capacity_overflow')
def _panic(X, st, a, d, t): return panic(st, d['name'])


# ---- formatting / logging --------------------------------------------------------------------

@pat(r'^(core|std|alloc)::fmt::|^std::io::_e?print|solana_program::log::sol_log|program_stubs::sol_log|::log::sol_log|<.* as (std|core)::fmt::(Debug|Display|Write)>::')
def _fmt(X, st, a, d, t):
    if d['name'].endswith('fmt::format') or 'fmt::format::' in d['name'] or d['name'].endswith('format_inner'):
        return mkvec(X, st, X.P.types.index(X.P.types[t['dt']]) if t else None, ())
    if d['name'].endswith('::fmt') or 'write_' in d['name']: return ok(UNIT)
    return UNIT


def mkvec(X, st, ty, elems):
    """a Vec / String value of type ty holding elems"""
    root = ('h', X.newroot())
    st.mem[root] = Agg(tuple(elems))
    return buildvec(X, ty, Ref(root, (('i', C(0)),)), C(len(elems)))


def buildvec(X, ty, ptr, ln):
    ty = ty
    t = X.T[ty]
    if t['k'] == 'adt' and t['name'] == 'std::string::String':
        return buildvec(X, t['v'][0]['f'][0], ptr, ln)
    if t['k'] != 'adt' or t['name'] != 'std::vec::Vec': raise Unsupported('vec type ' + X.name(ty))
    fs = t['v'][0]['f']; fn = t['v'][0]['fn']
    out = []
    for f, n in zip(fs, fn):
        if n == 'buf': out.append(rawvec(X, f, ptr))
        elif n == 'len': out.append(ln)
        else: out.append(X.zst(f))
    return X.mk(ty, out)


def rawvec(X, ty, ptr):
    t = X.T[ty]
    out = []
    for f, n in zip(t['v'][0]['f'], t['v'][0]['fn']):
        if n == 'inner': out.append(rawvec(X, f, ptr))
        elif n == 'ptr': out.append(ptr)
        elif n == 'cap': out.append(C(1 << 40))
        else: out.append(X.zst(f))
    return X.mk(ty, out)


def heap(X, st, v=None):
    root = ('h', X.newroot()); st.mem[root] = v
    return root


@pat(r'^alloc::raw_vec::RawVec(Inner)?(::<.*>)?::(with_capacity|with_capacity_in|with_capacity_zeroed_in|new_in|try_allocate_in)$')
def _rv_new(X, st, a, d, t):
    ty = t['dt']
    root = heap(X, st, Agg(()))
    if X.T[ty]['k'] == 'adt' and X.T[ty]['name'] == 'std::result::Result':
        return ok(rawvec(X, X.T[ty]['v'][0]['f'][0], Ref(root, (('i', C(0)),))))
    return rawvec(X, ty, Ref(root, (('i', C(0)),)))


@pat(r'^alloc::raw_vec::RawVec(Inner)?(::<.*>)?::(grow_one|grow_amortized|reserve|try_reserve|reserve_exact|grow_exact)(::do_reserve_and_handle)?(::<.*>)?$')
def _rv_grow(X, st, a, d, t):
    self_ = a[0]
    ty = X.pointee(t['at'][0]) if t and t.get('at') else None
    v = X.load(st, self_)
    # find the pointer leaf; replace a dangling one by fresh memory
    def fix(v):
        if isinstance(v, Ref):
            if v.root in ('dangling', 'int'):
                return Ref(heap(X, st, Agg(())), (('i', C(0)),))
            return v
        if isinstance(v, Agg): return Agg(tuple(fix(x) for x in v.f))
        if isinstance(v, T): return C(1 << 40)
        return v
    X.store(st, self_, fix(v))
    if t and X.kind(t['dt']) == 'adt' and X.size(t['dt']) != 0: return ok(UNIT)
    return UNIT


@pat(r'^alloc::raw_vec::.*::deallocate|^alloc::alloc::__rust_dealloc|as std::alloc::Allocator>::deallocate|^std::alloc::dealloc|<alloc::raw_vec::RawVec.* as std::ops::Drop>::drop|<std::vec::Vec<.*> as std::ops::Drop>::drop|<std::boxed::Box<.*> as std::ops::Drop>::drop|<std::rc::(Rc|Weak)<.*> as std::ops::Drop>::drop|<std::vec::IntoIter<.*> as std::ops::Drop>::drop')
def _nodrop(X, st, a, d, t):
    return UNIT


@pat(r'std::alloc::Global::alloc_impl|<std::alloc::Global as std::alloc::Allocator>::allocate')
def _alloc(X, st, a, d, t):
    root = heap(X, st)
    return ok(Ref(root, (('i', C(0)),), C(1 << 40)))


@pat(r'^std::boxed::Box::<.*>::new$|^std::rc::Rc::<.*>::new$')
def _box_new(X, st, a, d, t):
    if d['name'].startswith('std::rc::Rc'):
        # RcInner {strong, weak, value}
        return Ref(heap(X, st, Agg((C(1), C(1), a[0]))), ())
    return Ref(heap(X, st, a[0]), ())


@pat(r'^std::boxed::box_new_uninit|^std::boxed::Box::<.*>::new_uninit|exchange_malloc')
def _box_uninit(X, st, a, d, t):
    return Ref(heap(X, st), ())


@pat(r'^<std::rc::Rc<.*> as std::clone::Clone>::clone$')
def _rc_clone(X, st, a, d, t): return X.load(st, a[0])


# ---- intrinsics ------------------------------------------------------------------------------

def _t0(X, d): return d['targs'][0]


@intr('size_of_val', 'align_of_val', 'min_align_of_val')
def _sov(X, st, a, d, t):
    ty = _t0(X, d); k = X.T[ty]['k']
    if d['intr'] == 'size_of_val':
        s = X.T[ty]['size']
        if s >= 0: return C(s)
        if k == 'slice': return mulc(X.T[X.T[ty]['e']]['size'], a[0].meta)
        if k == 'dyn' and isinstance(a[0].meta, tuple): return C(X.T[a[0].meta[1]]['size'])
        raise Unsupported('size_of_val')
    if k == 'dyn' and isinstance(a[0].meta, tuple): return C(X.T[a[0].meta[1]]['align'])
    return C(X.T[ty]['align'])


@intr('size_of')
def _so(X, st, a, d, t): return C(X.T[_t0(X, d)]['size'])


@intr('cold_path', 'assert_inhabited', 'assert_zero_valid', 'assert_mem_uninitialized_valid', 'assume', 'forget', 'atomic_fence')
def _nop(X, st, a, d, t): return UNIT


@intr('black_box', 'likely', 'unlikely', 'read_via_copy_', 'select_unpredictable_')
def _id(X, st, a, d, t): return a[0]


@intr('is_val_statically_known')
def _ivsk(X, st, a, d, t): return FALSE


@intr('abort', 'abort_immediate', 'unreachable')
def _abort(X, st, a, d, t): return panic(st, 'abort')


@intr('raw_eq')
def _raw_eq(X, st, a, d, t): return eqv(X.load(st, a[0]), X.load(st, a[1]))


@intr('compare_bytes')
def _cmpb(X, st, a, d, t):
    n = a[2]
    if not isc(n): raise Unsupported('symbolic memcmp length')
    if n.a == 0: return C(0)
    x = Agg(tuple(asint(X.load(st, X.offset(a[0], C(i)))) for i in range(n.a)))
    y = Agg(tuple(asint(X.load(st, X.offset(a[1], C(i)))) for i in range(n.a)))
    tx, ty = term_of(x), term_of(y)
    # ordering: big-endian comparison
    bx = cat([(v, 1) for v in reversed(x.f)]); by = cat([(v, 1) for v in reversed(y.f)])
    e = eq(tx, ty)
    if e is TRUE: return C(0)
    if isc(bx) and isc(by): return C(-1 if bx.a < by.a else 1)
    return ite(e, C(0), ite(lt(bx, by), C(-1), C(1)))


@pat(r'^<([iu](8|16|32|64|128|size)|bool) as std::vec::spec_from_elem::SpecFromElem>::from_elem')
def _fromelem(X, st, a, d, t):
    if not isc(a[1]) or a[1].a > 4096: raise Unsupported('vector of symbolic length')
    return mkvec(X, st, t['dt'], (a[0],) * a[1].a)


@pat(r'^<([iu](16|32|64|128|size)|bool) as core::slice::cmp::SlicePartialEq<\1>>::equal_same_length$')
def _eqints(X, st, a, d, t):
    if not isc(a[2]): raise Unsupported('comparison of slices of symbolic length')
    r = TRUE
    for i in range(a[2].a): r = and_(r, eqv(X.load(st, X.offset(a[0], C(i))), X.load(st, X.offset(a[1], C(i)))))
    return r


@intr('ptr_offset_from_unsigned', 'ptr_offset_from')
def _pofu(X, st, a, d, t):
    p, q = a
    if p.root != q.root: raise Unsupported('offset_from of unrelated pointers')
    def norm(r):
        if r.path and type(r.path[-1]) is tuple and r.path[-1][0] == 'i': return r.path[:-1], r.path[-1][1]
        return r.path, None
    (pp, i), (qq, j) = norm(p), norm(q)
    if pp != qq:
        if p.path == q.path: return C(0)
        raise Unsupported('offset_from')
    return sub(i if i is not None else C(0), j if j is not None else C(0))


@intr('arith_offset', 'offset')
def _aoff(X, st, a, d, t): return X.offset(a[0], a[1])


@intr('exact_div')
def _ediv(X, st, a, d, t): return div(a[0], a[1])


@intr('integer_max')
def _imax(X, st, a, d, t): return max_(a[0], a[1])


@intr('integer_min')
def _imin(X, st, a, d, t): return min_(a[0], a[1])


@intr('saturating_add', 'saturating_sub')
def _sat(X, st, a, d, t):
    lo, hi = X.rng(_t0(X, d))
    v = add(a[0], a[1]) if d['intr'] == 'saturating_add' else sub(a[0], a[1])
    return ite(gt(v, C(hi)), C(hi), ite(lt(v, C(lo)), C(lo), v))


@intr('add_with_overflow', 'sub_with_overflow', 'mul_with_overflow')
def _awo(X, st, a, d, t):
    v, o = X.checked(d['intr'][:3].capitalize(), a[0], a[1], _t0(X, d))
    return Agg((v, o))


@intr('wrapping_add', 'wrapping_sub', 'wrapping_mul', 'unchecked_add', 'unchecked_sub', 'unchecked_mul')
def _wr(X, st, a, d, t):
    op = d['intr'].split('_')[1].capitalize()
    return X.wrapto(X.arith(op, a[0], a[1], _t0(X, d)), _t0(X, d))


@intr('unchecked_div')
def _udiv(X, st, a, d, t): return X.binop(st, 'Div', a[0], a[1], _t0(X, d))


@intr('unchecked_rem')
def _urem(X, st, a, d, t): return X.binop(st, 'Rem', a[0], a[1], _t0(X, d))


def bitlen_fork(X, st, x, maxbits):
    """fork on the bit length of x -> [(state, n)]"""
    if isc(x): return [(st, x.a.bit_length())]
    lo = max(x.lo or 0, 0).bit_length(); hi = min(maxbits, (x.hi if x.hi is not None else (1 << maxbits) - 1).bit_length())
    conds = []; ns = []
    for n in range(lo, hi + 1):
        c = eq(x, C(0)) if n == 0 else and_(ge(x, C(1 << (n - 1))), le(x, C((1 << n) - 1)))
        conds.append(c); ns.append(n)
    return [(s, ns[i]) for s, i in X.forkn(st, conds)]


def bitlen(X, st, x, bits):
    """[(state, bit length term)]: split by length the first time on a path, kept as a chain of comparisons for further values"""
    if isc(x) or st.aux.get('bitlen', x) is x or (x.hi if x.hi is not None else 1 << bits).bit_length() - max(x.lo or 0, 0).bit_length() <= 8:
        out = bitlen_fork(X, st, x, bits)
        if len(out) > 8:
            for s, n in out: s.aux['bitlen'] = x
        return [(s, C(n)) for s, n in out]
    r = C(max(x.lo or 0, 0).bit_length())
    for n in range(r.a + 1, min(bits, (x.hi if x.hi is not None else (1 << bits) - 1).bit_length()) + 1): r = ite(ge(x, C(1 << (n - 1))), C(n), r)
    return [(st, r)]


@intr('ctlz', 'ctlz_nonzero')
def _ctlz(X, st, a, d, t):
    bits = X.T[X.inner(_t0(X, d))]['bits']
    return [(s, 'ret', sub(C(bits), n)) for s, n in bitlen(X, st, asint(a[0]), bits)]


@intr('cttz', 'cttz_nonzero')
def _cttz(X, st, a, d, t):
    x = asint(a[0])
    bits = X.T[X.inner(_t0(X, d))]['bits']
    if isc(x): return C(bits if x.a == 0 else (x.a & -x.a).bit_length() - 1)
    if x.lo is None or x.lo < 0: x = mod(x, C(1 << bits))
    r = C(bits); top = bits if x.hi is None else min(bits, x.hi.bit_length())
    for i in range(top - 1, -1, -1): r = ite(eq(mod(div(x, C(1 << i)), C(2)), C(1)), C(i), r)
    return r


@intr('select_unpredictable')
def _selu(X, st, a, d, t):
    c = a[0]
    if c is TRUE: return a[1]
    if c is FALSE: return a[2]
    return [(s, 'ret', a[1] if b else a[2]) for s, b in X.fork(st, c)]


@pat(r'^core::str::traits::<impl std::cmp::PartialEq for str>::(eq|ne)$')
def _streq(X, st, a, d, t):
    x, y = a
    if not isc(x.meta) or not isc(y.meta): raise Unsupported('strings of symbolic length')
    r = B(x.meta.a == y.meta.a)
    if r is TRUE:
        for i in range(x.meta.a): r = and_(r, eq(asint(X.load(st, X.offset(x, C(i)))), asint(X.load(st, X.offset(y, C(i))))))
    return r if d['name'].endswith('eq') else not_(r)


@intr('typed_swap_nonoverlapping')
def _tswap(X, st, a, d, t):
    x, y = X.load(st, a[0]), X.load(st, a[1])
    X.store(st, a[0], y); X.store(st, a[1], x); return UNIT


@intr('ctpop')
def _ctpop(X, st, a, d, t):
    x = asint(a[0])
    if isc(x): return C(bin(x.a).count('1'))
    # fork on power-of-two only is not enough: use the bits
    bits = min(X.T[X.inner(_t0(X, d))]['bits'], (x.hi if x.hi is not None else (1 << 128)).bit_length())
    if bits > 64: raise Unsupported('ctpop of a wide symbolic value')
    r = C(0)
    for i in range(bits): r = add(r, mod(div(x, C(1 << i)), C(2)))
    return r


@intr('atomic_load', 'volatile_load', 'read_via_copy', 'unaligned_volatile_load')
def _aload(X, st, a, d, t): return X.load(st, a[0])


@intr('write_via_move', 'volatile_store', 'atomic_store')
def _wvm(X, st, a, d, t):
    X.store(st, a[0], a[1]); return UNIT


@intr('copy_nonoverlapping', 'copy')
def _cno(X, st, a, d, t):
    X.copyn(st, a[0], a[1], a[2]); return UNIT


@intr('write_bytes')
def _wb(X, st, a, d, t):
    p, v, n = a
    if not isc(n) or not isc(v): raise Unsupported('write_bytes')
    ty = _t0(X, d)
    for i in range(n.a): X.store(st, X.offset(p, C(i)), fill(X, ty, v.a))
    return UNIT


def fill(X, ty, b):
    i = X.inner(ty); t = X.T[i]
    if t['k'] == 'int': return C(int.from_bytes(bytes([b]) * X.size(i), 'little'))
    if t['k'] == 'bool': return B(b)
    if t['k'] == 'array': return Agg((fill(X, t['e'], b),) * t['n'])
    raise Unsupported('write_bytes of ' + X.name(ty))


@intr('discriminant_value')
def _dv(X, st, a, d, t):
    return X.discr(X.load(st, a[0]), _t0(X, d))


@intr('three_way_compare')
def _twc(X, st, a, d, t): return X.binop(st, 'Cmp', a[0], a[1], _t0(X, d))


@intr('transmute', 'transmute_unchecked')
def _tm(X, st, a, d, t): return X.transmute(a[0], d['targs'][0], d['targs'][1])


@intr('rotate_left', 'rotate_right')
def _rot(X, st, a, d, t):
    ty = _t0(X, d); n = X.T[X.inner(ty)]['bits']
    if not isc(a[1]): raise Unsupported('rotate')
    k = a[1].a % n
    if d['intr'] == 'rotate_right': k = (n - k) % n
    if k == 0: return a[0]
    hi = div(a[0], C(1 << (n - k)))
    return add(mulc(1 << k, mod(a[0], C(1 << (n - k)))), hi)


@intr('bswap')
def _bswap(X, st, a, d, t):
    n = X.size(_t0(X, d))
    return cat([(ext(a[0], n - 1 - i, 1), 1) for i in range(n)])


@intr('needs_drop', 'ptr_guaranteed_cmp')
def _false(X, st, a, d, t): return FALSE


@intr('min_', 'max_')
def _mm(X, st, a, d, t): return None


# core helpers that only assert
@pat(r'::precondition_check$|^std::hint::assert_unchecked|^core::ub_checks::')
def _pre(X, st, a, d, t): return UNIT


@pat(r'^std::hint::unreachable_unchecked')
def _unr(X, st, a, d, t):
    if X.feasible(st): raise Unsupported('unreachable_unchecked reached')
    return []


@pat(r'^std::ptr::const_ptr::<impl \*const \(\)>::is_aligned_to$')
def _al(X, st, a, d, t): return TRUE


# ---- U256 ------------------------------------------------------------------------------------

RX_U = re.compile(r'U256')


@pat(r'^spl_math::uint::U256::|^<spl_math::uint::U256 as |^spl_math::uint::<impl .*U256|^<(u8|u16|u32|u64|u128|usize|i32|i64|spl_math::uint::U256) as std::convert::Into<spl_math::uint::U256>>')
def _u256(X, st, a, d, t):
    n = d['name']
    m = re.sub(r'::<.*?>$', '', n).rsplit('::', 1)[1]
    f = U.get(m)
    if f is None or 'CheckedCeilDiv' in n or '{closure' in n or 'fmt::' in n: return NotImplemented
    return f(X, st, a, d, t)


U = {}


def u(*ns):
    def w(f):
        for n in ns: U[n] = f
        return f
    return w


def deref(X, st, v):
    while isinstance(v, Ref): v = X.load(st, v)
    return v


def two(X, st, a): return asint(deref(X, st, a[0])), asint(deref(X, st, a[1]))


@u('from', 'into')
def _u_from(X, st, a, d, t):
    n = d['name']
    if isinstance(a[0], Agg) and len(a[0].f) == 4: return asint(a[0])
    if not isinstance(a[0], T): return NotImplemented
    v = a[0]
    if v.isb: return NotImplemented
    if v.lo is not None and v.lo < 0:
        return [(s, 'ret', v) if b else (s, 'panic', 'U256 from negative') for s, b in X.fork(st, ge(v, C(0)))]
    return v


@u('try_from')
def _u_try_from(X, st, a, d, t):
    mm = re.search(r'TryFrom<spl_math::uint::U256> for (\w+)>', d['name'])
    if not mm: return NotImplemented
    bits = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'u128': 128, 'usize': 64}[mm.group(1)]
    v = asint(a[0])
    out = []
    for s, b in X.fork(st, le(v, C((1 << bits) - 1))):
        if b: out.append((s, 'ret', ok(v)))
        else:
            out.append((s, 'ret', En(C(1), {1: Agg((None,))})))
    return out


@u('as_u32', 'as_u64', 'as_u128', 'as_usize')
def _u_as(X, st, a, d, t):
    bits = {'as_u32': 32, 'as_u64': 64, 'as_u128': 128, 'as_usize': 64}[d['name'].rsplit('::', 1)[1]]
    v = asint(deref(X, st, a[0]))
    return [(s, 'ret', v) if b else (s, 'panic', 'U256 integer overflow when casting') for s, b in X.fork(st, le(v, C((1 << bits) - 1)))]


@u('low_u32', 'low_u64', 'low_u128')
def _u_low(X, st, a, d, t):
    n = {'low_u32': 4, 'low_u64': 8, 'low_u128': 16}[d['name'].rsplit('::', 1)[1]]
    return ext(asint(deref(X, st, a[0])), 0, n)


@u('is_zero')
def _u_isz(X, st, a, d, t): return eq(asint(deref(X, st, a[0])), C(0))


@u('zero', 'default')
def _u_zero(X, st, a, d, t): return C(0)


@u('one')
def _u_one(X, st, a, d, t): return C(1)


@u('max_value')
def _u_max(X, st, a, d, t): return C(M256)


@u('bits')
def _u_bits(X, st, a, d, t):
    x = asint(deref(X, st, a[0]))
    return [(s, 'ret', n) for s, n in bitlen(X, st, x, 256)]


@u('leading_zeros')
def _u_lz(X, st, a, d, t):
    x = asint(deref(X, st, a[0]))
    return [(s, 'ret', sub(C(256), n)) for s, n in bitlen(X, st, x, 256)]


@u('div_mod')
def _u_dm(X, st, a, d, t):
    x, y = two(X, st, a)
    return [(s, 'panic', 'division by zero') if z else (s, 'ret', Agg((div(x, y), mod(x, y)))) for s, z in X.fork(st, eq(y, C(0)))]


@u('checked_pow')
def _u_cpow(X, st, a, d, t):
    x, y = two(X, st, a)
    if not isc(y) or y.a > 16: return NotImplemented
    r = C(1)
    for _ in range(y.a): r = mul(r, x)
    return _fit(X, st, r, True)


@u('clone')
def _u_clone(X, st, a, d, t): return X.load(st, a[0])


def _fit(X, st, v, nonneg=False):
    """fork on 0 <= v < 2^256 -> Option; nonneg: sum or product of two 256-bit numbers"""
    return [(s, 'ret', some(v) if b else NONE) for s, b in X.fork(st, le(v, C(M256)) if nonneg else and_(ge(v, C(0)), le(v, C(M256))))]


def _fitp(X, st, v, msg):
    return [(s, 'ret', v) if b else (s, 'panic', msg) for s, b in X.fork(st, and_(ge(v, C(0)), le(v, C(M256))))]


@u('checked_add')
def _u_cadd(X, st, a, d, t):
    x, y = two(X, st, a); return _fit(X, st, add(x, y), True)


@u('checked_sub')
def _u_csub(X, st, a, d, t):
    x, y = two(X, st, a); return _fit(X, st, sub(x, y))


@u('checked_mul')
def _u_cmul(X, st, a, d, t):
    x, y = two(X, st, a); return _fit(X, st, mul(x, y), True)


@u('checked_div')
def _u_cdiv(X, st, a, d, t):
    x, y = two(X, st, a)
    return [(s, 'ret', NONE if z else some(div(x, y))) for s, z in X.fork(st, eq(y, C(0)))]


@u('checked_rem')
def _u_crem(X, st, a, d, t):
    x, y = two(X, st, a)
    return [(s, 'ret', NONE if z else some(mod(x, y))) for s, z in X.fork(st, eq(y, C(0)))]


@u('overflowing_add', 'overflowing_sub', 'overflowing_mul')
def _u_ov(X, st, a, d, t):
    x, y = two(X, st, a)
    m = d['name'].rsplit('::', 1)[1]
    v = {'a': add, 's': sub, 'm': mul}[m[12]](x, y)
    out = []
    for s, b in X.fork(st, and_(ge(v, C(0)), le(v, C(M256)))):
        if b: out.append((s, 'ret', Agg((v, FALSE))))
        else: out.append((s, 'ret', Agg((ext(add(v, C(1 << 256)) if m[12] == 's' else v, 0, 32), TRUE))))
    return out


@u('saturating_add', 'saturating_sub', 'saturating_mul')
def _u_sat(X, st, a, d, t):
    x, y = two(X, st, a)
    m = d['name'].rsplit('::', 1)[1][11]
    v = {'a': add, 's': sub, 'm': mul}[m](x, y)
    return ite(lt(v, C(0)), C(0), ite(gt(v, C(M256)), C(M256), v))


@u('add', 'sub', 'mul')
def _u_op(X, st, a, d, t):
    if 'as std::ops::' not in d['name']: return NotImplemented
    x, y = two(X, st, a)
    m = re.sub(r'::<.*?>$', '', d['name']).rsplit('::', 1)[1]
    return _fitp(X, st, {'a': add, 's': sub, 'm': mul}[m[0]](x, y), 'U256 arithmetic operation overflow')


@u('add_assign', 'sub_assign', 'mul_assign')
def _u_opa(X, st, a, d, t):
    if not isinstance(a[1], (T, Agg, Ref)): return NotImplemented
    x, y = two(X, st, a)
    m = d['name'].rsplit('::', 1)[1]
    out = []
    v = {'a': add, 's': sub, 'm': mul}[m[0]](x, y)
    for s, b in X.fork(st, and_(ge(v, C(0)), le(v, C(M256)))):
        if b:
            X.store(s, a[0], v); out.append((s, 'ret', UNIT))
        else: out.append((s, 'panic', 'U256 arithmetic operation overflow'))
    return out


@u('div', 'rem')
def _u_div(X, st, a, d, t):
    x, y = two(X, st, a)
    f = div if d['name'].endswith('div') else mod
    return [(s, 'panic', 'U256 division by zero') if z else (s, 'ret', f(x, y)) for s, z in X.fork(st, eq(y, C(0)))]


@u('div_assign', 'rem_assign')
def _u_diva(X, st, a, d, t):
    x, y = two(X, st, a)
    f = div if 'div' in d['name'].rsplit('::', 1)[1] else mod
    out = []
    for s, z in X.fork(st, eq(y, C(0))):
        if z: out.append((s, 'panic', 'U256 division by zero'))
        else:
            X.store(s, a[0], f(x, y)); out.append((s, 'ret', UNIT))
    return out


def _shift(X, st, x, k, left):
    if isc(k):
        if k.a >= 256: return C(0)
        if left:
            v = mulc(1 << k.a, x)
            return v if v.hi is not None and v.hi <= M256 else _lowbits(x, k.a)
        return div(x, C(1 << k.a))
    lo = max(0, k.lo or 0); hi = min(256, k.hi if k.hi is not None else 256)
    if hi - lo > 80: raise Unsupported('symbolic U256 shift')
    r = _shift(X, st, x, C(hi), left)
    for i in range(hi - 1, lo - 1, -1): r = ite(eq(k, C(i)), _shift(X, st, x, C(i), left), r)
    return r


def _lowbits(x, k):
    # (x << k) mod 2^256 = (x mod 2^(256-k)) << k
    m = 256 - k
    if m % 8 == 0: return mulc(1 << k, ext(x, 0, m // 8))
    return mulc(1 << k, sub(x, mulc(1 << m, div(x, C(1 << m)))))


@u('shl')
def _u_shl(X, st, a, d, t):
    x, y = two(X, st, a); return _shift(X, st, x, y, True)


@u('shr')
def _u_shr(X, st, a, d, t):
    x, y = two(X, st, a); return _shift(X, st, x, y, False)


@u('shl_assign', 'shr_assign')
def _u_sha(X, st, a, d, t):
    x, y = two(X, st, a)
    X.store(st, a[0], _shift(X, st, x, y, 'shl' in d['name'].rsplit('::', 1)[1]))
    return UNIT


@u('eq', 'ne', 'lt', 'le', 'gt', 'ge')
def _u_cmp(X, st, a, d, t):
    x, y = two(X, st, a)
    return {'eq': eq, 'ne': ne, 'lt': lt, 'le': le, 'gt': gt, 'ge': ge}[d['name'].rsplit('::', 1)[1]](x, y)


@u('cmp')
def _u_ord(X, st, a, d, t):
    x, y = two(X, st, a)
    return En(ite(lt(x, y), C(0), ite(eq(x, y), C(1), C(2))), {0: UNIT, 1: UNIT, 2: UNIT})


@u('partial_cmp')
def _u_pord(X, st, a, d, t): return some(_u_ord(X, st, a, d, t))


@u('max', 'min')
def _u_mm(X, st, a, d, t):
    x, y = two(X, st, a)
    return max_(x, y) if d['name'].endswith('max') else min_(x, y)


# ---- Pubkeys ---------------------------------------------------------------------------------

B58 = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'


def b58decode(s):
    n = 0
    for c in s: n = n * 58 + B58.index(c)
    b = n.to_bytes((n.bit_length() + 7) // 8, 'big')
    return b'\0' * (len(s) - len(s.lstrip('1'))) + b


def b58uf(bs):
    """uninterpreted decoding of a symbolic address string: (is an address, the address)"""
    n = '_%d' % len(bs)
    return ufb('b58ok' + n, *bs), uf('b58key' + n, 0, M256, *bs)


def b58encode(b):
    n = int.from_bytes(b, 'big'); s = ''
    while n: n, r = divmod(n, 58); s = B58[r] + s
    return '1' * (len(b) - len(b.lstrip(b'\0'))) + s


def strval(X, st, r):
    if not isc(r.meta): raise Unsupported('symbolic string')
    bs = [X.load(st, X.offset(r, C(i))) for i in range(r.meta.a)]
    if not all(isc(b) for b in bs): raise Unsupported('symbolic string')
    return bytes(b.a for b in bs).decode()


@pat(r'<impl str>::parse::<anchor_lang::prelude::Pubkey>|<anchor_lang::prelude::Pubkey as std::str::FromStr>::from_str|<solana_program::pubkey::Pubkey as std::str::FromStr>::from_str')
def _parsepk(X, st, a, d, t):
    r = a[0]
    if isc(r.meta):
        bs = [X.load(st, X.offset(r, C(i))) for i in range(r.meta.a)]
        if not all(isc(b) for b in bs):
            okc, k = b58uf(bs)
            return [(q, 'ret', ok(bytes_of(k, 32)) if b else En(C(1), {1: Agg((En(C(0), {0: UNIT}),))})) for q, b in X.fork(st, okc)]
    s = strval(X, st, a[0])
    try: b = b58decode(s)
    except ValueError: b = b''
    if len(b) != 32: return En(C(1), {1: Agg((En(C(0), {0: UNIT}),))})
    return ok(Agg(tuple(C(x) for x in b)))


@pat(r'<impl str>::len$')
def _strlen(X, st, a, d, t): return a[0].meta


@pat(r'<impl std::convert::AsRef<\[u8\]> for str>::as_ref$|<impl str>::as_bytes$')
def _strbytes(X, st, a, d, t): return a[0]


def seedkey(X, st, r):
    """flatten a &[&[u8]] into a tuple of (term, nbytes)"""
    if not isc(r.meta): raise Unsupported('symbolic seed count')
    out = []
    for i in range(r.meta.a):
        s = X.load(st, X.offset(r, C(i)))
        if isinstance(s.meta, T) and isc(s.meta): n = s.meta.a
        else: raise Unsupported('seed length')
        out.append((cat([(asint(X.load(st, X.offset(s, C(j)))), 1) for j in range(n)]) if n else C(0), n))
    return out


def pda(seeds, prog):
    """uninterpreted program-derived address of the seeds (and whether the seeds are usable)"""
    tag = '_'.join(str(n) for _, n in seeds)
    args = [t for t, _ in seeds] + [prog]
    return uf('pda_' + tag, 0, M256, *args), ufb('pdaok_' + tag, *args)


def fpabump(seeds, prog):
    tag = '_'.join(str(n) for _, n in seeds)
    return uf('fpabump_' + tag, 0, 255, *([t for t, _ in seeds] + [prog]))


@pat(r'Pubkey::create_program_address$')
def _cpa(X, st, a, d, t):
    seeds = seedkey(X, st, a[0])
    prog = term_of(X.load(st, a[1]))
    k, okc = pda(seeds, prog)
    out = []
    for s, b in X.fork(st, okc):
        if b: out.append((s, 'ret', ok(bytes_of(k, 32))))
        else:
            out.append((s, 'ret', En(C(1), {1: Agg((En(C(1), {1: UNIT}),))})))   # PubkeyError::InvalidSeeds
    return out


@pat(r'Pubkey::find_program_address$')
def _fpa(X, st, a, d, t):
    seeds = seedkey(X, st, a[0])
    prog = term_of(X.load(st, a[1]))
    bump = fpabump(seeds, prog)
    k, okc = pda(seeds + [(bump, 1)], prog)
    st.pc.append(okc)
    return Agg((bytes_of(k, 32), bump))


# ---- spl-token account layouts ------------------------------------------------------------------

def slicebytes(X, st, r):
    if not isc(r.meta): raise Unsupported('symbolic data length')
    n = r.meta.a
    b = X.load(st, Ref(r.root, r.path[:-1] + (('w', r.path[-1][1], n),)))
    return [asint(x) for x in b.f]


def coption(tag, v):
    return En(ite(eq(tag, C(0)), C(0), C(1)), {0: UNIT, 1: Agg((v,))})


def pkb(bs): return Agg(tuple(bs))


def spl_account(X, ty, b):
    """-> (value, well-formed condition, initialized condition)"""
    t = X.T[ty]
    tag1 = cat([(x, 1) for x in b[72:76]]); tag2 = cat([(x, 1) for x in b[109:113]]); tag3 = cat([(x, 1) for x in b[129:133]])
    st_ = b[108]
    vals = {'mint': pkb(b[0:32]), 'owner': pkb(b[32:64]), 'amount': cat([(x, 1) for x in b[64:72]]),
            'delegate': coption(tag1, pkb(b[76:108])),
            'state': En(ite(eq(st_, C(0)), C(0), ite(eq(st_, C(1)), C(1), C(2))), {0: UNIT, 1: UNIT, 2: UNIT}),
            'is_native': coption(tag2, cat([(x, 1) for x in b[113:121]])),
            'delegated_amount': cat([(x, 1) for x in b[121:129]]),
            'close_authority': coption(tag3, pkb(b[133:165]))}
    v = X.mk(ty, [vals[n] for n in t['v'][0]['fn']])
    wf = and_(le(tag1, C(1)), le(tag2, C(1)), le(tag3, C(1)), le(st_, C(2)))
    return v, wf, ne(st_, C(0))


def spl_mint(X, ty, b):
    t = X.T[ty]
    tag1 = cat([(x, 1) for x in b[0:4]]); tag2 = cat([(x, 1) for x in b[46:50]])
    vals = {'mint_authority': coption(tag1, pkb(b[4:36])), 'supply': cat([(x, 1) for x in b[36:44]]),
            'decimals': b[44], 'is_initialized': eq(b[45], C(1)), 'freeze_authority': coption(tag2, pkb(b[50:82]))}
    v = X.mk(ty, [vals[n] for n in t['v'][0]['fn']])
    return v, and_(le(tag1, C(1)), le(tag2, C(1)), le(b[45], C(1))), eq(b[45], C(1))


def perr(X, st, name):
    ty = [i for i, t in enumerate(X.T) if t.get('full') == 'anchor_lang::prelude::ProgramError' or t.get('name') == 'solana_program::program_error::ProgramError'][0]
    i = [v['n'] for v in X.T[ty]['v']].index(name)
    return err(En(C(i), {i: UNIT}))


@pat(r'^<spl_token::state::(Account|Mint) as solana_program::program_pack::Pack>::(unpack|unpack_unchecked|unpack_from_slice)$')
def _splunpack(X, st, a, d, t):
    m = re.search(r'state::(Account|Mint) .*::(\w+)$', d['name'])
    what, fn = m.group(1), m.group(2)
    ty = X.tyfind('spl_token::state::' + what)
    need = 165 if what == 'Account' else 82
    if fn != 'unpack_from_slice' and (not isc(a[0].meta) or a[0].meta.a != need):
        return perr(X, st, 'InvalidAccountData')
    b = slicebytes(X, st, a[0])
    v, wf, ini = (spl_account if what == 'Account' else spl_mint)(X, ty, b)
    out = []
    for s, g in X.fork(st, wf):
        if not g: out.append((s, 'ret', perr(X, s, 'InvalidAccountData'))); continue
        if fn != 'unpack': out.append((s, 'ret', ok(v))); continue
        for s2, i in X.fork(s, ini):
            out.append((s2, 'ret', ok(v) if i else perr(X, s2, 'UninitializedAccount')))
    return out


# ---- cross-program invocation --------------------------------------------------------------------

@pat(r'^solana_program::program::invoke(_signed)?(_unchecked)?$')
def _cpi(X, st, a, d, t):
    if X.cpi is None: raise Unsupported('cross-program invocation')
    return X.cpi(X, st, a, d, t)


# ---- primitive integer methods (forking so that in-range results stay exact) ---------------------

RXN = re.compile(r'^core::num::<impl (u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize)>::(checked|overflowing|saturating)_(add|sub|mul)$')
BITS = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'u128': 128, 'usize': 64, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'i128': 128, 'isize': 64}


@pat(RXN.pattern)
def _num(X, st, a, d, t):
    m = RXN.match(d['name'])
    ty, md, op = m.groups()
    n = BITS[ty]
    lo, hi = (0, (1 << n) - 1) if ty[0] == 'u' else (-(1 << (n - 1)), (1 << (n - 1)) - 1)
    v = {'add': add, 'sub': sub, 'mul': mul}[op](a[0], a[1])
    if md == 'saturating':
        return ite(gt(v, C(hi)), C(hi), ite(lt(v, C(lo)), C(lo), v))
    out = []
    for s, b in X.fork(st, and_(ge(v, C(lo)), le(v, C(hi)))):
        if md == 'checked': out.append((s, 'ret', some(v) if b else NONE))
        elif b: out.append((s, 'ret', Agg((v, FALSE))))
        else:
            ti = [i for i, q in enumerate(X.T) if q['k'] == 'int' and q['bits'] == n and q['signed'] == (ty[0] == 'i')][0]
            out.append((s, 'ret', Agg((X.wrapto(v, ti), TRUE))))
    return out


@pat(r'io::error::<impl std::io::Error>::new::|^std::io::Error::new::|^std::io::Error::other')
def _ioerr(X, st, a, d, t): return C(1)         # opaque; only ever replaced by a program error
