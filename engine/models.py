"""models of compiler intrinsics, allocation and panics"""
import re
from run import *
import poly as PL


def m_alloc(E, st, args, call):
    k = st.alloc()
    return Agg(0, (Ptr(k, (0,), 0),))          # Ok(NonNull<[u8]>)


def m_grow(E, st, args, call):
    p = args[1]
    return Agg(0, (Ptr(p.key, p.path, 0),))


def m_nop(E, st, args, call):
    return UNIT


def m_false(E, st, args, call):
    return False


def m_rawptr_diff(E, st, args, call):
    a, b = args
    if a.key == b.key and a.path[:-1] == b.path[:-1]:
        if not a.path:
            return 0
        return a.path[-1] - b.path[-1]
    raise Undecided('pointer difference')


def m_arith_offset(E, st, args, call):
    return E.otherop('Offset', args[0], args[1], None, st)


def bytes_of(v, n):
    return [mod(quot(v, 1 << (8 * i)), 256) for i in range(n)]


def m_bswap(E, st, args, call):
    lo, hi, w = E.intty(call.inst['args'][0])
    b = bytes_of(args[0], w // 8)
    r = 0
    for x in b:
        r = add(scale(r, 256), x)
    return r


def arr_eq_cond(E, st, a, b):
    """condition that two arrays (or slices) of scalars are equal"""
    if len(a.f) != len(b.f):
        return False
    # as numbers: 64-bit words
    c = True
    xs, ys = list(a.f), list(b.f)
    if all(isinstance(x, (int, Poly)) and not isinstance(x, bool) for x in xs + ys):
        hi = max([naive(x)[1] for x in xs + ys] + [0])
        lo = min([naive(x)[0] for x in xs + ys] + [0])
        if lo >= 0 and hi < (1 << 64):
            w = 8 if hi < 256 else 64
            V = 0
            for i, (x, y) in enumerate(zip(xs, ys)):
                V = add(V, scale(sub(x, y), 1 << (w * i)))
            V2 = n2(V)
            return mkcond('eq', V2)
    for x, y in zip(xs, ys):
        c = E.boolop('BitAnd', c, val_eq(E, st, x, y))
    return c


def val_eq(E, st, x, y):
    if isinstance(x, (int, Poly, bool, Cond)) and isinstance(y, (int, Poly, bool, Cond)):
        return E.binop('Eq', x, y, None, st)
    if isinstance(x, Arr):
        return arr_eq_cond(E, st, x, y)
    if isinstance(x, Agg) and isinstance(y, Agg):
        if x.v != y.v:
            return False
        c = True
        for a, b in zip(x.f, y.f):
            c = E.boolop('BitAnd', c, val_eq(E, st, a, b))
        return c
    raise Undecided('equality of %s' % type(x).__name__)


def m_raw_eq(E, st, args, call):
    return arr_eq_cond(E, st, E.deref(st, args[0]), E.deref(st, args[1]))


def m_minmax(mx):
    def f(E, st, args, call):
        a, b = args
        if isinstance(a, int) and isinstance(b, int):
            return max(a, b) if mx else min(a, b)
        if st.facts.lower(sub(a, b), 0) >= 0:
            return a if mx else b
        if st.facts.lower(sub(b, a), 0) >= 0:
            return b if mx else a
        c = mkcond('ge', sub(a, b))
        s2 = st.copy()
        out = [(s, a if mx else b) for s in E.assume(st, c)]
        out += [(s, b if mx else a) for s in E.assume(s2, cnot(c))]
        return out
    return f


def m_ctpop(E, st, args, call):
    if isinstance(args[0], int):
        return bin(args[0]).count('1')
    raise Undecided('ctpop')


def m_cttz(E, st, args, call):
    v = args[0]
    lo, hi, w = E.intty(call.inst['args'][0])
    if isinstance(v, int):
        return w if v == 0 else (v & -v).bit_length() - 1
    raise Undecided('cttz')


def m_ctlz(E, st, args, call):
    v = args[0]
    lo, hi, w = E.intty(call.inst['args'][0])
    if isinstance(v, int):
        return w - v.bit_length()
    # position of the top bit: enumerate the cases
    out = []
    cur = st
    for k in range(w, -1, -1):
        # v has bit length k : 2^(k-1) <= v < 2^k
        s = cur.copy()
        c = E.boolop('BitAnd', mkcond('ge', sub(v, (1 << (k - 1)) if k else 0)), mkcond('ge', sub((1 << k) - 1, v)))
        for s2 in E.assume(s, c):
            out.append((s2, w - k))
    return out


def m_wrapping(op):
    def f(E, st, args, call):
        return E.binop(op, args[0], args[1], call.dty, st)
    return f


def m_overflowing(op):
    def f(E, st, args, call):
        ty = E.P.types[call.dty]['fields'][0]
        lo, hi, w = E.intty(ty)
        a, b = args
        r = add(a, b) if op == 'Add' else sub(a, b) if op == 'Sub' else PL.mul(a, b)
        E.fwd(op, a, b, r)
        c = E.boolop('BitOr', mkcond('ge', sub(r, hi + 1)), mkcond('ge', sub(lo - 1, r)))
        return Agg(0, (E.wrap(st, r, lo, hi, w), c))
    return f


def m_saturating(op):
    def f(E, st, args, call):
        lo, hi, w = E.intty(call.dty)
        a, b = args
        r = add(a, b) if op == 'Add' else sub(a, b)
        if isinstance(r, int):
            return min(max(r, lo), hi)
        E.fwd(op, a, b, r)
        out, cur = [], st
        for c, v in ((mkcond('ge', sub(r, hi + 1)), hi), (mkcond('ge', sub(lo - 1, r)), lo)):
            if cur is None or c is False:
                continue
            s2 = cur.copy()
            out += [(s, v) for s in E.assume(s2, c)]
            n = E.assume(cur, cnot(c))
            cur = n[0] if n else None
        if cur is not None:
            out.append((cur, r))
        return out
    return f


def m_rotate(left):
    def f(E, st, args, call):
        lo, hi, w = E.intty(call.inst['args'][0])
        a, k = args[0], E.cint(st, args[1]) % w
        if k == 0:
            return a
        if not left:
            k = w - k
        return add(scale(mod(a, 1 << (w - k)), 1 << k), quot(a, 1 << (w - k)))
    return f


def m_bitor(E, st, args, call):
    return E.binop('BitOr', args[0], args[1], call.dty, st)


def m_carrying_mul_add(E, st, args, call):
    ty = E.P.types[call.dty]['fields'][0]
    lo, hi, w = E.intty(ty)
    a, b, c, d = args
    S = add(add(PL.mul(a, b), c), d)
    if not isinstance(S, int):
        PL.note_range(S, 0, (1 << (2 * w)) - 1)
    return Agg(0, (n2(mod(S, 1 << w)), n2(quot(S, 1 << w))))


def m_cmp3(E, st, args, call):
    a, b = args
    d = sub(a, b)
    out, s1, s2 = [], st.copy(), st.copy()
    for s, c, v in ((st, mkcond('ge', sub(-1, d)), 0), (s1, mkcond('eq', d), 1), (s2, mkcond('ge', sub(d, 1)), 2)):
        out += [(x, Agg(v, ())) for x in E.assume(s, c)]
    return out


def m_exact_div(E, st, args, call):
    return E.binop('Div', args[0], args[1], call.dty, st)


def m_panic(E, st, args, call):
    msg = call.inst['name']
    try:
        if args and isinstance(args[0], Ptr):
            v = E.deref(st, args[0])
            msg = bytes(v.f).decode('utf8', 'replace')
    except Exception:
        pass
    raise PanicPath(msg)


def m_black_box(E, st, args, call):
    return args[0]


def m_copy(E, st, args, call):
    E.copy_mem(st, args[0], args[1], E.cint(st, args[2]))
    return UNIT


def m_write_bytes(E, st, args, call):
    p, v, n = args
    n = E.cint(st, n)
    T = E.P.types[E.P.strip(call.inst['args'][0])]
    if v == 0 and T['k'] == 'int':
        for i in range(n):
            E.storex(st, p.key, p.path[:-1] + (p.path[-1] + i,), 0)
        return UNIT
    raise Undecided('write_bytes')


def m_compare_bytes(E, st, args, call):
    n = E.cint(st, args[2])
    a = E.deref(st, Ptr(args[0].key, args[0].path, n))
    b = E.deref(st, Ptr(args[1].key, args[1].path, n))
    if all(isinstance(x, int) for x in a.f + b.f):
        return (a.f > b.f) - (a.f < b.f)
    c = arr_eq_cond(E, st, a, b)
    s2 = st.copy()
    out = [(s, 0) for s in E.assume(st, c)]
    out += [(s, opsym('memcmp', tuple(a.f) + tuple(b.f), 1, 1)) for s in E.assume(s2, cnot(c))]
    return out


def m_swap(E, st, args, call):
    a, b = args
    x, y = E.deref(st, a), E.deref(st, b)
    E.storex(st, a.key, a.path, y)
    E.storex(st, b.key, b.path, x)
    return UNIT


def m_select(E, st, args, call):
    c = args[0]
    if isinstance(c, bool):
        return args[1] if c else args[2]
    s2 = st.copy()
    return [(s, args[1]) for s in E.assume(st, c)] + [(s, args[2]) for s in E.assume(s2, cnot(c))]


def m_fmt_opaque(E, st, args, call):
    return Opaque(('fmt', st.seq))


INTRINSICS = {
    'arith_offset': m_arith_offset, 'bswap': m_bswap, 'assert_inhabited': m_nop, 'assert_zero_valid': m_nop,
    'assert_mem_uninitialized_valid': m_nop, 'cold_path': m_nop,
    'ptr_offset_from_unsigned': m_rawptr_diff, 'ptr_offset_from': m_rawptr_diff, 'raw_eq': m_raw_eq,
    'integer_min': m_minmax(False), 'integer_max': m_minmax(True), 'ctpop': m_ctpop, 'cttz': m_cttz,
    'cttz_nonzero': m_cttz, 'ctlz': m_ctlz, 'ctlz_nonzero': m_ctlz, 'black_box': m_black_box, 'copy': m_copy,
    'copy_nonoverlapping': m_copy, 'write_bytes': m_write_bytes, 'compare_bytes': m_compare_bytes,
    'wrapping_add': m_wrapping('Add'), 'wrapping_sub': m_wrapping('Sub'), 'wrapping_mul': m_wrapping('Mul'),
    'add_with_overflow': m_overflowing('Add'), 'sub_with_overflow': m_overflowing('Sub'),
    'mul_with_overflow': m_overflowing('Mul'), 'select_unpredictable': m_select, 'likely': m_black_box,
    'saturating_add': m_saturating('Add'), 'saturating_sub': m_saturating('Sub'), 'rotate_left': m_rotate(True),
    'rotate_right': m_rotate(False), 'disjoint_bitor': m_bitor, 'carrying_mul_add': m_carrying_mul_add,
    'three_way_compare': m_cmp3, 'typed_swap_nonoverlapping': m_swap, 'exact_div': m_exact_div,
    'unlikely': m_black_box, 'is_val_statically_known': m_false,
}

BYDEF = {
    'std::alloc::Global::alloc_impl_runtime': m_alloc,
    'std::alloc::Global::grow_impl_runtime': m_grow,
    'std::alloc::Global::deallocate_impl_runtime': m_nop,
    'std::alloc::Global::shrink_impl_runtime': m_grow,
}


PLAIN_DROP = re.compile(r'^std::ptr::drop_glue::<\[(u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize|bool|char)(; \d+)?\]>$')


def std_hooks(E, inst):
    if inst['kind'] == 'intrinsic':
        return INTRINSICS.get(inst['intrinsic'])
    n = inst['name']
    d = inst['def']
    h = BYDEF.get(d)
    if h:
        return h
    if 'precondition_check' in n:
        return m_nop
    if inst['body'] is None and (PLAIN_DROP.match(n) or d == 'std::ptr::drop_glue' and len(inst['args']) == 1 and E.P.dropplan(inst['args'][0]) == ()):
        # dropping elements that have nothing to drop
        return m_nop
    if inst['crate'] in ('core', 'std', 'alloc') and inst['body'] is None:
        if 'panic' in d or 'unwrap_failed' in d or 'expect_failed' in d or '_fail' in d or 'assert_failed' in d or 'handle_error' in d:
            return m_panic
        if '::fmt::' in d or d.startswith('core::fmt') or d.startswith('std::fmt'):
            return m_fmt_opaque
    return None
