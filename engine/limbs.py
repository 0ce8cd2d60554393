"""limb layer: contracts for U256/U512 comparisons and helpers"""
from models import *
import poly as PL

W = 1 << 64
ORD = {'Less': 0, 'Equal': 1, 'Greater': 2}     # variant indices of core::cmp::Ordering


def val(a, w=64):
    """positional value of an array of limbs"""
    r = 0
    for i, x in enumerate(a.f):
        r = add(r, scale(x, 1 << (w * i)))
    return n2(r)


def limbs_of(v, n=4, w=64):
    return Arr(tuple(digit(v, 1 << (w * i), 1 << w) for i in range(n)))


def u256_cmp(E, inst):
    if inst['crate'] == 'rabe_bn' and implkey(E.P, inst) == ('U256', 'Ord', 'cmp'):
        return h_cmp
    return None


def h_cmp(E, st, args, call):
    a, b = val(E.deref(st, args[0])), val(E.deref(st, args[1]))
    d = sub(a, b)
    out = []
    s1, s2 = st.copy(), st.copy()
    for s in E.assume(st, mkcond('ge', sub(-1, d))):
        out.append((s, Agg(0, ())))
    for s in E.assume(s1, mkcond('eq', d)):
        out.append((s, Agg(1, ())))
    for s in E.assume(s2, mkcond('ge', sub(d, 1))):
        out.append((s, Agg(2, ())))
    return out


def bitcondition(x, k):
    """condition that bit k of the word x is set"""
    d = digit(x, 1 << k, 2)
    if isinstance(d, int):
        return bool(d)
    return mkcond('ge', sub(d, 1))


def h_ord(m):
    def h(E, st, args, call):
        a, b = val(E.deref(st, args[0])), val(E.deref(st, args[1]))
        d = sub(a, b)
        if m == 'lt':
            return mkcond('ge', sub(-1, d))
        if m == 'le':
            return mkcond('ge', neg(d))
        if m == 'gt':
            return mkcond('ge', sub(d, 1))
        return mkcond('ge', d)
    return h


def h_getbit(bits):
    def h(E, st, args, call):
        n = st.facts.reval(args[1]) if isinstance(args[1], Poly) else args[1]
        if not isinstance(n, int):
            return NotImplemented
        if n >= bits:
            return Agg(0, ())
        a = E.deref(st, args[0])
        return Agg(1, (bitcondition(a.f[n // 64], n % 64),))
    return h


def h_setbit(E, st, args, call):
    p, n, to = args
    n = st.facts.reval(n) if isinstance(n, Poly) else n
    if not isinstance(n, int):
        return NotImplemented
    if n >= 256:
        return False
    a = E.deref(st, p)
    x = a.f[n // 64]
    k = n % 64
    y = add(x, scale(sub(cond_int(to), digit(x, 1 << k, 2)), 1 << k))
    if isinstance(y, Poly):
        PL.note_range(y, 0, W - 1)
    f = list(a.f)
    f[n // 64] = y
    E.storex(st, p.key, p.path, Arr(tuple(f)))
    return True


_ORDS = {m: h_ord(m) for m in ('lt', 'le', 'gt', 'ge')}


def word_contracts(E, inst):
    """contracts discharged by ob_cmp / ob_ord / ob_bits: ordering and bit access of the wide integers"""
    t = inst.get('trait')
    n = inst['name']
    if t and t[0] == 'std::cmp::PartialOrd' and n.startswith('<rabe_bn::arith::U256 as '):
        return _ORDS.get(t[1])
    if inst['crate'] == 'rabe_bn' and t is None:
        if n == 'rabe_bn::arith::U256::get_bit':
            return h_getbit(256)
        if n == 'rabe_bn::arith::U512::get_bit':
            return h_getbit(512)
        if n == 'rabe_bn::arith::U256::set_bit':
            return h_setbit
    return u256_cmp(E, inst)
