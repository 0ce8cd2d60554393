"""heap vectors: allocation gives a fresh growable cell, everything above it is the interpreted std code"""
from models import *

BIG = 1 << 58
_NEW = re.compile(r'^(?:std|alloc)::vec::Vec::<.*>::(new|with_capacity)$')
_RAWN = re.compile(r'raw_vec::RawVec(?:Inner)?(?:::<.*?>)?::(new|new_in|with_capacity|with_capacity_in|with_capacity_zeroed_in|try_allocate_in|grow_one|grow_amortized|grow_exact|reserve|reserve_exact|do_reserve_and_handle|reserve::do_reserve_and_handle(?:::<.*>)?|shrink_to_fit|deallocate)$')
_ZST = Agg(0, ())


def fresh_raw(st, n=None, fill=None):
    k = st.alloc(Arr(()) if n is None else Arr((fill,) * n))
    return Agg(0, (Ptr(k, (0,), None), BIG, _ZST))


def vec_hooks(E, inst):
    if inst['crate'] not in ('alloc', 'std', 'core'):
        return None
    n = inst['name']
    m = _NEW.match(n)
    if m:
        return lambda E, st, a, call: Agg(0, (fresh_raw(st), 0))
    if 'raw_vec' in n:
        m = _RAWN.search(n)
        if m:
            w = m.group(1).split('::')[0]
            if w in ('new', 'new_in', 'with_capacity', 'with_capacity_in'):
                return lambda E, st, a, call: fresh_raw(st)
            if w == 'with_capacity_zeroed_in':
                return lambda E, st, a, call: fresh_raw(st, E.cint(st, a[0]), 0)
            if w == 'try_allocate_in':
                def tr(E, st, a, call):
                    z = a[1]
                    zero = isinstance(z, Agg) and z.v == 1
                    return Agg(0, (fresh_raw(st, E.cint(st, a[0]), 0) if zero else fresh_raw(st),))
                return tr
            if w in ('deallocate',):
                return lambda E, st, a, call: _ZST
            return lambda E, st, a, call: grow(E, st, a[0], w)
    return None


def grow(E, st, p, w):
    v = E.deref(st, p)
    E.storex(st, p.key, p.path + (1,), BIG)
    if w in ('grow_amortized', 'grow_exact'):
        return Agg(0, (_ZST,))
    return _ZST


def vec_items(E, st, v):
    """elements of a Vec value"""
    raw, n = v.f
    n = E.cint(st, n)
    p = raw.f[0]
    if n == 0:
        return []
    a = E.load(st, p.key, p.path[:-1])
    b = p.path[-1]
    return [a.f[b + i] for i in range(n)]
