"""formal multiples and formal powers: values of a group written as integer combinations of named base elements.
Additive (points of G1, G2) and multiplicative (field elements under * only) groups share the representation."""
from fdom import *


class LV:
    __slots__ = ('kind', 't')

    def __init__(self, kind, t):
        self.kind = kind
        self.t = t

    def __eq__(self, o):
        return isinstance(o, LV) and self.kind == o.kind and self.t == o.t

    def __hash__(self):
        return hash((self.kind, frozenset(self.t)))

    def __repr__(self):
        return '%s<%s>' % (self.kind, ', '.join('%s*%s' % (str(c)[:60], b) for b, c in self.t.items()))

    @property
    def v(self):
        return 0

    @property
    def f(self):
        n = COORDS.get(self.kind)
        if n is None:
            raise Undecided('coordinates of a formal element of %s are read' % self.kind)
        return tuple(PJ(self, i) for i in range(n[0]))

    def expand(self):
        return Agg(0, self.f)


# number and type of the coordinates of formal elements
COORDS = {'Fq12': (2, 'Fq6'), 'G1': (3, 'Fq'), 'G2': (3, 'Fq2')}


class PJ:
    """a coordinate of a formal element, or its negative"""
    __slots__ = ('x', 'i', 's')

    def __init__(self, x, i, s=1):
        self.x = x
        self.i = i
        self.s = s

    def __eq__(self, o):
        return isinstance(o, PJ) and (self.x, self.i, self.s) == (o.x, o.i, o.s)

    def __hash__(self):
        return hash((self.x, self.i, self.s))

    def __repr__(self):
        return '%scoordinate %d of %r' % ('-' if self.s < 0 else '', self.i, self.x)

    @property
    def v(self):
        return 0

    @property
    def f(self):
        raise Undecided('coordinates of a formal element of %s are read' % self.x.kind)


def whole(v, conj=None):
    """the formal element whose coordinates are listed; a changed sign is a negation (points) or a conjugation (target field)"""
    if not isinstance(v, Agg) or not v.f or not all(isinstance(c, PJ) for c in v.f):
        return v
    x = v.f[0].x
    n = COORDS[x.kind][0]
    if len(v.f) != n or any(c.x != x or c.i != i for i, c in enumerate(v.f)):
        return v
    sg = tuple(c.s for c in v.f)
    if min(sg) > 0:
        return x
    if x.kind == 'Fq12':
        return conj(x) if sg == (1, -1) and conj else v
    return lscale(x, -1) if sg == (1, -1, 1) else v


def coordinates(nxt):
    """hook: operations on coordinates of formal elements, then the given hook"""
    def hook(E, inst):
        g = nxt(E, inst)
        k = implkey(E.P, inst) if inst['crate'] == 'rabe_bn' else None
        if k is None:
            return g
        ty, tr, m = k

        def coord(st, v):
            v = E.deref(st, v) if isinstance(v, Ptr) else v
            return v if isinstance(v, PJ) and COORDS[v.x.kind][1] == ty else None
        if tr == 'Neg' and ty in ('Fq', 'Fq2', 'Fq6'):
            def f(st, x):
                return PJ(x.x, x.i, -x.s)
        elif tr == 'FieldElement' and m == 'is_zero' and ty in ('Fq', 'Fq2'):
            def f(st, x):
                if x.i != 2:
                    return NotImplemented
                return Cond('x', ('lz', x.x), True) if x.x.t else True
        else:
            return g

        def h(E, st, a, call):
            x = coord(st, a[0])
            if x is not None:
                return f(st, x)
            return g(E, st, a, call) if g else NotImplemented
        return h
    return hook


def lcomb(kind, a, b, k=1):
    t = dict(a.t)
    for x, c in b.t.items():
        n = add(t.get(x, 0), scale(c, k))
        if isinstance(n, int) and n == 0:
            t.pop(x, None)
        else:
            t[x] = n
    return LV(kind, t)


def lscale(a, k):
    return LV(a.kind, {x: PL.mul(c, k) for x, c in a.t.items()})


BITS = {}           # name -> list of 0/1 atoms
_BITOF = {}         # atom -> (name, index)


def scalar_bits(name, n=256):
    """an arbitrary n-bit integer as a sum of independent bits"""
    b = BITS.get(name)
    if b is None or len(b) != n:
        b = BITS[name] = [atom('%s_%d' % (name, i), 0, 1) for i in range(n)]
        for i, p in enumerate(b):
            (m,) = p.t
            _BITOF[m[0]] = (name, i)
    return b


def lreset():
    freset()
    BITS.clear()
    _BITOF.clear()


def prefix(name, j):
    """the integer shifted right by j"""
    p = {}
    for i, b in enumerate(BITS[name]):
        if i >= j:
            (m,) = b.t
            p[m] = 1 << (i - j)
    return Poly(p)


def bit_limbs(name):
    out = []
    for w in range(4):
        t = {}
        for i in range(64):
            if 64 * w + i < len(BITS[name]):
                (m,) = BITS[name][64 * w + i].t
                t[m] = 1 << i
        out.append(Poly(t))
    return Arr(tuple(out))


def bitcond(k, p):
    """a comparison of one scalar bit with zero"""
    if _BITOF and isinstance(p, Poly) and len(p.t) <= 2:
        ms = [m for m in p.t if m]
        if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0] in _BITOF:
            c, c0 = p.t[ms[0]], p.t.get((), 0)
            v0, v1 = c0, c + c0
            if k == 'ge':
                r0, r1 = v0 >= 0, v1 >= 0
            elif k == 'eq':
                r0, r1 = v0 == 0, v1 == 0
            else:
                r0, r1 = v0 != 0, v1 != 0
            if r0 == r1:
                return r0
            return Cond('x', ('kb', ms[0][0]), r1)
    return repcond(k, p)


IN.EQHOOK[0] = bitcond


def known(st):
    for t in ff(st).tags:
        if t[0] == 'bits':
            return t[1]
    return {}


class BD(dict):
    """known bits, hashable"""
    def __hash__(self):
        return hash(frozenset(self.items()))


def with_known(st, K):
    f = ff(st)
    tags = tuple(t for t in f.tags if t[0] != 'bits')
    if K:
        tags += (('bits', K),)
    st.extra = FF(f.sub, f.zero, f.nz, tags)


def kval(p, K):
    """value under known bits"""
    if isinstance(p, int) or not K:
        return p
    if not any(x in K for m in p.t for x in m):
        return p
    t = {}
    for m, c in p.t.items():
        z = False
        n = m
        for x in m:
            v = K.get(x)
            if v is not None:
                if v == 0:
                    z = True
                    break
                n = tuple(y for y in n if y != x)
        if not z:
            t[n] = t.get(n, 0) + c
    return mk({m: c for m, c in t.items() if c})


class LDom:
    def join(self, E, S1, S2, a, b):
        if not isinstance(a, LV) or not isinstance(b, LV):
            return None
        if a.kind != b.kind:
            raise NoJoin('kinds')
        if a == b:
            return a
        out = {}
        for x in sorted(set(a.t) | set(b.t), key=str):
            c = self.coef(E, S1, S2, a.t.get(x, 0), b.t.get(x, 0))
            if not (isinstance(c, int) and c == 0):
                out[x] = c
        return LV(a.kind, out)

    def coef(self, E, S1, S2, a, b):
        K1, K2 = known(S1), known(S2)
        a1, b2 = kval(a, K1), kval(b, K2)
        if equal(a1, b2):
            return a1
        if equal(kval(a, K2), b2):
            return a
        if equal(kval(b, K1), a1):
            return b
        D = [x for x, v in K1.items() if K2.get(x, v) != v]
        if not D:
            raise NoJoin('multiples')
        D.sort(key=lambda x: _BITOF[x])
        name, j = _BITOF[D[0]]
        low = [i for n, i in (_BITOF[x] for x in set(K1) | set(K2)) if n == name]
        for i in {j, min(low)}:
            T = prefix(name, i)
            if equal(kval(T, K1), a1) and equal(kval(T, K2), b2):
                return T
        x = D[0]
        v1 = K1[x]
        bit = Poly({(x,): 1})
        # a + (b-a)*[bit differs from v1]
        return add(a1, PL.mul(sub(b2, a1), bit if v1 == 0 else sub(1, bit)))

    def decide(self, E, st, c):
        if c.a[0] == 'kb':
            v = known(st).get(c.a[1])
            return None if v is None else bool(v) == c.b
        if c.a[0] != 'lz':
            return None
        z = zeros(st)
        K = known(st)
        left = {x: kval(k, K) for x, k in c.a[1].t.items() if x not in z}
        if all(isinstance(k, int) and k == 0 for k in left.values()):
            return True if c.b else False
        return None

    def assume(self, E, st, c):
        if c.a[0] == 'kb':
            K = BD(known(st))
            K[c.a[1]] = int(c.b)
            with_known(st, K)
            return [st]
        if c.a[0] != 'lz':
            return None
        if not c.b:
            return [st]
        z = zeros(st)
        K = known(st)
        left = {x: kval(k, K) for x, k in c.a[1].t.items() if x not in z}
        if len(left) == 1:
            (x, k), = left.items()
            if isinstance(k, int) and k in (1, -1):
                f = ff(st)
                st.extra = FF(f.sub, f.zero, f.nz, f.tags + (('zero', x),))
                return [st]
        raise Undecided('identity test on a combination of points')

    def splitter(self, E, S1, S2):
        return None

    def joinextra(self, E, a, b):
        # "one of the operands is zero" must not be forgotten
        if zeros(a) != zeros(b) or ff(a).zero != ff(b).zero or ff(a).sub != ff(b).sub:
            return False
        K1, K2 = known(a), known(b)
        if K1 == K2:
            return None
        K = BD({x: v for x, v in K1.items() if K2.get(x) == v})
        s1, s2 = a.copy(), b.copy()
        with_known(s1, K)
        with_known(s2, K)
        if s1.extra == s2.extra:
            return s1.extra
        return FDom().joinextra(E, s1, s2)


def zeros(st):
    return {t[1] for t in ff(st).tags if t[0] == 'zero'}


def group_hooks(names, conj=None):
    """contracts of the group law (discharged by ob_group): names maps the curve parameter type to a kind"""
    def hook(E, inst):
        if inst['crate'] != 'rabe_bn':
            return None
        n = inst['name']
        g = None
        for pn, k in names.items():
            if pn in n:
                g = k
        if g is None:
            return None
        k = implkey(E.P, inst)
        t = inst.get('trait')
        if k is None:
            return None
        ty, tr, m = k
        if not ty.startswith('G<'):
            return None

        def ld(E, st, v):
            if isinstance(v, Ptr):
                v = E.deref(st, v)
            return whole(v, conj)

        def guard(f, nargs):
            def h(E, st, a, call):
                xs = [ld(E, st, v) for v in a[:nargs]]
                if not all(isinstance(x, LV) for x in xs):
                    return NotImplemented
                return f(st, *xs)
            return h
        if tr.startswith('Add') and m == 'add':
            return guard(lambda st, a, b: lcomb(g, a, b), 2)
        if tr.startswith('Sub') and m == 'sub':
            return guard(lambda st, a, b: lcomb(g, a, b, -1), 2)
        if tr == 'Neg':
            return guard(lambda st, a: lscale(a, -1), 1)
        if tr == 'GroupElement':
            if m == 'double':
                return guard(lambda st, a: lscale(a, 2), 1)
            if m == 'zero':
                return lambda E, st, a, call: LV(g, {})
            if m == 'one':
                return lambda E, st, a, call: LV(g, {'G': 1})
            if m == 'is_zero':
                return guard(lambda st, a: Cond('x', ('lz', a), True) if a.t else True, 1)
        return None
    return hook


def power_hooks(kind, special=None, conj=None):
    """multiplication, squaring and one of a field on formal powers"""
    def hook(E, inst):
        if inst['crate'] != 'rabe_bn':
            return None
        k = implkey(E.P, inst)
        if k is None:
            m = methodkey(E.P, inst)
            if m is not None and m[0] == kind and special:
                return special(m[1])
            return None
        ty, tr, m = k
        if ty != kind:
            return None

        def ld(E, st, v):
            if isinstance(v, Ptr):
                v = E.deref(st, v)
            return whole(v, conj)

        def guard(f, nargs):
            def h(E, st, a, call):
                xs = [ld(E, st, v) for v in a[:nargs]]
                if not all(isinstance(x, LV) for x in xs):
                    return NotImplemented
                return f(st, *xs)
            return h
        if tr.startswith('Mul') and m == 'mul':
            return guard(lambda st, a, b: lcomb(kind, a, b), 2)
        if tr == 'FieldElement':
            if m == 'one':
                return lambda E, st, a, call: LV(kind, {})
            if m == 'squared':
                return guard(lambda st, a: lscale(a, 2), 1)
            if special and m == 'inverse':
                return special(m)
        return None
    return hook


def methodkey(P, inst):
    n = inst['name']
    if n.startswith('<'):
        return None
    m = re.search(r'(?:^|::)(\w+)(?:::<[^:]*>)?::(\w+)(?:::<.*>)?$', n)
    return (m.group(1), m.group(2)) if m else None
