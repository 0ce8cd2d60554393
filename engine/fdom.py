"""finite field domain: values of Fr, Fq and Fq2 as (Laurent) polynomials over F_r or F_q[u]/(u^2+1),
in indeterminates that stand for arbitrary field elements"""
from ob import *
import interp as IN

UNIT_M = ()
FATOMS = []          # id -> FAtom
_FNAME = {}
_INV = {}
_REP = {}
_REPOF = {}
_INT = {}
_INTOF = {}
SQUARE = {}          # atom -> value of its square (curve equation)


class FAtom:
    __slots__ = ('id', 'name', 'mod', 'conj', 'nonzero', 'N')


def freset():
    PL.reset()
    FATOMS.clear(); _FNAME.clear(); _INV.clear(); _REP.clear(); _REPOF.clear(); _INT.clear(); _INTOF.clear(); SQUARE.clear()


def _newatom(name, mod, nonzero):
    a = FAtom()
    a.id = len(FATOMS)
    a.name = name
    a.mod = mod
    a.conj = a.id
    a.nonzero = nonzero
    a.N = None
    FATOMS.append(a)
    return a


def fatom(name, mod=Q, real=True, nonzero=False):
    """indeterminate; not real: together with its conjugate"""
    k = name
    i = _FNAME.get(k)
    if i is None:
        a = _newatom(name, mod, nonzero)
        if not real:
            b = _newatom(name + "'", mod, nonzero)
            a.conj, b.conj = b.id, a.id
        i = _FNAME[k] = a.id
    return FP(mod, {((i, 1),): (1, 0)})


class FP:
    __slots__ = ('m', 't', 'h')

    def __init__(self, m, t):
        self.m = m
        self.t = t
        self.h = None

    def __hash__(self):
        if self.h is None:
            self.h = hash((self.m, frozenset(self.t.items())))
        return self.h

    def __eq__(self, o):
        return isinstance(o, FP) and self.m == o.m and self.t == o.t

    def __repr__(self):
        return fshow(self)

    def __add__(self, o):
        m = self.m
        t = dict(self.t)
        for k, (a, b) in o.t.items():
            c = t.get(k)
            if c is None:
                t[k] = (a, b)
            else:
                a = (a + c[0]) % m
                b = (b + c[1]) % m
                if a or b:
                    t[k] = (a, b)
                else:
                    del t[k]
        return FP(m, t)

    def __neg__(self):
        m = self.m
        return FP(m, {k: (-a % m, -b % m) for k, (a, b) in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def scale(self, c):
        if isinstance(c, int):
            c = (c, 0)
        m = self.m
        x, y = c[0] % m, c[1] % m
        if not x and not y:
            return FP(m, {})
        if not y:
            return FP(m, {k: (a * x % m, b * x % m) for k, (a, b) in self.t.items()})
        return FP(m, {k: ((a * x - b * y) % m, (a * y + b * x) % m) for k, (a, b) in self.t.items()})

    def __mul__(self, o):
        m = self.m
        A, B = self.t, o.t
        if len(A) > len(B):
            A, B = B, A
        t = {}
        for k, (a, b) in A.items():
            for l, (c, d) in B.items():
                n = fmono(k, l)
                if b or d:
                    x, y = a * c - b * d, a * d + b * c
                else:
                    x, y = a * c, 0
                v = t.get(n)
                if v is None:
                    t[n] = (x % m, y % m)
                else:
                    t[n] = ((v[0] + x) % m, (v[1] + y) % m)
        return FP(m, {k: v for k, v in t.items() if v[0] or v[1]})

    def pow(self, n):
        r = fconst(1, 0, self.m)
        b = self
        while n:
            if n & 1:
                r = r * b
            b = b * b if n > 1 else b
            n >>= 1
        return r

    def conj(self):
        m = self.m
        t = {}
        for k, (a, b) in self.t.items():
            n = tuple(sorted((FATOMS[i].conj, e) for i, e in k))
            t[n] = (a, -b % m)
        return FP(m, t)

    def re(self):
        if self.m != Q:
            return self
        return (self + self.conj()).scale(INV2Q)

    def im(self):
        # (p - p')/(2u) = -(u/2)(p-p')
        return (self - self.conj()).scale((0, -INV2Q % Q))

    def const(self):
        """coefficient pair if constant else None"""
        if not self.t:
            return (0, 0)
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def atoms(self):
        s = set()
        for k in self.t:
            for i, e in k:
                s.add(i)
        return s


INV2Q = pow(2, -1, Q)


def fmono(k, l):
    if not k:
        return l
    if not l:
        return k
    if len(k) == 1 and len(l) == 1:
        (i, e), (j, f) = k[0], l[0]
        if i < j:
            return (k[0], l[0])
        if j < i:
            return (l[0], k[0])
        return ((i, e + f),) if e + f else ()
    d = dict(k)
    for i, e in l:
        v = d.get(i, 0) + e
        if v:
            d[i] = v
        else:
            d.pop(i, None)
    return tuple(sorted(d.items()))


def fconst(a, b=0, m=Q):
    a %= m
    b %= m
    return FP(m, {(): (a, b)} if a or b else {})


def fshow(p, n=8):
    if not p.t:
        return '0'
    out = []
    for k, (a, b) in list(p.t.items())[:n]:
        def s(c):
            return str(c) if c < 1000 else '-%d' % (p.m - c) if p.m - c < 1000 else hex(c)[:12] + '..'
        c = s(a) if not b else '(%s+%su)' % (s(a), s(b))
        out.append('*'.join([c] + ['%s^%d' % (FATOMS[i].name, e) if e != 1 else FATOMS[i].name for i, e in k]))
    if len(p.t) > n:
        out.append('...(%d terms)' % len(p.t))
    return ' + '.join(out)


def cinv(c, m):
    a, b = c
    if not b:
        return pow(a, -1, m), 0
    n = pow(a * a + b * b, -1, m)
    return a * n % m, -b * n % m


def monic(p):
    if not p.t:
        return p
    k = max(p.t)
    return p.scale(cinv(p.t[k], p.m))


def content(p):
    """(monomial, rest): p = monomial*rest with rest free of negative exponents and of a common monomial"""
    mins = None
    for k in p.t:
        d = dict(k)
        if mins is None:
            mins = d
        else:
            for i in list(mins):
                mins[i] = min(mins[i], d.get(i, 0))
            for i in d:
                if i not in mins and d[i] < 0:
                    mins[i] = d[i]
            # atoms absent from an earlier term have exponent 0 there
    if mins is None:
        return (), p
    for i in list(mins):
        if mins[i] > 0 and any(i not in dict(k) for k in p.t):
            mins[i] = 0
    mono = tuple(sorted((i, e) for i, e in mins.items() if e))
    if not mono:
        return (), p
    inv = tuple((i, -e) for i, e in mono)
    return mono, FP(p.m, {fmono(k, inv): v for k, v in p.t.items()})


def fsubst(p, i, val):
    """replace atom i by val (val must be a Laurent monomial if i occurs with negative exponent)"""
    hit = False
    rest = {}
    groups = {}
    for k, v in p.t.items():
        e = 0
        for j, f in k:
            if j == i:
                e = f
                break
        if e:
            hit = True
            groups.setdefault(e, {})[tuple(x for x in k if x[0] != i)] = v
        else:
            rest[k] = v
    if not hit:
        return p
    out = FP(p.m, rest)
    for e, t in groups.items():
        if e > 0:
            out = out + FP(p.m, t) * val.pow(e)
        else:
            iv = finv_exact(val)
            if iv is None:
                raise Undecided('division by a value that may be zero')
            out = out + FP(p.m, t) * iv.pow(-e)
    return out


def finv_exact(p):
    """inverse of a unit: constant times nonzero atoms"""
    if len(p.t) != 1:
        return None
    (k, c), = p.t.items()
    r = fconst(1, 0, p.m).scale(cinv(c, p.m))
    for i, e in k:
        a = FATOMS[i]
        if a.N is not None:
            if e > 0:
                r = r * a.N.pow(e)
            else:
                return None
        elif a.nonzero:
            r = r * FP(p.m, {((i, -e),): (1, 0)})
        else:
            return None
    return r


def finv(p):
    """some t with p*t = 1 (p known to be nonzero)"""
    r = finv_exact(p)
    if r is not None:
        return r
    mono, rest = content(p)
    pre = fconst(1, 0, p.m)
    if mono:
        pm = FP(p.m, {mono: (1, 0)})
        r = finv_exact(pm)
        if r is not None:
            pre = r
        else:
            rest = p
    n = monic(rest)
    lc = rest.t[max(rest.t)]
    i = _INV.get(n)
    if i is None:
        a = _newatom('inv%d' % len(FATOMS), p.m, True)
        a.N = n
        _INV[n] = a.id
        i = a.id
        nc = n.conj() if p.m == Q else n
        if nc != n:
            b = _newatom(a.name + "'", p.m, True)
            ncm = monic(nc)
            b.N = nc
            a.conj, b.conj = b.id, a.id
            _INV.setdefault(nc, b.id)
    return pre * FP(p.m, {((i, 1),): (1, 0)}).scale(cinv(lc, p.m))


def fclear(p):
    """multiply by nonzero factors until no inverse symbol is left"""
    while True:
        inv = [i for i in p.atoms() if FATOMS[i].N is not None]
        if not inv:
            return p
        i = max(inv)
        N = FATOMS[i].N
        mx = max(dict(k).get(i, 0) for k in p.t)
        mn = min(dict(k).get(i, 0) for k in p.t)
        pw = {0: fconst(1, 0, p.m)}
        out = FP(p.m, {})
        groups = {}
        for k, v in p.t.items():
            e = dict(k).get(i, 0)
            groups.setdefault(e, {})[tuple(x for x in k if x[0] != i)] = v
        for e, t in groups.items():
            out = out + FP(p.m, t) * N.pow(mx - e)
        p = out


def fdivide(d, f):
    """exact quotient d/f (no negative exponents) or None"""
    lf = max(f.t, key=_ford)
    cf = cinv(f.t[lf], f.m)
    q = FP(d.m, {})
    n = 0
    while d.t:
        n += 1
        if n > 2000:
            return None
        ld = max(d.t, key=_ford)
        dd = dict(ld)
        for i, e in lf:
            if dd.get(i, 0) < e:
                return None
        mono = fmono(ld, tuple((i, -e) for i, e in lf))
        term = FP(d.m, {mono: d.t[ld]}).scale(cf)
        q = q + term
        d = d - term * f
    return q


def _ford(k):
    # lexicographic on exponents with later atoms larger: a monomial order
    return tuple(sorted(((i, e) for i, e in k), reverse=True))


def csquare(p):
    """normal form modulo the curve equations"""
    while True:
        hit = None
        for k in p.t:
            for i, e in k:
                if e >= 2 and i in SQUARE:
                    hit = i
                    break
            if hit is not None:
                break
        if hit is None:
            return p
        v = SQUARE[hit]
        out = {}
        groups = {}
        for k, c in p.t.items():
            e = dict(k).get(hit, 0)
            if e >= 2:
                groups.setdefault(e // 2, {})[tuple(x if x[0] != hit else (hit, e % 2) for x in k if x[0] != hit or e % 2)] = c
            else:
                out[k] = c
        q = FP(p.m, out)
        for n, t in groups.items():
            q = q + FP(p.m, t) * v.pow(n)
        p = q


class FF:
    """facts about field elements"""
    __slots__ = ('sub', 'zero', 'nz', 'tags')

    def __init__(self, sub=(), zero=(), nz=(), tags=()):
        self.sub = sub
        self.zero = zero
        self.nz = nz
        self.tags = tags

    def __eq__(self, o):
        return isinstance(o, FF) and self.sub == o.sub and self.zero == o.zero and self.nz == o.nz and self.tags == o.tags

    def __hash__(self):
        return hash((self.sub, self.zero, self.nz))

    def reduce(self, p):
        for i, v in self.sub:
            p = fsubst(p, i, v)
        if any(FATOMS[i].N is not None for i in p.atoms()):
            p = fclear(p)
            for i, v in self.sub:
                p = fsubst(p, i, v)
        return csquare(p) if SQUARE else p

    def is_zero(self, p):
        q = self.reduce(p)
        if not q.t:
            return True
        if self.zero:
            _, q = content(q)
            for z in self.zero:
                z = content(self.reduce(z))[1]
                if z.t and fdivide(q, z) is not None:
                    return True
        return False

    def is_nonzero(self, p):
        q = self.reduce(p)
        if not q.t:
            return False
        return self._nz(q)

    def _nz(self, q):
        mono, rest = content(q)
        for i, e in mono:
            if not self.nzatom(i):
                return False
        if rest.const() is not None:
            return True
        for z in self.nz + tuple(SQUARE[i] for i in SQUARE if FATOMS[i].nonzero and FATOMS[i].mod == rest.m):
            z = content(self.reduce(z))[1]
            if not z.t or z.const() is not None:
                continue
            while True:
                r = fdivide(rest, z)
                if r is None:
                    break
                rest = r
                if rest.const() is not None:
                    return True
        mono, rest = content(rest)
        return rest.const() is not None and all(self.nzatom(i) for i, e in mono)

    def nzatom(self, i):
        if FATOMS[i].nonzero:
            return True
        m = FATOMS[i].mod
        a = FP(m, {((i, 1),): (1, 0)})
        return any(z == a for z in self.nz)

    def decide(self, p):
        if self.is_zero(p):
            return True
        if self.is_nonzero(p):
            return False
        return None

    def with_nz(self, p):
        q = content(self.reduce(p))
        out = self.nz
        for i, e in q[0]:
            if not self.nzatom(i) and e > 0:
                out += (FP(p.m, {((i, 1),): (1, 0)}),)
        r = monic(q[1])
        if r.const() is None and r not in out:
            out += (r,)
            if r.m == Q:
                rc = monic(r.conj())
                if rc != r:
                    out += (rc,)
        return FF(self.sub, self.zero, out, self.tags)

    def with_zero(self, p):
        """list of fact sets covering p = 0"""
        q = self.reduce(p)
        mono, rest = content(q)
        out = []
        cand = [i for i, e in mono if e > 0 and not self.nzatom(i)]
        for i in cand:
            out.append(self._sub(i, FP(p.m, {})))
        if rest.const() is None and not self._nz(rest):
            f = self
            for i in cand:
                f = f.with_nz(FP(p.m, {((i, 1),): (1, 0)}))
            s = f._solve(rest)
            out.append(s if s is not None else FF(f.sub, f.zero + (monic(rest),), f.nz, f.tags))
        return out

    def _solve(self, p):
        best = None
        for i in sorted(p.atoms(), reverse=True):
            if FATOMS[i].N is not None:
                continue
            ts = [(k, v) for k, v in p.t.items() if any(j == i for j, e in k)]
            if len(ts) != 1:
                continue
            k, v = ts[0]
            e = dict(k)[i]
            if e != 1:
                continue
            cof = FP(p.m, {tuple(x for x in k if x[0] != i): v})
            ci = finv_exact(cof)
            if ci is None:
                # atoms known nonzero only by facts: no exact inverse
                continue
            rest = FP(p.m, {kk: vv for kk, vv in p.t.items() if kk != k})
            cj = FATOMS[i].conj
            val = -(rest * ci)
            if cj != i and cj in val.atoms():
                continue
            best = (i, val)
            break
        if best is None:
            return None
        return self._sub(*best)

    def _sub(self, i, val):
        subs = [(j, fsubst(v, i, val)) for j, v in self.sub] + [(i, val)]
        cj = FATOMS[i].conj
        if cj != i:
            vc = val.conj()
            subs = [(j, fsubst(v, cj, vc)) for j, v in subs] + [(cj, vc)]
        return FF(tuple(subs), self.zero, self.nz, self.tags)

    def consistent(self):
        for z in self.nz:
            if not self.reduce(z).t:
                return False
        for z in self.zero:
            if self._nz(self.reduce(z)):
                return False
        for i, v in self.sub:
            if FATOMS[i].nonzero and not v.t:
                return False
        return True


NOFACTS = FF()
MODOF = {'Fr': RR, 'Fq': Q, 'Fq2': Q}


class FV:
    """value of a field type"""
    __slots__ = ('kind', 'p')

    def __init__(self, kind, p):
        self.kind = kind
        self.p = p

    def __eq__(self, o):
        return isinstance(o, FV) and self.kind == o.kind and self.p == o.p

    def __hash__(self):
        return hash(self.p)

    def __repr__(self):
        return '%s<%s>' % (self.kind, fshow(self.p))

    @property
    def v(self):
        return 0

    @property
    def f(self):
        # presenting components on demand keeps the interpreter unaware of this domain
        return self.expand().f

    def expand(self):
        if self.kind == 'Fq2':
            return Agg(0, (FV('Fq', self.p.re()), FV('Fq', self.p.im())))
        return limbs_of(rep(self.kind, self.p))


def rep(kind, p):
    """Montgomery representative of p as an integer"""
    M = MODOF[kind]
    c = p.const()
    if c is not None:
        if c[1]:
            raise Undecided('not a prime field element')
        return c[0] * R256 % M
    k = (kind, p)
    s = _REP.get(k)
    if s is None:
        s = atom('rep%d' % len(_REP), 0, M - 1)
        _REP[k] = s
        (mm,) = s.t
        _REPOF[mm[0]] = k
    return s


def canon_int(kind, p):
    """the canonical integer of p"""
    M = MODOF[kind]
    c = p.const()
    if c is not None:
        return c[0]
    k = (kind, p)
    s = _INT.get(k)
    if s is None:
        s = atom('int%d' % len(_INT), 0, M - 1)
        _INT[k] = s
        (mm,) = s.t
        _INTOF[mm[0]] = k
    return s


def lift(E, st, kind, V):
    """field element whose Montgomery representative is the integer V"""
    M = MODOF[kind]
    Ri = pow(R256, -1, M)
    if isinstance(V, int):
        if not 0 <= V < M:
            raise NonCanonical('constant representative not below the modulus')
        return fconst(V * Ri, 0, M)
    F = st.facts
    V = F.reval(V)
    if isinstance(V, int):
        return lift(E, st, kind, V)
    if len(V.t) == 1:
        (m, c), = V.t.items()
        if c == 1 and len(m) == 1 and m[0] in _REPOF and _REPOF[m[0]][0] == kind:
            return _REPOF[m[0]][1]
    N = n3(V)
    out = fconst(0, 0, M)
    for m, c in terms(N).items():
        if c % M == 0:
            continue
        t = fconst(c, 0, M)
        for x in m:
            if x in _REPOF and MODOF[_REPOF[x][0]] == M:
                t = t * _REPOF[x][1].scale(R256 % M)
            elif x in _INTOF and MODOF[_INTOF[x][0]] == M:
                t = t * _INTOF[x][1]
            elif SYMS[x].kind == 'atom':
                t = t * fatom('I:' + symname(x), M)
            else:
                raise Undecided('value not linear in field elements: %s' % show_p(N))
        out = out + t
    if not in_range(F, V, 0, M - 1):
        raise NonCanonical('representative not proved below the modulus: %s' % show_p(V))
    return out.scale(Ri)


def show_p(p):
    return str(p)[:200]


class NonCanonical(Undecided):
    pass


def toF(E, st, kind, v):
    if isinstance(v, FV):
        return v.p
    if kind == 'Fq2':
        if isinstance(v, Agg) and len(v.f) == 2:
            a, b = toF(E, st, 'Fq', v.f[0]), toF(E, st, 'Fq', v.f[1])
            return a + b.scale((0, 1))
        raise Undecided('not an Fq2 value: %r' % (v,))
    if isinstance(v, Arr) and len(v.f) == 4:
        return lift(E, st, kind, val(v))
    raise Undecided('not a field value: %r' % (v,))


def ff(st):
    return st.extra if isinstance(st.extra, FF) else NOFACTS


def mkfz(p):
    """condition p = 0"""
    c = p.const()
    if c is not None:
        return c == (0, 0)
    return Cond('x', ('fz', monic(p)), True)


class FDom:
    """joins and conditions on field values"""

    def join(self, E, S1, S2, a, b):
        if not isinstance(a, FV) and not isinstance(b, FV):
            return None
        k = a.kind if isinstance(a, FV) else b.kind
        try:
            p, q = toF(E, S1, k, a), toF(E, S2, k, b)
        except Undecided:
            raise NoJoin('field value')
        if p == q:
            return FV(k, p)
        d = p - q
        if ff(S1).is_zero(d):
            return FV(k, q)
        if ff(S2).is_zero(d):
            return FV(k, p)
        raise NoJoin('field value')

    def decide(self, E, st, c):
        if c.a[0] != 'fz':
            return None
        r = ff(st).decide(c.a[1])
        if r is None:
            return None
        return r if c.b else not r

    def assume(self, E, st, c):
        if c.a[0] != 'fz':
            return None
        p = c.a[1]
        f = ff(st)
        out = []
        if c.b:
            for g in f.with_zero(p):
                if g.consistent():
                    s = st.copy()
                    s.extra = g
                    out.append(s)
        else:
            g = f.with_nz(p)
            if g.consistent():
                st.extra = g
                out.append(st)
        return out

    def splitter(self, E, S1, S2):
        return None

    def joinextra(self, E, a, b):
        x, y = a.extra, b.extra
        if isinstance(x, FF) and isinstance(y, FF):
            if x.tags != y.tags:
                return False
            if x.sub == y.sub:
                return FF(x.sub, tuple(z for z in x.zero if y.is_zero(z)), tuple(z for z in x.nz if z in y.nz or y.is_nonzero(z)), x.tags)
            sub = tuple(s for s in x.sub if s in y.sub)
            return FF(sub, tuple(z for z in x.zero if y.is_zero(z)), tuple(z for z in x.nz if z in y.nz), x.tags)
        if x is None or y is None:
            return NOFACTS
        return None


def repcond(k, p):
    """a comparison of a single representative with zero is a question about the field element"""
    if not isinstance(p, Poly) or not _REPOF:
        return None
    if len(p.t) > 2:
        return None
    ms = [m for m in p.t if m]
    if len(ms) != 1 or len(ms[0]) != 1:
        return None
    x = ms[0][0]
    if x not in _REPOF and x not in _INTOF:
        return None
    c = p.t[ms[0]]
    c0 = p.t.get((), 0)
    kind, fp = _REPOF.get(x) or _INTOF[x]
    if k in ('eq', 'ne') and c0 == 0:
        r = mkfz(fp)
        return r if k == 'eq' else cnot(r)
    if k == 'ge':
        if c < 0 and 0 <= c0 < -c:
            return mkfz(fp)                   # -c*x + c0 >= 0  <=> x = 0
        if c > 0 and -c <= c0 < 0:
            return cnot(mkfz(fp))
    return None


IN.EQHOOK[0] = repcond


# ---------------------------------------------------------------- contracts
def field_hooks(kinds, extra=None):
    kinds = set(kinds)

    def hook(E, inst):
        if inst['crate'] != 'rabe_bn':
            return None
        k = implkey(E.P, inst)
        if k is None:
            return None
        ty, tr, m = k
        if ty == 'U256' and tr.startswith('From<') and tr[5:-1] in kinds and m == 'from':
            kd = tr[5:-1]
            return lambda E, st, a, call: limbs_of(canon_int(kd, toF(E, st, kd, a[0])))
        if ty not in kinds:
            return None
        T = ty
        MM = MODOF[T]

        def ld(E, st, v):
            if isinstance(v, Ptr):
                v = E.deref(st, v)
            return toF(E, st, T, v)
        if (tr, m) in (('Add', 'add'), ('Sub', 'sub'), ('Mul', 'mul')):
            f = {'add': lambda x, y: x + y, 'sub': lambda x, y: x - y, 'mul': lambda x, y: x * y}[m]
            return lambda E, st, a, call: FV(T, f(ld(E, st, a[0]), ld(E, st, a[1])))
        if (tr, m) == ('Neg', 'neg'):
            return lambda E, st, a, call: FV(T, -ld(E, st, a[0]))
        if tr == 'PartialEq' and m in ('eq', 'ne'):
            def eq(E, st, a, call):
                c = mkfz(ld(E, st, a[0]) - ld(E, st, a[1]))
                return c if m == 'eq' else cnot(c)
            return eq
        if tr == 'FieldElement':
            if m == 'zero':
                return lambda E, st, a, call: FV(T, fconst(0, 0, MM))
            if m == 'one':
                return lambda E, st, a, call: FV(T, fconst(1, 0, MM))
            if m == 'is_zero':
                return lambda E, st, a, call: mkfz(ld(E, st, a[0]))
            if m == 'squared':
                def sq(E, st, a, call):
                    x = ld(E, st, a[0])
                    return FV(T, x * x)
                return sq
            if m == 'inverse':
                def inv(E, st, a, call):
                    x = ld(E, st, a[0])
                    c = mkfz(x)
                    out = []
                    s2 = st.copy()
                    for s in E.assume(st, c):
                        out.append((s, Agg(0, ())))
                    for s in E.assume(s2, cnot(c)):
                        out.append((s, Agg(1, (FV(T, finv(ff(s).reduce(x))),))))
                    return out
                return inv
        return None
    return hook
