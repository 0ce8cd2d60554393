"""Integer polynomial domain.

A value is a Python int or a Poly: a linear combination of monomials over hash-consed symbols.
Symbols are atoms (inputs), floors of a poly by a positive constant ("quot"), remainders ("mod",
eliminable: mod = P - d*quot), 0/1 truth values of a comparison ("bit"), products of a join ("gate",
eliminable), bit operations kept opaque ("op").
Everything is a total deterministic function of the atoms, so equality of values is equality of
polynomials after the eliminable symbols are expanded.
"""
from math import gcd


class Undecided(Exception):
    pass


class Sym:
    __slots__ = ('id', 'kind', 'data', 'lo', 'hi', 'defn', 'n2', 'name')


SYMS = []
_ATOMS = {}
_QUOT = {}
_MOD = {}
_BIT = {}
_GATE = {}
_OP = {}
_LQ = {}
INF = float('inf')


def reset():
    SYMS.clear(); _ATOMS.clear(); _QUOT.clear(); _MOD.clear(); _BIT.clear(); _GATE.clear(); _OP.clear(); _LQ.clear()
    _NI.clear(); _SB.clear(); _N2.clear(); _N3.clear(); _EQ.clear()


class Poly:
    __slots__ = ('t', 'h')

    def __init__(self, t):
        self.t = t
        self.h = None

    def __hash__(self):
        if self.h is None:
            self.h = hash(frozenset(self.t.items()))
        return self.h

    def __eq__(self, o):
        return isinstance(o, Poly) and (self is o or (hash(self) == hash(o) and self.t == o.t))

    def __repr__(self):
        return show(self)


def mk(t):
    """Poly or int from a term dict (takes ownership)."""
    if not t:
        return 0
    if len(t) == 1 and () in t:
        return t[()]
    return Poly(t)


def terms(p):
    if isinstance(p, int):
        return {(): int(p)} if p else {}
    return p.t


def symp(s):
    return Poly({(s,): 1})


def newsym(kind, data, lo, hi, defn=None, name=None):
    s = Sym()
    s.id = len(SYMS)
    s.kind = kind
    s.data = data
    s.lo = lo
    s.hi = hi
    s.defn = defn
    s.n2 = None
    s.name = name
    SYMS.append(s)
    return s.id


def atom(name, lo, hi):
    k = name
    i = _ATOMS.get(k)
    if i is None:
        if lo == hi:
            return lo
        i = newsym('atom', None, lo, hi, None, name)
        _ATOMS[k] = i
    return symp(i)


def add(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    ta, tb = terms(a), terms(b)
    if len(ta) < len(tb):
        ta, tb = tb, ta
    t = dict(ta)
    for m, c in tb.items():
        v = t.get(m, 0) + c
        if v:
            t[m] = v
        else:
            del t[m]
    return mk(t)


def neg(a):
    if isinstance(a, int):
        return -a
    return Poly({m: -c for m, c in a.t.items()})


def sub(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    t = dict(terms(a))
    for m, c in terms(b).items():
        v = t.get(m, 0) - c
        if v:
            t[m] = v
        else:
            del t[m]
    return mk(t)


def scale(a, k):
    if k == 0:
        return 0
    if isinstance(a, int):
        return a * k
    if k == 1:
        return a
    return Poly({m: c * k for m, c in a.t.items()})


def mmul(x, y):
    if not x:
        return y
    if not y:
        return x
    return tuple(sorted(x + y))


def mul(a, b):
    if isinstance(a, int):
        return scale(b, a) if not isinstance(b, int) else a * b
    if isinstance(b, int):
        return scale(a, b)
    t = {}
    for m, c in a.t.items():
        for n, d in b.t.items():
            k = mmul(m, n)
            # boolean symbols are idempotent
            if len(k) > 1:
                k = idem(k)
            v = t.get(k, 0) + c * d
            if v:
                t[k] = v
            else:
                del t[k]
    return mk(t)


def idem(k):
    for i in range(len(k) - 1):
        if k[i] == k[i + 1]:
            s = SYMS[k[i]]
            if s.lo == 0 and s.hi == 1:
                out = []
                for x in k:
                    if out and out[-1] == x and SYMS[x].lo == 0 and SYMS[x].hi == 1:
                        continue
                    out.append(x)
                return tuple(out)
    return k


def subst(p, sid, val):
    """replace symbol sid by val in p"""
    if isinstance(p, int):
        return p
    rest = {}
    out = 0
    hit = False
    powers = {0: 1, 1: val}
    for m, c in p.t.items():
        n = m.count(sid)
        if n == 0:
            rest[m] = c
        else:
            hit = True
            m2 = tuple(x for x in m if x != sid)
            if n not in powers:
                v = val
                for _ in range(n - 1):
                    v = mul(v, val)
                powers[n] = v
            out = add(out, mul(powers[n], mk({m2: c})))
    if not hit:
        return p
    return add(mk(rest), out)


def symsof(p):
    if isinstance(p, int):
        return set()
    s = set()
    for m in p.t:
        s.update(m)
    return s


def show(p, depth=0):
    if isinstance(p, int):
        return hex(p) if abs(p) > 9999 else str(p)
    out = []
    for m, c in list(p.t.items())[:12]:
        cs = hex(c) if abs(c) > 9999 else str(c)
        out.append('*'.join([cs] + [symname(x) for x in m]))
    if len(p.t) > 12:
        out.append('...(%d terms)' % len(p.t))
    return ' + '.join(out)


def symname(i):
    s = SYMS[i]
    return s.name or ('%s%d' % (s.kind[0], i))


# ---------------------------------------------------------------- intervals
_NI = {}
_SB = {}


def isum(m, c, rng):
    """interval of c*monomial"""
    lo = hi = c
    i = 0
    n = len(m)
    while i < n:
        x = m[i]
        j = i
        while j < n and m[j] == x:
            j += 1
        e = j - i
        l, h = rng(x)
        if e % 2 == 0:
            if l >= 0:
                l, h = l ** e, h ** e
            elif h <= 0:
                l, h = h ** e, l ** e
            else:
                l, h = 0, max(-l, h) ** e
        elif e > 1:
            l, h = l ** e, h ** e
        c1, c2, c3, c4 = lo * l, lo * h, hi * l, hi * h
        lo = min(c1, c2, c3, c4)
        hi = max(c1, c2, c3, c4)
        i = j
    return lo, hi


def srng(x):
    s = SYMS[x]
    return s.lo, s.hi


def naive(p, rng=srng):
    if isinstance(p, int):
        return p, p
    if rng is srng:
        r = _NI.get(p)
        if r is not None:
            return r
    lo = hi = 0
    for m, c in p.t.items():
        if len(m) == 1:
            l, h = rng(m[0])
            if c > 0:
                lo += c * l
                hi += c * h
            else:
                lo += c * h
                hi += c * l
        elif not m:
            lo += c
            hi += c
        else:
            l, h = isum(m, c, rng)
            lo += l
            hi += h
    if rng is srng:
        _NI[p] = (lo, hi)
    return lo, hi


def note_range(p, lo, hi):
    """record a (fact free) range established for poly p by forward interval analysis"""
    if isinstance(p, int):
        return
    l, h = naive(p)
    if lo > l or hi < h:
        _NI[p] = (max(l, lo), min(h, hi))


def elim_upper(p, den, sid):
    """p/den with symbol sid replaced so that the result is an upper bound; None if not possible.
    Returns (p', den')."""
    s = SYMS[sid]
    if s.kind in ('mod', 'gate') and s.defn is not None:
        return subst(p, sid, s.defn), den
    if s.kind != 'quot':
        return None
    P, d = s.defn
    PN = n2(P)
    if isinstance(PN, int) or len(PN.t) < len(P.t):
        P = PN
    # linear occurrences only, cofactor sign must be known
    rest = {}
    pos = {}
    negt = {}
    for m, c in p.t.items():
        n = m.count(sid)
        if n == 0:
            rest[m] = c
            continue
        if n > 1:
            return None
        m2 = tuple(x for x in m if x != sid)
        if m2:
            l, h = isum(m2, 1, srng)
            if l < 0:
                return None
        if c > 0:
            pos[m2] = c
        else:
            negt[m2] = c
    # q <= P/d ; q >= (P-d+1)/d
    out = scale(mk(rest), d)
    if pos:
        out = add(out, mul(mk(pos), P))
    if negt:
        out = add(out, mul(mk(negt), sub(P, d - 1)))
    return out, den * d


def _elims(p, limit, rng, steps, best, local):
    """bound p by eliminating quotient, remainder and (unless local) joined symbols one at a time"""
    cur, den = p, 1
    gates = 0
    skipped = set()
    n = 0
    while n < steps:
        n += 1
        ss = [x for x in symsof(cur) if x not in skipped and SYMS[x].kind in ('quot', 'mod', 'gate')]
        if local:
            ss = [y for y in ss if SYMS[y].kind != 'gate']
        if not ss:
            break
        x = max(ss)
        if SYMS[x].kind == 'gate':
            gates += 1
            if gates > 8:
                break
        r = elim_upper(cur, den, x)
        if r is None:
            skipped.add(x)
            continue
        cur, den = r
        if isinstance(cur, int):
            best = min(best, cur // den)
            break
        g = den
        if den > 1:
            for c in cur.t.values():
                g = gcd(g, c)
                if g == 1:
                    break
            if g > 1:
                cur = Poly({m: c // g for m, c in cur.t.items()})
                den //= g
        h = naive(cur, rng)[1]
        if h != INF:
            b = h // den
            if b < best:
                best = b
        if limit is not None and best <= limit:
            return best
        if len(cur.t) > 3000:
            break
    return best


def elim_quots(p):
    """(p', den) with p <= p'/den and no quotient or remainder symbols left where they can be eliminated"""
    r = _EQ.get(p)
    if r is not None:
        return r
    cur, den = p, 1
    skipped = set()
    for _ in range(400):
        if isinstance(cur, int):
            break
        ss = [x for x in symsof(cur) if x not in skipped and SYMS[x].kind in ('quot', 'mod')]
        if not ss or len(cur.t) > 400:
            break
        e = elim_upper(cur, den, max(ss))
        if e is None:
            skipped.add(max(ss))
            continue
        cur, den = e
        if isinstance(cur, int):
            break
        g = den
        for c in cur.t.values():
            g = gcd(g, c)
            if g == 1:
                break
        if g > 1:
            cur = Poly({m: c // g for m, c in cur.t.items()})
            den //= g
    _EQ[p] = cur, den
    return cur, den


_EQ = {}


def upper(p, limit=None, rng=srng, deep=200):
    """static upper bound of p (floor)"""
    if isinstance(p, int):
        return p
    best = naive(p, rng)[1]
    if limit is not None and best <= limit:
        return best
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if len(m) == 1 and SYMS[m[0]].kind == 'quot':
            return best         # the symbol's own range was computed from its definition
    if rng is srng:
        r = _SB.get(p)
        if r is not None:
            return min(r, best)
    for local in ((True, False) if any(SYMS[x].kind == 'gate' for x in symsof(p)) else (False,)):
        best = _elims(p, limit, rng, 8 if local else deep, best, local)
        if limit is not None and best <= limit:
            return best
    if rng is srng:
        _SB[p] = best
    return best


def bounds(p, want=None, rng=srng):
    """(lo,hi) static; want=(l,h) lets it stop early"""
    if isinstance(p, int):
        return p, p
    lo, hi = naive(p, rng)
    if want is not None and lo >= want[0] and hi <= want[1]:
        return lo, hi
    h = upper(p, None if want is None else want[1], rng)
    l = -upper(neg(p), None if want is None else -want[0], rng)
    return max(l, lo), min(h, hi)


# ---------------------------------------------------------------- normal forms
_N2 = {}
_N3 = {}


def sym_n2(x):
    s = SYMS[x]
    if s.n2 is None:
        if s.kind == 'mod':
            P, d, q = s.data
            s.n2 = sub(n2(P), mul(d, q))
        else:
            return symp(x)
    return s.n2


def n2(p):
    """expand power-of-two style remainders"""
    if isinstance(p, int):
        return p
    r = _N2.get(p)
    if r is not None:
        return r
    out = {}
    for m, c in p.t.items():
        if any(SYMS[x].kind == 'mod' or (SYMS[x].n2 is not None and SYMS[x].kind == 'quot') for x in m):
            v = c
            for x in m:
                v = mul(v, sym_n2(x))
            for k, cc in terms(v).items():
                w = out.get(k, 0) + cc
                if w:
                    out[k] = w
                else:
                    del out[k]
        else:
            w = out.get(m, 0) + c
            if w:
                out[m] = w
            else:
                del out[m]
    r = mk(out)
    _N2[p] = r
    return r


def sym_n3(x):
    S = SYMS[x]
    if S.kind not in ('gate', 'mod'):
        return symp(x)
    # expand chains bottom up, so that long chains do not recurse deeply
    stack = [x]
    while stack:
        y = stack[-1]
        p = symp(y)
        if p in _N3:
            stack.pop()
            continue
        d = n2(SYMS[y].defn)
        need = [] if isinstance(d, int) else [z for z in symsof(d) if SYMS[z].kind in ('gate', 'mod') and symp(z) not in _N3]
        if need:
            stack.extend(need)
            continue
        _N3[p] = n3(d)
        stack.pop()
    return _N3[symp(x)]


def n3(p):
    """expand remainders and gates fully"""
    if isinstance(p, int):
        return p
    r = _N3.get(p)
    if r is not None:
        return r
    cur = n2(p)
    if not isinstance(cur, int) and any(SYMS[x].kind in ('gate', 'mod') for m in cur.t for x in m):
        out = {}
        for m, c in cur.t.items():
            if any(SYMS[x].kind in ('gate', 'mod') for x in m):
                v = c
                for x in m:
                    v = mul(v, sym_n3(x))
                if len(m) > 1:
                    v = n2(v)
                it = terms(v).items() if not isinstance(v, Poly) else v.t.items()
            else:
                it = ((m, c),)
            for k, cc in it:
                w = out.get(k, 0) + cc
                if w:
                    out[k] = w
                else:
                    del out[k]
        cur = mk(out)
    _N3[p] = cur
    return cur


def equal(a, b):
    if a is b:
        return True
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    d = sub(a, b)
    if d == 0:
        return True
    if isinstance(d, int):
        return False
    d = n2(d)
    if isinstance(d, int):
        return d == 0
    if any(SYMS[x].kind == 'gate' for x in symsof(d)):
        d = n3(d)
    return d == 0


# ---------------------------------------------------------------- quotients and remainders
def _split(p, d):
    """p = d*H + L (exact parts pulled out)"""
    H = {}
    L = {}
    for m, c in terms(p).items():
        if c % d == 0:
            H[m] = c // d
        elif c >= d or c <= -d:
            q = c // d if c > 0 else -((-c) // d)
            H[m] = q
            L[m] = c - q * d
        else:
            L[m] = c
    return mk(H), mk(L)


def quot(p, d):
    """floor(p/d)"""
    assert d > 0
    if d == 1:
        return p
    if isinstance(p, int):
        return p // d
    H, L = _split(p, d)
    r = _quotL(L, d, False)
    if r is not None:
        return add(H, r)
    g = d
    for c in L.t.values():
        g = gcd(g, c)
        if g == 1:
            break
    if g > 1:
        return add(H, quot(Poly({m: c // g for m, c in L.t.items()}), d // g))
    H2, L2 = _split(n2(L), d)
    r = None
    if isinstance(L2, Poly) and len(L2.t) > 1:
        # floor((floor(P/d0) + R)/d) = floor((P + d0*R)/(d0*d))
        best = None
        for m, c in L2.t.items():
            if c == 1 and len(m) == 1 and SYMS[m[0]].kind == 'quot' and SYMS[m[0]].n2 is None:
                if best is None or m[0] > best:
                    best = m[0]
        if best is not None:
            P0, d0 = SYMS[best].data
            rest = mk({m: c for m, c in L2.t.items() if m != (best,)})
            r = n2(quot(add(P0, scale(rest, d0)), d * d0))
            lo, hi = bounds(L2)
            note_range(r, lo // d, hi // d)
    if r is None:
        r = _quotL(L2, d, True, L)
    canon = add(H2, r)
    if isinstance(canon, int):
        return add(H, canon)
    if H2 != 0 or len(canon.t) > 1:
        # a local name for the floor, so that its range stays visible; n2 expands it
        lo, hi = bounds(L)
        lo, hi = lo // d, hi // d
        note_range(canon, lo, hi)
        ck = n2(canon)
        i = _LQ.get(ck)
        if i is None:
            i = newsym('quot', (L, d), lo, hi, (L, d))
            SYMS[i].n2 = ck
            _LQ[ck] = i
        canon = symp(i)
    return add(H, canon)


def _quotL(L, d, make, nice=None):
    if isinstance(L, int):
        return L // d
    lo, hi = naive(L)
    if lo // d == hi // d:
        return lo // d
    lo, hi = bounds(L)
    if lo // d == hi // d:
        return lo // d
    # floor((q + r)/d), q a floor symbol by d0 alone -> floor(P/(d0*d))
    if len(L.t) == 1:
        (m, c), = L.t.items()
        if c == 1 and len(m) == 1:
            s = SYMS[m[0]]
            if s.kind == 'quot':
                P0, d0 = s.data
                return quot(P0, d0 * d)
            if s.kind == 'mod':
                P0, d0, q0 = s.data
                if d0 % d == 0:
                    # floor((P0 mod d0)/d) = floor(P0/d) - (d0/d)*floor(P0/d0): a digit of P0
                    return digit(P0, d, d0 // d)
    g = d
    for c in L.t.values():
        g = gcd(g, c)
        if g == 1:
            break
    if g > 1:
        return quot(Poly({m: c // g for m, c in L.t.items()}), d // g)
    if not make:
        return None
    key = (L, d)
    i = _QUOT.get(key)
    if i is None:
        ni = nice if nice is not None and equal(nice, L) else L
        i = newsym('quot', (L, d), lo // d, hi // d, (ni, d))
        _QUOT[key] = i
    return symp(i)


def digit(p, d, k):
    """floor(p/d) mod k"""
    return mod(quot(p, d), k)


def mod(p, d):
    """p mod d as a named symbol (range [0,d-1]) unless it simplifies"""
    if isinstance(p, int):
        return p % d
    lo, hi = naive(p)
    if 0 <= lo and hi < d:
        return p
    H, L = _split(p, d)
    if isinstance(L, int):
        return L % d
    l, h = bounds(L, (0, d - 1))
    if 0 <= l and h < d:
        note_range(L, 0, d - 1)
        return L
    if H != 0:
        # p mod d = L mod d
        return mod(L, d) if L != p else _mod(p, d)
    return _mod(p, d)


def _mod(L, d):
    key0 = n2(L)
    H, K = _split(key0, d)
    if isinstance(K, int):
        return K % d
    key = (K, d)
    i = _MOD.get(key)
    if i is None:
        q = quot(K, d)
        r = sub(K, scale(q, d))
        if isinstance(r, int):
            return r
        if isinstance(q, int):
            # K - const: still give it its range
            note_range(r, 0, d - 1)
            if len(r.t) <= 2:
                return r
        qn = quot(L, d)
        i = newsym('mod', (K, d, q), 0, d - 1, sub(L, scale(qn, d)))
        _MOD[key] = i
    return symp(i)


def bitsym(p):
    """0/1 value of (p >= 0)"""
    lo, hi = bounds(p, None)
    if lo >= 0:
        return 1
    if hi < 0:
        return 0
    key = n2(p)
    i = _BIT.get(key)
    if i is None:
        nk = n2(sub(-1, p))
        j = _BIT.get(nk)
        if j is not None:
            return sub(1, symp(j))
        i = newsym('bit', ('ge', p), 0, 1)
        _BIT[key] = i
    return symp(i)


def eqsym(p):
    """0/1 value of (p == 0)"""
    key = n2(p)
    if isinstance(key, int):
        return int(key == 0)
    first = next(iter(sorted(key.t)))
    if key.t[first] < 0:
        key = neg(key)
    k = ('eq', key)
    i = _BIT.get(k)
    if i is None:
        i = newsym('bit', ('eq', p), 0, 1)
        _BIT[k] = i
    return symp(i)


def gate(defn, lo, hi):
    """name a joined value"""
    if isinstance(defn, int):
        return defn
    key = n2(defn)
    i = _GATE.get(key)
    if i is None:
        l, h = bounds(defn)
        i = newsym('gate', defn, max(lo, l), min(hi, h), defn)
        _GATE[key] = i
    else:
        s = SYMS[i]
        s.lo = max(s.lo, lo)
        s.hi = min(s.hi, hi)
    return symp(i)


def opsym(name, args, lo, hi):
    key = (name,) + tuple(n2(a) if isinstance(a, (int, Poly)) else a for a in args)
    i = _OP.get(key)
    if i is None:
        i = newsym('op', (name, args), lo, hi, None, None)
        _OP[key] = i
    return symp(i)


# ---------------------------------------------------------------- exact division
def _lead(p):
    return max(p.t, key=lambda m: (len(m), m))


def _mdiv(m, n):
    """monomial quotient m/n or None"""
    m = list(m)
    for x in n:
        if x not in m:
            return None
        m.remove(x)
    return tuple(m)


def divide(d, f, maxn=400):
    """q with d = q*f, or None"""
    if isinstance(d, int):
        return 0 if d == 0 else None
    if isinstance(f, int):
        return None
    lf = _lead(f)
    cf = f.t[lf]
    q = {}
    for _ in range(maxn):
        ld = _lead(d)
        c = d.t[ld]
        if c % cf:
            return None
        m = _mdiv(ld, lf)
        if m is None:
            return None
        q[m] = c // cf
        d = sub(d, mul(mk({m: c // cf}), f))
        if isinstance(d, int):
            return mk(q) if d == 0 else None
        if _lead(d) == ld:
            return None
    return None


def split2(d, f, g):
    """integers (a,b) with d = a*f + b*g, or None"""
    D, F, G = [terms(x) if not isinstance(x, int) else {(): x} for x in (d, f, g)]
    keys = set(D) | set(F) | set(G)
    rows = [(F.get(k, 0), G.get(k, 0), D.get(k, 0)) for k in keys]
    sol = None
    p = next((r for r in rows if r[0] or r[1]), None)
    if p is None:
        return None
    for r in rows:
        det = p[0] * r[1] - p[1] * r[0]
        if det:
            a = p[2] * r[1] - p[1] * r[2]
            b = p[0] * r[2] - p[2] * r[0]
            if a % det or b % det:
                return None
            sol = (a // det, b // det)
            break
    if sol is None:
        # one independent row: use f alone, then g alone
        if p[0] and p[2] % p[0] == 0:
            sol = (p[2] // p[0], 0)
        elif p[1] and p[2] % p[1] == 0:
            sol = (0, p[2] // p[1])
        else:
            return None
    a, b = sol
    if any(x * a + y * b != z for x, y, z in rows):
        return None
    return sol


# ---------------------------------------------------------------- facts
class Facts:
    """conjunction of path facts: polys known >= 0, polys known != 0, symbols fixed"""
    __slots__ = ('ge', 'ne', 'eq', 'zero', '_rg', '_memo')

    def __init__(self, ge=(), ne=(), eq=(), zero=()):
        self.ge = ge      # tuple of Poly >= 0
        self.ne = ne
        self.eq = eq      # tuple of (sid, value) substitutions, and general polys ==0 kept in ge both ways
        self.zero = zero  # polys (n2 form) known to be 0
        self._rg = None
        self._memo = {}

    def key(self):
        return (frozenset(self.ge), frozenset(self.ne), frozenset(self.eq))

    def rng(self):
        ov = {}
        for p in self.ge:
            if len(p.t) <= 2:
                # c*x + k >= 0
                mono = [m for m in p.t if m]
                if len(mono) == 1 and len(mono[0]) == 1:
                    x = mono[0][0]
                    c = p.t[mono[0]]
                    k = p.t.get((), 0)
                    lo, hi = ov.get(x, srng(x))
                    if c > 0:
                        lo = max(lo, -(k // c))
                    else:
                        hi = min(hi, k // -c)
                    ov[x] = (lo, hi)
        for p in self.ne:
            if len(p.t) <= 2:
                mono = [m for m in p.t if m]
                if len(mono) == 1 and len(mono[0]) == 1:
                    x = mono[0][0]
                    c = p.t[mono[0]]
                    k = p.t.get((), 0)
                    if k % c == 0:
                        v = -k // c
                        lo, hi = ov.get(x, srng(x))
                        if v == lo:
                            lo += 1
                        if v == hi:
                            hi -= 1
                        ov[x] = (lo, hi)
        return ov

    def ranger(self):
        ov = self.rng()
        if not ov:
            return srng

        def r(x):
            v = ov.get(x)
            return v if v is not None else srng(x)
        return r

    def upper(self, p, limit=None, cases=False):
        """upper bound of p under the facts"""
        if isinstance(p, int):
            return p
        best = upper(p, limit)
        if limit is not None and best <= limit:
            return best
        if not (self.ge or self.ne or self.eq):
            return min(best, self.bitcases(p, limit, best)) if cases and limit is not None else best
        r = self.ranger()
        if r is not srng:
            best = min(best, upper(p, limit, r))
            if limit is not None and best <= limit:
                return best
        p2 = self.simp(p)
        if p2 != p:
            best = min(best, upper(p2, limit, r))
            if limit is not None and best <= limit:
                return best
        best = min(best, self._lin(p, limit, r, 2))
        if limit is not None and best <= limit:
            return best
        q = n2(p2)
        if q != p:
            best = min(best, self._lin(q, limit, r, 2))
            if limit is not None and best <= limit:
                return best
        for x in (p,) if p2 == p else (p, p2):
            cur, den = elim_quots(x)
            if den > 1:
                lim = None if limit is None else limit * den + den - 1
                best = min(best, self._lin(cur, lim, r, 1) // den)
                if limit is not None and best <= limit:
                    break
        if cases and limit is not None and best > limit:
            best = min(best, self.bitcases(p, limit, best))
        return best

    def bitcases(self, p, limit, best):
        """bound by cases on one 0/1 symbol occurring in p"""
        q, den = elim_quots(p)
        q = n2(q)
        for _ in range(2):
            if isinstance(q, int):
                return q // den
            g = [x for x in symsof(q) if SYMS[x].kind == 'gate']
            if not g:
                break
            q = n2(subst(q, max(g), SYMS[max(g)].defn))
        if isinstance(q, int):
            return q // den
        bits = [x for x in symsof(q) if SYMS[x].kind == 'bit']
        if len(q.t) > 30 or not 1 <= len(bits) <= 2:
            return best
        x = max(bits)
        kind, c = SYMS[x].data
        if kind != 'ge':
            return best
        out = -INF
        for v in (0, 1):
            h = c if v else sub(-1, c)
            F = Facts(self.ge + (h,), self.ne, self.eq, self.zero)
            y = n2(subst(q, x, v))
            w = y if isinstance(y, int) else F.upper(y, limit * den + den - 1)
            w = w if w == INF else w // den
            if w > limit and F.upper(h, -1) >= 0:
                return best
            out = max(out, min(w, limit))
        return out

    def _lin(self, p, limit, r, depth):
        """p <= p + l*f for every fact f>=0, l>=0; choose l cancelling a monomial"""
        best = upper(p, limit, r) if not isinstance(p, int) else p
        if limit is not None and best <= limit:
            return best
        if depth == 0 or isinstance(p, int):
            return best
        for f0 in self.ge:
            for f in {f0, n2(f0)}:
                if isinstance(f, int):
                    continue
                tried = set()
                for m, c in f.t.items():
                    if not m:
                        continue
                    c0 = p.t.get(m, 0)
                    if c0 == 0 or (c0 > 0) == (c > 0):
                        continue
                    g = gcd(c0, c)
                    a, b = abs(c) // g, abs(c0) // g
                    if (a, b) in tried:
                        continue
                    tried.add((a, b))
                    cand = add(scale(p, a), scale(f, b))
                    lim = None if limit is None else limit * a + a - 1
                    if isinstance(cand, int):
                        v = cand
                    else:
                        v = self._lin(cand, lim, r, depth - 1)
                    if v != INF:
                        v = v // a
                    if v < best:
                        best = v
                    if limit is not None and best <= limit:
                        return best
        return best

    def lower(self, p, limit=None):
        if isinstance(p, int):
            return p
        return -self.upper(neg(p), None if limit is None else -limit)

    def simp(self, p):
        """apply fixed symbols"""
        if isinstance(p, int) or not self.eq:
            return p
        for _ in range(3):
            q = p
            for sid, v in self.eq:
                q = subst(q, sid, v)
                if isinstance(q, int):
                    return q
            if q == p:
                break
            p = q
        return p

    def is_zero(self, p, depth=10000):
        """provably p == 0 under the facts"""
        if isinstance(p, int):
            return p == 0
        if equal(p, 0):
            return True
        k = n2(p)
        for f in self.zero:
            if divide(k, f) is not None:
                return True
        if not (self.ge or self.eq):
            l, h = bounds(p, None)
            return l == 0 and h == 0
        q = self.reval(p, depth)
        if isinstance(q, int):
            return q == 0
        if equal(q, 0):
            return True
        return self.upper(p, 0) <= 0 and self.lower(p, 0) >= 0

    def reval(self, p, depth=10000, cases=False):
        """re-evaluate p with bits decided by the facts and fixed symbols substituted"""
        if isinstance(p, int):
            return p
        memo = {}
        ed = dict(self.eq)

        def rs(x, D):
            if x in memo:
                return memo[x]
            if x in ed:
                v = ed[x]
                memo[x] = symp(x)
                v = rp(v, D - 1)
            else:
                s = SYMS[x]
                if s.kind == 'bit':
                    kind, q = s.data
                    v = self.decide_bit(kind, q)
                    if v is None:
                        v = symp(x)
                elif s.kind == 'quot':
                    P, d = s.data
                    P2 = rp(P, D - 1)
                    v = symp(x) if P2 is P or P2 == P else quot(P2, d)
                    if isinstance(v, Poly) and s.hi - s.lo <= 2:
                        c = self.small_quot(P2, d, cases)
                        if c is not None:
                            v = c
                elif s.kind == 'mod':
                    P, d, _ = s.data
                    P2 = rp(P, D - 1)
                    v = symp(x) if P2 is P or P2 == P else mod(P2, d)
                elif s.kind == 'gate':
                    P2 = rp(s.defn, D - 1)
                    v = symp(x) if P2 == s.defn else P2
                else:
                    v = symp(x)
            memo[x] = v
            return v

        def rp(q, D):
            if isinstance(q, int) or D <= 0:
                return q
            ch = {}
            for x in symsof(q):
                v = rs(x, D)
                if not (isinstance(v, Poly) and v.t.get((x,)) == 1 and len(v.t) == 1):
                    ch[x] = v
            if not ch:
                return q
            out = 0
            for m, c in q.t.items():
                if any(x in ch for x in m):
                    v = c
                    for x in m:
                        v = mul(v, ch.get(x) if x in ch else symp(x))
                    out = add(out, v)
                else:
                    out = add(out, mk({m: c}))
            return out
        for _ in range(4):
            q = rp(p, depth)
            if q == p:
                break
            p = q
            memo.clear()
        return p

    def pin(self, p):
        """replace wrap-around counts that the facts fix (one level)"""
        if isinstance(p, int) or not self.ge:
            return p
        p = n2(p)
        if isinstance(p, int):
            return p
        for x in list(symsof(p)):
            s = SYMS[x]
            if s.kind == 'quot' and s.hi - s.lo <= 3:
                c = self.small_quot(n2(s.data[0]), s.data[1])
                if c is not None:
                    p = subst(p, x, c)
                    if isinstance(p, int):
                        return p
        return p

    def small_quot(self, P, d, cases=False):
        """floor(P/d) when the facts pin it"""
        if isinstance(P, int):
            return P // d
        k = ('sq', P, d, cases)
        if k in self._memo:
            return self._memo[k]
        self._memo[k] = None
        r = None
        ms = symsof(P)
        if cases or any(ms & symsof(n2(f)) or ms & symsof(f) for f in self.ge):
            lo = self.lower(P) // d
            hi = self.upper(P) // d
            if lo == hi:
                r = lo
            elif cases and hi - lo <= 2:
                for t in range(lo, hi + 1):
                    if self.upper(P, t * d + d - 1, True) < t * d + d and -self.upper(neg(P), -t * d, True) >= t * d:
                        r = t
                        break
        self._memo[k] = r
        return r

    def decide_bit(self, kind, q):
        if kind == 'ge':
            return self.decide_ge(q)
        return self.decide_eq(q)

    def decide_ge(self, q, quick=True):
        """1/0/None for q >= 0"""
        if isinstance(q, int):
            return int(q >= 0)
        k = n2(q)
        for f in self.ge:
            if f == q or f == k:
                return 1
            d = sub(k, n2(f))       # q = f + d
            if isinstance(d, int) and d >= 0:
                return 1
            d = add(k, n2(f))       # q = d - f
            if isinstance(d, int) and d < 0:
                return 0
        return None

    def decide_eq(self, q):
        if isinstance(q, int):
            return int(q == 0)
        k = n2(q)
        for f in self.ne:
            g = n2(f)
            if g == k or add(g, k) == 0:
                return 0
        a = self.decide_ge(q)
        b = self.decide_ge(neg(q))
        if a == 1 and b == 1:
            return 1
        if a == 0 or b == 0:
            return 0
        return None
