"""statement/terminator execution, scheduling, joins"""
from interp import *
import interp as IN
import poly as PL
from math import gcd


class Runner(Engine):
    # ---------------------------------------------------------------- rvalues
    def crvalue(self, B, rv, dest, term):
        k = rv[0]
        P = self.P
        if k == 'use':
            op = rv[1]
            if op[0] == 'move' and not op[1][1]:
                local = op[1][0]

                def mv(st):
                    try:
                        return st.mem.pop((st.fk, local))
                    except KeyError:
                        return UNDEF
                return mv
            return self.coperand(B, op)
        if k == 'ref':
            f, t = self.cplace(B, rv[1])

            def ref(st):
                key, path, meta = f(st)
                if key == ('zst',):
                    return Ptr(('dang',), (0,), None)
                return Ptr(key, path, meta)
            return ref
        if k in ('bin', 'cbin'):
            op = rv[1]
            fa = self.coperand(B, rv[2])
            fb = self.coperand(B, rv[3])
            ty = rv[4]
            if k == 'bin':
                return lambda st: self.binop(op, fa(st), fb(st), ty, st)
            asserted = (term[0] == 'assert' and term[1][0] in ('move', 'copy') and term[1][1][0] == dest[0])
            lo, hi, w = self.intty(ty)

            def cb(st):
                a = fa(st)
                b = fb(st)
                if isinstance(a, int) and isinstance(b, int):
                    r = a + b if op == 'Add' else a - b if op == 'Sub' else a * b
                    if lo <= r <= hi:
                        return Agg(0, (r, False))
                    return Agg(0, (self.concop(op, a, b, ty), True))
                if not isinstance(a, (int, Poly)) or not isinstance(b, (int, Poly)):
                    raise Undecided('arithmetic on %s,%s' % (type(a).__name__, type(b).__name__))
                r = add(a, b) if op == 'Add' else sub(a, b) if op == 'Sub' else PL.mul(a, b)
                self.fwd(op, a, b, r)
                if isinstance(r, int):
                    l = h = r
                else:
                    l, h = bounds(r, (lo, hi))
                if l >= lo and h <= hi:
                    note_range(r, lo, hi)
                    return Agg(0, (r, False))
                if st.facts.ge or st.facts.ne or st.facts.eq:
                    l2 = st.facts.lower(r, lo)
                    h2 = st.facts.upper(r, hi)
                    if l2 >= lo and h2 <= hi:
                        return Agg(0, (r, False))
                c1 = mkcond('ge', sub(r, hi + 1)) if h > hi else False
                c2 = mkcond('ge', sub(lo - 1, r)) if l < lo else False
                c = self.boolop('BitOr', c1, c2)
                if asserted:
                    return Agg(0, (r, c))
                return Agg(0, (self.wrap(st, r, lo, hi, w), c))
            return cb
        if k == 'un':
            op = rv[1]
            fa = self.coperand(B, rv[2])
            ty = rv[3]
            if op == 'Not':
                T = P.types[P.strip(ty)]
                if T['k'] == 'bool':
                    return lambda st: cnot(fa(st))
                lo, hi, w = self.intty(ty)
                if lo < 0:
                    return lambda st: sub(-1, fa(st))
                return lambda st: sub(hi, fa(st))
            if op == 'Neg':
                lo, hi, w = self.intty(ty)
                return lambda st: self.wrap(st, neg(fa(st)), lo, hi, w)
            if op == 'PtrMetadata':
                def pm(st):
                    v = fa(st)
                    if isinstance(v, Ptr):
                        return v.meta if v.meta is not None else UNIT
                    return self._ptr(st, v)[2]
                return pm
            raise Undecided('unary ' + op)
        if k == 'cast':
            return self.ccast(B, rv)
        if k == 'discr':
            f = self.rplace(B, rv[1])
            t = self.opty(B, ['copy', rv[1]])
            T = P.types[P.strip(t)] if P.erased(t) is not None else P.types[t]
            dmap = None
            if T['k'] == 'adt' and T['ak'] == 'enum':
                dmap = [int(v['discr'][0]) if v.get('discr') else i for i, v in enumerate(T['variants'])]

            zd = None
            if P.zst(t) and dmap:
                for i, v in enumerate(T['variants']):
                    if not any(self.uninhabited(x[1]) for x in v['fields']):
                        zd = dmap[i]
                        break

            def dis(st):
                v = f(st)
                if zd is not None:
                    return zd
                if isinstance(v, Agg):
                    return dmap[v.v] if dmap else 0
                ex = getattr(v, 'discr', None)
                if ex is not None:
                    return ex(self, st)
                raise Undecided('discriminant of %r' % (v,))
            return dis
        if k == 'len':
            f, t = self.cplace(B, rv[1])

            def ln(st):
                key, path, meta = f(st)
                if meta is not None:
                    return meta
                return len(self.load(st, key, path).f)
            return ln
        if k == 'repeat':
            fa = self.coperand(B, rv[1])
            n = int(rv[2])
            return lambda st: Arr((fa(st),) * n)
        if k == 'agg':
            kind, ops, ty = rv[1], rv[2], rv[3]
            fs = [self.coperand(B, o) for o in ops]
            if kind == 'array':
                return lambda st: Arr(tuple([f(st) for f in fs]))
            if kind == 'tuple':
                if not fs:
                    return lambda st: UNIT
                return lambda st: Agg(0, tuple([f(st) for f in fs]))
            if kind == 'adt':
                v = rv[4] if len(rv) > 4 and rv[4] is not None else 0
                T = P.types[ty]
                e = P.erased(ty)
                if e is not None:
                    f = fs[e]
                    return f
                return lambda st: Agg(v, tuple([f(st) for f in fs]))
            if kind == 'union':
                f = fs[0]
                return f
            if kind == 'closure':
                return lambda st: Agg(0, tuple([f(st) for f in fs]))
            if kind == 'rawptr':
                def rp(st):
                    p = fs[0](st)
                    m = fs[1](st)
                    if isinstance(p, int):
                        p = Ptr(('dang',), (0,))
                    if isinstance(m, Agg):
                        return Ptr(p.key, p.path, None)
                    if not p.path:
                        raise Undecided('slice made from a pointer to a single object')
                    return Ptr(p.key, p.path, m)
                return rp
            raise Undecided('aggregate ' + kind)
        raise Undecided('rvalue ' + k)

    def uninhabited(self, t):
        T = self.P.types[t]
        return T['k'] == 'never' or (T['k'] == 'adt' and T['ak'] == 'enum' and not T['variants'])

    def pointee(self, t):
        P = self.P
        T = P.types[P.strip(t)]
        if T['k'] in ('ref', 'ptr'):
            return T['to']
        return None

    def ccast(self, B, rv):
        P = self.P
        kind, op, ty, sty = rv[1], rv[2], rv[3], rv[4]
        fa = self.coperand(B, op)
        if kind == 'IntToInt':
            lo, hi, w = self.intty(ty)
            S = P.types[P.strip(sty)]
            sl, sh, sw = (0, 255, 8)
            if S['k'] not in ('adt',):
                sl, sh, sw = self.intty(sty)

            def i2i(st):
                v = fa(st)
                if isinstance(v, (bool, Cond)):
                    v = cond_int(v)
                if isinstance(v, Agg):
                    T = S
                    d = [int(x['discr'][0]) if x.get('discr') else i for i, x in enumerate(T['variants'])]
                    v = d[v.v]
                if isinstance(v, int):
                    return self.wrap(st, v, lo, hi, w)
                if not isinstance(v, Poly):
                    raise Undecided('cast of %r' % (v,))
                if sl >= lo and sh <= hi:
                    return v
                return self.wrap(st, v, lo, hi, w)
            return i2i
        if kind == 'Unsize':
            sp, dp = self.pointee(sty), self.pointee(ty)
            if sp is None:
                return fa
            S, D = P.types[P.strip(sp)], P.types[dp]
            if S['k'] == 'array' and D['k'] in ('slice',) or S['k'] == 'array' and D['k'] == 'adt':
                n = int(S['len'])

                def us(st):
                    p = fa(st)
                    if p.meta is not None:
                        return p
                    return Ptr(p.key, p.path + (0,), n)
                return us
            dd = P.dst(P.strip(dp))
            if dd is not None and S['k'] == 'adt':
                while S['k'] == 'adt':
                    S = P.types[P.strip(S['variants'][0]['fields'][-1][1])]
                n = int(S['len'])
                return lambda st: Ptr(*(lambda p: (p.key, p.path, n))(fa(st)))
            return fa
        if kind in ('PtrToPtr', 'Transmute', 'Subtype') or kind.startswith('Ptr') or kind.startswith('Reify') or 'Pointer' in kind:
            if 'Expose' in kind and self.P.types[self.P.strip(ty)]['k'] == 'int':
                raise Undecided('an address used as a number')
            if kind == 'Transmute':
                return self.ctransmute(B, fa, ty, sty)
            sp, dp = self.pointee(sty), self.pointee(ty)
            if sp is None or dp is None:
                if 'Reify' in kind or 'Closure' in kind:
                    fi = rv[5]
                    return lambda st: Agg(0, (('fn', fi),))
                return fa
            return self.ptrcast(fa, sp, dp)
        if kind in ('FnPtrToPtr',):
            return fa
        if kind == 'BoxDerefTransmute':
            # the raw pointer inside a Box
            def raw(st):
                v = fa(st)
                while isinstance(v, Agg):
                    v = v.f[0]
                return v
            return raw
        if 'Reify' in kind or 'Closure' in kind:
            fi = rv[5]
            return lambda st: Agg(0, (('fn', fi),))
        raise Undecided('cast ' + kind)

    def ptrcast(self, fa, sp, dp):
        P = self.P
        a, b = P.strip(sp), P.strip(dp)
        A, D = P.types[a], P.types[b]
        if a == b:
            return fa
        if A['k'] in ('slice', 'str') or (A['k'] == 'adt' and A['size'] is None):
            if D['k'] in ('slice', 'str') or (D['k'] == 'adt' and D.get('size') is None):
                return fa

            def s2t(st):
                p = fa(st)
                if not isinstance(p, Ptr):
                    return p
                if D['k'] == 'array' and not (A['k'] == 'slice' and P.strip(A['elem']) == b):
                    return Ptr(p.key, p.path, int(D['len']))
                return Ptr(p.key, p.path, None)
            return s2t
        if A['k'] == 'array' and D['k'] != 'array':
            if P.strip(A['elem']) == b:
                def a2e(st):
                    p = fa(st)
                    if isinstance(p, Ptr) and p.meta is None and p.key != ('dang',):
                        return Ptr(p.key, p.path + (0,), None)
                    if isinstance(p, Ptr):
                        return Ptr(p.key, p.path, None)
                    return p
                return a2e
            if D['k'] == 'array' or True:
                return fa
        if D['k'] == 'array' and A['k'] != 'array':
            if P.strip(D['elem']) == a:
                n = int(D['len'])

                def e2a(st):
                    p = fa(st)
                    if isinstance(p, Ptr):
                        # pointer to the first element of a whole array of that length: the array itself
                        if p.path and p.path[-1] == 0 and p.key != ('dang',):
                            try:
                                c = self.load(st, p.key, p.path[:-1])
                                if isinstance(c, Arr) and not isinstance(c.f, SymElems) and len(c.f) == n:
                                    return Ptr(p.key, p.path[:-1], None)
                            except Undecided:
                                pass
                        return Ptr(p.key, p.path, n)
                    return p
                return e2a
        return fa

    def ctransmute(self, B, fa, ty, sty):
        P = self.P
        a, b = P.strip(sty), P.strip(ty)
        A, D = P.types[a], P.types[b]
        if a == b:
            return fa
        if A['k'] in ('ref', 'ptr') and D['k'] in ('ref', 'ptr'):
            return self.ptrcast(fa, A['to'], D['to'])
        if A['k'] == 'array' and D['k'] == 'array':
            if P.strip(A['elem']) == P.strip(D['elem']):
                return fa
        if A['k'] == 'int' and D['k'] == 'array':
            w = A['bits'] // 8
            eb = P.types[P.strip(D['elem'])]
            if eb['k'] == 'int':
                ew = eb['bits']

                def i2b(st):
                    v = fa(st)
                    return Arr(tuple(mod(quot(v, 1 << (ew * i)), 1 << ew) for i in range(int(D['len']))))
                return i2b
        if A['k'] == 'array' and D['k'] == 'int':
            eb = P.types[P.strip(A['elem'])]
            if eb['k'] == 'int' and not D['signed']:
                ew = eb['bits']

                def b2i(st):
                    v = fa(st)
                    r = 0
                    for i, x in enumerate(v.f):
                        r = add(r, scale(x, 1 << (ew * i)))
                    return r
                return b2i
        if A['k'] == 'array' and D['k'] == 'array':
            ea, eb = P.types[P.strip(A['elem'])], P.types[P.strip(D['elem'])]
            if ea['k'] == 'int' and eb['k'] == 'int':
                wa, wb = ea['bits'], eb['bits']

                def a2a(st):
                    v = fa(st)
                    r = 0
                    for i, x in enumerate(v.f):
                        r = add(r, scale(x, 1 << (wa * i)))
                    return Arr(tuple(mod(quot(r, 1 << (wb * i)), 1 << wb) for i in range(int(D['len']))))
                return a2a
        if A['k'] in ('int', 'char', 'bool', 'ptr', 'ref') and D['k'] in ('int', 'char', 'bool', 'ptr', 'ref'):
            def sc(st):
                v = fa(st)
                if isinstance(v, int) and not isinstance(v, bool) and D['k'] in ('ptr', 'ref'):
                    return Ptr(('dang',), (0,), None)
                if D['k'] == 'bool' and isinstance(v, (int, Poly)) and not isinstance(v, bool):
                    return cnot(mkcond('eq', v))
                if A['k'] == 'bool' and D['k'] == 'int':
                    return cond_int(v)
                if isinstance(v, int) and D['k'] == 'int' and A['k'] == 'int':
                    return self.concop('Add', v, 0, ty)
                return v
            return sc

        if A['k'] == 'adt' and D['k'] == 'adt' and A['ak'] == 'struct' and D['ak'] == 'struct':
            return fa
        if A['k'] == 'int' and D['k'] == 'adt' and D['ak'] == 'enum' and len(D['variants']) == 2 \
                and [len(v['fields']) for v in D['variants']] == [0, 1]:
            # Option<NonZero<..>>: the niche is zero
            def i2nz(st):
                v = fa(st)
                c = v == 0 if isinstance(v, int) else self.sure(st, mkcond('eq', v))
                return Agg(0, ()) if c else Agg(1, (v,))
            return i2nz
        if D['k'] == 'int' and A['k'] == 'adt' and A['ak'] == 'enum' and len(A['variants']) == 2 \
                and [len(v['fields']) for v in A['variants']] == [0, 1]:
            def nz2i(st):
                v = fa(st)
                return v.f[0] if v.v else 0
            return nz2i
        if A['k'] == 'int' and D['k'] == 'adt' and D['ak'] == 'enum':
            vals = {}
            for i, v in enumerate(D['variants']):
                vals[int(v['discr'][0]) if v.get('discr') else i] = i

            def i2e(st):
                v = fa(st)
                v = self.cint(st, v)
                if v not in vals:
                    raise Undecided('transmute to enum')
                return Agg(vals[v], ())
            return i2e
        if D['k'] == 'adt' and D['ak'] == 'enum' and A['k'] in ('ref', 'ptr'):
            # Option<&T> / Option<NonNull<T>> from a pointer that is known not to be null
            return lambda st: Agg(1, (fa(st),))

        def bad(st):
            raise Undecided('transmute %s -> %s' % (A['k'] + str(A.get('name', '')), D['k'] + str(D.get('name', ''))))
        return bad

    # ---------------------------------------------------------------- blocks
    def compile_block(self, B, bb):
        stmts, term = B.raw['blocks'][bb]
        out = []
        for s in stmts:
            k = s[0]
            if k == '=':
                dest = s[1]
                t = self.opty(B, ['copy', dest])
                rv = s[2]
                try:
                    f = self.crvalue(B, rv, dest, term)
                except Undecided as e:
                    f = self._late(str(e))
                if not dest[1]:
                    local = dest[0]

                    def asg(st, f=f, local=local):
                        st.mem[(st.fk, local)] = f(st)
                    out.append((asg, s[3]))
                else:
                    if self.P.zst(t):
                        continue
                    g, _ = self.cplace(B, dest)

                    def asgp(st, f=f, g=g):
                        v = f(st)
                        key, path, meta = g(st)
                        if meta is not None:
                            n = self.cint(st, meta)
                            for i in range(n):
                                self.store(st, key, path[:-1] + (path[-1] + i,), v.f[i])
                            return
                        self.storex(st, key, path, v)
                    out.append((asgp, s[3]))
            elif k == 'sdead':
                local = s[1]

                def sd(st, local=local):
                    st.mem.pop((st.fk, local), None)
                out.append((sd, 0))
            elif k == 'sl':
                pass
            elif k == 'sd':
                g, _ = self.cplace(B, s[1])
                v = s[2]

                def setd(st, g=g, v=v):
                    key, path, meta = g(st)
                    cur = self.load(st, key, path)
                    if isinstance(cur, Agg):
                        self.storex(st, key, path, Agg(v, cur.f))
                    else:
                        self.storex(st, key, path, Agg(v, ()))
                out.append((setd, 0))
            elif k == 'cpy':
                fs, fd, fc = (self.coperand(B, s[1]), self.coperand(B, s[2]), self.coperand(B, s[3]))

                def cpy(st, fs=fs, fd=fd, fc=fc):
                    self.copy_mem(st, fs(st), fd(st), self.cint(st, fc(st)))
                out.append((cpy, s[4]))
        return out, self.cterm(B, term)

    def copy_mem(self, st, a, b, n):
        if n == 0:
            return
        if not a.path and n == 1:
            vals = [self.load(st, a.key, ())]
        else:
            vals = [self.load(st, a.key, a.path[:-1] + (a.path[-1] + i,)) for i in range(n)]
        for i, v in enumerate(vals):
            if not b.path and n == 1:
                self.storex(st, b.key, (), v)
            else:
                self.storex(st, b.key, b.path[:-1] + (b.path[-1] + i,), v)

    def storex(self, st, key, path, v):
        if any(isinstance(x, SymIdx) for x in path):
            return self.symstore(st, key, path, v)
        self.store(st, key, path, v)

    def symstore(self, st, key, path, v):
        i = next(k for k, x in enumerate(path) if isinstance(x, SymIdx))
        idx = path[i]
        lo, hi = st.facts.lower(idx.p), st.facts.upper(idx.p)
        if hi - lo > 70:
            raise Undecided('store with unbounded index')
        for k in range(lo, hi + 1):
            p2 = path[:i] + (k + idx.off,) + path[i + 1:]
            old = self.load(st, key, p2)
            e = eqsym(sub(idx.p, k))
            if not isinstance(old, (int, Poly)) or not isinstance(v, (int, Poly)):
                raise Undecided('store with symbolic index')
            new = add(old, PL.mul(e, sub(v, old)))
            lo2, hi2 = min(st.facts.lower(old), st.facts.lower(v)), max(st.facts.upper(old), st.facts.upper(v))
            self.store(st, key, p2, gate(new, lo2, hi2))

    def _late(self, msg):
        def f(st):
            raise Undecided(msg)
        return f

    def cterm(self, B, t):
        """terminator -> fn(st) -> None to continue (st.frames[-1].bb updated) or list of states"""
        k = t[0]
        if k == 'goto':
            tb = t[1]
            return ('goto', tb)
        if k == 'ret':
            return ('ret',)
        if k == 'switch':
            return ('switch', self.coperand(B, t[1]), [(int(a), b) for a, b in t[2]], t[3], t[5] if len(t) > 5 else 0)
        if k == 'drop':
            plan = self.P.dropplan(t[2])
            if not plan:
                return ('goto', t[3])
            pl, _ = self.cplace(B, t[1])
            return ('drop', pl, plan, t[3], t[4] if len(t) > 4 else 0)
        if k == 'assert':
            return ('assert', self.coperand(B, t[1]), t[2], t[3], t[4], t[5])
        if k == 'unreachable':
            return ('unreachable',)
        if k == 'call':
            args = []
            moves = []
            for o in t[2]:
                args.append(self.coperand(B, o))
                if o[0] == 'move' and not o[1][1]:
                    moves.append(o[1][0])
            dest, dty = (None, None)
            if t[3] is not None:
                dest, dty = self.cplace(B, t[3])
            fo = None
            if t[1] is None and len(t) > 7 and t[7] is not None:
                fo = self.coperand(B, t[7])
            return ('call', t[1], args, moves, dest, t[4], t[5], t[6], fo)
        return ('stop', k)

    # ---------------------------------------------------------------- facts
    def decide(self, st, c):
        if isinstance(c, (bool, int)):
            return bool(c)
        if isinstance(c, Poly):
            c = cnot(mkcond('eq', c))
            if isinstance(c, bool):
                return c
        if c.k == 'x':
            for j in self.joiners:
                r = j.decide(self, st, c)
                if r is not None:
                    return r
            return None
        if c.k in ('and', 'or'):
            a, b = self.decide(st, c.a), self.decide(st, c.b)
            if c.k == 'and':
                if a is False or b is False:
                    return False
                if a and b:
                    return True
            else:
                if a or b:
                    return True
                if a is False and b is False:
                    return False
            return None
        F = st.facts
        if not (F.ge or F.ne or F.eq):
            return None
        p = c.a
        if c.k == 'ge':
            r = F.decide_ge(p)
            if r is not None:
                return bool(r)
            q = F.reval(p)
            if isinstance(q, int):
                return q >= 0
            if F.lower(q, 0) >= 0:
                return True
            if F.upper(q, -1) < 0:
                return False
            return None
        r = F.decide_eq(p)
        if r is None:
            q = F.reval(p)
            if isinstance(q, int):
                r = int(q == 0)
            elif equal(q, 0):
                r = 1
            elif F.lower(q, 1) > 0 or F.upper(q, -1) < 0:
                r = 0
            elif F.upper(q, 0) <= 0 and F.lower(q, 0) >= 0:
                r = 1
            else:
                return None
        return bool(r) if c.k == 'eq' else not bool(r)

    def assume(self, st, c):
        """list of states in which c holds (st may be consumed)"""
        if isinstance(c, (bool, int)):
            return [st] if c else []
        if isinstance(c, Poly):
            return self.assume(st, cnot(mkcond('eq', c)))
        d = self.decide(st, c)
        if d is not None:
            return [st] if d else []
        if c.k == 'and':
            out = []
            for s in self.assume(st, c.a):
                out += self.assume(s, c.b)
            return out
        if c.k == 'or':
            s2 = st.copy()
            out = self.assume(st, c.a)
            for s in self.assume(s2, cnot(c.a)):
                out += self.assume(s, c.b)
            return out
        if c.k == 'x':
            for j in self.joiners:
                r = j.assume(self, st, c)
                if r is not None:
                    return r
            raise Undecided('condition %r' % (c,))
        F = st.facts
        p = c.a
        if c.k == 'ge':
            if isinstance(p, int):
                return [st] if p >= 0 else []
            if F.ne:
                k = n2(p)
                for f in F.ne:
                    g = n2(f)
                    if g == k or add(g, k) == 0:
                        # known to be different from zero
                        p = sub(p, 1)
                        d = self.decide(st, mkcond('ge', p))
                        if d is not None:
                            return [st] if d else []
                        break
            F2 = Facts(F.ge + (p,) + self.derive(st, p), F.ne, F.eq, F.zero)
            # does this pin the value to zero?
            if F2.upper(p, 0) <= 0:
                st.facts = self.with_eq(F2, p)
            else:
                st.facts = F2
        elif c.k == 'eq':
            st.facts = self.with_eq(Facts(F.ge + (p, neg(p)), F.ne, F.eq, F.zero), p)
        else:
            ge = F.ge
            for q in (p, neg(p)):
                if q in ge:
                    ge += (sub(q, 1),)
            st.facts = Facts(ge, F.ne + (p,), F.eq, F.zero)
        # contradiction?
        for f in (p, neg(p)) if c.k == 'eq' else (p,) if c.k == 'ge' else ():
            if st.facts.upper(f, -1, True) < 0:
                return []
        return [st]

    def derive(self, st, p):
        """digit(V) >= 1 implies V >= 1"""
        out = ()
        for x in {p, n2(p)} if isinstance(p, Poly) else ():
            # a bound on a two-valued floor is a bound on what it was taken of
            ms = [m for m in x.t if m] if isinstance(x, Poly) else ()
            if len(ms) == 1 and len(ms[0]) == 1 and abs(x.t[ms[0]]) == 1 and SYMS[ms[0][0]].kind == 'quot':
                s, k = SYMS[ms[0][0]], x.t.get((), 0)
                if s.hi - s.lo == 1:
                    V, d = s.data
                    out += (add(V, k * d) if x.t[ms[0]] == 1 else sub(k * d + d - 1, V),)
        if isinstance(p, Poly) and len(p.t) == 2 and p.t.get(()) == -1:
            ms = [m for m in p.t if m]
            if len(ms[0]) == 1 and p.t[ms[0]] == 1:
                s = SYMS[ms[0][0]]
                V = None
                if s.kind == 'mod':
                    V = s.data[0]
                elif s.kind == 'quot':
                    V = s.data[0]
                if V is not None:
                    while isinstance(V, Poly) and len(V.t) == 1:
                        (m, c), = V.t.items()
                        if c == 1 and len(m) == 1 and SYMS[m[0]].kind == 'quot':
                            V = SYMS[m[0]].data[0]
                        else:
                            break
                    if isinstance(V, Poly) and naive(V)[0] >= 0:
                        out += (sub(V, 1),)
        return out

    def with_eq(self, F, p):
        eqs = list(F.eq)
        for q in (p, n2(p)):
            q = F.simp(q)
            if isinstance(q, int):
                continue
            best = None
            for m, c in q.t.items():
                if len(m) == 1 and c in (1, -1):
                    x = m[0]
                    if sum(1 for mm in q.t if x in mm) == 1 and (best is None or x > best[0]):
                        best = (x, c)
            if best:
                x, c = best
                rest = Poly({m: v for m, v in q.t.items() if m != (x,)}) if len(q.t) > 1 else 0
                if isinstance(rest, Poly):
                    rest = mk(dict(rest.t))
                val = neg(rest) if c == 1 else rest
                if not any(e[0] == x for e in eqs):
                    eqs.append((x, val))
        z = n2(p)
        zero = F.zero if isinstance(z, int) or z in F.zero else F.zero + (z,)
        return Facts(F.ge, F.ne, tuple(eqs), zero)

    # ---------------------------------------------------------------- joins
    def joinval(self, S1, S2, a, b, ty, ctl):
        """value describing a in S1 and b in S2, or raise NoJoin"""
        if a is b:
            return a
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, (int, Poly)) and isinstance(b, (int, Poly)) and not isinstance(a, bool) and not isinstance(b, bool):
            return self.joinint(S1, S2, a, b, ty)
        if isinstance(a, (bool, Cond)) and isinstance(b, (bool, Cond)):
            if a == b:
                return a
            x, y = self.decide(S1, b), self.decide(S2, a)
            if x is not None and isinstance(a, bool) and x == a:
                return b
            if y is not None and isinstance(b, bool) and y == b:
                return a
            raise NoJoin('bool')
        for j in self.joiners:
            r = j.join(self, S1, S2, a, b)
            if r is not None:
                return r
        if type(a) is not type(b):
            raise NoJoin('kinds')
        if isinstance(a, Agg):
            if a.v != b.v or len(a.f) != len(b.f):
                raise NoJoin('variant')
            fts = self.ftys(ty, a.v, len(a.f))
            return Agg(a.v, tuple(self.joinval(S1, S2, x, y, t, ctl) for x, y, t in zip(a.f, b.f, fts)))
        if isinstance(a, Arr):
            if isinstance(a.f, SymElems) or isinstance(b.f, SymElems):
                raise NoJoin('symbolic elements')
            if len(a.f) != len(b.f):
                raise NoJoin('length')
            et = None
            if ty is not None:
                T = self.P.types[self.P.strip(ty)]
                et = T.get('elem') if T['k'] in ('array', 'slice') else None
            w = self.limbw(a.f, b.f, et)
            if w:
                return self.joinlimbs(S1, S2, a, b, w)
            return Arr(tuple(self.joinval(S1, S2, x, y, et, ctl) for x, y in zip(a.f, b.f)))
        if vsame(a, b):
            return a
        raise NoJoin('value')

    def ftys(self, ty, v, n):
        if ty is None:
            return [None] * n
        T = self.P.types[self.P.strip(ty)]
        if T['k'] == 'adt' and v < len(T['variants']) and len(T['variants'][v]['fields']) == n:
            return [f[1] for f in T['variants'][v]['fields']]
        if T['k'] == 'tuple' and len(T['fields']) == n:
            return T['fields']
        return [None] * n

    def limbw(self, x, y, et):
        if et is not None:
            T = self.P.types[self.P.strip(et)]
            if T['k'] == 'int' and T['bits'] in (32, 64) and not T['signed']:
                if all(isinstance(v, (int, Poly)) for v in x) and all(isinstance(v, (int, Poly)) for v in y):
                    return T['bits']
        return None

    def joinlimbs(self, S1, S2, a, b, w):
        V1 = V2 = 0
        for i, x in enumerate(a.f):
            V1 = add(V1, scale(x, 1 << (w * i)))
        for i, x in enumerate(b.f):
            V2 = add(V2, scale(x, 1 << (w * i)))
        if equal(V1, V2):
            return a
        V = self.joinint(S1, S2, n2(V1), n2(V2), None, True)
        return self.limbs(V, len(a.f), w)

    def limbs(self, V, n, w):
        V = n2(V) if not (isinstance(V, Poly) and len(V.t) == 1) else V
        out = []
        for i in range(n):
            q = quot(V, 1 << (w * i))
            if i == n - 1:
                h = bounds(q, (0, (1 << w) - 1))
                if h[0] >= 0 and h[1] < (1 << w):
                    out.append(q if isinstance(q, int) or len(q.t) == 1 else mod(q, 1 << w))
                    continue
            out.append(mod(q, 1 << w))
        return Arr(tuple(out))

    def joinint(self, S1, S2, a, b, ty, value=False):
        if equal(a, b):
            return a
        if value:
            a = S1.facts.pin(a)
            b = S2.facts.pin(b)
        d = sub(b, a)
        dd = n2(d)
        big = self.content(dd)
        depth = 4 if big >> 128 and big & (big - 1) else 10000
        if S1.facts.is_zero(d, depth):
            return b
        if S2.facts.is_zero(d, depth):
            return a
        if S1.facts.zero and S2.facts.zero:
            k = d if isinstance(d, int) else n2(d)
            for f in S1.facts.zero:
                for g in S2.facts.zero:
                    r = split2(k, f, g)
                    if r is not None:
                        # b - a = r0*f + r1*g with f = 0 in S1 and g = 0 in S2
                        return n2(add(a, scale(f, r[0])))
        if not value and isinstance(a, int) and isinstance(b, int):
            # two different numbers: keep apart unless they are data words
            if not (a in (0, 1) and b in (0, 1) and ty is not None and self.P.types[self.P.strip(ty)].get('bits') in (64, 32, 8, 128) and self.P.strip(ty) != self.P.usize):
                raise NoJoin('number')
        c = self.splitter(S1, S2)
        if c is None:
            if value:
                m = self.modjoin(S1, S2, a, b, dd)
                if m is not None:
                    return m
            raise NoJoin('no splitting condition')
        if value and (S1.facts.zero or S2.facts.zero):
            # rewrite b (or a) with what is known to vanish there, so that the difference gets simpler
            a, b = self.simpler(a, b, S1.facts.zero, S2.facts.zero)
        v = add(b, PL.mul(c, sub(a, b)))
        lo = min(S1.facts.lower(a), S2.facts.lower(b))
        hi = max(S1.facts.upper(a), S2.facts.upper(b))
        if value:
            k = self.content(n2(v))
            if k > 1:
                # keep a common factor of both values visible
                v = n2(v)
                return scale(gate(mk({m: x // k for m, x in PL.terms(v).items()}), -(-lo // k), hi // k), k)
        return gate(v, lo, hi)

    def simpler(self, a, b, z1, z2):
        for z, second in [(z, True) for z in z2] + [(z, False) for z in z1]:
            d = n2(sub(b, a))
            if isinstance(d, int) or isinstance(z, int):
                break
            m = max((m for m in z.t if m), key=lambda m: (len(m), m))
            if z.t[m] not in (1, -1) or m not in d.t:
                continue
            e = scale(z, d.t[m] * z.t[m])       # same coefficient at m
            if len(PL.terms(sub(d, e))) < len(d.t):
                if second:
                    b = n2(sub(b, e))
                else:
                    a = n2(add(a, e))
        return a, b

    def content(self, d):
        """common factor of all coefficients"""
        if isinstance(d, int):
            return abs(d)
        g = 0
        for c in d.t.values():
            g = gcd(g, c)
            if g < 2:
                break
        return g

    def modjoin(self, S1, S2, a, b, dd):
        """join modulo the common factor g of b - a: the joined value is a + g*k for some integer k"""
        g = self.content(dd)
        if g < 1 << 64:
            dd = n3(dd)
            g = self.content(dd)
            if g < 1 << 64:
                return None
        lo = min(S1.facts.lower(a), S2.facts.lower(b))
        hi = max(S1.facts.upper(a), S2.facts.upper(b))
        if lo > hi:
            return None
        sa, sb = (0 if isinstance(x, int) else len(x.t) for x in (a, b))
        base = a if sa <= sb else b
        bl, bh = PL.bounds(base)
        k = PL.symp(PL.newsym('atom', 'k', -((bh - lo) // g), (hi - bl) // g, None, 'k%d' % len(PL.SYMS)))
        return gate(add(base, scale(k, g)), lo, hi)

    def splitter(self, S1, S2):
        """0/1 symbol that is 1 in S1 and 0 in S2"""
        for f in S1.facts.ge:
            if f in S2.facts.ge:
                continue
            if S2.facts.decide_ge(f) == 0:
                return bitsym(f)
        for f in S2.facts.ge:
            if f in S1.facts.ge:
                continue
            if S1.facts.decide_ge(f) == 0:
                return sub(1, bitsym(f))
        for f in S1.facts.ne:
            if S2.facts.decide_eq(f) == 1:
                return sub(1, eqsym(f))
        for f in S2.facts.ne:
            if S1.facts.decide_eq(f) == 1:
                return eqsym(f)
        for f in S1.facts.ge:
            if f in S2.facts.ge:
                continue
            if S2.facts.upper(f, -1) < 0:
                return bitsym(f)
        for j in self.joiners:
            c = j.splitter(self, S1, S2)
            if c is not None:
                return c
        return None

    def joinfacts(self, A, B):
        def cl(X, Y):
            ge = []
            for f in X.ge:
                if f in Y.ge or Y.decide_ge(f) == 1 or Y.lower(f, 0) >= 0:
                    ge.append(f)
            ne = [f for f in X.ne if f in Y.ne or Y.decide_eq(f) == 0]
            return ge, ne
        g1, n1 = cl(A, B)
        g2, n2_ = cl(B, A)
        ge = tuple(g1) + tuple(f for f in g2 if f not in g1)
        ne = tuple(n1) + tuple(f for f in n2_ if f not in n1)
        eq = tuple(e for e in A.eq if e in B.eq)
        return Facts(ge, ne, eq, tuple(z for z in A.zero if z in B.zero))

    def merge(self, S1, S2):
        if len(S1.frames) != len(S2.frames):
            return None
        if not self.samelog(S1, S2):
            return None
        for f, g in zip(S1.frames, S2.frames):
            if f.body is not g.body or f.bb != g.bb or f.ret != g.ret or f.dest != g.dest:
                return None
        mem = {}
        live = self.livekeys(S1)
        m1, m2 = S1.mem, S2.mem
        try:
            pend = []
            for k, v in m1.items():
                if k not in m2:
                    continue
                w = m2[k]
                if v is w:
                    mem[k] = v
                    continue
                if live is not None and isinstance(k[0], int) and not live(k):
                    continue
                pend.append((k, v, w))
            fc = self.failed
            for k, v, w in pend:
                p = (id(v), id(w))
                if p in fc and fc[p][0] is v and fc[p][1] is w:
                    return None
            zz = not (S1.facts.zero and S2.facts.zero)
            for k, v, w in pend:
                if not self.shape(v, w, zz):
                    fc[id(v), id(w)] = (v, w)
                    raise NoJoin('shape')
            for k, v, w in pend:
                ty = S1.cty.get(k)
                if isinstance(k[0], int) and 0 <= k[0] < len(S1.frames):
                    ty = S1.frames[k[0]].body.locals[k[1]]
                mem[k] = self.joinval(S1, S2, v, w, ty, False)
        except NoJoin as e:
            if len(self.failed) > 20000:
                self.failed.clear()
            self.failed[id(v), id(w)] = (v, w)
            if self.trace:
                self.trace('nojoin %s at %s bb%d: %s %r' % (k, S1.frames[-1].inst['name'], S1.frames[-1].bb, e, (v, w)))
            return None
        S = S1
        ex = self.joinextra(S1, S2)
        if ex is False:
            return None
        F = self.joinfacts(S1.facts, S2.facts)
        S.mem = mem
        S.facts = F
        S.extra = ex
        S.nheap = max(S1.nheap, S2.nheap)
        S.seq = max(S1.seq, S2.seq)
        self.merges += 1
        return S

    def shape(self, a, b, zz=False):
        """cheap test that two values could be joined at all"""
        if a is b:
            return True
        if isinstance(a, Agg) and isinstance(b, Agg):
            return a.v == b.v and len(a.f) == len(b.f) and all(self.shape(x, y, zz) for x, y in zip(a.f, b.f))
        if zz and type(a) is int and type(b) is int:
            return a == b or a in (0, 1) and b in (0, 1)
        return True

    def samelog(self, a, b):
        return a.log == b.log and a.seq == b.seq

    def joinextra(self, a, b):
        if a.extra == b.extra:
            return a.extra
        for j in self.joiners:
            r = j.joinextra(self, a, b)
            if r is not None:
                return r
        return False

    def livekeys(self, S):
        lv = []
        n = len(S.frames)
        for i, f in enumerate(S.frames):
            L = self.liveness(f.body)
            if i == n - 1:
                lv.append(L[f.bb])
            else:
                g = S.frames[i + 1]
                lv.append(L[g.ret] if g.ret is not None else frozenset())

        def live(k):
            d, l = k
            if d >= n:
                return False
            s = lv[d]
            return s is None or l in s
        return live

    def liveness(self, B):
        if B.live is not None:
            return B.live
        raw = B.raw['blocks']
        n = len(raw)
        addr = set()
        use = []
        deff = []

        def pl_use(pl, u, d):
            if pl[0] not in d:
                u.add(pl[0])
            for pr in pl[1]:
                if pr[0] == 'i' and pr[1] not in d:
                    u.add(pr[1])

        def op_use(o, u, d):
            if isinstance(o, list) and o and o[0] in ('copy', 'move'):
                pl_use(o[1], u, d)

        def rv_use(rv, u, d):
            k = rv[0]
            if k == 'ref':
                if not any(p[0] == '*' for p in rv[1][1]):
                    addr.add(rv[1][0])
                pl_use(rv[1], u, d)
            elif k in ('discr', 'len'):
                pl_use(rv[1], u, d)
            elif k == 'agg':
                for o in rv[2]:
                    op_use(o, u, d)
            else:
                for o in rv[1:]:
                    op_use(o, u, d)
        for st, t in raw:
            u, d = set(), set()
            for s in st:
                if s[0] == '=':
                    rv_use(s[2], u, d)
                    if s[1][1]:
                        pl_use(s[1], u, d)
                    else:
                        d.add(s[1][0])
                elif s[0] == 'cpy':
                    for o in s[1:4]:
                        op_use(o, u, d)
                elif s[0] == 'sd':
                    pl_use(s[1], u, d)
            k = t[0]
            if k == 'switch':
                op_use(t[1], u, d)
            elif k == 'assert':
                op_use(t[1], u, d)
            elif k == 'call':
                for o in t[2]:
                    op_use(o, u, d)
                if len(t) > 7 and t[7]:
                    op_use(t[7], u, d)
                if t[3] is not None:
                    if t[3][1]:
                        pl_use(t[3], u, d)
                    else:
                        d.add(t[3][0])
            elif k == 'ret':
                if 0 not in d:
                    u.add(0)
            use.append(u)
            deff.append(d)
        live = [set(x) for x in use]
        ch = True
        while ch:
            ch = False
            for b in range(n - 1, -1, -1):
                s = set()
                for x in B.succ[b]:
                    s |= live[x]
                s -= deff[b]
                s |= use[b]
                if s != live[b]:
                    live[b] = s
                    ch = True
        B.live = [frozenset(s | addr) for s in live]
        return B.live

    # ---------------------------------------------------------------- scheduling
    def poskey(self, st):
        out = []
        for f in st.frames:
            B = f.body
            for h, c in zip(B.loops[f.bb], f.counts):
                out.append(B.idx[h])
                out.append(c)
            out.append(B.idx[f.bb])
        return tuple(out)

    def enqueue(self, st):
        k = self.poskey(st)
        L = self.queue.get(k)
        if L is None:
            self.queue[k] = [st]
            heapq.heappush(self.heap, k)
            return
        i = 0
        while i < len(L) and not self.nomerge:
            m = self.merge(L[i], st)
            if m is not None:
                L.pop(i)
                st = m
                i = 0
                continue
            i += 1
        L.append(st)
        if len(L) > self.max_disj:
            raise Undecided('too many cases at %s bb%d' % (st.frames[-1].inst['name'], st.frames[-1].bb))

    def start(self, inst, args, facts=None, log=(), extra=None, setup=None):
        st = State()
        st.cty = {}
        st.frames = []
        st.mem = {}
        st.facts = facts or Facts()
        st.log = log
        st.nheap = 0
        st.seq = 0
        st.fk = -1
        st.extra = extra
        if setup:
            setup(st)
        if callable(args):
            args = args(st)
        self.queue = {}
        self.heap = []
        self.outcomes = []
        self.push(st, inst, args, None, None)
        self.enqueue(st)
        self.loop()
        return self.outcomes

    def push(self, st, inst, args, dest, ret, line=0):
        B = self.P.body(inst)
        self.visited.add(inst['id'])
        f = Frame()
        f.body = B
        f.inst = inst
        f.bb = 0
        f.si = 0
        f.dest = dest
        f.ret = ret
        f.counts = (0,) * len(B.loops[0])
        f.line = line
        st.frames.append(f)
        st.fk = len(st.frames) - 1
        args = list(args)
        if B.spread is not None and len(args) != B.argc:
            i = B.spread - 1
            args = args[:i] + [Agg(0, tuple(args[i:]))]
        elif len(args) != B.argc:
            # rust-call: last argument is a tuple
            if args and isinstance(args[-1], Agg) and len(args) - 1 + len(args[-1].f) == B.argc:
                args = args[:-1] + list(args[-1].f)
            else:
                raise Undecided('argument count of ' + inst['name'])
        for i, a in enumerate(args):
            st.mem[(st.fk, i + 1)] = a
        if len(st.frames) > 60:
            raise Undecided('call depth')

    def goto(self, st, tb):
        f = st.frames[-1]
        B = f.body
        lt = B.loops[tb]
        if lt or f.counts:
            lf = B.loops[f.bb]
            n = 0
            while n < len(lt) and n < len(lf) and lt[n] == lf[n]:
                n += 1
            c = f.counts[:n]
            if n and tb == lt[n - 1] and tb in B.heads and n == len(lt):
                # back edge to head tb
                c = c[:-1] + (c[-1] + 1,)
                if c[-1] > self.max_iter:
                    raise Undecided('loop at %s bb%d not bounded' % (f.inst['name'], tb))
            f.counts = c + (0,) * (len(lt) - n)
        f.bb = tb
        f.si = 0
        return B.join[tb]

    def finish(self, kind, st, value=None, info=None):
        self.outcomes.append(Outcome(kind, st, value, info))

    def stack(self, st):
        return [(f.inst['name'], f.inst.get('file'), f.line) for f in st.frames]

    def where(self, st):
        f = st.frames[-1]
        # innermost frame of the analysed crate
        for g in reversed(st.frames):
            if g.inst['crate'] == self.P.crate or g.inst['crate'] == 'rabe_bn':
                return g.inst['name']
        return f.inst['name']

    def loop(self):
        while self.heap:
            k = heapq.heappop(self.heap)
            L = self.queue.pop(k)
            if len(L) > 8 and not self.nomerge and self.stagger(L):
                continue
            for i, st in enumerate(L):
                self.pending = i + 1 < len(L)
                self.run1(st)

    def stagger(self, L):
        """states that left an earlier loop one after the other and differ in a position: let each join the ones that come round to its position"""
        fr = next((i for i in range(len(L[0].frames) - 1, -1, -1) if L[0].frames[i].counts), None)
        if fr is None or any(len(s.frames) != len(L[0].frames) for s in L):
            return False
        cand = None
        for s in L:
            c = {(k,) + p: x for k, v in s.mem.items() for p, x in self.numbers(v)}
            cand = {q: (x,) for q, x in c.items()} if cand is None else {q: xs + (c[q],) for q, xs in cand.items() if q in c and c[q] not in xs}
            if not cand:
                return False
        for i, s in enumerate(L):
            f = s.frames[fr]
            f.counts = f.counts[:-1] + (f.counts[-1] + i,)
        for s in L:
            self.enqueue(s)
        return True

    def numbers(self, v):
        if type(v) is int:
            yield (), v
        elif isinstance(v, Agg):
            for i, x in enumerate(v.f):
                for p, y in self.numbers(x):
                    yield (i,) + p, y

    def run1(self, st):
        while True:
            try:
                r = self.step(st)
            except PanicPath as e:
                self.finish('panic', st, None, (e.msg, self.where(st), self.stack(st)))
                return
            except Infeasible:
                return
            except Undecided as e:
                if not getattr(e, 'ctx', None):
                    e.ctx = self.stack(st)
                raise
            if r is None:
                continue
            if r is False:
                return
            if r is True:
                if self.heap or self.pending and not self.eager:
                    self.enqueue(st)
                    return
                continue
            for s in r:
                self.enqueue(s)
            return

    def step(self, st):
        """run one block; None = go on, True = reached a join point, False = finished, list = forked states"""
        f = st.frames[-1]
        B = f.body
        if self.loop_hook is not None and f.bb in B.heads and f.si == 0:
            r = self.loop_hook(self, st, f)
            if r is not None:
                return r
        code = B.code[f.bb]
        if code is None:
            code = B.code[f.bb] = self.compile_block(B, f.bb)
        stmts, term = code
        try:
            for i in range(f.si, len(stmts)):
                s, line = stmts[i]
                if line:
                    f.line = line
                s(st)
        except Split as e:
            return self.resume(st, i, e.args[0])
        f.si = 0
        self.steps += len(stmts) + 1
        if self.budget is not None and self.steps > self.budget:
            raise Undecided('analysis budget exhausted')
        k = term[0]
        if k == 'goto':
            return True if self.goto(st, term[1]) else None
        if k == 'switch':
            return self.do_switch(st, f, term)
        if k == 'call':
            return self.do_call(st, f, term)
        if k == 'ret':
            v = st.mem.get((st.fk, 0), UNDEF)
            return self.do_return(st, v)
        if k == 'drop':
            return self.do_drop(st, f, term)
        if k == 'assert':
            c = term[1](st)
            if not term[2]:
                c = cnot(c)
            d = c if isinstance(c, bool) else self.decide(st, c)
            if d is True:
                return True if self.goto(st, term[4]) else None
            msg = term[3]
            if d is False:
                raise PanicPath('assert: ' + str(msg[0]))
            s2 = st.copy()
            for s in self.assume(s2, cnot(c)):
                self.finish('panic', s, None, ('assert: ' + str(msg[0]), self.where(s), self.stack(s)))
            out = self.assume(st, c)
            for s in out:
                self.goto(s, term[4])
            return out
        if k == 'unreachable':
            # reached only by impossible paths in safe code; treat as a dead path but remember it
            self.finish('unreachable', st, None, ('unreachable', self.where(st), self.stack(st)))
            return False
        if k == 'stop':
            return False
        raise Undecided(k)

    def resume(self, st, i, c):
        """both truth values of the condition a statement asked for, each continued to the end of the block"""
        out = []
        s2 = st.copy()
        for s in self.assume(st, c) + self.assume(s2, cnot(c)):
            if self.decide(s, c) is None:
                raise Undecided('case split on %r' % (c,))
            s.frames[-1].si = i
            try:
                r = self.step(s)
            except PanicPath as e:
                self.finish('panic', s, None, (e.msg, self.where(s), self.stack(s)))
                continue
            except Infeasible:
                continue
            if r is None or r is True:
                out.append(s)
            elif r is not False:
                out += r
        return out

    def do_switch(self, st, f, term):
        v = term[1](st)
        self.branches += 1
        if isinstance(v, int):
            v = int(v)
            for a, b in term[2]:
                if a == v or (v < 0 and a == v & ((1 << 128) - 1)) or (v < 0 and a in (v & 0xff, v & 0xffff, v & 0xffffffff, v & ((1 << 64) - 1))):
                    return True if self.goto(st, b) else None
            return True if self.goto(st, term[3]) else None
        out = []
        if isinstance(v, Cond):
            tmap = dict(term[2])
            for val in (0, 1):
                tb = tmap.get(val, term[3])
                s = st.copy()
                for s2 in self.assume(s, v if val else cnot(v)):
                    self.goto(s2, tb)
                    out.append(s2)
            self.forks += 1
            return out
        if isinstance(v, Poly):
            q = st.facts.reval(v)
            if isinstance(q, int):
                for a, b in term[2]:
                    if a == q:
                        return True if self.goto(st, b) else None
                return True if self.goto(st, term[3]) else None
            cur = [st]
            for a, b in term[2]:
                nxt = []
                for s in cur:
                    c = mkcond('eq', sub(v, a))
                    s1 = s.copy()
                    for s2 in self.assume(s1, c):
                        self.goto(s2, b)
                        out.append(s2)
                    nxt += self.assume(s, cnot(c))
                cur = nxt
            for s in cur:
                self.goto(s, term[3])
                out.append(s)
            return out
        ex = getattr(v, 'switch', None)
        if ex is not None:
            return ex(self, st, term)
        raise Undecided('branch on %r' % (v,))

    def do_drop(self, st, f, term):
        _, pl, plan, target, line = term
        key, path, meta = pl(st)
        if len(plan) != 1 or plan[0][0] is None or plan[0][1] < 0:
            x = self.load(st, key, path)
            if isinstance(x, Agg) and not x.f:
                return True if self.goto(st, target) else None
            raise Undecided('drop with a destructor that is not followed')
        p, iid = plan[0]
        inst = self.P.insts[iid]
        if inst['body'] is None:
            raise Undecided('no body for ' + inst['name'])
        self.push(st, inst, [Ptr(key, path + p, None)], None, target, line)
        return None

    def do_return(self, st, v):
        d = st.fk
        f = st.frames.pop()
        for k in [k for k in st.mem if k[0] == d]:
            del st.mem[k]
        st.fk = d - 1
        if not st.frames:
            self.finish('ret', st, v)
            return False
        if f.dest is not None:
            key, path, meta = f.dest
            self.storex(st, key, path, v)
        if f.ret is None:
            return False
        self.goto(st, f.ret)
        return True

    def do_call(self, st, f, term):
        _, iid, fargs, moves, dest, target, line, dty, fo = term
        f.line = line
        args = [a(st) for a in fargs]
        for l in moves:
            st.mem.pop((st.fk, l), None)
        if iid is None:
            if fo is None:
                raise Undecided('unresolved call')
            fv = fo(st)
            if isinstance(fv, Agg) and fv.f and isinstance(fv.f[0], tuple) and fv.f[0][0] == 'fn':
                iid = fv.f[0][1]
            else:
                raise Undecided('indirect call')
        inst = self.P.insts[iid]
        h = self.hookcache.get(iid, 0)
        if h == 0:
            h = None
            for hk in self.hooklist:
                h = hk(self, inst)
                if h is not None:
                    break
            self.hookcache[iid] = h
        if h is not None:
            self.hooked.add(inst['name'])
            r = h(self, st, args, Call(inst, dty, line, dest, target))
            if r is NotImplemented:
                h = None
            elif isinstance(r, list):
                out = []
                for s, v in r:
                    self.put_result(s, dest, target, v)
                    if target is not None:
                        out.append(s)
                return out
            elif r is PUSHED:
                return True
            else:
                if target is None:
                    return False
                return True if self.put_result(st, dest, target, r) else None
        if inst['name'].endswith('}') and '{closure#' in inst['name'] and len(args) == 2 and isinstance(args[1], Agg) and inst['body'] is not None:
            args = [args[0]] + list(args[1].f)
        if inst['body'] is None:
            if target is None:
                raise PanicPath('call to ' + inst['name'])
            raise Undecided('no body and no model for ' + inst['name'])
        dd = None
        if dest is not None:
            dd = dest(st)
        self.push(st, inst, args, dd, target, line)
        return None

    def put_result(self, st, dest, target, v):
        if target is None:
            return
        if dest is not None:
            key, path, meta = dest(st)
            if key != ('zst',):
                self.storex(st, key, path, v)
        return self.goto(st, target)

    def tailcall(self, st, call, inst_id, args):
        """model replaced by a call to another function"""
        dd = call.dest(st) if call.dest is not None else None
        self.push(st, self.P.insts[inst_id], args, dd, call.target, call.line)
        return PUSHED


PUSHED = object()


class NoJoin(Exception):
    pass


class Call:
    __slots__ = ('inst', 'dty', 'line', 'dest', 'target')

    def __init__(self, inst, dty, line, dest, target):
        self.inst = inst
        self.dty = dty
        self.line = line
        self.dest = dest
        self.target = target
