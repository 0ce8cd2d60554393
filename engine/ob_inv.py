"""inversion: loops are cut at their heads; the invariant is inferred as the conjunction of templates over the 256-bit
cells alive there (ranges, congruences a*X = Y mod M, coprimality) that every path between cuts preserves, and
termination follows from a sum of cells that never grows and shrinks on every cycle"""
from ob_field import *
from ob_limb import *
from run import NoJoin
import itertools

STRICT = 'strict'


def eq_contract(E, inst):
    if inst['crate'] == 'rabe_bn' and inst['name'].startswith('<rabe_bn::arith::U256 as ') and inst.get('trait') and inst['trait'][0] == 'std::cmp::PartialEq' and inst['trait'][1] in ('eq', 'ne'):
        def h(E, st, a, call):
            x, y = a
            while isinstance(x, Ptr):
                x = E.deref(st, x)
            while isinstance(y, Ptr):
                y = E.deref(st, y)
            c = mkcond('eq', sub(val(x), val(y)))
            return c if inst['trait'][1] == 'eq' else cnot(c)
        return h
    return None


def mul_contract(M):
    """Montgomery product of two reduced operands (contract discharged by ob_u256_op mul)"""
    def hook(E, inst):
        if inst['crate'] != 'rabe_bn' or inst['name'] != 'rabe_bn::arith::U256::mul':
            return None

        def h(E, st, a, call):
            x, y, m = [val(E.deref(st, v)) for v in a[:3]]
            inv = a[3]
            if m != M or inv != (-pow(M, -1, 1 << 64)) % (1 << 64) or not in_range(st.facts, x, 0, M - 1) or not in_range(st.facts, y, 0, M - 1):
                return NotImplemented
            r = atom('mm%d' % next(COUNT), 0, M - 1)
            k = atom('mk%d' % next(COUNT), -(1 << 256), 1 << 256)
            z = sub(sub(scale(r, R256), PL.mul(x, y)), scale(k, M))
            F = st.facts
            st.facts = Facts(ge=F.ge, ne=F.ne, eq=F.eq, zero=F.zero + (z,))
            E.storex(st, a[0].key, a[0].path, limbs_of(r))
            return Agg(0, ())
        return h
    return hook


def sub_contract(M):
    """difference modulo M of two reduced operands (contract discharged by ob_u256_op sub)"""
    def hook(E, inst):
        if inst['crate'] != 'rabe_bn' or inst['name'] != 'rabe_bn::arith::U256::sub':
            return None

        def h(E, st, a, call):
            x, y, m = [val(E.deref(st, v)) for v in a[:3]]
            if m != M or not in_range(st.facts, x, 0, M - 1) or not in_range(st.facts, y, 0, M - 1):
                return NotImplemented
            d = sub(x, y)
            s2 = st.copy()
            out = []
            for s in E.assume(st, mkcond('ge', d)):
                E.storex(s, a[0].key, a[0].path, limbs_of(d))
                out.append((s, Agg(0, ())))
            for s in E.assume(s2, mkcond('ge', sub(sub(y, x), 1))):
                E.storex(s, a[0].key, a[0].path, limbs_of(PL.add(d, M)))
                out.append((s, Agg(0, ())))
            return out
        return h
    return hook


def is_word_loop(P, B, head):
    """the loop is driven by an iterator (bounded by its data, unrolled)"""
    body = [b for b in range(len(B.raw['blocks'])) if head in B.loops[b]]
    for b in body:
        if B.loops[b] and B.loops[b][-1] != head:
            continue
        st, t = B.raw['blocks'][b]
        if t[0] == 'call' and t[1] is not None:
            n = P.insts[t[1]]
            if n['name'].endswith('::next') or (n.get('trait') or ('', ''))[1] == 'next':
                return True
    return False


class Cut:
    pass


class Counter(Exception):
    """a loop driven by a counter: unrolled instead of cut"""


def leaves(v, path=()):
    """4-limb arrays and other leaves of a value"""
    if isinstance(v, Arr) and not isinstance(v.f, SymElems) and len(v.f) == 4 and all(isinstance(x, (int, Poly)) for x in v.f):
        yield path, v
    elif isinstance(v, (Agg, Arr)) and not isinstance(v.f, SymElems):
        for i, x in enumerate(v.f):
            yield from leaves(x, path + (i,))
    else:
        yield path, v


def put(v, path, x):
    if not path:
        return x
    f = list(v.f)
    f[path[0]] = put(f[path[0]], path[1:], x)
    return Arr(tuple(f)) if isinstance(v, Arr) else Agg(v.v, tuple(f))


class Cutter:
    def __init__(self, ctx, inst, args, facts, M, A, hooks):
        self.ctx, self.inst, self.args, self.facts, self.M, self.A, self.hooks = ctx, inst, args, facts, M, A, hooks
        self.uncut = set()
        self.keepcut = set()
        self.cuts = {}

    def engine(self):
        E = self.ctx.engine(self.hooks, nomerge=True)
        E.max_iter = 70
        E.arrived = []
        E.passing = False

        def lh(E, st, f):
            if f.inst['crate'] != 'rabe_bn' or (f.inst['id'], f.bb) in self.uncut:
                return None
            B = f.body
            k = (f.inst['id'], f.bb)
            w = self.wl.get(k)
            if w is None:
                w = self.wl[k] = is_word_loop(self.ctx.P, B, f.bb)
            if w:
                return None
            if E.passing:
                E.passing = False
                return None
            E.arrived.append(st)
            return False
        self.wl = getattr(self, 'wl', {})
        E.loop_hook = lh
        return E

    def key(self, st):
        return tuple((f.inst['id'], f.bb) for f in st.frames)

    def launch(self, st=None):
        """outcomes and arrivals of one segment"""
        E = self.engine()
        if st is None:
            outs = E.start(self.inst, self.args, facts=self.facts)
        else:
            E.queue, E.heap, E.outcomes = {}, [], []
            E.passing = True
            E.enqueue(st)
            E.loop()
            outs = E.outcomes
        s = self.ctx.stats
        s['steps'] += E.steps
        s['branches'] += E.branches
        s['joins'] += 1
        s['functions'] |= {self.ctx.P.insts[i]['name'] for i in E.visited}
        s['models'] |= E.hooked
        s['paths'] += len(outs)
        self.E = E
        return outs, E.arrived

    # ---- state at a cut
    def absorb(self, st, src):
        """merge an arriving state into its cut; returns True when the cut changed"""
        k = self.key(st)
        c = self.cuts.get(k)
        if c is None:
            c = self.cuts[k] = Cut()
            c.key = k
            c.st = st.copy()
            c.havoc = {}
            c.dead = set()
            c.tpl = None
            self.name(c)
            c.tpl = self.holding(c, st, self.candidates(c), src)
            return True
        ch = False
        for key in list(c.st.mem):
            if key not in st.mem:
                del c.st.mem[key]
                ch = True
        for key, old in list(c.st.mem.items()):
            new = st.mem[key]
            ch |= self.absorb1(c, key, (), old, new)
        if ch:
            c.tpl |= {t for t in self.candidates(c) if t not in c.seen}
            # new cells bring candidates; they are only kept while every arrival satisfies them
        keep = self.holding(c, st, c.tpl, src)
        if keep != c.tpl:
            c.tpl = keep
            ch = True
        return ch

    def name(self, c):
        c.seen = set()

    def absorb1(self, c, key, path, old, new):
        if (key, path) in c.havoc or (key, path) in c.dead:
            return False
        if isinstance(old, Arr) and isinstance(new, Arr) and not isinstance(old.f, SymElems) and len(old.f) == 4 == len(new.f) and all(isinstance(x, (int, Poly)) for x in old.f + new.f):
            if all(type(x) is type(y) and x == y for x, y in zip(old.f, new.f)):
                return False
            x = atom('h%d' % next(COUNT), 0, (1 << 256) - 1)
            c.havoc[(key, path)] = x
            c.st.mem[key] = put(c.st.mem[key], path, limbs_of(x))
            return True
        if isinstance(old, (Agg, Arr)) and type(old) is type(new) and not isinstance(old.f, SymElems) and len(old.f) == len(new.f) and (isinstance(old, Arr) or old.v == new.v):
            ch = False
            for i, (a, b) in enumerate(zip(old.f, new.f)):
                ch |= self.absorb1(c, key, path + (i,), a, b)
            return ch
        if old is UNDEF or (type(old) is type(new) and old == new):
            return False
        if isinstance(old, int) and isinstance(new, int) and key[0] == len(c.key) - 1 and not isinstance(old, bool) and c.key[-1] not in self.keepcut:
            raise Counter(c.key[-1])
        c.dead.add((key, path))
        c.st.mem[key] = put(c.st.mem[key], path, UNDEF)
        return True

    def cells(self, c, st):
        """value of every 256-bit cell in a state, by place"""
        out = {}
        for key, v in c.st.mem.items():
            for p, x in leaves(v):
                if isinstance(x, Arr):
                    y = st.mem.get(key)
                    try:
                        for i in p:
                            y = y.f[i]
                        out[(key, p)] = val(y)
                    except (AttributeError, IndexError, TypeError):
                        pass
        return out

    def candidates(self, c):
        H = list(c.havoc)
        allc = [(k, p) for k, v in c.st.mem.items() for p, x in leaves(v) if isinstance(x, Arr)]
        out = set()
        for h in H:
            out |= {('lb', h), ('ub', h, self.M - 1), ('ub', h, self.M)}
        for x in allc:
            for y in allc:
                if x != y and (x in c.havoc or y in c.havoc):
                    out.add(('cong', x, y))
                    if str(x) < str(y):
                        out.add(('coprime', x, y))
        return out

    def holding(self, c, st, cand, src):
        V = self.cells(c, st)
        F = st.facts
        out = set()
        for t in cand:
            c.seen.add(t)
            if all(p in V for p in t[1:] if isinstance(p, tuple)) and self.holds(F, t, V, src):
                out.add(t)
        return out

    def holds(self, F, t, V, src):
        k = t[0]
        if k == 'ub':
            return nonneg(F, sub(t[2], V[t[1]]))
        if k == 'lb':
            x = V[t[1]]
            if nonneg(F, sub(x, 1)) or nonneg(F, sub(scale(x, 2), 1)):
                return True
            if src is not None:
                # a cell coprime to another that is not one is not zero
                W = src.vals
                for s in src.cut.tpl:
                    if s[0] == 'coprime':
                        for a, b in ((s[1], s[2]), (s[2], s[1])):
                            if equal(W[a], x) and self.notone(F, W[b]):
                                return True
            return False
        if k == 'cong':
            return self.cong(F, sub(PL.mul(self.A, V[t[1]]), V[t[2]]), src)
        if k == 'coprime':
            x, y = V[t[1]], V[t[2]]
            for a, b in ((x, y), (y, x)):
                if isinstance(a, int) and a == 1:
                    return True
                if isinstance(a, int) and a == self.M and nonneg(F, sub(b, 1)) and nonneg(F, sub(self.M - 1, b)):
                    return True     # M is prime
            if src is None:
                return False
            W = src.vals
            for s in src.cut.tpl:
                if s[0] == 'coprime':
                    p, q = W[s[1]], W[s[2]]
                    if self.combo(F, p, x, y) and self.combo(F, q, x, y):
                        return True
            return False
        return False

    def notone(self, F, x):
        return F.decide_eq(sub(x, 1)) == 0 or nonneg(F, sub(x, 2)) or nonneg(F, neg(x))

    def combo(self, F, p, x, y):
        for a, b in ((1, 0), (0, 1), (2, 0), (0, 2), (1, 1), (2, 1), (1, 2), (2, 2), (1, -1), (-1, 1)):
            if same(F, p, add(scale(x, a), scale(y, b))):
                return True
        return False

    def cong(self, F, d, src):
        """d = 0 modulo M, up to a power of two (invertible), using the congruences assumed at the source cut"""
        rels = []
        if src is not None:
            for t in src.cut.tpl:
                if t[0] == 'cong':
                    r = sub(PL.mul(self.A, src.vals[t[1]]), src.vals[t[2]])
                    rels.append(self.norm(F, r))
        rels += [self.norm(F, w) for z in F.zero if isinstance(z, Poly) for w in (z, PL.mul(self.A, z))]
        for s in (1, 2):
            e = self.norm(F, scale(d, s))
            if self.modz(e) or self.span(e, rels) or congruent(F, e, self.M):
                return True
        return False

    def norm(self, F, e):
        e = F.reval(e, 10000, True) if not isinstance(e, int) else e
        return e if isinstance(e, int) else n3(e)

    def modz(self, e):
        return e % self.M == 0 if isinstance(e, int) else all(v % self.M == 0 for v in e.t.values())

    def span(self, e, rels):
        """e is a combination of the relations modulo M"""
        M = self.M
        rows = []

        def vec(p):
            return {k: v % M for k, v in terms(p).items() if v % M}

        def reduce(v):
            for piv, r in rows:
                c = v.get(piv)
                if c:
                    for k, x in r.items():
                        n = (v.get(k, 0) - c * x) % M
                        if n:
                            v[k] = n
                        else:
                            v.pop(k, None)
            return v
        for r in rels:
            v = reduce(vec(r))
            if v:
                piv = max(v)
                i = pow(v[piv], -1, M)
                rows.append((piv, {k: x * i % M for k, x in v.items()}))
        return not reduce(vec(e))

    # ---- driver
    def assume(self, c):
        """state at the cut with the invariant assumed"""
        s = c.st.copy()
        for h in c.havoc:
            lo = 1 if ('lb', h) in c.tpl else 0
            hi = min([t[2] for t in c.tpl if t[0] == 'ub' and t[1] == h] + [(1 << 256) - 1])
            x = atom('h%d' % next(COUNT), lo, hi)
            s.mem[h[0]] = put(s.mem[h[0]], h[1], limbs_of(x))
        s.facts = self.facts
        f = s.frames[-1]
        f.counts = tuple(0 for _ in f.counts)
        src = Cut()
        src.cut = c
        src.vals = self.cells(c, s)
        return s, src

    def at(self, s, place):
        v = s.mem[place[0]]
        for i in place[1]:
            v = v.f[i]
        return v

    def solve(self):
        while True:
            try:
                return self.solve1()
            except Counter as e:
                self.uncut.add(e.args[0])
            except Undecided as e:
                # a counted loop that cannot be unrolled is cut like the others
                if not self.uncut or 'not bounded' not in str(e):
                    raise
                self.keepcut |= self.uncut
                self.uncut = set()
            self.cuts = {}

    def solve1(self):
        """rounds over all cuts until nothing changes; the last round is the proof"""
        outs0, arr0 = self.launch()
        for rounds in range(60):
            n0 = len(self.cuts)
            changed = False
            self.edges = []
            self.finals = [(o, None) for o in outs0]
            for st in arr0:
                changed |= self.absorb(st, None)
            for k in list(self.cuts):
                c = self.cuts[k]
                s, src = self.assume(c)
                outs, arr = self.launch(s)
                self.finals += [(o, src) for o in outs]
                for st in arr:
                    changed |= self.absorb(st, src)
                    self.edges.append((c, self.cuts[self.key(st)], st, src))
            if not changed and len(self.cuts) == n0:
                return self.finals
        raise Undecided('loop invariant not found')

    def terminates(self):
        """a sum of two cells that no path between cuts increases and every cycle decreases"""
        common = None
        for c in self.cuts.values():
            s = set(c.havoc)
            common = s if common is None else common | s
        if not self.edges:
            return True
        for pair in itertools.combinations(sorted(common, key=str), 2):
            if all(all(p in src.vals for p in pair) for _, _, _, src in self.edges):
                ok, weak = True, []
                for c, d, st, src in self.edges:
                    V = self.cells(d, st)
                    if not all(p in V for p in pair):
                        ok = False
                        break
                    dl = sub(add(src.vals[pair[0]], src.vals[pair[1]]), add(V[pair[0]], V[pair[1]]))
                    F = st.facts
                    if nonneg(F, sub(dl, 1)) or nonneg(F, sub(scale(dl, 2), 1)):
                        continue
                    if nonneg(F, dl):
                        weak.append((c.key, d.key))
                    else:
                        ok = False
                        break
                if ok and acyclic(weak):
                    return True
        return False


COUNT = itertools.count()


def acyclic(edges):
    g = {}
    for a, b in edges:
        g.setdefault(a, set()).add(b)
    state = {}

    def visit(a):
        state[a] = 1
        for b in g.get(a, ()):
            if state.get(b) == 1 or (b not in state and not visit(b)):
                return False
        state[a] = 2
        return True
    return all(visit(a) for a in list(g) if a not in state)


def nonneg(F, p):
    p = F.reval(p, 10000, True) if not isinstance(p, int) else p
    if isinstance(p, int):
        return p >= 0
    return F.decide_ge(p) == 1 or -F.upper(neg(p), 0, True) >= 0


def same(F, a, b):
    d = sub(a, b)
    if isinstance(d, int):
        return d == 0
    return F.is_zero(d)


def ob_invert(ctx, T, root='root_u256_invert'):
    """modular inverse of an arbitrary integer 1 <= a < M, for the prime M of the field"""
    M = MODS[T]
    if not prime(M):
        ctx.fail('reference', 'modulus not prime')
    inst = ctx.root(root)
    A = atom('A', 1, M - 1)
    mk, cells = setup_args(ctx.P, inst, [limbs_of(A), limbs_of(M)])
    C = Cutter(ctx, inst, mk, Facts(), M, A, [sub_contract(M), word_contracts, eq_contract])
    finals = C.solve()
    n = 0
    for o, src in finals:
        if o.kind == 'panic':
            ctx.fail(o.info[1], 'panic reachable', o.info[0])
        elif o.kind == 'unreachable':
            ctx.fail(o.info[1], 'unreachable_unchecked reached', o.info[0])
        elif o.kind == 'ret':
            n += 1
            F = o.state.facts
            R = val(o.state.mem[cells[0]])
            if not C.cong(F, sub(PL.mul(A, R), 1), src):
                ctx.fail(inst['name'], 'result times operand is not congruent to one', str(F.reval(R))[:200])
            if not in_range(F, R, 0, M - 1):
                ctx.fail(inst['name'], 'result not below the modulus')
    if not n:
        ctx.fail(inst['name'], 'no normal exit')
    if not C.terminates():
        ctx.fail(inst['name'], 'no decreasing measure found for the loops')
    ctx.items.append('cuts %d, invariants %s' % (len(C.cuts), {t[0] for c in C.cuts.values() for t in c.tpl}))
    return C


def prime(n):
    if n < 4:
        return n in (2, 3)
    d, r = n - 1, 0
    while d % 2 == 0:
        d //= 2
        r += 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(r - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def ob_field_inverse(ctx, T, which='field'):
    """inverse of a field element in Montgomery form: none exactly for zero, else canonical with product one"""
    M = MODS[T]
    inst = ctx.root('root_fr_inverse') if which == 'root' else ctx.impl(T, 'FieldElement', 'inverse')
    A = atom('A', 1, M - 1)
    mk, cells = setup_args(ctx.P, inst, [limbs_of(A)])
    C = Cutter(ctx, inst, mk, Facts(), M, A, [mul_contract(M), sub_contract(M), word_contracts, eq_contract])
    n = 0
    for o, src in C.solve():
        if o.kind == 'panic':
            ctx.fail(o.info[1], 'panic reachable', o.info[0])
        elif o.kind == 'unreachable':
            ctx.fail(o.info[1], 'unreachable_unchecked reached', o.info[0])
        elif o.kind == 'ret':
            n += 1
            F = o.state.facts
            if o.value.v != 1:
                x = 0
                for i, l in enumerate(limbs_of(A).f):
                    l = F.reval(l, 10000, True)
                    x = None if x is None or not isinstance(l, int) else x + (l << (64 * i))
                if x is not None and not 1 <= x <= M - 1:
                    continue        # the path fixes every limb to a value outside the assumption
                ctx.fail(inst['name'], 'no inverse for a non-zero element')
                continue
            R = val(o.value.f[0])
            if not C.cong(F, sub(PL.mul(A, R), R256 ** 2 % M), src):
                ctx.fail(inst['name'], 'result times operand is not one', str(F.reval(R))[:200])
            if not in_range(F, R, 0, M - 1):
                ctx.fail(inst['name'], 'result not below the modulus')
    if not n:
        ctx.fail(inst['name'], 'no normal exit')
    if not C.terminates():
        ctx.fail(inst['name'], 'no decreasing measure found for the loops')
    ctx.items.append('cuts %d, invariants %s' % (len(C.cuts), {t[0] for c in C.cuts.values() for t in c.tpl}))
    mk, cells = setup_args(ctx.P, inst, [limbs_of(0)])
    E = ctx.engine([word_contracts, eq_contract])
    E.max_iter = 300
    for o in ctx.run(E, inst, mk):
        if o.value.v != 0:
            ctx.fail(inst['name'], 'an inverse is returned for zero')


def ob_gt_inverse(ctx):
    """the public inverse of a target-group value: the formal inverse of the operand"""
    import ldom
    inst = ctx.root('root_gt_inverse')

    def special(m):
        if m == 'inverse':
            def h(E, st, a, call):
                x = a[0]
                while isinstance(x, Ptr):
                    x = E.deref(st, x)
                if not isinstance(x, ldom.LV):
                    return NotImplemented
                return Agg(1, (ldom.lscale(x, -1),))
            return h
    ldom.lreset()
    E = ctx.engine([ldom.power_hooks('Fq12', special)], joiners=[ldom.LDom()])
    mk, _ = setup_args(ctx.P, inst, [ldom.LV('Fq12', {'a': 1})])
    outs = ctx.run(E, inst, mk)
    if not outs:
        ctx.fail(inst['name'], 'no normal exit')
    for o in outs:
        if not (isinstance(o.value, ldom.LV) and o.value.t == {'a': -1}):
            ctx.fail(inst['name'], 'result is not the inverse of the operand', repr(o.value)[:200])
