"""256/512-bit integer layer: division, byte strings, bits, ordering"""
from ob import *
from ob_field import check_limb_result, show_short

HK = [word_contracts]
M64 = (1 << 64) - 1


def wide(name, n, w=64):
    return Arr(tuple(atom('%s%d' % (name, i), 0, (1 << w) - 1) for i in range(n)))


def option(o):
    """(is_some, payload) of an Option value"""
    v = o.value if hasattr(o, 'value') else o
    if not isinstance(v, Agg):
        return None, None
    return v.v == 1, v.f[0] if v.v == 1 else None


# ---------------------------------------------------------------- division
def ob_divrem(ctx, T):
    """any 512-bit dividend, modulus of the field: exact remainder, quotient present exactly when below the modulus"""
    M = MODS[T]
    inst = ctx.root('root_u512_divrem')
    w = wide('w', 8)
    V = val(w)
    mk, _ = setup_args(ctx.P, inst, [w, limbs_of(M)])

    def go(eager=True):
        seen = set()
        for o in ctx.run(ctx.engine(HK, eager=eager), inst, mk):
            F = o.state.facts
            q, r = o.value.f
            check_limb_result(ctx, inst, o, r, V, 1, M, 'remainder')
            some, Q = option(q)
            seen.add(some)
            if some:
                Q = val(Q)
                if not F.is_zero(n3(sub(add(scale(Q, M), val(r)), V))):
                    ctx.fail(inst['name'], 'quotient times modulus plus remainder is not the dividend')
                if not in_range(F, Q, 0, M - 1):
                    ctx.fail(inst['name'], 'quotient not proved below the modulus')
            elif not above(F, V, M * M, val(r), M):
                ctx.fail(inst['name'], 'no quotient returned although it may be below the modulus')
        if seen != {True, False}:
            ctx.fail(inst['name'], 'quotient outcome missing', seen)
    ctx.attempts(go, eager=False)


def above(F, V, k, r, M):
    """V >= k follows from one fact (times a constant) and r >= 0"""
    if F.lower(V, k) >= k:
        return True
    for f in F.ge:
        g = n3(f)
        for c in (1, M, R256):
            rest = n3(sub(sub(V, k), scale(g, c)))
            if F.lower(rest, 0) >= 0:
                return True
            d = n3(sub(rest, r))
            if isinstance(d, int) and d >= 0:
                return True
    return False


def divrem_contract(E, inst):
    """U512::divrem by a constant field modulus (discharged by ob_divrem)"""
    if inst['crate'] == 'rabe_bn' and inst['name'] == 'rabe_bn::arith::U512::divrem':
        return h_divrem
    return word_contracts(E, inst)


def h_divrem(E, st, args, call):
    """remainder named by an atom R(V); the quotient is left open"""
    V = val(E.deref(st, args[0]))
    M = val(E.deref(st, args[1]))
    if M not in MODS.values():
        return NotImplemented
    k = (V, M)
    tab = E.__dict__.setdefault('remainders', {})
    if k not in tab:
        tab[k] = atom('R%d' % len(tab), 0, M - 1)
    r = limbs_of(tab[k])
    q = limbs_of(atom('Q%d' % len(tab), 0, M - 1))
    s2 = st.copy()
    return [(st, Agg(0, (Agg(1, (q,)), r))), (s2, Agg(0, (Agg(0, ()), r)))]


def reduced(E, V, M):
    """the symbol standing for V mod M if the division contract was applied to V, else V"""
    return E.__dict__.get('remainders', {}).get((V, M), V)


def ob_interpret(ctx, T='Fr'):
    """64 bytes, big endian, reduced modulo the prime"""
    M = MODS[T]
    inst = ctx.entry(T, 'interpret')
    b = wide('b', 64, 8)
    V = bigendian(b.f)
    mk, _ = setup_args(ctx.P, inst, [b])
    E = ctx.engine([divrem_contract])
    outs = ctx.run(E, inst, mk)
    if not outs:
        ctx.fail(inst['name'], 'no normal exit')
    for o in outs:
        check_limb_result(ctx, inst, o, o.value, PL.mul(reduced(E, V, M), R256), 1, M)


def bigendian(bs):
    r = 0
    for i, x in enumerate(bs):
        r = add(r, scale(x, 256 ** (len(bs) - 1 - i)))
    return n2(r)


def ob_u512_interpret(ctx):
    inst = ctx.root('root_u512_interpret')
    b = wide('b', 64, 8)
    mk, _ = setup_args(ctx.P, inst, [b])
    for o in ctx.run(ctx.engine(HK), inst, mk):
        if not equal(val(o.value), bigendian(b.f)):
            ctx.fail(inst['name'], 'not the big-endian value of the bytes')


def ob_u512_from(ctx, T):
    """c1*modulus + c0 when both are below the modulus"""
    M = MODS[T]
    inst = ctx.root('root_u512_from')
    A, B = atom('A', 0, M - 1), atom('B', 0, M - 1)
    mk, _ = setup_args(ctx.P, inst, [limbs_of(A), limbs_of(B), limbs_of(M)])
    for o in ctx.run(ctx.engine(HK), inst, mk):
        if not o.state.facts.is_zero(n3(sub(val(o.value), add(scale(A, M), B)))):
            ctx.fail(inst['name'], 'not c1*modulus + c0', show_short(val(o.value)))


# ---------------------------------------------------------------- byte slices
def any_len_but(n):
    ln = atom('len', 0, (1 << 63) - 1)
    return ln


def ob_from_slice(ctx, root, T=None):
    """32 bytes: the big-endian integer (reduced modulo r for scalars); every other length: the length error"""
    inst = ctx.root(root)
    b = wide('b', 32, 8)
    V = bigendian(b.f)
    mk, _ = setup_args(ctx.P, inst, [b])
    outs = ctx.run(ctx.engine(HK), inst, mk)
    if not outs:
        ctx.fail(inst['name'], 'no normal exit')
    for o in outs:
        v = o.value
        if not isinstance(v, Agg) or v.v != 0:
            ctx.fail(inst['name'], '32 bytes rejected', 'outcome %r' % (v,))
            continue
        x = v.f[0]
        if T is None:
            if not o.state.facts.is_zero(sub(val(x), V)):
                ctx.fail(inst['name'], 'not the big-endian value of the bytes')
        else:
            check_limb_result(ctx, inst, o, x, PL.mul(V, R256), 1, MODS[T])
    # every other length
    for lo, hi in ((0, 31), (33, (1 << 62))):
        ln = atom('len%d' % lo, lo, hi)
        el = SymElems('s')
        el.len = ln
        sl = Arr(el)
        mk, _ = setup_args(ctx.P, inst, [sl])
        outs = ctx.run(ctx.engine(HK), inst, mk)
        if not outs:
            ctx.fail(inst['name'], 'no normal exit for other lengths')
        for o in outs:
            v = o.value
            if not isinstance(v, Agg) or v.v != 1:
                ctx.fail(inst['name'], 'slice of another length accepted', 'lengths %d..%d' % (lo, hi))


def ob_new(ctx, T):
    """T::new on any 256-bit integer: Some(Montgomery form) exactly below the modulus"""
    M = MODS[T]
    inst = ctx.method(T, 'new')
    if inst is None:
        raise ctx.absent(T, 'new', T + '::new')
    a = wide('a', 4)
    V = val(a)
    mk, _ = setup_args(ctx.P, inst, [a])
    seen = set()
    for o in ctx.run(ctx.engine(HK), inst, mk):
        F = o.state.facts
        some, x = option(o)
        seen.add(some)
        if some:
            check_limb_result(ctx, inst, o, x, PL.mul(V, R256), 1, M)
            if F.upper(V, M - 1) > M - 1:
                ctx.fail(inst['name'], 'accepts an integer at or above the modulus')
        elif F.lower(V, M) < M:
            ctx.fail(inst['name'], 'rejects an integer below the modulus')
    if seen != {True, False}:
        ctx.fail(inst['name'], 'outcome missing', seen)


def ob_new_mul_factor(ctx, T='Fr'):
    """any 256-bit integer is reduced modulo the prime"""
    inst = ctx.entry(T, 'new_mul_factor')
    a = wide('a', 4)
    mk, _ = setup_args(ctx.P, inst, [a])
    outs = ctx.run(ctx.engine(HK), inst, mk)
    if not outs:
        ctx.fail(inst['name'], 'no normal exit')
    for o in outs:
        check_limb_result(ctx, inst, o, o.value, PL.mul(val(a), R256), 1, MODS[T])


def ob_modulus(ctx, T):
    """T::modulus is the prime"""
    inst = ctx.method(T, 'modulus')
    if inst is None:
        raise ctx.absent(T, 'modulus', T + '::modulus')
    for o in ctx.run(ctx.engine(HK), inst, lambda st: []):
        if val(o.value) != MODS[T]:
            ctx.fail(inst['name'], 'not the modulus', val(o.value))


def ob_into_u256(ctx, T):
    """the integer of a field element: below the modulus, and congruent to the element without its Montgomery factor"""
    M = MODS[T]
    inst = next((i for i in ctx.P.insts if i['crate'] == 'rabe_bn' and i.get('body') is not None
                 and (i.get('trait') or ['', ''])[1] == 'from' and re.search(r'\b%s\b' % T, i['name']) and 'arith::U256' in i['name']), None)
    if inst is None:
        raise ctx.absent(T, 'from', T + ' into U256')
    A = atom('A', 0, M - 1)
    mk, _ = setup_args(ctx.P, inst, [limbs_of(A)])
    outs = ctx.run(ctx.engine(HK), inst, mk)
    if not outs:
        ctx.fail(inst['name'], 'no normal exit')
    for o in outs:
        check_limb_result(ctx, inst, o, o.value, A, R256, M)


# ---------------------------------------------------------------- ordering and bits
def ob_ord(ctx, op):
    inst = ctx.root('root_u256_' + op)
    a, b = wide('a', 4), wide('b', 4)
    d = sub(val(a), val(b))
    mk, _ = setup_args(ctx.P, inst, [a, b])
    E = ctx.engine([u256_cmp] if op in ('lt', 'le', 'gt', 'ge') else [], nomerge=True)
    want = {'lt': (lambda F: F.upper(d, -1) <= -1, lambda F: F.lower(d, 0) >= 0),
            'ge': (lambda F: F.lower(d, 0) >= 0, lambda F: F.upper(d, -1) <= -1),
            'gt': (lambda F: F.lower(d, 1) >= 1, lambda F: F.upper(d, 0) <= 0),
            'le': (lambda F: F.upper(d, 0) <= 0, lambda F: F.lower(d, 1) >= 1),
            'eq': (lambda F: alleq(F, a, b), lambda F: differs(F, a, b)),
            'ne': (lambda F: differs(F, a, b), lambda F: alleq(F, a, b))}[op]
    seen = set()
    for o in ctx.run(E, inst, mk):
        for st, v in concrete_bool(E, o):
            seen.add(v)
            if not want[0 if v else 1](st.facts):
                ctx.fail(inst['name'], 'comparison disagrees with the numeric value', 'outcome %s under %s' % (v, st.facts.ge))
    if seen != {True, False}:
        ctx.fail(inst['name'], 'comparison outcome missing', seen)


def alleq(F, a, b):
    return all(F.is_zero(sub(x, y)) for x, y in zip(a.f, b.f)) or F.is_zero(sub(val(a), val(b)))


def differs(F, a, b):
    """some limb is known to differ"""
    for x, y in zip(a.f, b.f):
        if F.decide_eq(sub(x, y)) == 0:
            return True
    d = sub(val(a), val(b))
    return F.decide_eq(d) == 0 or F.lower(d, 1) >= 1 or F.upper(d, -1) <= -1


def concrete_bool(E, o):
    """split an outcome on its boolean value"""
    v = o.value
    if isinstance(v, bool):
        return [(o.state, v)]
    if isinstance(v, int):
        return [(o.state, bool(v))]
    c = v if isinstance(v, Cond) else cnot(mkcond('eq', v))
    s2 = o.state.copy()
    return [(s, True) for s in E.assume(o.state, c)] + [(s, False) for s in E.assume(s2, cnot(c))]


def same_bit(F, cond, x, k):
    """a boolean value equals bit k of the word x"""
    c = cond_int(cond) if not isinstance(cond, int) or isinstance(cond, bool) else cond
    return F.is_zero(sub(c, digit(x, 1 << k, 2)))


def ob_getbit(ctx, ty, n):
    inst = ctx.root('root_%s_get_bit' % ty)
    w = wide('w', n // 64)
    for i in range(n):
        mk, _ = setup_args(ctx.P, inst, [w, i])
        for o in ctx.run(ctx.engine([]), inst, mk):
            some, b = option(o)
            if not some or not same_bit(o.state.facts, b, w.f[i // 64], i % 64):
                ctx.fail(inst['name'], 'wrong bit', 'bit %d' % i)
    mk, _ = setup_args(ctx.P, inst, [w, atom('n', n, (1 << 64) - 1)])
    for o in ctx.run(ctx.engine([]), inst, mk):
        if option(o)[0] is not False:
            ctx.fail(inst['name'], 'bit beyond the width returned')


def ob_setbit(ctx):
    inst = ctx.root('root_u256_set_bit')
    w = wide('w', 4)
    for i in range(256):
        for to in (0, 1):
            mk, cells = setup_args(ctx.P, inst, [w, i, bool(to)])
            for o in ctx.run(ctx.engine([]), inst, mk):
                r = o.state.mem[cells[0]]
                F = o.state.facts
                d = sub(val(r), val(w))
                want = scale(sub(to, digit(w.f[i // 64], 1 << (i % 64), 2)), 1 << i)
                ok = F.is_zero(sub(d, want))
                for st, v in concrete_bool(ctx.engine([]), o):
                    ok = ok and v
                if not ok:
                    ctx.fail(inst['name'], 'wrong bit set', 'bit %d to %d' % (i, to))
    mk, cells = setup_args(ctx.P, inst, [w, atom('n', 256, (1 << 64) - 1), Cond('ge', sub(atom('to', 0, 1), 1))])
    for o in ctx.run(ctx.engine([]), inst, mk):
        r = o.state.mem[cells[0]]
        if not o.state.facts.is_zero(sub(val(r), val(w))) or any(v for st, v in concrete_bool(ctx.engine([]), o)):
            ctx.fail(inst['name'], 'bit beyond the width accepted or value changed')


def ob_bits(ctx):
    inst = ctx.root('root_u256_bits_all')
    w = wide('w', 4)
    mk, _ = setup_args(ctx.P, inst, [w])
    for o in ctx.run(ctx.engine(HK), inst, mk):
        arr, n, again = o.value.f
        if again not in (0, False):
            ctx.fail(inst['name'], 'iterator goes on after its end')
        if n != 256:
            ctx.fail(inst['name'], 'iterator does not yield 256 bits', n)
            continue
        for i, b in enumerate(arr.f):
            k = 255 - i
            if not same_bit(o.state.facts, b, w.f[k // 64], k % 64):
                ctx.fail(inst['name'], 'iterator bit wrong', 'position %d' % i)


def ob_tests(ctx):
    w = wide('w', 4)
    inst = ctx.root('root_u256_is_zero')
    mk, _ = setup_args(ctx.P, inst, [w])
    E = ctx.engine([], nomerge=True)
    seen = set()
    for o in ctx.run(E, inst, mk):
        for st, v in concrete_bool(E, o):
            seen.add(v)
            ok = st.facts.is_zero(val(w)) if v else differs(st.facts, w, Arr((0, 0, 0, 0)))
            if not ok:
                ctx.fail(inst['name'], 'zero test wrong', v)
    if seen != {True, False}:
        ctx.fail(inst['name'], 'zero test outcome missing')
    inst = ctx.root('root_u256_is_even')
    mk, _ = setup_args(ctx.P, inst, [w])
    for o in ctx.run(ctx.engine([]), inst, mk):
        c = o.value
        if not o.state.facts.is_zero(sub(sub(1, cond_int(c)), digit(w.f[0], 1, 2))):
            ctx.fail(inst['name'], 'parity test wrong')
    for n, e in (('zero', 0), ('one', 1)):
        inst = ctx.root('root_u256_' + n)
        for o in ctx.run(ctx.engine([]), inst, lambda st: []):
            if val(o.value) != e:
                ctx.fail(inst['name'], 'wrong constant')
    for n in ('from_arr', 'clone'):
        inst = ctx.root('root_u256_' + n)
        mk, _ = setup_args(ctx.P, inst, [w])
        for o in ctx.run(ctx.engine([]), inst, mk):
            if not o.state.facts.is_zero(sub(val(o.value), val(w))):
                ctx.fail(inst['name'], 'value changed')


# ---------------------------------------------------------------- public modular operations on U256
def ob_u256_op(ctx, T, op):
    """U256 add/sub/mul/neg with the field modulus, operands below the modulus"""
    M = MODS[T]
    inst = ctx.root('root_u256_' + op)
    A, B = atom('A', 0, M - 1), atom('B', 0, M - 1)
    args = {'neg': [limbs_of(A), limbs_of(M)],
            'mul': [limbs_of(A), limbs_of(B), limbs_of(M), (-pow(M, -1, 1 << 64)) % (1 << 64)]}.get(op, [limbs_of(A), limbs_of(B), limbs_of(M)])
    mk, cells = setup_args(ctx.P, inst, args)
    def go(**kw):
        outs = ctx.run(ctx.engine(HK, **kw), inst, mk)
        if not outs:
            ctx.fail(inst['name'], 'no normal exit')
        for o in outs:
            check_limb_result(ctx, inst, o, o.state.mem[cells[0]], {'add': add(A, B), 'sub': sub(A, B), 'neg': neg(A), 'mul': PL.mul(A, B)}[op], R256 if op == 'mul' else 1, M)
    ctx.attempts(go)
