"""extension tower F_q^2, F_q^6, F_q^12 and Frobenius maps, over arbitrary elements"""
from fdom import *

XI = (9, 1)          # v^3 = 9 + u
DOM = FDom()


def eng(ctx, kinds, **kw):
    return ctx.engine([u256_cmp, field_hooks(kinds)], joiners=[DOM], **kw)


# ---- reference algebra
def xi(p):
    return p.scale(XI)


def r6mul(a, b):
    return [a[0] * b[0] + xi(a[1] * b[2] + a[2] * b[1]),
            a[0] * b[1] + a[1] * b[0] + xi(a[2] * b[2]),
            a[0] * b[2] + a[1] * b[1] + a[2] * b[0]]


def r6v(a):
    return [xi(a[2]), a[0], a[1]]


def radd(a, b):
    return [x + y for x, y in zip(a, b)]


def rsub(a, b):
    return [x - y for x, y in zip(a, b)]


def rneg(a):
    return [-x for x in a]


def r12mul(a, b):
    a0, a1, b0, b1 = a[:3], a[3:], b[:3], b[3:]
    return radd(r6mul(a0, b0), r6v(r6mul(a1, b1))) + radd(r6mul(a0, b1), r6mul(a1, b0))


def cpow(c, e):
    """power of a coefficient in F_q[u]"""
    r = (1, 0)
    while e:
        if e & 1:
            r = ((r[0] * c[0] - r[1] * c[1]) % Q, (r[0] * c[1] + r[1] * c[0]) % Q)
        c = ((c[0] * c[0] - c[1] * c[1]) % Q, 2 * c[0] * c[1] % Q)
        e >>= 1
    return r


def rfrob(a, n, deg):
    """q^n power Frobenius on coefficient lists (2: one coefficient, 6: three, 12: six in the order c0,c1)"""
    out = []
    for i, x in enumerate(a):
        y = x.conj() if n % 2 else x
        if deg == 6:
            e = 2 * i
        elif deg == 12:
            e = 2 * i if i < 3 else 2 * (i - 3) + 1
        else:
            e = 0
        out.append(y.scale(cpow(XI, e * (Q ** n - 1) // 6)) if e else y)
    return out


# ---- shapes
def flat(E, st, kind, v):
    """coefficients over Fq2 of a tower value"""
    if kind == 'Fq2':
        return [toF(E, st, 'Fq2', v)]
    if kind == 'Fq6':
        return [toF(E, st, 'Fq2', x) for x in v.f]
    if kind == 'Fq12':
        return [toF(E, st, 'Fq2', x) for h in v.f for x in h.f]
    if kind in ('Fq', 'Fr'):
        return [toF(E, st, kind, v)]
    raise Undecided(kind)


def build(kind, name, low):
    """(value, coefficients); low: Fq2 given by two Fq components"""
    def el(n):
        if low:
            a, b = fatom(n + '.0'), fatom(n + '.1')
            return Agg(0, (FV('Fq', a), FV('Fq', b))), a + b.scale((0, 1))
        x = fatom(n, real=False)
        return FV('Fq2', x), x
    if kind == 'Fq':
        x = fatom(name)
        return FV('Fq', x), [x]
    if kind == 'Fr':
        x = fatom(name, RR)
        return FV('Fr', x), [x]
    if kind == 'Fq2':
        v, c = el(name)
        return v, [c]
    n = 3 if kind == 'Fq6' else 6
    es = [el('%s%d' % (name, i)) for i in range(n)]
    cs = [c for v, c in es]
    vs = [v for v, c in es]
    if kind == 'Fq6':
        return Agg(0, tuple(vs)), cs
    return Agg(0, (Agg(0, tuple(vs[:3])), Agg(0, tuple(vs[3:])))), cs


def kinds_for(kind):
    return ('Fq',) if kind == 'Fq2' else ('Fq', 'Fq2')


def cmp_vec(ctx, inst, o, got, want, what):
    F = ff(o.state)
    for i, (g, w) in enumerate(zip(got, want)):
        if not F.is_zero(g - w):
            ctx.fail(inst['name'], what, 'coefficient %d is %s, expected %s' % (i, fshow(F.reduce(g)), fshow(F.reduce(w))))
            return False
    return True


def refmul(kind, a, b):
    if kind == 'Fq6':
        return r6mul(a, b)
    if kind == 'Fq12':
        return r12mul(a, b)
    return [a[0] * b[0]]


def one_of(kind):
    n = {'Fq2': 1, 'Fq6': 3, 'Fq12': 6, 'Fq': 1, 'Fr': 1}[kind]
    m = RR if kind == 'Fr' else Q
    return [fconst(1, 0, m)] + [fconst(0, 0, m)] * (n - 1)


def bool_cases(E, o):
    """[(state, bool)] of an outcome whose value is a condition"""
    v = o.value
    if isinstance(v, (bool, int)) and not isinstance(v, Cond):
        return [(o.state, bool(v))]
    s2 = o.state.copy()
    return [(s, True) for s in E.assume(o.state, v)] + [(s, False) for s in E.assume(s2, cnot(v))]


def ob_arith(ctx, kind, op):
    """ring operation of one level equals the operation of F_q[u,v,w]/(u^2+1, v^3-9-u, w^2-v)"""
    freset()
    a, ca = build(kind, 'a', kind == 'Fq2')
    b, cb = build(kind, 'b', kind == 'Fq2')
    E = eng(ctx, kinds_for(kind))
    tr = {'add': 'Add', 'sub': 'Sub', 'neg': 'Neg', 'mul': 'Mul', 'squared': 'FieldElement'}[op]
    inst = ctx.P.impl_of(kind, tr, op)
    if inst is None:
        return 'absent'
    want = {'add': lambda: radd(ca, cb), 'sub': lambda: rsub(ca, cb), 'neg': lambda: rneg(ca),
            'mul': lambda: refmul(kind, ca, cb), 'squared': lambda: refmul(kind, ca, ca)}[op]()
    mk, _ = setup_args(ctx.P, inst, [a, b][:inst['body']['argc']])
    outs = ctx.run(E, inst, mk)
    if not outs:
        ctx.fail(inst['name'], 'no normal exit')
    for o in outs:
        cmp_vec(ctx, inst, o, flat(E, o.state, kind, o.value), want, '%s is not the %s of the field' % (op, op))


def ob_inverse(ctx, kind):
    """inverse(a) = Some(b) with a*b = 1, None only where the norm of a vanishes (a = 0)"""
    freset()
    a, ca = build(kind, 'a', kind == 'Fq2')
    E = eng(ctx, kinds_for(kind))
    inst = ctx.impl(kind, 'FieldElement', 'inverse')
    mk, _ = setup_args(ctx.P, inst, [a])
    some = none = 0
    for o in ctx.run(E, inst, mk):
        if o.value.v == 1:
            some += 1
            got = flat(E, o.state, kind, o.value.f[0])
            cmp_vec(ctx, inst, o, refmul(kind, ca, got), one_of(kind), 'inverse times the element is not one')
        else:
            none += 1
            F = ff(o.state)
            N = norm(kind, ca)
            if not F.is_zero(N):
                ctx.fail(inst['name'], 'inverse missing for an element whose norm is not zero', 'norm %s' % fshow(F.reduce(N)))
    if not some:
        ctx.fail(inst['name'], 'no path returns an inverse')


def norm(kind, c):
    """norm to the next smaller field (zero iff the element is zero)"""
    if kind == 'Fq2':
        return c[0] * c[0].conj()
    if kind == 'Fq6':
        a, b, d = c
        return a * a * a + xi(b * b * b) + xi(xi(d * d * d)) - xi(a * b * d).scale(3)
    c0, c1 = c[:3], c[3:]
    n = rsub(r6mul(c0, c0), r6v(r6mul(c1, c1)))
    return norm('Fq6', n)


def ob_consts(ctx, kind):
    freset()
    E = eng(ctx, ('Fq',))
    for m in ('zero', 'one'):
        inst = ctx.P.impl_of(kind, 'FieldElement', m)
        if inst is None:
            continue
        for o in ctx.run(E, inst, lambda st: []):
            w = one_of(kind)
            if m == 'zero':
                w = [x - x for x in w]
            cmp_vec(ctx, inst, o, flat(E, o.state, kind, o.value), w, 'wrong constant')


def ob_tests(ctx, kind):
    """is_zero and == decide exactly equality of all coefficients"""
    freset()
    for m, tr, n in (('is_zero', 'FieldElement', 1), ('eq', 'PartialEq', 2)):
        inst = ctx.P.impl_of(kind, tr, m)
        if inst is None:
            continue
        E = eng(ctx, ('Fq',), nomerge=True)
        a, ca = build(kind, 'a', True)
        b, cb = build(kind, 'b', True)
        mk, _ = setup_args(ctx.P, inst, [a, b][:n])
        d = ca if n == 1 else rsub(ca, cb)
        real = [x for c in d for x in (c.re(), c.im())]
        seen = set()
        for o in ctx.run(E, inst, mk):
            for st, v in bool_cases(E, o):
                seen.add(v)
                F = ff(st)
                if v and not all(F.is_zero(x) for x in real):
                    ctx.fail(inst['name'], '%s answers true for values that differ' % m)
                if not v and not any(F.is_nonzero(x) for x in real):
                    ctx.fail(inst['name'], '%s answers false for equal values' % m)
        if seen != {True, False}:
            ctx.fail(inst['name'], '%s never answers both' % m, seen)


def ob_frobenius(ctx, kind, powers=(1, 2, 3) + (0,) + tuple(range(4, 27)) + (48, (1 << 64) - 2, (1 << 64) - 1)):
    """frobenius_map(n) is x -> x^(q^n); the pairing uses 1, 2 and 3, any other power is exact or refused"""
    freset()
    inst = ctx.method(kind, 'frobenius_map')
    if inst is None:
        return 'absent'
    for n in powers:
        E = eng(ctx, kinds_for(kind))
        a, ca = build(kind, 'a', kind == 'Fq2')
        mk, _ = setup_args(ctx.P, inst, [a, n])
        for o in ctx.run(E, inst, mk, panics=n in (1, 2, 3)):
            if o.kind != 'ret':
                continue
            cmp_vec(ctx, inst, o, flat(E, o.state, kind, o.value), rfrob(ca, n % 12, int(kind[2:])), 'frobenius_map(%d) is not the q^%d power' % (n, n))


def ob_special(ctx, name):
    """fixed-form helpers"""
    freset()
    if name == 'fq2.scale':
        inst = ctx.method('Fq2', 'scale')
        a, ca = build('Fq2', 'a', True)
        b, cb = build('Fq', 'b', True)
        args, want, kind, kk = [a, b], [ca[0] * cb[0]], 'Fq2', ('Fq',)
    elif name == 'fq2.nr':
        inst = ctx.method('Fq2', 'mul_by_nonresidue')
        a, ca = build('Fq2', 'a', True)
        args, want, kind, kk = [a], [xi(ca[0])], 'Fq2', ('Fq',)
    elif name == 'fq6.nr':
        inst = ctx.method('Fq6', 'mul_by_nonresidue')
        a, ca = build('Fq6', 'a', False)
        args, want, kind, kk = [a], r6v(ca), 'Fq6', ('Fq', 'Fq2')
    elif name == 'fq6.scale':
        inst = ctx.method('Fq6', 'scale')
        a, ca = build('Fq6', 'a', False)
        b, cb = build('Fq2', 'b', False)
        args, want, kind, kk = [a, b], [x * cb[0] for x in ca], 'Fq6', ('Fq', 'Fq2')
    elif name == 'fq12.unitary':
        inst = ctx.method('Fq12', 'unitary_inverse')
        a, ca = build('Fq12', 'a', False)
        args, want, kind, kk = [a], ca[:3] + rneg(ca[3:]), 'Fq12', ('Fq', 'Fq2')
    elif name == 'fq12.024':
        inst = ctx.method('Fq12', 'mul_by_024')
        a, ca = build('Fq12', 'a', False)
        x0, x4, x2 = fatom('x0', real=False), fatom('x4', real=False), fatom('x2', real=False)
        z = fconst(0)
        # ell_0, ell_vw, ell_vv sit at 1, v*w, v^2 ... : sparse element of the Miller loop
        sp = [x0, z, x2, z, x4, z]
        args = [a] + [FV('Fq2', v) for v in (x0, x4, x2)]
        want, kind, kk = r12mul(ca, sp), 'Fq12', ('Fq', 'Fq2')
    elif name == 'fq12.cycsq':
        return ob_cycsq(ctx)
    if inst is None:
        return 'absent'
    E = eng(ctx, kk)
    mk, _ = setup_args(ctx.P, inst, args)
    for o in ctx.run(E, inst, mk):
        cmp_vec(ctx, inst, o, flat(E, o.state, kind, o.value), want, '%s computes another value' % name)


def ob_cycsq(ctx):
    """cyclotomic_squared equals squaring on the cyclotomic subgroup: the difference to a*a lies in the
    ideal of the defining equations a * frob6(a) = 1 and a * frob4(a) = frob2(a)"""
    inst = ctx.method('Fq12', 'cyclotomic_squared')
    if inst is None:
        return 'absent'
    E = eng(ctx, ('Fq', 'Fq2'))
    a, ca = build('Fq12', 'a', False)
    mk, _ = setup_args(ctx.P, inst, [a])
    sq = r12mul(ca, ca)
    # conj (q^6 Frobenius) of a and a^(q^2), a^(q^4)
    f2, f4 = rfrob(ca, 2, 12), rfrob(ca, 4, 12)
    c6 = ca[:3] + rneg(ca[3:])
    rel = rsub(r12mul(ca, c6), one_of('Fq12')) + rsub(r12mul(ca, f4), f2)
    for o in ctx.run(E, inst, mk):
        got = flat(E, o.state, 'Fq12', o.value)
        F = ff(o.state)
        for i, (g, s) in enumerate(zip(got, sq)):
            d = F.reduce(g - s)
            if not in_span(d, rel):
                ctx.fail(inst['name'], 'not the square on the cyclotomic subgroup', 'coefficient %d differs by %s' % (i, fshow(d)))
                break


def in_span(d, gens):
    """d is an F_q2-linear combination of the polynomials gens (Gaussian elimination on monomials)"""
    rows = []
    for g in gens:
        g = dict(g.t)
        for lead, r in rows:
            if lead in g:
                g = lin(g, r, g[lead])
        if g:
            lead = max(g)
            ci = cinv(g[lead], Q)
            g = {k: cm(v, ci) for k, v in g.items()}
            rows.append((lead, g))
    d = dict(d.t)
    for lead, r in rows:
        if lead in d:
            d = lin(d, r, d[lead])
    return not d


def cm(a, b):
    return ((a[0] * b[0] - a[1] * b[1]) % Q, (a[0] * b[1] + a[1] * b[0]) % Q)


def lin(d, r, c):
    d = dict(d)
    for k, v in r.items():
        x = cm(v, c)
        o = d.get(k, (0, 0))
        n = ((o[0] - x[0]) % Q, (o[1] - x[1]) % Q)
        if n == (0, 0):
            d.pop(k, None)
        else:
            d[k] = n
    return d


def ob_irreducible(ctx):
    """-1 is no square in F_q and 9+u neither a square nor a cube in F_q^2 (so a vanishing norm means zero)"""
    if pow(Q - 1, (Q - 1) // 2, Q) == 1 or cpow(XI, (Q * Q - 1) // 2) == (1, 0) or cpow(XI, (Q * Q - 1) // 3) == (1, 0):
        ctx.fail('tower constants', 'tower not a field')
