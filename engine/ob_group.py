"""group law on both curves: points in Jacobian coordinates (a z^2, b z^3, z) over an arbitrary curve point (a, b)"""
from ob_tower import *

BASE = {'g1': 'Fq', 'g2': 'Fq2'}
B1 = (3, 0)


def coeff(g):
    """coefficient of the curve y^2 = x^3 + B"""
    return B1 if g == 'g1' else cm((3, 0), cinv(XI, Q))


def kinds_g(g):
    return ('Fq', 'Fr') if g == 'g1' else ('Fq', 'Fq2', 'Fr')


class Pt:
    __slots__ = ('inf', 'a', 'b', 'v')


def affine(g, name):
    """coordinates of an arbitrary point of the curve other than the identity (b is never zero: odd order)"""
    real = g == 'g1'
    a = fatom(name + '.a', real=real)
    b = fatom(name + '.b', real=real, nonzero=True)
    rhs = a * a * a + fconst(*coeff(g))
    (k,) = b.t
    i = k[0][0]
    SQUARE[i] = rhs
    if FATOMS[i].conj != i:
        SQUARE[FATOMS[i].conj] = rhs.conj()
        FATOMS[FATOMS[i].conj].nonzero = True
    return a, b


def jac(g, a, b, name):
    z = fatom(name + '.z', real=g == 'g1', nonzero=True)
    return triple(g, a * z * z, b * z * z * z, z), z


def triple(g, x, y, z):
    K = BASE[g]
    return Agg(0, (FV(K, x), FV(K, y), FV(K, z)))


def ident(g, name):
    """any representation of the identity"""
    real = g == 'g1'
    return triple(g, fatom(name + '.X', real=real), fatom(name + '.Y', real=real), fconst(0))


def coords(E, o, g, v):
    return [toF(E, o, BASE[g], x) for x in v.f]


CASES = ('general', 'equal', 'opposite', 'left identity', 'right identity', 'both identity')


def pair(g, case):
    """(P, Q, facts, affine P, affine Q) with None for the identity"""
    F = FF()
    if case == 'both identity':
        return ident(g, 'P'), ident(g, 'Q'), F, None, None
    if case == 'left identity':
        q = affine(g, 'Q')
        return ident(g, 'P'), jac(g, q[0], q[1], 'Q')[0], F, None, q
    p = affine(g, 'P')
    J = jac(g, p[0], p[1], 'P')[0]
    if case == 'right identity':
        return J, ident(g, 'Q'), F, p, None
    if case == 'equal':
        q = p
    elif case == 'opposite':
        q = (p[0], -p[1])
    else:
        q = affine(g, 'Q')
        F = F.with_nz(p[0] - q[0])
    return J, jac(g, q[0], q[1], 'Q')[0], F, p, q


def rdouble(p):
    """affine double as (num x, num y, den) with x = nx/den^2, y = ny/den^3"""
    a, b = p
    m = (a * a).scale(3)
    d = b.scale(2)
    nx = m * m - (a * d * d).scale(2)
    ny = m * (a * d * d - nx) - b * d * d * d
    return nx, ny, d


def radd_pts(p, q, case):
    """reference sum: None for the identity, else (nx, ny, den)"""
    one = fconst(1)
    if p is None and q is None:
        return None
    if p is None:
        return q[0], q[1], one
    if q is None:
        return p[0], p[1], one
    if case == 'opposite':
        return None
    if case == 'equal':
        return rdouble(p)
    d = q[0] - p[0]
    l = q[1] - p[1]
    nx = l * l - (p[0] + q[0]) * d * d
    ny = l * (p[0] * d * d - nx) - p[1] * d * d * d
    return nx, ny, d


def cmp_pt(ctx, inst, E, o, st, g, v, want, what):
    F = ff(st)
    X, Y, Z = [F.reduce(c) for c in coords(E, st, g, v)]
    if want is None:
        if not F.is_zero(Z):
            ctx.fail(inst['name'], what, 'the result is not the identity')
        return
    if not F.is_nonzero(Z):
        ctx.fail(inst['name'], what, 'the z coordinate of the result may vanish: %s' % fshow(Z))
        return
    nx, ny, d = want
    if not F.is_zero(X * d * d - nx * Z * Z):
        ctx.fail(inst['name'], what, 'wrong x coordinate')
    if not F.is_zero(Y * d * d * d - ny * Z * Z * Z):
        ctx.fail(inst['name'], what, 'wrong y coordinate')


def geng(ctx, g, **kw):
    return ctx.engine([u256_cmp, field_hooks(kinds_g(g))], joiners=[DOM], **kw)


def ob_add(ctx, g, op, case, which):
    """a point operation equals the chord-and-tangent law, in every representation"""
    freset()
    P, Qv, F, p, q = pair(g, case)
    if op == 'sub' and case in ('equal', 'opposite'):
        rc = {'equal': 'opposite', 'opposite': 'equal'}[case]
    else:
        rc = case
    if op == 'sub' and q is not None:
        q2 = (q[0], -q[1])
    else:
        q2 = q
    inst = ctx.root('root_%s_%s' % (g, op)) if which == 'root' else ctx.impl('G', {'add': 'Add', 'sub': 'Sub'}[op], op)
    E = geng(ctx, g)
    mk, _ = setup_args(ctx.P, inst, [P, Qv])
    outs = ctx.run(E, inst, mk, extra=F)
    if not outs:
        ctx.fail(inst['name'], 'no normal exit')
    for o in outs:
        cmp_pt(ctx, inst, E, o, o.state, g, o.value, radd_pts(p, q2, rc), '%s differs from the group law (%s)' % (op, case))


def unary_cases(g):
    a = affine(g, 'P')
    yield 'point', jac(g, a[0], a[1], 'P')[0], a
    yield 'identity', ident(g, 'P'), None
    yield 'standard identity', triple(g, fconst(0), fconst(1), fconst(0)), None
    yield 'affine point', triple(g, a[0], a[1], fconst(1)), a


def g_double(P, g):
    """instances of double for this group"""
    for i in P.insts:
        if i['crate'] == 'rabe_bn' and i.get('body') is not None and i['name'].endswith('::double') and ('G%sParams' % g[1]) in i['name']:
            return i
    return None


def ob_unary(ctx, g, op):
    freset()
    for what, v, a in unary_cases(g):
        if op == 'neg':
            inst = ctx.root('root_%s_neg' % g)
        else:
            inst = g_double(ctx.P, g)
            if inst is None:
                return 'absent'
        E = geng(ctx, g)
        mk, _ = setup_args(ctx.P, inst, [v])
        outs = ctx.run(E, inst, mk)
        if not outs:
            ctx.fail(inst['name'], 'no normal exit')
        for o in outs:
            if a is None:
                want = None
            elif op == 'neg':
                want = (a[0], -a[1], fconst(1))
            else:
                want = rdouble(a)
            cmp_pt(ctx, inst, E, o, o.state, g, o.value, want, '%s differs from the group law (%s)' % (op, what))


def ob_consts_g(ctx, g):
    """zero() is the identity; one() lies on the curve and has order exactly r"""
    freset()
    E = geng(ctx, g)
    inst = ctx.root('root_%s_zero' % g)
    for o in ctx.run(E, inst, lambda st: []):
        X, Y, Z = coords(E, o.state, g, o.value)
        if Z.t or not Y.t:
            ctx.fail(inst['name'], 'zero is not the identity')
    E = geng(ctx, g)
    inst = ctx.root('root_%s_one' % g)
    for o in ctx.run(E, inst, lambda st: []):
        cs = [c.const() for c in coords(E, o.state, g, o.value)]
        if any(c is None for c in cs):
            ctx.fail(inst['name'], 'generator not constant')
            continue
        X, Y, Z = cs
        if Z == (0, 0):
            ctx.fail(inst['name'], 'generator is the identity')
            continue
        zi = cinv(Z, Q)
        x = cm(X, cm(zi, zi))
        y = cm(Y, cm(zi, cm(zi, zi)))
        r = cadd(cm(x, cm(x, x)), coeff(g))
        if cm(y, y) != r:
            ctx.fail(inst['name'], 'generator not on the curve')
        elif cmulpt(RR, (x, y)) is not None:
            ctx.fail(inst['name'], 'generator does not have order r')
        else:
            std = STDGEN[g]
            if std is not None and (x, y) != std:
                ctx.fail(inst['name'], 'generator is not the standard one', (x, y))


STDGEN = {'g1': ((1, 0), (2, 0)),
          'g2': ((10857046999023057135944570762232829481370756359578518086990519993285655852781, 11559732032986387107991004021392285783925812861821192530917403151452391805634),
                 (8495653923123431417604973247489272438418190587263600148770280649306958101930, 4082367875863433681332203403145435568316851327593401208105741076214120093531))}


def cadd(a, b):
    return ((a[0] + b[0]) % Q, (a[1] + b[1]) % Q)


def csub(a, b):
    return ((a[0] - b[0]) % Q, (a[1] - b[1]) % Q)


def caddpt(p, q):
    if p is None:
        return q
    if q is None:
        return p
    if p[0] == q[0]:
        if cadd(p[1], q[1]) == (0, 0):
            return None
        l = cm(cm((3, 0), cm(p[0], p[0])), cinv(cm((2, 0), p[1]), Q))
    else:
        l = cm(csub(q[1], p[1]), cinv(csub(q[0], p[0]), Q))
    x = csub(csub(cm(l, l), p[0]), q[0])
    return x, csub(cm(l, csub(p[0], x)), p[1])


def cmulpt(k, p):
    """reference scalar multiplication on constants taken from the source"""
    r = None
    while k:
        if k & 1:
            r = caddpt(r, p)
        p = caddpt(p, p)
        k >>= 1
    return r


def ob_eq(ctx, g, op):
    """== is equality of curve points in every representation; != its negation"""
    for case in CASES:
        freset()
        P, Qv, F, p, q = pair(g, case)
        same = case in ('equal', 'both identity')
        inst = ctx.root('root_%s_%s' % (g, op))
        E = geng(ctx, g, nomerge=True)
        mk, _ = setup_args(ctx.P, inst, [P, Qv])
        outs = ctx.run(E, inst, mk, extra=F)
        if not outs:
            ctx.fail(inst['name'], 'no normal exit')
        for o in outs:
            for st, v in bool_cases(E, o):
                if v != (same == (op == 'eq')):
                    ctx.fail(inst['name'], '%s answers %s for points that are %s (%s)' % (op, v, 'equal' if same else 'different', case))
    # same x, different y is covered by 'opposite'; a general pair may still share y


def ob_affine_eq(ctx, g):
    """affine points are equal exactly when both coordinates are"""
    for m in ('eq', 'ne'):
        freset()
        inst = next((i for i in ctx.P.insts if i['crate'] == 'rabe_bn' and i.get('body') is not None and i['name'].endswith('::' + m)
                     and i['name'].startswith('<') and 'AffineG<' in i['name'].split(' as ')[0] and ('G%sParams' % g[1]) in i['name']), None)
        if inst is None:
            if m == 'eq':
                raise ctx.absent('AffineG', 'eq', 'equality of affine points')
            continue
        a, b = affine(g, 'P'), affine(g, 'Q')
        d = [x - y for x, y in zip(a, b)]
        mk, _ = setup_args(ctx.P, inst, [Agg(0, tuple(FV(BASE[g], x) for x in v)) for v in (a, b)])
        E = geng(ctx, g, nomerge=True)
        seen = set()
        for o in ctx.run(E, inst, mk):
            for st, v in bool_cases(E, o):
                seen.add(v)
                F = ff(st)
                if v == (m == 'eq'):
                    if not all(F.is_zero(x) for x in d):
                        ctx.fail(inst['name'], 'points that may differ are reported equal')
                elif not any(F.is_nonzero(x) for x in d):
                    ctx.fail(inst['name'], 'points that may be equal are reported different')
        if seen != {True, False}:
            ctx.fail(inst['name'], 'never answers both ways')


def ob_is_zero(ctx, g):
    freset()
    for what, v, a in unary_cases(g):
        inst = ctx.root('root_%s_is_zero' % g)
        E = geng(ctx, g, nomerge=True)
        mk, _ = setup_args(ctx.P, inst, [v])
        for o in ctx.run(E, inst, mk):
            for st, r in bool_cases(E, o):
                if r != (a is None):
                    ctx.fail(inst['name'], 'is_zero answers %s (%s)' % (r, what))


def ob_normalize(ctx, g):
    """normalize keeps the point and leaves coordinates that depend on the point only"""
    freset()
    for what, v, a in unary_cases(g):
        inst = ctx.root('root_%s_normalize' % g)
        E = geng(ctx, g)
        mk, cells = setup_args(ctx.P, inst, [v])
        outs = ctx.run(E, inst, mk)
        if not outs:
            ctx.fail(inst['name'], 'no normal exit')
        for o in outs:
            F = ff(o.state)
            out = o.state.mem[cells[0]]
            cs = [F.reduce(c) for c in coords(E, o.state, g, out)]
            if a is None:
                want = [fconst(0), fconst(1), fconst(0)]
                if cs[2].t:
                    ctx.fail(inst['name'], 'normalize changes the identity into another point (%s)' % what)
                    continue
                for n, c, w in zip('xyz', cs, want):
                    if c.t != w.t:
                        ctx.fail(inst['name'], 'normalize leaves different representations of the identity', '%s coordinate is %s' % (n, fshow(c)))
                        break
            else:
                want = [a[0], a[1], fconst(1)]
                for n, c, w in zip('xyz', cs, want):
                    if not F.is_zero(c - w):
                        ctx.fail(inst['name'], 'normalize does not give the affine coordinates (%s)' % what, '%s coordinate is %s' % (n, fshow(c)))


def ob_params(ctx):
    """curve coefficients of both curves, where the compiled code has them"""
    freset()
    for g in ('g1', 'g2'):
        inst = ctx.P.impl_of('G%sParams' % g[1], 'GroupParams', 'coeff_b')
        if inst is None:
            continue
        E = geng(ctx, g)
        for o in ctx.run(E, inst, lambda st: []):
            c = toF(E, o.state, BASE[g], o.value).const()
            if c != coeff(g):
                ctx.fail(inst['name'], 'wrong curve coefficient', c)
