"""the pairing: line functions, Frobenius multiples, the divisor of the Miller function and the final exponent"""
from ldom import *
from ob_tower import *
from ob_group import affine, jac, ident, cmulpt, STDGEN, coeff
from itertools import permutations

LD = LDom()
N12 = Q ** 12 - 1
ZPAR = 4965661367192848881
ORDER = RR
CX = cpow(XI, (Q - 1) // 3)
CY = cpow(XI, (Q - 1) // 2)
KINDS = ('Fq', 'Fq2', 'Fr')


def nth(P, t):
    return P.types[t]


def isname(P, t, name, arg=None):
    T = P.types[t]
    if T['k'] != 'adt' or T.get('crate') != 'rabe_bn' or T['name'].split('::')[-1] != name:
        return False
    if arg is None:
        return True
    return any(isinstance(a, int) and P.types[a].get('name', '').split('::')[-1] == arg for a in T['args'])


def steptype(P, inst):
    """(position of the running point, position of the affine point or None, role count) for a function that advances
    a running point of G2 and returns the three coefficients of a line; None for every other function"""
    if inst['crate'] != 'rabe_bn' or inst.get('body') is None:
        return None
    B = inst['body']
    rt = B['locals'][0]
    T = P.types[rt]
    fs = None
    if T['k'] == 'adt' and T.get('ak') == 'struct' and T.get('crate') == 'rabe_bn':
        fs = [f[1] for f in T['variants'][0]['fields']]
        if T['name'].split('::')[-1] in ('G', 'Fq6'):
            return None
    elif T['k'] == 'tuple':
        fs = T['fields']
    if fs is None or len(fs) != 3 or not all(isname(P, f, 'Fq2') for f in fs):
        return None
    r = b = None
    for i in range(1, B['argc'] + 1):
        t = B['locals'][i]
        A = P.types[t]
        if A['k'] == 'ref' and isname(P, A['to'], 'G', 'G2Params') and A['mut']:
            if r is not None:
                return None
            r = i - 1
        elif isname(P, A['to'] if A['k'] == 'ref' else t, 'AffineG', 'G2Params'):
            if b is not None:
                return None
            b = i - 1
        else:
            return None
    if r is None:
        return None
    return r, b


def homog(name):
    a, b = affine('g2', name)
    z = fatom(name + '.z', real=False, nonzero=True)
    return (a, b), z, Agg(0, tuple(FV('Fq2', v) for v in (a * z, b * z, z)))


def roles(ctx):
    """for every line function the field order (ell_0, ell_vw, ell_vv), found by its contract; problems otherwise"""
    out = {}
    for inst in ctx.P.live:
        s = steptype(ctx.P, inst)
        if s:
            out[inst['id']] = s
    return out


def line_contract(ctx, inst, s):
    """runs one line function on an arbitrary running point (and another arbitrary point); returns the field order"""
    freset()
    (x, y), z, R = homog('R')
    args = [None] * inst['body']['argc']
    args[s[0]] = R
    F = FF()
    if s[1] is None:
        num, den = (x * x).scale(3), y.scale(2)
        x2, y2 = x, y
    else:
        x2, y2 = affine('g2', 'B')
        args[s[1]] = Agg(0, (FV('Fq2', x2), FV('Fq2', y2)))
        F = F.with_nz(x - x2)
        num, den = y2 - y, x2 - x
    E = ctx.engine([u256_cmp, field_hooks(('Fq', 'Fq2'))], joiners=[DOM])
    mk, cells = setup_args(ctx.P, inst, args)
    outs = ctx.run(E, inst, mk, extra=F)
    if not outs:
        ctx.fail(inst['name'], 'no normal exit')
    what = 'doubling' if s[1] is None else 'addition'
    # third point of the line
    nx = num * num - (x + x2) * den * den
    ny = num * (x * den * den - nx) - y * den * den * den
    # affine result is (nx/den^2, ny/den^3)
    perm = None
    for o in outs:
        F = ff(o.state)
        X, Y, Z = [F.reduce(toF(E, o.state, 'Fq2', v)) for v in o.state.mem[cells[s[0]]].f]
        if not F.is_nonzero(Z):
            ctx.fail(inst['name'], 'running point may leave the affine chart after the %s' % what, fshow(Z))
        if not F.is_zero(X * den * den - nx * Z):
            ctx.fail(inst['name'], 'running point has the wrong x coordinate after the %s' % what)
        if not F.is_zero(Y * den * den * den - ny * Z):
            ctx.fail(inst['name'], 'running point has the wrong y coordinate after the %s' % what)
        c = [F.reduce(toF(E, o.state, 'Fq2', v)) for v in o.value.f]
        ok = None
        for p in ([perm] if perm else permutations(range(3))):
            e0, vw, vv = [c[i] for i in p]
            if F.is_zero(e0 * den - (vw * (num * x - y * den)).scale(XI)) and F.is_zero(vv * den + vw * num) and F.is_nonzero(vw):
                ok = p
                break
        if ok is None:
            ctx.fail(inst['name'], 'coefficients are not those of the %s of the points' % ('tangent at the point' if s[1] is None else 'line through the points'))
        else:
            perm = ok
    return perm


def ob_lines(ctx):
    n = [0, 0]
    for i, s in roles(ctx).items():
        line_contract(ctx, ctx.P.insts[i], s)
        n[0 if s[1] is None else 1] += 1
    if not all(n):
        ctx.fail('groups', 'no line function found', 'doubling %d, addition %d' % tuple(n))


class Pairer:
    """state shared by the hooks of the formal run"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.order = {}
        self.lines = {}
        self.atoms = {}


def ob_formal(ctx):
    """e(P, Q) as a product of lines: its divisor and exponent are those of a bilinear non-degenerate pairing"""
    steps = roles(ctx)
    order = {}
    for i, s in steps.items():
        p = line_contract(ctx, ctx.P.insts[i], s)
        if p is None:
            return
        order[i] = p
    lreset()
    inst = ctx.root('root_pairing')
    pa, pb = affine('g1', 'P')
    qa, qb = affine('g2', 'Q')
    Pv = jac('g1', pa, pb, 'P')[0]
    Qv = jac('g2', qa, qb, 'Q')[0]
    # multiples of Q by powers of q, through the untwisted Frobenius
    mult = []
    x, y, n = qa, qb, 1
    for i in range(4):
        mult.append((x, y, n))
        x, y, n = x.conj().scale(CX), y.conj().scale(CY), n * Q % ORDER
    lines = {}       # atoms of a line -> (n, m)
    names = {}

    def point(E, st, v):
        """multiple of Q denoted by an affine point"""
        F = ff(st)
        c = [F.reduce(toF(E, st, 'Fq2', f)) for f in v.f]
        for x, y, n in mult:
            if F.is_zero(c[0] - x):
                if F.is_zero(c[1] - y):
                    return n
                if F.is_zero(c[1] + y):
                    return -n % ORDER
        raise Undecided('a point that is not a known multiple of the operand')

    def running(E, st, v):
        if isinstance(v, LV):
            return v.t.get('Q', 0)
        F = ff(st)
        z = F.reduce(toF(E, st, 'Fq2', v.f[2]))
        if z.const() != (1, 0):
            raise Undecided('running point is not affine')
        return point(E, st, Agg(0, v.f[:2]))

    def steps_hook(E, ins):
        s = steps.get(ins['id'])
        if s is None:
            return None
        perm = order[ins['id']]

        def h(E, st, a, call):
            rp = a[s[0]]
            n = running(E, st, E.deref(st, rp)) % ORDER
            if s[1] is None:
                m = n
            else:
                b = a[s[1]]
                b = E.deref(st, b) if isinstance(b, Ptr) else b
                m = point(E, st, b)
                if (n - m) % ORDER == 0 or (n + m) % ORDER == 0:
                    raise Undecided('line through equal or opposite points')
            if n == 0:
                raise Undecided('line at the identity')
            E.storex(st, rp.key, rp.path, LV('R2', {'Q': (n + m) % ORDER}))
            k = (n, m)
            if k not in names:
                names[k] = tuple(fatom('%s%d' % (w, len(names)), real=False, nonzero=(w == 'vw')) for w in ('e0', 'vw', 'vv'))
                for c in names[k][:1]:
                    lines[c] = k
            vals = [None] * 3
            for c, p in zip(names[k], perm):
                vals[p] = FV('Fq2', c)
            return Agg(0, tuple(vals))
        return h

    def sparse(E, st, e0, vw, vv):
        F = ff(st)
        e0, vw, vv = [F.reduce(toF(E, st, 'Fq2', v)) for v in (e0, vw, vv)]
        for c, k in lines.items():
            if F.is_zero(e0 - c):
                _, w, v = names[k]
                if not F.is_zero(vw - w * pb) or not F.is_zero(vv - v * pa):
                    raise Undecided('a line is not evaluated at the first operand')
                return k
        raise Undecided('factor of the Miller value is not an evaluated line')

    def lift(v):
        return v if isinstance(v, LV) else None

    def conj(x):
        return LV(x.kind, {b: r for b, r in ((b, c * Q ** 6 % N12) for b, c in x.t.items()) if r})

    def special(m):
        def lv(E, st, v):
            v = whole(E.deref(st, v) if isinstance(v, Ptr) else v, conj)
            return v if isinstance(v, LV) else None

        def mk1(f):
            def h(E, st, a, call):
                x = lv(E, st, a[0])
                if x is None:
                    return NotImplemented
                return f(E, st, x, a)
            return h

        def powq(x, k):
            return LV(x.kind, {b: r for b, r in ((b, c * k % N12) for b, c in x.t.items()) if r})
        if m == 'mul_by_024':
            def g(E, st, x, a):
                k = sparse(E, st, a[1], a[2], a[3])
                return red(lcomb('Fq12', x, LV('Fq12', {k: 1})))
            return mk1(g)
        if m == 'unitary_inverse':
            return mk1(lambda E, st, x, a: powq(x, Q ** 6))
        if m == 'frobenius_map':
            return mk1(lambda E, st, x, a: powq(x, Q ** E.cint(st, a[1])))
        if m == 'inverse':
            return mk1(lambda E, st, x, a: Agg(1, (powq(x, -1),)))
        if m == 'cyclotomic_squared':
            def g(E, st, x, a):
                for b, c in x.t.items():
                    if c % ((Q ** 6 - 1) * (Q * Q + 1)):
                        raise Undecided('cyclotomic squaring outside the cyclotomic subgroup')
                return powq(x, 2)
            return mk1(g)
        return None

    def red(x):
        return LV(x.kind, {b: c % N12 for b, c in x.t.items() if c % N12})

    def fq12(E, ins):
        h = power_hooks('Fq12', special, conj)(E, ins)
        if h is None:
            return None

        def w(E, st, a, call):
            r = h(E, st, a, call)
            return red(r) if isinstance(r, LV) else r
        return w
    E = ctx.engine([steps_hook, fq12, u256_cmp, coordinates(field_hooks(KINDS))], joiners=[LD, DOM])
    mk, _ = setup_args(ctx.P, inst, [Pv, Qv])
    outs = ctx.run(E, inst, mk)
    if not outs:
        ctx.fail(inst['name'], 'no normal exit')
    for o in outs:
        v = whole(o.value, conj)
        if not isinstance(v, LV):
            ctx.fail(inst['name'], 'value is not a product of lines', repr(v)[:200])
            continue
        verdict(ctx, inst, v)


def verdict(ctx, inst, v):
    """exponents of the lines in the result, against the conditions that make the value a bilinear non-degenerate pairing"""
    if not v.t:
        ctx.fail(inst['name'], 'the pairing of two points is constantly one')
        return
    g = {}
    for k, c in v.t.items():
        if c * ORDER % N12:
            ctx.fail(inst['name'], 'the final exponent does not map into the subgroup of the group order', 'line %s,%s' % k)
            return
        if c % (Q ** 6 - 1) or c % (Q ** 4 - 1):
            ctx.fail(inst['name'], 'the final exponent does not remove factors from proper subfields', 'line %s,%s' % k)
            return
        g[k] = c // (N12 // ORDER) % ORDER
    best = None
    for u in sorted(set(g.values())):
        if u == 0:
            continue
        ui = pow(u, -1, ORDER)
        e = {}
        for k, c in g.items():
            d = c * ui % ORDER
            e[k] = d if d < ORDER // 2 else d - ORDER
        m = max(abs(d) for d in e.values())
        if best is None or m < best[0]:
            best = (m, e, u)
    if best is None:
        ctx.fail(inst['name'], 'the final exponent is zero')
        return
    m, e, u = best
    D = {}
    for (n, k), c in e.items():
        for i, s in ((n, 1), (k, 1), ((n + k) % ORDER, -1)):
            if i == 0:
                continue
            j, t = (i, s) if i <= ORDER // 2 else (ORDER - i, -s)
            D[j] = D.get(j, 0) + t * c
    D = {i: c for i, c in D.items() if c}
    a = [0] * 4
    for i in range(4):
        n = pow(Q, i, ORDER)
        j, t = (n, 1) if n <= ORDER // 2 else (ORDER - n, -1)
        a[i] = t * D.pop(j, 0)
    if D:
        ctx.fail(inst['name'], 'the divisor of the Miller function has points other than the Frobenius multiples of the operand', '%d further points, first %s' % (len(D), sorted(D.items())[:2]))
        return
    L = sum(c * Q ** i for i, c in enumerate(a))
    if L % ORDER:
        ctx.fail(inst['name'], 'the divisor of the Miller function is not a relation of the operand', a)
        return
    # Vercauteren: m k q^(k-1) differs from (q^k-1)/r * sum i c_i q^(i-1) modulo r, where the sum of c_i q^i is m r
    lhs = (L // ORDER) * 12 * pow(Q, 11, ORDER) % ORDER
    rhs = (N12 // ORDER) * sum(i * c * Q ** (i - 1) for i, c in enumerate(a) if i) % ORDER
    if lhs == rhs:
        ctx.fail(inst['name'], 'the pairing is degenerate', a)
    ctx.items.append('divisor %s, unit %s' % (a, hex(u)[:20]))
    ref = [6 * ZPAR + 2, 1, -1, 1]
    if a not in (ref, [-c for c in ref]):
        ctx.items.append('not the usual optimal ate relation')


def ob_frobenius_mult(ctx):
    """the endomorphism (x, y) -> (cx x^q, cy y^q) multiplies the generator of the second group by q (constants only)"""
    g = STDGEN['g2']
    if coeff('g2') is None:
        return
    cj = lambda v: (v[0], -v[1] % Q)
    if (cm(CX, cj(g[0])), cm(CY, cj(g[1]))) != cmulpt(Q % RR, g):
        ctx.fail('reference', 'Frobenius constants inconsistent')


def ob_identity(ctx, side):
    """pairing with any representation of the identity on one side gives one"""
    freset()
    inst = ctx.root('root_pairing')
    p, q = affine('g1', 'P'), affine('g2', 'Q')
    Pv = ident('g1', 'P') if side in ('left', 'both') else jac('g1', p[0], p[1], 'P')[0]
    Qv = ident('g2', 'Q') if side in ('right', 'both') else jac('g2', q[0], q[1], 'Q')[0]
    E = ctx.engine([u256_cmp, field_hooks(KINDS)], joiners=[DOM])
    mk, _ = setup_args(ctx.P, inst, [Pv, Qv])
    outs = ctx.run(E, inst, mk)
    if not outs:
        ctx.fail(inst['name'], 'no normal exit')
    one = [fconst(1)] + [fconst(0)] * 5
    for o in outs:
        cmp_vec(ctx, inst, o, flat(E, o.state, 'Fq12', o.value), one, 'pairing with the identity (%s) is not one' % side)
