"""scalar multiplication and exponentiation: the result is k times (or to the power k) the operand, for every k"""
from ldom import *
from ob_tower import DOM

LD = LDom()
NAMES = {'G1Params': 'G1', 'G2Params': 'G2'}


SC = 'k'


def scalar_hook(k):
    """the canonical integer of the scalar k, as a sum of its bits (contract of ob_to_int)"""
    def hook(E, inst):
        if inst['crate'] == 'rabe_bn' and implkey(E.P, inst) == ('U256', 'From<Fr>', 'from'):
            def h(E, st, a, call):
                p = ff(st).reduce(toF(E, st, 'Fr', a[0]))
                if p == k:
                    return bit_limbs(SC)
                c = p.const()
                if c is not None:
                    return limbs_of(c[0])
                return NotImplemented
            return h
        return None
    return hook


def leng(ctx, hooks, k, **kw):
    return ctx.engine([scalar_hook(k), word_contracts] + hooks + [coordinates(field_hooks(('Fr',)))], joiners=[LD, DOM], **kw)


def check_multiple(ctx, inst, E, outs, k, base):
    if not outs:
        ctx.fail(inst['name'], 'no normal exit')
    for o in outs:
        v = whole(o.value)
        if not isinstance(v, LV):
            ctx.fail(inst['name'], 'result is not a multiple of the operand', repr(v)[:200])
            continue
        z = zeros(o.state)
        B = known(o.state)
        c = ff(o.state).reduce(k).const()
        want = prefix(SC, 0) if c is None else c[0]
        for b in v.t:
            if b not in z and b != base and not equal(kval(v.t[b], B), 0):
                ctx.fail(inst['name'], 'result involves another element', b)
        if base not in z:
            d = kval(sub(v.t.get(base, 0), want), B)
            if not equal(d, 0):
                ctx.fail(inst['name'], 'result is not the k-fold multiple', 'difference %s' % str(d)[:300])


def ob_mul(ctx, g):
    """point times scalar, for an arbitrary point and every scalar (a canonical integer below 2^254, by ob_to_int)"""
    lreset()
    scalar_bits(SC, RR.bit_length())
    inst = ctx.root('root_%s_mul' % g)
    k = fatom('k', RR)
    E = leng(ctx, [group_hooks(NAMES)], k)
    mk, _ = setup_args(ctx.P, inst, [LV(g.upper(), {'P': 1}), FV('Fr', k)])
    outs = ctx.run(E, inst, mk)
    check_multiple(ctx, inst, E, outs, k, 'P')


def ob_pow(ctx, which):
    """pow of a public type; the exponent is an arbitrary scalar"""
    lreset()
    scalar_bits(SC, RR.bit_length())
    inst = ctx.root('root_%s_pow' % which)
    kind = {'fr': 'Fr', 'gt': 'Fq12'}[which]
    k = fatom('k', RR)
    E = leng(ctx, [power_hooks(kind)], k)
    mk, _ = setup_args(ctx.P, inst, [LV(kind, {'a': 1}), FV('Fr', k)])
    outs = ctx.run(E, inst, mk)
    check_multiple(ctx, inst, E, outs, k, 'a')
