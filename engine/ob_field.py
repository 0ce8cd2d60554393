"""prime field arithmetic on limbs (Montgomery form): every obligation quantifies over all canonical inputs"""
from ob import *

HK = [u256_cmp]


def _fld(ctx, T, op):
    trait = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul', 'neg': 'Neg'}[op]
    return ctx.impl(T, trait, op)


def ob_op(ctx, T, op, inst=None):
    """T op T on canonical Montgomery representatives: result congruent and canonical"""
    M = MODS[T]
    inst = inst or _fld(ctx, T, op)
    A = atom('A', 0, M - 1)
    B = atom('B', 0, M - 1)
    n = inst['body']['argc']
    mk, _ = setup_args(ctx.P, inst, [limbs_of(A), limbs_of(B)][:n])
    def go(**kw):
        outs = ctx.run(ctx.engine(HK, **kw), inst, mk)
        if not outs:
            ctx.fail(inst['name'], 'no normal exit')
        for o in outs:
            check_limb_result(ctx, inst, o, o.value, {'add': add(A, B), 'sub': sub(A, B), 'neg': neg(A), 'mul': PL.mul(A, B)}[op], R256 if op == 'mul' else 1, M)
    ctx.attempts(go)


def check_limb_result(ctx, inst, o, v, expect, factor, M, what='result'):
    if not isinstance(v, Arr) or len(v.f) != 4:
        ctx.fail(inst['name'], what + ' not a field element')
        return
    V = val(v)
    F = o.state.facts
    if not congruent(F, sub(scale(V, factor), expect), M):
        ctx.fail(inst['name'], what + ' not congruent to the mathematical value', 'value %s' % show_short(F.reval(V)))
    if not in_range(F, V, 0, M - 1):
        ctx.fail(inst['name'], what + ' not proved canonical (below the modulus)', 'value %s' % show_short(F.reval(V)))


def show_short(p):
    s = str(p)
    return s[:300]


def ob_const(ctx, T):
    """zero() and one() are the Montgomery representatives of 0 and 1"""
    M = MODS[T]
    for m, e in (('zero', 0), ('one', R256 % M)):
        inst = ctx.impl(T, 'FieldElement', m)
        for o in ctx.run(ctx.engine(HK), inst, lambda st: []):
            V = val(o.value)
            if V != e:
                ctx.fail(inst['name'], 'wrong constant', V)


def ob_cmp(ctx, inst=None):
    """U256 ordering is the ordering of the positional values"""
    inst = inst or ctx.impl('U256', 'Ord', 'cmp')
    a = Arr(tuple(atom('a%d' % i, 0, W - 1) for i in range(4)))
    b = Arr(tuple(atom('b%d' % i, 0, W - 1) for i in range(4)))
    mk, _ = setup_args(ctx.P, inst, [a, b])
    outs = ctx.run(ctx.engine([], nomerge=True), inst, mk)
    d = sub(val(a), val(b))
    seen = set()
    for o in outs:
        F = o.state.facts
        k = o.value.v if isinstance(o.value, Agg) else None
        seen.add(k)
        ok = {0: lambda: F.upper(F.reval(d), -1) <= -1, 1: lambda: F.is_zero(d), 2: lambda: F.lower(F.reval(d), 1) >= 1}.get(k, lambda: False)()
        if not ok:
            ctx.fail(inst['name'], 'ordering disagrees with numeric order', 'outcome %s under %s' % (k, F.ge))
    if seen != {0, 1, 2}:
        ctx.fail(inst['name'], 'ordering outcome missing', seen)


def ob_to_int(ctx, T):
    """From<T> for U256 takes x out of Montgomery form: canonical integer"""
    M = MODS[T]
    inst = ctx.impl('U256', 'From<%s>' % T, 'from')
    A = atom('A', 0, M - 1)
    mk, _ = setup_args(ctx.P, inst, [limbs_of(A)])
    for o in ctx.run(ctx.engine(HK), inst, mk):
        check_limb_result(ctx, inst, o, o.value, A, R256, M)


def ob_root_op(ctx, op):
    """the public operator on scalars is the field operation"""
    ob_op(ctx, 'Fr', op, ctx.root('root_fr_' + op))
