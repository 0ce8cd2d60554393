"""byte encodings: fixed length, every byte of every stored limb exactly once"""
from ob import *
from ob_limb import wide

SHAPE = {'fr': ((), 4), 'g1': ((3,), 4), 'g2': ((3, 2), 4), 'gt': ((2, 3, 2), 4), 'u256': ((), 4)}
LEN = {'fr': 32, 'u256': 32, 'g1': 96, 'g2': 192, 'gt': 384}


def shaped(kind):
    dims, n = SHAPE[kind]
    limbs = []

    def mkv(ds):
        if not ds:
            i = len(limbs)
            f = [atom('w%d' % (i + j), 0, W - 1) for j in range(n)]
            limbs.extend(f)
            return Arr(tuple(f))
        return Agg(0, tuple(mkv(ds[1:]) for _ in range(ds[0])))
    return mkv(dims), limbs


def run_bytes(ctx, root, kind):
    PL.reset()
    v, limbs = shaped(kind)
    inst = ctx.root(root)
    mk, cells = setup_args(ctx.P, inst, [v])
    E = ctx.engine([])
    outs = ctx.run(E, inst, mk)
    res = []
    for o in outs:
        if cells[0] is not None and o.state.mem.get(cells[0]) != v:
            ctx.fail(inst['name'], 'the encoded value is modified')
        res.append((o, vec_items(E, o.state, o.value)))
    return inst, limbs, res


def layout(bs, limbs):
    """which byte of which limb each output byte is, or None"""
    table = {}
    for i, w in enumerate(limbs):
        for k in range(8):
            table[n3(digit(w, 1 << (8 * k), 256))] = (i, k)
    return [table.get(n3(b) if isinstance(b, Poly) else b) for b in bs]


def ob_bytes(ctx, kind, also=None):
    inst, limbs, res = run_bytes(ctx, 'root_%s_into_bytes' % kind, kind)
    if not res:
        ctx.fail(inst['name'], 'no normal exit')
        return
    ref = None
    for o, bs in res:
        if len(bs) != LEN[kind]:
            ctx.fail(inst['name'], 'encoding has another length', '%d bytes instead of %d' % (len(bs), LEN[kind]))
            continue
        lay = layout(bs, limbs)
        if ref is None and None not in lay:
            ref = lay
            if len(set(lay)) != len(lay):
                ctx.fail(inst['name'], 'some byte of a coordinate is not part of the encoding')
                return
    if ref is None:
        ctx.fail(inst['name'], 'an output byte is not a byte of a coordinate')
        return
    for o, bs in res:
        if len(bs) == LEN[kind]:
            same_bytes(ctx, inst, o, bs, ref, limbs, 'encoding depends on more than the coordinates')
    if also:
        inst2, limbs2, res2 = run_bytes(ctx, 'root_%s_into_vec' % kind, kind)
        if not res2:
            ctx.fail(inst2['name'], 'no normal exit')
        for o, bs in res2:
            if len(bs) != LEN[kind]:
                ctx.fail(inst2['name'], 'conversion has another length than the encoding', len(bs))
            else:
                same_bytes(ctx, inst2, o, bs, ref, limbs2, 'conversion differs from the encoding')


def same_bytes(ctx, inst, o, bs, ref, limbs, what):
    F = o.state.facts
    for n, (b, (i, k)) in enumerate(zip(bs, ref)):
        if not F.is_zero(F.reval(sub(b, digit(limbs[i], 1 << (8 * k), 256)))):
            ctx.fail(inst['name'], what, 'byte %d' % n)
            return
