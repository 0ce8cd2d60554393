"""sampling: which bits of the generator reach the result, and how"""
from ldom import *
from ob_limb import divrem_contract

BITSIZE = {'u32': 32, 'u64': 64}


def rng_hooks(rec):
    """calls of the opaque generator: each gives fresh unknown bits and an entry in the log"""
    def hook(E, inst):
        n = inst['name'].split('::')[-1]
        if not n.startswith('opaque_'):
            return None
        if n in ('opaque_u32', 'opaque_u64'):
            w = 32 if n == 'opaque_u32' else 64

            def word(E, st, a, call):
                i = len(st.log)
                x = atom('rng%d_%d' % (i, w), 0, (1 << w) - 1)
                st.log = st.log + ((n, a[0].key, a[0].path, x),)
                return x
            return word

        def fill(E, st, a, call):
            k = E.cint(st, a[2])
            i = len(st.log)
            xs = tuple(atom('rng%d_b%d' % (i, j), 0, 255) for j in range(k))
            for j, x in enumerate(xs):
                E.storex(st, a[1].key, a[1].path[:-1] + (a[1].path[-1] + j,), x)
            st.log = st.log + ((n, a[0].key, a[0].path) + xs,)
            return Agg(0, ())
        return fill
    return hook


def chunks(log):
    """byte-sized pieces of the generator output in order of use: candidates for the 512-bit integer"""
    whole = []
    for e in log:
        if e[0] == 'opaque_fill':
            whole.append([(x, 8) for x in e[3:]])
        else:
            whole.append([(e[3], 32 if e[0] == 'opaque_u32' else 64)])
    flat = [c for w in whole for c in w]
    return flat


def numbers(log):
    """integers of 512 bits in which every bit is a distinct generator bit"""
    fl = chunks(log)
    out = []
    variants = [fl]
    if len(fl) == 64 and all(w == 32 for x, w in fl):
        variants = [[(mod(x, 256), 8) for x, w in fl], [(quot(x, 1 << 24), 8) for x, w in fl]]
    if sum(w for x, w in variants[0]) != 512:
        return []
    for v in variants:
        for seq in (v, v[::-1]):
            r, sh = 0, 0
            for x, w in seq:
                r = add(r, scale(x, 1 << sh))
                sh += w
            out.append(r)
        if all(w == 64 for x, w in v):
            for seq in (v, v[::-1]):
                r, sh = 0, 0
                for x, w in seq:
                    for b in reversed(range(8)):
                        r = add(r, scale(digit(x, 1 << (8 * b), 256), 1 << sh))
                        sh += 8
                out.append(r)
    return out


def check_uniform(ctx, E, inst, o, v, M, rcell, log=None, what='sample'):
    """v is a canonical representative congruent to a fixed unit times 512 distinct generator bits"""
    F = o.state.facts
    log = o.state.log if log is None else log
    for e in log:
        if rcell is not None and e[1] != rcell:
            ctx.fail(inst['name'], what + ' draws from something else than the supplied generator')
            return
    V = val(v)
    if not in_range(F, V, 0, M - 1):
        ctx.fail(inst['name'], what + ' not proved below the modulus')
    cands = numbers(log)
    if not cands:
        ctx.fail(inst['name'], what + ' does not use 512 generator bits once each', '%d draws' % len(log))
        return
    rems = [(n3(k), mm, R) for (k, mm), R in E.__dict__.get('remainders', {}).items()]
    for X in cands:
        x = n3(X)
        names = [X] + [R for k, mm, R in rems if mm == M and equal(n3(sub(k, x)), 0)]
        for Y in names:
            for c in (R256, 1):
                if congruent(F, sub(V, PL.mul(Y, c)), M):
                    return
    ctx.fail(inst['name'], what + ' is not the 512 generator bits reduced modulo the prime', str(n3(F.reval(V)))[:200])


def rngarg(st):
    k = st.alloc(Agg(0, (atom('rngstate', 0, (1 << 64) - 1),)))
    return Ptr(k, (), None), k


def ob_fr(ctx):
    """Standard.sample for scalars"""
    PL.reset()
    inst = ctx.root('root_fr_sample')
    cell = []

    def mk(st):
        p, k = rngarg(st)
        cell.append(k)
        return [p]
    E = ctx.engine([rng_hooks(None), divrem_contract])
    outs = ctx.run(E, inst, mk)
    if not outs:
        ctx.fail(inst['name'], 'no normal exit')
    for o in outs:
        check_uniform(ctx, E, inst, o, o.value, RR, cell[0])


def ob_wide(ctx, T):
    """U512::random and U256::random"""
    PL.reset()
    M = MODS[T]
    inst = ctx.root('root_u256_random')
    cell = []

    def mk(st):
        p, k = rngarg(st)
        cell.append(k)
        m = st.alloc(limbs_of(M))
        return [p, Ptr(m, (), None)]
    E = ctx.engine([rng_hooks(None), divrem_contract])
    outs = ctx.run(E, inst, mk)
    if not outs:
        ctx.fail(inst['name'], 'no normal exit')
    for o in outs:
        check_uniform(ctx, E, inst, o, o.value, M, cell[0])
    PL.reset()
    inst = ctx.root('root_u512_random')
    del cell[:]

    def mk2(st):
        p, k = rngarg(st)
        cell.append(k)
        return [p]
    outs = ctx.run(ctx.engine([rng_hooks(None)]), inst, mk2)
    for o in outs:
        V = val(o.value)
        if not any(equal(V, X) for X in numbers(o.state.log)):
            ctx.fail(inst['name'], 'U512::random is not 512 distinct generator bits')
        if any(e[1] != cell[0] for e in o.state.log):
            ctx.fail(inst['name'], 'draws from something else than the supplied generator')


class Drawn:
    """marker: generator of a group times a scalar / pairing of two of them"""
    __slots__ = ('kind', 'parts')

    def __init__(self, kind, parts):
        self.kind = kind
        self.parts = parts

    v = 0

    @property
    def f(self):
        raise Undecided('coordinates of a sampled element are read')


def draw_hooks(E, inst):
    if inst['crate'] != 'rabe_bn':
        return None
    k = implkey(E.P, inst)
    if k is not None and k[0].startswith('G<') and k[1].startswith('Mul<') and k[2] == 'mul':
        g = k[0][2:4]

        def mul(E, st, a, call):
            return Drawn(g, (a[0], a[1], len(st.log)))
        return mul
    if inst['name'].split('::')[-1] == 'pairing' and inst['body'] is not None and inst['body']['argc'] == 2:
        def pr(E, st, a, call):
            xs = [E.deref(st, x) if isinstance(x, Ptr) else x for x in a]
            if all(isinstance(x, Drawn) for x in xs):
                return Drawn('Gt', tuple(xs))
            return NotImplemented
        return pr
    return None


def ob_group(ctx, which):
    """random points are the generator times such a scalar, random target-group values pairings of such points"""
    roots = ['root_gt_sample'] if which == 'gt' else ['root_%s_random' % which, 'root_%s_sample' % which]
    gen = {}
    for g in ('g1', 'g2'):
        for o in ctx.run(ctx.engine([]), ctx.root('root_%s_one' % g), lambda st: []):
            gen[g.upper()] = o.value
    for r in roots:
        lreset()
        inst = ctx.root(r)
        cell = []

        def mk(st):
            p, k = rngarg(st)
            cell.append(k)
            return [p]
        E = ctx.engine([rng_hooks(None), draw_hooks, divrem_contract])
        outs = ctx.run(E, inst, mk)
        if not outs:
            ctx.fail(inst['name'], 'no normal exit')
        for o in outs:
            v = o.value
            want = ['G1', 'G2'] if which == 'gt' else [which.upper()]
            if not isinstance(v, Drawn) or v.kind != ('Gt' if which == 'gt' else want[0]):
                ctx.fail(inst['name'], 'not the generator times a random scalar')
                continue
            parts = v.parts if which == 'gt' else (v,)
            start = 0
            for d in sorted(parts, key=lambda d: d.parts[2]):
                P, s, end = d.parts
                if not vsame(P, gen[d.kind]):
                    ctx.fail(inst['name'], 'the multiplied point is not the generator')
                check_uniform(ctx, E, inst, o, s, RR, cell[0], o.state.log[start:end], 'scalar')
                start = end
            if [d.kind for d in parts] != want:
                ctx.fail(inst['name'], 'wrong groups', [d.kind for d in parts])
            if start != len(o.state.log):
                ctx.fail(inst['name'], 'further draws after the last scalar')
