"""the remaining public operations: constants, equality, copies, and freedom from panics where no value is specified"""
from ob import *
from ob_limb import wide, concrete_bool, alleq, differs, same_bit
from ob_field import HK, check_limb_result, ob_op
from ob_bytes import shaped
from ob_inv import mul_contract


def ob_field_tests(ctx, T):
    """equality and the zero test of a prime field look at every limb; squaring is multiplication with itself"""
    M = MODS[T]
    seen = set()
    for tr, m in (('PartialEq', 'eq'), ('PartialEq', 'ne'), ('FieldElement', 'is_zero')):
        inst = ctx.P.impl_of(T, tr, m)
        if inst is not None:
            truth(ctx, inst, m)
            seen.add(m)
    if 'eq' not in seen:
        x = ctx.absent(T, 'eq', '<%s as PartialEq>::eq' % T)
        if isinstance(x, Missing):
            raise x
    inst = ctx.P.impl_of(T, 'FieldElement', 'squared')
    if inst is not None:
        A = atom('A', 0, M - 1)
        mk, _ = setup_args(ctx.P, inst, [limbs_of(A)])

        def go(hooks=[mul_contract(M)], **kw):
            for o in ctx.run(ctx.engine(hooks + HK, **kw), inst, mk):
                check_limb_result(ctx, inst, o, o.value, PL.mul(A, A), R256, M)
        ctx.attempts(go, hooks=[])


def truth(ctx, inst, m, n=4):
    """a comparison of two words arrays (or one with zero) answers exactly equality"""
    a, b = wide('a', n), wide('b', n) if m != 'is_zero' else Arr((0,) * n)
    mk, _ = setup_args(ctx.P, inst, [a, b][:inst['body']['argc']])
    E = ctx.engine([], nomerge=True)
    out = set()
    for o in ctx.run(E, inst, mk):
        for st, v in concrete_bool(E, o):
            out.add(v)
            if not (alleq if v == (m != 'ne') else differs)(st.facts, a, b):
                ctx.fail(inst['name'], 'answers %s for values that are not %s' % (v, 'equal' if v == (m != 'ne') else 'different'))
    if out != {True, False}:
        ctx.fail(inst['name'], 'never answers both ways', out)


def ob_fr(ctx, what):
    inst = ctx.root('root_fr_' + what)
    if what in ('zero', 'one'):
        for o in ctx.run(ctx.engine(HK), inst, lambda st: []):
            if val(o.value) != {'zero': 0, 'one': R256 % RR}[what]:
                ctx.fail(inst['name'], 'wrong constant', val(o.value))
        return
    truth(ctx, inst, what)


def ob_words(ctx, root, m, n):
    truth(ctx, ctx.root(root), m, n)


def ob_clone(ctx, kind):
    """a copy has the stored words of the original"""
    inst = ctx.root('root_%s_clone' % kind)
    v, limbs = shaped(kind)
    mk, cells = setup_args(ctx.P, inst, [v])
    outs = ctx.run(ctx.engine([]), inst, mk)
    if not outs:
        ctx.fail(inst['name'], 'no normal exit')
    for o in outs:
        got = words(o.value)
        if len(got) != len(limbs) or any(not o.state.facts.is_zero(sub(x, y)) for x, y in zip(got, limbs)):
            ctx.fail(inst['name'], 'the copy differs from the original')
        if cells[0] is not None and words(o.state.mem.get(cells[0])) != limbs:
            ctx.fail(inst['name'], 'the original is modified')


def ob_clones(ctx, names):
    """every explicit copy operation of the named types returns the value copied, field by field"""
    P = ctx.P
    n = 0
    for inst in list(P.insts.values() if isinstance(P.insts, dict) else P.insts):
        if not inst or inst['crate'] != 'rabe_bn' or not (inst.get('trait') or ('', ''))[0].endswith('::Clone') or inst['trait'][1] not in ('clone', 'clone_from') or not inst.get('body'):
            continue
        T = P.types[P.types[inst['body']['locals'][1]]['to']]
        if T['k'] != 'adt' or T['name'].split('::')[-1].split('<')[0] not in names:
            continue
        PICK.__init__()
        n += 1
        box = []

        def mk(st):
            del box[:]
            ts = inst['body']['locals'][1:inst['body'].get('argc', 1) + 1]
            for t in ts:
                to = P.types[t]['to']
                v = anyvalue(P, st, to)
                box.append((v, st.alloc(v, to)))
            return [Ptr(k, (), None) for v, k in box]
        outs = ctx.run(ctx.engine([]), inst, mk)
        if not outs:
            ctx.fail(inst['name'], 'no normal exit')
        for o in outs:
            src, key = box[-1]
            got = o.value if inst['trait'][1] == 'clone' else o.state.mem.get(box[0][1])
            for what, x in (('the copy differs from the original', got), ('the original is modified', o.state.mem.get(key))):
                a, b = words(x), words(src)
                if len(a) != len(b) or any(not o.state.facts.is_zero(sub(p, q)) for p, q in zip(a, b)):
                    ctx.fail(inst['name'], what)
    ctx.items.append('%d copy operations' % n)


def words(v):
    if isinstance(v, Arr) and v.f and isinstance(v.f[0], (Agg, Arr)) or isinstance(v, Agg):
        return [x for y in v.f for x in words(y)]
    if isinstance(v, Arr):
        return list(v.f)
    return [v]


def ob_gt(ctx, what):
    from ob_tower import build, bool_cases, eng, freset, kinds_for, flat, refmul, cmp_vec, one_of, rsub
    from fdom import ff
    freset()
    inst = ctx.root('root_gt_' + what)
    if what == 'one':
        E = eng(ctx, ('Fq',))
        for o in ctx.run(E, inst, lambda st: []):
            cmp_vec(ctx, inst, o, flat(E, o.state, 'Fq12', o.value), one_of('Fq12'), 'wrong constant')
        return
    if what == 'mul':
        a, ca = build('Fq12', 'a', False)
        b, cb = build('Fq12', 'b', False)
        E = eng(ctx, kinds_for('Fq12'))
        mk, _ = setup_args(ctx.P, inst, [a, b])
        for o in ctx.run(E, inst, mk):
            cmp_vec(ctx, inst, o, flat(E, o.state, 'Fq12', o.value), refmul('Fq12', ca, cb), 'product is not the product of the field')
        return
    a, ca = build('Fq12', 'a', True)
    b, cb = build('Fq12', 'b', True)
    E = eng(ctx, ('Fq',), nomerge=True)
    mk, _ = setup_args(ctx.P, inst, [a, b])
    real = [x for c in rsub(ca, cb) for x in (c.re(), c.im())]
    seen = set()
    for o in ctx.run(E, inst, mk):
        for st, v in bool_cases(E, o):
            seen.add(v)
            F = ff(st)
            same = v == (what == 'eq')
            if same and not all(F.is_zero(x) for x in real):
                ctx.fail(inst['name'], '%s answers %s for values that differ' % (what, v))
            if not same and not any(F.is_nonzero(x) for x in real):
                ctx.fail(inst['name'], '%s answers %s for equal values' % (what, v))
    if seen != {True, False}:
        ctx.fail(inst['name'], '%s never answers both' % what, seen)


def ob_cmp_root(ctx):
    from ob_field import ob_cmp
    ob_cmp(ctx, ctx.root('root_u256_cmp'))


def ob_from_iter(ctx):
    """collecting words never panics, whatever the number of words (0 to 24; the value holds 8)"""
    inst = ctx.root('root_u512_from_iter')
    for n in range(25):
        reset()
        mk, _ = setup_args(ctx.P, inst, [wide('w', n)])
        if not ctx.run(ctx.engine(HK), inst, mk):
            ctx.fail(inst['name'], 'no normal exit for %d words' % n)


def anyvalue(P, st, t, n=[0], depth=0):
    """an arbitrary value of a plain data type"""
    T = P.types[t]
    k = T['k']
    n[0] += 1
    if k == 'int':
        return atom('v%d' % n[0], -(1 << T['bits'] - 1) if T['signed'] else 0, (1 << T['bits'] - T['signed']) - 1)
    if k == 'bool':
        return atom('v%d' % n[0], 0, 1)
    if k == 'array':
        return Arr(tuple(anyvalue(P, st, T['elem'], n, depth + 1) for _ in range(T['len'])))
    if k == 'tuple':
        return Agg(0, tuple(anyvalue(P, st, x, n, depth + 1) for x in T['fields']))
    if k == 'ref' and P.types[T['to']]['k'] not in ('str', 'slice', 'dyn'):
        return Ptr(st.alloc(anyvalue(P, st, T['to'], n, depth + 1), T['to']), (), None)
    if k == 'adt' and T['ak'] == 'struct' and depth < 12:
        if P.strip(t) != t:
            return anyvalue(P, st, P.strip(t), n, depth + 1)
        return Agg(0, tuple(anyvalue(P, st, f[1], n, depth + 1) for f in T['variants'][0]['fields'] if not P.zst(f[1])))
    if k == 'adt' and T['ak'] == 'enum' and depth < 12:
        i = PICK.next(len(T['variants']))
        return Agg(i, tuple(anyvalue(P, st, f[1], n, depth + 1) for f in T['variants'][i]['fields']))
    raise Undecided('arbitrary value of type ' + str(T.get('name', k)))


class Pick:
    """enumerates the choices of variants met while a value is built"""
    def __init__(self):
        self.seq, self.ar, self.pos = [], [], 0

    def next(self, n):
        if self.pos == len(self.seq):
            self.seq.append(0)
            self.ar.append(n)
        self.pos += 1
        return self.seq[self.pos - 1]

    def advance(self):
        self.pos = 0
        while self.seq and self.seq[-1] + 1 == self.ar[-1]:
            self.seq.pop()
            self.ar.pop()
        if not self.seq:
            return False
        self.seq[-1] += 1
        return True


PICK = Pick()


def text_hooks(E, inst):
    """writing text: every step may succeed or fail; strings have no content that matters"""
    P, n, d = E.P, inst['name'], inst['def']
    if inst['crate'] in ('core', 'std', 'alloc') and ('::fmt::' in d or d.startswith(('core::fmt', 'std::fmt', 'alloc::fmt'))) and not d.startswith('<rabe'):
        return m_text
    if inst['crate'] in ('core', 'std', 'alloc') and re.search(r'string::String\b', n) and not re.search(r'(option|result)::', d):
        return m_text
    return None


def m_text(E, st, args, call):
    P = E.P
    t = call.dty
    T0 = P.types[t]
    if T0['k'] == 'adt' and T0['name'].endswith('Result'):
        s2 = st.copy()
        return [(st, Agg(0, (UNIT,))), (s2, Agg(1, (UNIT,)))]
    if T0['k'] == 'tuple' and not T0['fields']:
        return UNIT
    if T0['k'] == 'ref' and args and isinstance(args[0], Ptr) and P.types[T0['to']]['k'] != 'str':
        return args[0]
    if T0['k'] == 'ref' and P.types[T0['to']]['k'] == 'str':
        return Ptr(st.alloc(Opaque(('str', st.seq)), T0['to']), (), atom('strlen%d' % st.seq, 0, (1 << 63) - 1))
    return Opaque(('text', st.seq))


def ob_text(ctx):
    """no formatting function of the crate panics; each nested value is formatted by one of these functions"""
    P = ctx.P
    todo = [i for i in P.insts if i['crate'] == 'rabe_bn' and i['body'] is not None and i['trait'] and re.search(r'fmt::\w+$', i['trait'][0]) and i['trait'][1] == 'fmt']
    if not todo:
        raise Missing('formatting functions')
    todo += [P.insts[P.roots[r]] for r in P.roots if r.endswith(('_display', '_debug'))]
    global PICK
    for inst in todo:
        PICK = Pick()
        while True:
            E = ctx.engine([text_hooks])

            def mk(st):
                t = P.types[inst['body']['locals'][1]]['to']
                v = anyvalue(P, st, t)
                return [Ptr(st.alloc(v, t), (), None), Ptr(st.alloc(Opaque(('formatter',)), P.types[inst['body']['locals'][2]]['to']), (), None)]
            outs = ctx.run(E, inst, mk)
            if not outs:
                ctx.fail(inst['name'], 'no normal exit')
            if not PICK.advance():
                break
        ctx.items.append(inst['name'])
