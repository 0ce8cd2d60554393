"""word-level lemmas: a function on machine words with the signature of an add-with-carry, subtract-with-borrow or
multiply-accumulate step is analysed once per run, on its current body; where the analysis proves one of the three
specifications for every operand, calls are replaced by it, and otherwise the body is analysed at every call"""
from run import *
import poly as PL

W = 1 << 64
CACHE = {}


def shape(P, inst):
    """'ref' for fn(u64.., &mut u64) -> u64, 'val' for fn(u64..) -> (u64, u64)"""
    B = inst.get('body')
    if B is None:
        return None
    L = B['locals']
    n = B['argc']
    if n not in (3, 4):
        return None

    def word(t):
        T = P.types[P.strip(t)]
        return T['k'] == 'int' and T['bits'] == 64 and not T['signed']
    last = P.types[L[n]]
    if not all(word(t) for t in L[1:n]):
        return None
    if word(L[0]) and last['k'] == 'ref' and word(last['to']) and 'mut' in str(last).lower():
        return 'ref', n
    R = P.types[P.strip(L[0])]
    if word(L[n]) and R['k'] == 'tuple' and len(R['fields']) == 2 and all(word(t) for t in R['fields']):
        return 'val', n
    return None


def total(spec, xs):
    if spec == 'adc':
        return add(add(xs[0], xs[1]), xs[2])
    if spec == 'sbb':
        return sub(sub(xs[0], xs[1]), xs[2])
    return add(add(xs[0], PL.mul(xs[1], xs[2])), xs[3])


def results(spec, xs):
    S = total(spec, xs)
    q = quot(S, W)
    return n2(mod(S, W)), n2(neg(q) if spec == 'sbb' else q)


def prove(P, inst, kind, n, spec, make):
    lim = 1 if n == 3 else W - 1
    xs = [atom('lw%d_%d' % (inst['id'], i), 0, lim if i == n - 1 else W - 1) for i in range(n)]
    E = make()
    E.budget = 200000
    cell = []

    def args(st):
        if kind == 'val':
            return list(xs)
        k = st.alloc(xs[-1], P.types[inst['body']['locals'][n]]['to'])
        cell.append(k)
        return xs[:-1] + [Ptr(k, (), None)]
    try:
        outs = E.start(inst, args)
    except Undecided:
        return False
    r, c = results(spec, xs)
    rets = 0
    for o in outs:
        if o.kind != 'ret':
            if o.kind == 'panic' and impossible(o.state.facts, r, c):
                continue
            return False
        rets += 1
        a, b = o.value.f if kind == 'val' else (o.value, o.state.mem[cell[0]])
        F = o.state.facts
        for x, y in ((a, r), (b, c)):
            if isinstance(x, (bool, Cond)):
                x = cond_int(x)
            if not isinstance(x, (int, Poly)) or not zero_cases(E, o.state, sub(x, y), 4):
                return False
    return rets > 0


def impossible(F, *known):
    """some fact bounds a result outside its range"""
    for g in F.ge:
        for y in known:
            for s in (1, -1):
                d = n3(sub(g, scale(y, s)))
                d = F.reval(d, 10000, True) if isinstance(d, Poly) else d
                if isinstance(d, int) and add(bounds(scale(y, s))[1], d) < 0:
                    return True
    return False


def zero_cases(E, st, d, depth):
    F = st.facts
    if zero(F, d):
        return True
    g = tuple(y for x in F.ge if isinstance(x, Poly) for y in (F.reval(x, 10000, True), F.reval(n2(x), 10000, True)))
    if any(isinstance(x, int) and x < 0 for x in g):
        return True         # no such state
    st.facts = F = Facts(F.ge + tuple(x for x in g if isinstance(x, Poly) and x not in F.ge), F.ne, F.eq, F.zero)
    if zero(F, d) or any(F.upper(x, -1, True) < 0 for x in F.ge):
        return True
    if depth == 0 or isinstance(d, int):
        return False
    for i in PL.symsof(d):
        s = PL.SYMS[i]
        if s.hi - s.lo == 1:
            c = mkcond('ge', sub(PL.symp(i), s.hi))
            if isinstance(c, bool):
                continue
            for cc, v in ((c, s.hi), (cnot(c), s.lo)):
                for x in E.assume(st.copy(), cc):
                    if s.kind == 'quot':
                        p, k = s.data
                        G = x.facts
                        x.facts = Facts(G.ge + (sub(p, v * k), sub(v * k + k - 1, p)), G.ne, G.eq, G.zero)
                    if not zero_cases(E, x, PL.subst(d, i, v), depth - 1):
                        return False
            return True
    return False


def zero(F, d):
    if isinstance(d, int):
        return d == 0
    d = n3(d)
    if F.is_zero(d):
        return True
    d = F.reval(d, 10000, True)
    if isinstance(d, int):
        return d == 0
    return F.is_zero(d) or (F.upper(d, 0, True) <= 0 and -F.upper(neg(d), 0, True) >= 0)


def lemma(E, inst):
    P = E.P
    k = (id(P), inst['id'])
    if k not in CACHE:
        CACHE[k] = None
        s = shape(P, inst)
        if s:
            for nm in (False, True):
                def make():
                    R = Runner(P, [lambda E2, i: None if i['crate'] == 'rabe_bn' else std(E2, i)])
                    R.nomerge = nm
                    return R
                for spec in ('adc', 'sbb') if s[1] == 3 else ('mac',):
                    if prove(P, inst, s[0], s[1], spec, make):
                        CACHE[k] = (s[0], s[1], spec)
                        break
                if CACHE[k]:
                    break
    return CACHE[k]


def std(E, inst):
    from models import std_hooks
    return std_hooks(E, inst)


def word_lemmas(E, inst):
    if inst['crate'] != 'rabe_bn' or inst.get('trait') or inst['kind'] == 'intrinsic':
        return None
    L = lemma(E, inst)
    if L is None:
        return None
    kind, n, spec = L

    def h(E, st, args, call):
        xs = list(args)
        if kind == 'ref':
            xs[-1] = E.deref(st, args[-1])
        if not all(isinstance(x, (int, Poly)) and not isinstance(x, bool) for x in xs):
            return NotImplemented
        if n == 3:
            c = xs[2]
            if not (0 <= st.facts.lower(c, 0) and st.facts.upper(c, 1) <= 1 if isinstance(c, Poly) else c in (0, 1)):
                return NotImplemented
        r, c = results(spec, xs)
        if kind == 'val':
            return Agg(0, (r, c))
        E.storex(st, args[-1].key, args[-1].path, c)
        return r
    return h
