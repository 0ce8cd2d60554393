"""decimal parsing: the text is an arbitrary sequence of characters drawn one at a time; the loop that draws them is cut,
and the invariant compares each field value alive there with the number the digits drawn so far spell"""
from ldom import *
from ob_tower import DOM
from ob_inv import put
import itertools

CNT = itertools.count()


class Restart(Exception):
    pass


class Text:
    """the iterator of the n-th reading of the text"""
    __slots__ = ('n',)
    v = 0

    def __init__(self, n=0):
        self.n = n

    @property
    def f(self):
        raise Undecided('internals of the character iterator are read')

    def __eq__(self, o):
        return isinstance(o, Text) and o.n == self.n

    def __hash__(self):
        return 7 + self.n


def reading(log):
    return max([t[1] for t in log if isinstance(t, tuple)], default=0)


def again(log):
    """the log at the start of another reading: all that is kept is whether every character is known to be a digit, or some
    character known not to be"""
    n = reading(log)
    if n:
        dirty = 'bad' in log or 'dirty' in log
        if not dirty and 'end' not in log and 'clean' not in log:
            raise Undecided('the text is read twice')
        if n >= 4:
            raise Undecided('the text is read many times')
        return ('dirty' if dirty else 'clean', ('text', n + 1))
    return (('text', 1),)


_ITER = re.compile(r'^<std::str::(Chars|Bytes)(<.*>)? as (std|core)::iter::Iterator>::next$')
_MAKE = re.compile(r'^(std|core)::str::<impl str>::(chars|bytes)$')


class Str:
    def __init__(self, ctx, inst):
        self.ctx, self.inst = ctx, inst
        self.cutset = set()

    def hooks(self, E, inst):
        n = inst['name']
        if _MAKE.match(n):
            def mk(E, st, a, call):
                n = reading(st.log)
                st.log = again(st.log)
                if n:
                    st.log = ('restart',) + st.log
                return Text(n + 1)
            return mk
        m = _ITER.match(n)
        if m:
            hi = 0x10ffff if m.group(1) == 'Chars' else 255

            def nx(E, st, a, call):
                self.mark(st)
                t = E.deref(st, a[0])
                if not isinstance(t, Text) or t.n != reading(st.log):
                    raise Undecided('two readings of the text at a time')
                if 'end' in st.log:
                    raise Undecided('character drawn after the end')
                out = []
                if 'dirty' not in st.log or 'bad' in st.log:
                    s = st.copy()
                    s.log = st.log + ('end',)
                    out.append((s, Agg(0, ())))
                for d in range(10):
                    s = st.copy()
                    s.log = st.log + (d,)
                    out.append((s, Agg(1, (48 + d,))))
                for lo, up in ((0, 47), (58, hi)) if 'clean' not in st.log else ():
                    s = st.copy()
                    s.log = st.log + ('bad',)
                    out.append((s, Agg(1, (atom('c%d' % next(CNT), lo, up),))))
                return out
            return nx
        if re.match(r'^<std::str::(Chars|Bytes)(<.*>)? as (std|core)::iter::Iterator>::size_hint$', n):
            return lambda E, st, a, call: (_ for _ in ()).throw(Undecided('size hint of the text'))
        return None

    def mark(self, st):
        for f in reversed(st.frames):
            l = f.body.loops[f.bb]
            if l:
                k = (f.inst['id'], l[-1])
                if k not in self.cutset:
                    self.cutset.add(k)
                    raise Restart()
                return

    def engine(self):
        E = self.ctx.engine([self.hooks, field_hooks((T,))], joiners=[DOM], nomerge=True)
        E.max_iter = 400
        E.arrived = []
        E.passing = False

        def lh(E, st, f):
            if (f.inst['id'], f.bb) not in self.cutset:
                return None
            if E.passing:
                E.passing = False
                return None
            E.arrived.append(st)
            return False
        E.loop_hook = lh
        return E

    def launch(self, st=None, args=None):
        E = self.engine()
        if st is None:
            outs = E.start(self.inst, args)
        else:
            E.queue, E.heap, E.outcomes = {}, [], []
            E.passing = True
            E.enqueue(st)
            E.loop()
            outs = E.outcomes
        s = self.ctx.stats
        s['steps'] += E.steps
        s['branches'] += E.branches
        s['functions'] |= {self.ctx.P.insts[i]['name'] for i in E.visited}
        s['models'] |= E.hooked
        s['paths'] += len(outs)
        return outs, E.arrived

    def key(self, st):
        return (tuple((f.inst['id'], f.bb) for f in st.frames),) + tuple(x in st.log for x in FLAGS) + (reading(st.log),)


T, M = 'Fr', RR
FLAGS = ('bad', 'end', 'clean', 'dirty')


def spelled(log, start):
    n = start
    for d in log:
        if d == 'restart':
            n = fconst(0, 0, M)
        elif isinstance(d, int):
            n = n.scale(10) + fconst(d, 0, M)
    return n


class C:
    pass


def ob_parse(ctx, which='Fr'):
    global T, M
    T, M = which, MODS[which]
    freset()
    inst = ctx.entry(which, 'from_str')
    S = Str(ctx, inst)

    while True:
        try:
            prove(ctx, inst, S)
            return
        except Restart:
            ctx.problems.clear()
            continue


def TextPtr(st):
    k = st.alloc(Text())
    return Ptr(k, (), atom('textlen', 0, 1 << 40))


def absorb(S, cuts, st, N0):
    k = S.key(st)
    N = spelled(st.log, N0)
    c = cuts.get(k)
    if c is None:
        c = cuts[k] = C()
        c.key, c.st, c.cells = k, st.copy(), {}
        for key, v in st.mem.items():
            first(c, st, key, (), v, N)
        return True
    ch = False
    for key in list(c.st.mem):
        if key not in st.mem:
            del c.st.mem[key]
            for p in [p for p in c.cells if p[0] == key]:
                del c.cells[p]
            ch = True
    for key in list(c.st.mem):
        ch |= match(c, st, key, (), c.st.mem[key], st.mem[key], N)
    return ch


def equalN(st, v, N):
    F = ff(st)
    return F.is_zero(F.reduce(v.p if hasattr(v, 'p') else v) - N)


def fv(E, st, v):
    return toF(E, st, T, v)


def first(c, st, key, path, v, N):
    if isinstance(v, FV):
        return
    if isinstance(v, (Agg, Arr)) and not isinstance(v.f, SymElems):
        for i, x in enumerate(v.f):
            first(c, st, key, path + (i,), x, N)


def match(c, st, key, path, old, new, N):
    t = c.cells.get((key, path))
    if t == 'any':
        return False
    if isinstance(old, FV) and isinstance(new, FV):
        if t == 'N':
            if equalN(st, new, N):
                return False
            c.cells[(key, path)] = 'any'
            return True
        if old == new:
            return False
        # differing field values: equal to the spelled number in both arrivals, or unknown
        ok = equalN(st, new, N) and (c.N is not None and equalN(c.st, old, c.N))
        c.cells[(key, path)] = 'N' if ok else 'any'
        return True
    if isinstance(old, (Agg, Arr)) and type(old) is type(new) and not isinstance(old.f, SymElems) and len(old.f) == len(new.f) and (isinstance(old, Arr) or old.v == new.v):
        ch = False
        for i, (a, b) in enumerate(zip(old.f, new.f)):
            ch |= match(c, st, key, path + (i,), a, b, N)
        return ch
    if old is UNDEF or (type(old) is type(new) and old == new):
        return False
    c.cells[(key, path)] = 'any'
    c.st.mem[key] = put(c.st.mem[key], path, UNDEF)
    return True


def prove(ctx, inst, S):
    cuts = {}
    zero = fconst(0, 0, M)
    outs0, arr0 = S.launch(args=lambda st: [TextPtr(st)])
    for rounds in range(30):
        changed = False
        finals = [(o, zero, False) for o in outs0]
        for st in arr0:
            changed |= absorb1(S, cuts, st, zero, False)
        for k in list(cuts):
            c = cuts[k]
            s = c.st.copy()
            N0 = fatom('N%d' % next(CNT), M) if c.gen else c.N
            for (key, path), t in c.cells.items():
                if t == 'N':
                    s.mem[key] = put(s.mem[key], path, FV(T, N0))
                else:
                    s.mem[key] = put(s.mem[key], path, UNDEF)
            s.log = tuple(x for x, y in zip(FLAGS, k[1:]) if y) + ((('text', k[-1]),) if k[-1] else ())
            s.frames[-1].counts = tuple(0 for _ in s.frames[-1].counts)
            s.facts = Facts()
            s.extra = FF()
            outs, arr = S.launch(s)
            finals += [(o, N0, k[1]) for o in outs]
            for st in arr:
                changed |= absorb1(S, cuts, st, N0, k[1])
        if not changed:
            break
    else:
        raise Undecided('loop invariant not found')
    some = none = 0
    for o, N0, bad in finals:
        if o.kind == 'panic':
            ctx.fail(o.info[1], 'panic reachable', o.info[0])
            continue
        if o.kind != 'ret':
            ctx.fail(inst['name'], 'unreachable_unchecked reached')
            continue
        isbad = 'bad' in o.state.log or 'dirty' in o.state.log
        v = o.value
        if not isinstance(v, Agg) or v.v not in (0, 1):
            ctx.fail(inst['name'], 'result is not an option')
        elif v.v == 1:
            some += 1
            if isbad:
                ctx.fail(inst['name'], 'text with a character that is not a digit is accepted')
            elif 'end' not in o.state.log:
                ctx.fail(inst['name'], 'characters after the ones read are ignored')
            elif not isinstance(v.f[0], FV) or not equalN(o.state, v.f[0], spelled(o.state.log, N0)):
                ctx.fail(inst['name'], 'value differs from the number the digits spell', repr(v.f[0])[:200])
        else:
            none += 1
            if not isbad:
                ctx.fail(inst['name'], 'text of digits only is rejected')
    if not some or not none:
        ctx.fail(inst['name'], 'no accepting path' if not some else 'no rejecting path')
    ctx.items.append('cuts %d, accepting paths %d, rejecting %d' % (len(cuts), some, none))


def absorb1(S, cuts, st, N0, bad):
    k = S.key(st)
    new = k not in cuts
    r = absorb(S, cuts, st, N0)
    N = spelled(st.log, N0)
    if new:
        cuts[k].N = N
        cuts[k].gen = False
    elif not cuts[k].gen and not ff(st).is_zero(N - cuts[k].N):
        cuts[k].gen = True
        r = True
    return r
