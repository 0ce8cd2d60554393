"""serialization: the written events, and what is rebuilt from them, from parts of them and from other events"""
from ob import *
from ob_bytes import shaped, SHAPE
from ob_roots import words

SHAPE.setdefault('u512', ((), 8))
KINDS = ('fr', 'g1', 'g2', 'gt', 'u256', 'u512')
SCALAR = {0: 'u64'}
WANT = {1: 'newtype', 2: 'seq', 3: 'tuple', 4: 'tuple_struct', 5: 'struct', 6: 'map'}


def tail(inst):
    n = inst['name'].split('::')[-1]
    return n if n.startswith('tok_') and inst['crate'] == 'roots' else None


def static_bytes(E, st, p, n):
    k = E.cint(st, n)
    return bytes(E.cint(st, E.load(st, p.key, p.path[:-1] + (p.path[-1] + i,))) for i in range(k))


# ---------------------------------------------------------------- serde: writing
def put_hooks(readable):
    def hook(E, inst):
        n = tail(inst)
        if n is None:
            return None

        def put(E, st, a, call):
            if n == 'tok_readable':
                return readable
            if n == 'tok_put_u64':
                t = ('u64', a[1])
            elif n == 'tok_put_open':
                t = ('open', E.cint(st, a[1]), E.cint(st, a[2]))
            elif n == 'tok_put_key':
                t = ('key', static_bytes(E, st, a[1], a[2]))
            elif n == 'tok_put_close':
                t = ('close',)
            elif n == 'tok_put_other':
                t = ('other', E.cint(st, a[1]))
            else:
                raise Undecided('reading while writing: ' + n)
            st.log = st.log + (t,)
            return Agg(0, ())
        return put
    return hook


def written(ctx, kind, readable):
    PL.reset()
    inst = ctx.root('root_ser_' + kind)
    v, limbs = shaped(kind)
    mk, cells = setup_args(ctx.P, inst, [v, Agg(0, (0,))])
    E = ctx.engine([put_hooks(readable)])
    outs = ctx.run(E, inst, mk)
    logs = []
    for o in outs:
        if o.value is not True:
            ctx.fail(inst['name'], 'writing a value reports an error')
            return None
        if cells[0] is not None and words(o.state.mem.get(cells[0])) != limbs:
            ctx.fail(inst['name'], 'writing modifies the value')
        logs.append(o.state.log)
    if not logs:
        ctx.fail(inst['name'], 'no normal exit')
        return None
    if any(x != logs[0] for x in logs):
        raise Undecided('the events written depend on the value')
    for t in logs[0]:
        if t[0] == 'other' or t[0] == 'open' and t[1] > 5:
            raise Undecided('%s writes an event outside the modelled formats: %r' % (inst['name'], t))
    return inst, limbs, logs[0]


# ---------------------------------------------------------------- serde: reading
class Feed:
    """the events of the written data, served under one format's conventions, with at most one departure"""

    def __init__(self, toks, mode, readable, keys, bad):
        self.toks = toks
        self.mode = mode                # strict | seq | map
        self.readable = readable
        self.keys = keys                # str | bytes | index
        self.bad = bad
        self.mismatch = None
        self.unknown = keys == 'str'

    def hook(self, E, inst):
        n = tail(inst)
        if n is None:
            return None
        f = getattr(self, n, None)
        if f is None:
            return None
        return f

    def fork(self, st, good, bads, badval=None, wrong='bad'):
        """good: (log, value); bads: values served instead, after which the data ends"""
        out = []
        if self.bad and not (len(st.log) > 2 and st.log[2] == 'omit'):
            for b in bads:
                s = st.copy()
                s.log = (wrong,)
                out.append((s, b))
        st.log, v = good
        return [(st, v)] + out

    def ended(self, st):
        return st.log[0] == 'bad'

    def tok(self, pos):
        return self.toks[pos] if pos < len(self.toks) else ('eof',)

    def tok_readable(self, E, st, a, call):
        return self.readable

    def tok_ask(self, E, st, a, call):
        want, n = E.cint(st, a[1]), E.cint(st, a[2])
        if self.ended(st):
            return 99
        pos, stack, extra = st.log
        if want == 24:
            if extra != 'value':
                # an unknown key's value is the only thing nobody looks at
                return 99
            st.log = (pos, stack, 'done')
            return 4
        if extra == 'value':
            return 99
        t = self.tok(pos)
        if self.mode == 'strict':
            ok = t[0] == 'u64' and want == 0 or t[0] == 'open' and t[1] == want and (want == 2 or want == 1 or t[2] == n)
            if not ok:
                self.mismatch = self.mismatch or (pos, t[:3] if t[0] != 'u64' else t[0], WANT.get(want, want), n)
                st.log = ('bad',)
                return 99
        if t[0] == 'u64':
            return self.fork(st, ((pos, stack, extra), 0), [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 99])
        if t[0] == 'open':
            new = (pos + 1, stack + ((t[1], pos),), extra)
            if t[1] == 1:
                return self.fork(st, (new, 1), [0, 3, 4, 5, 6, 7, 8, 9, 10, 99])
            if t[1] == 5:
                return self.fork(st, (new, 3 if self.mode == 'map' else 2), [0, 1, 4, 5, 6, 7, 8, 9, 10, 11, 99])
            return self.fork(st, (new, 2), [0, 1, 3, 4, 5, 6, 7, 8, 9, 10, 11, 99])
        return 99

    def tok_get_u64(self, E, st, a, call):
        if self.ended(st):
            return 0
        pos, stack, extra = st.log
        st.log = (pos + 1, stack, extra)
        return self.tok(pos)[1]

    def skipkey(self, pos, stack):
        if stack and stack[-1][0] == 5 and self.mode != 'map' and self.tok(pos)[0] == 'key':
            pos += 1
        return pos

    def tok_more(self, E, st, a, call):
        if self.ended(st):
            return False
        pos, stack, extra = st.log
        pos = self.skipkey(pos, stack)
        t = self.tok(pos)
        if t[0] in ('close', 'eof'):
            # one element too many
            return self.fork(st, ((pos, stack, extra), False), [True])
        omit = []
        if self.bad and not extra and t[0] == 'key' and self.mode == 'map':
            # the same data without this entry
            s = st.copy()
            nxt = self.after(pos)
            s.log = (nxt, stack, 'omit')
            omit = [(s, self.tok(nxt)[0] == 'key')]
        if self.bad and not extra and t[0] != 'key' and self.mode != 'strict' and stack and stack[-1][0] in (2, 3, 4, 5):
            # a shorter sequence, properly ended
            s = st.copy()
            nxt = pos
            while self.tok(nxt)[0] not in ('close', 'eof'):
                nxt = self.after(nxt) if self.tok(nxt)[0] == 'key' else self.past(nxt)
            s.log = (nxt, stack, 'omit')
            omit = [(s, False)]
        return self.fork(st, ((pos, stack, extra), True), [False]) + omit

    def tok_close(self, E, st, a, call):
        if self.ended(st):
            return False
        pos, stack, extra = st.log
        if stack and self.tok(pos)[0] == 'close':
            st.log = (pos + 1, stack[:-1], extra)
            return True
        return False

    def after(self, pos):
        """where the entry that starts at pos ends"""
        return self.past(pos + 1)

    def past(self, i):
        """where the value that starts at i ends"""
        depth = 0
        while i < len(self.toks):
            t = self.toks[i]
            if t[0] == 'open':
                depth += 1
            elif t[0] == 'close':
                if not depth:
                    break
                depth -= 1
            i += 1
            if not depth:
                break
        return i

    # keys of maps
    def tok_key(self, E, st, a, call):
        if self.ended(st):
            # after a sequence that should have ended: anything
            return 99
        pos, stack, extra = st.log
        t = self.tok(pos)
        if t[0] != 'key' or not stack:
            return 99
        code = {'str': 0, 'bytes': 1, 'index': 2}[self.keys]
        outs = [(st, code)]
        if self.bad and extra != 'omit':
            s = st.copy()
            s.log = ('bad',)
            outs.append((s, 3))
            for k in self.earlier(pos, stack):
                s = st.copy()
                s.log = ('dup', k, pos, stack, extra)
                outs.append((s, code))
            if not extra and self.unknown and self.leftmost(stack):
                s = st.copy()
                s.log = ('unk', pos, stack)
                outs.append((s, code))
        return outs

    def earlier(self, pos, stack):
        out, depth = [], 0
        for i in range(stack[-1][1] + 1, pos):
            t = self.toks[i]
            if t[0] == 'open':
                depth += 1
            elif t[0] == 'close':
                depth -= 1
            elif t[0] == 'key' and depth == 0:
                out.append(i)
        return out

    def leftmost(self, stack):
        """the first structure of its kind along the way"""
        ps = [p for k, p in stack if k == 5]
        return all(not self.earlier(q, ((5, p),)) or self.earlier(q, ((5, p),)) == [q - 1] for p, q in zip(ps, ps[1:]))

    def keyat(self, st):
        """the key to serve: its text and its number among the keys of its structure"""
        if st.log[0] == 'dup':
            _, i, pos, stack, extra = st.log
            st.log = ('bad',)
            return self.toks[i][1], self.earlier(pos, stack).index(i)
        if st.log[0] == 'unk':
            _, pos, stack = st.log
            st.log = (pos, stack, 'value')
            return b'\xc2\xb5', 1000
        pos, stack, extra = st.log
        st.log = (pos + 1, stack, extra)
        return self.toks[pos][1], len(self.earlier(pos, stack))

    def text(self, E, st, a, call):
        k, i = self.keyat(st)
        c = st.alloc(Arr(tuple(k)))
        return Ptr(c, (0,), len(k))

    tok_key_str = text
    tok_key_bytes = text

    def tok_key_index(self, E, st, a, call):
        return self.keyat(st)[1]


def unwrap(v):
    """Ok payload, None for Err, of the result of a decoding root"""
    if not isinstance(v, Agg):
        return None
    return v


def read_back(ctx, kind, limbs, toks, feed, what):
    inst = ctx.root('root_de_' + kind)
    B = inst['body']
    T = ctx.P.types[B['locals'][0]]
    names = [v['name'] for v in T['variants']]
    ok = names.index('Ok') if 'Ok' in names else names.index('Some')
    mk, cells = setup_args(ctx.P, inst, [Agg(0, (0,))])
    E = ctx.engine([feed.hook])
    log = feed.start()
    good = bad = 0
    for o in ctx.run(E, inst, mk, log=log):
        v = o.value
        if not isinstance(v, Agg):
            raise Undecided('result of decoding not resolved')
        lg = o.state.log
        if lg[0] in ('bad', 'dup', 'unk'):
            bad += 1
            if v.v == ok:
                ctx.fail(inst['name'], what + ': malformed or truncated data decodes without an error')
            continue
        if len(lg) > 2 and lg[2] == 'omit':
            bad += 1
            if v.v == ok:
                ctx.fail(inst['name'], what + ': data without one of its fields decodes without an error')
            continue
        if v.v != ok:
            ctx.fail(inst['name'], what + ': data that was written is rejected' if not feed.lenient(lg) else what + ': data with an unknown field is rejected')
            continue
        good += 1
        if not feed.consumed(lg):
            ctx.fail(inst['name'], what + ': decoding does not consume exactly the written data')
            continue
        got = words(v.f[0])
        if len(got) != len(limbs) or any(not o.state.facts.is_zero(o.state.facts.reval(sub(x, y))) for x, y in zip(got, limbs)):
            ctx.fail(inst['name'], what + ': the decoded value differs from the written one')
    ctx.times = getattr(ctx, 'times', []) + [(what, time.time())]
    if not good:
        ctx.fail(inst['name'], what + ': nothing that was written decodes')
    if getattr(feed, 'mismatch', None):
        ctx.fail(inst['name'], what + ': asks for another kind of data than was written', feed.mismatch)
    ctx.notes.append('%s %s: %d events, %d accepted, %d refused' % (kind, what, len(toks), good, bad))


def _start(self):
    return (0, (), None)


def _lenient(self, lg):
    return lg[2] is not None


def _consumed(self, lg):
    return lg[0] == len(self.toks) and not lg[1]


Feed.start = _start
Feed.lenient = _lenient
Feed.consumed = _consumed


def transparent(toks):
    """formats in which a newtype is written as its content"""
    out, stack = [], []
    for t in toks:
        if t[0] == 'open':
            stack.append(t[1] == 1)
            if t[1] == 1:
                continue
        elif t[0] == 'close':
            if stack.pop():
                continue
        out.append(t)
    return tuple(out)


class Clear(Feed):
    """newtypes leave no trace: asking for one is granted"""

    def tok_ask(self, E, st, a, call):
        if not self.ended(st) and E.cint(st, a[1]) == 1 and st.log[2] != 'value' and self.tok(st.log[0])[0] in ('u64', 'open'):
            pos, stack, extra = st.log
            return self.fork(st, ((pos, stack + ((0, pos),), extra), 1), [0, 3, 4, 5, 6, 7, 8, 9, 10, 99])
        return Feed.tok_ask(self, E, st, a, call)

    def tok_close(self, E, st, a, call):
        if not self.ended(st) and st.log[1] and st.log[1][-1][0] == 0:
            pos, stack, extra = st.log
            st.log = (pos, stack[:-1], extra)
            return True
        return Feed.tok_close(self, E, st, a, call)


def ob_serde(ctx, kind):
    for readable in (True, False):
        w = written(ctx, kind, readable)
        if w is None:
            return
        inst, limbs, toks = w
        asked = any(tail(i) == 'tok_readable' for i in ctx.P.insts)
        if not any(t[0] == 'u64' for t in toks):
            ctx.fail(inst['name'], 'nothing of the value is written')
            return
        clear = transparent(toks)
        read_back(ctx, kind, limbs, toks, Feed(toks, 'strict', readable, 'str', True), 'positional format')
        read_back(ctx, kind, limbs, clear, Clear(clear, 'seq', readable, 'str', True), 'self-describing format, structures as sequences')
        for keys in ('str', 'bytes', 'index'):
            read_back(ctx, kind, limbs, clear, Clear(clear, 'map', readable, keys, True), 'self-describing format, %s keys' % keys)
        if not asked:
            break


# ---------------------------------------------------------------- borsh
class Bytes:
    def __init__(self, data):
        self.data = data

    def start(self):
        return (0,)

    def lenient(self, lg):
        return False

    def consumed(self, lg):
        return lg[0] == len(self.data)

    def hook(self, E, inst):
        n = tail(inst)
        if n != 'tok_read':
            return None

        def read(E, st, a, call):
            k = E.cint(st, a[2])
            if st.log[0] == 'bad':
                return False
            pos = st.log[0]
            if k == 0:
                return True
            s = st.copy()
            s.log = ('bad',)
            if pos + k > len(self.data):
                return [(s, False)]
            p = a[1]
            for i in range(k):
                E.storex(st, p.key, p.path[:-1] + (p.path[-1] + i,), self.data[pos + i])
            st.log = (pos + k,)
            return [(st, True), (s, False)]
        return read


def write_hook(E, inst):
    if tail(inst) != 'tok_write':
        return None

    def write(E, st, a, call):
        n = E.cint(st, a[2])
        p = a[1]
        st.log = st.log + tuple(E.load(st, p.key, p.path[:-1] + (p.path[-1] + i,)) for i in range(n))
        return Agg(0, ())
    return write


def ob_borsh(ctx, kind):
    PL.reset()
    inst = ctx.root('root_ser_' + kind)
    v, limbs = shaped(kind)
    mk, cells = setup_args(ctx.P, inst, [v, Agg(0, (0,))])
    E = ctx.engine([write_hook])
    logs = []
    for o in ctx.run(E, inst, mk):
        if o.value is not True:
            ctx.fail(inst['name'], 'writing a value reports an error')
            return
        if cells[0] is not None and words(o.state.mem.get(cells[0])) != limbs:
            ctx.fail(inst['name'], 'writing modifies the value')
        logs.append(o.state.log)
    if not logs:
        ctx.fail(inst['name'], 'no normal exit')
        return
    if any(x != logs[0] for x in logs):
        raise Undecided('the bytes written depend on the value')
    if not logs[0]:
        ctx.fail(inst['name'], 'nothing of the value is written')
        return
    read_back(ctx, kind, limbs, logs[0], Bytes(logs[0]), 'byte format')


# ---------------------------------------------------------------- validity of what is decoded
def ob_decode(ctx, fw, kind):
    """well-shaped data holding any words: what is accepted must be reduced and, for points, on the curve and in the group"""
    if fw == 'serde':
        w = written(ctx, kind, True)
        if w is None:
            return
        inst, limbs, toks = w
        feed = Feed(toks, 'strict', True, 'str', False)
        hook, log = feed.hook, feed.start()
    else:
        PL.reset()
        v, limbs = shaped(kind)
        feed = Bytes([digit(x, 1 << (8 * k), 256) for x in limbs for k in range(8)])
        hook, log = feed.hook, feed.start()
    inst = ctx.root('root_de_' + kind)
    names = [v['name'] for v in ctx.P.types[inst['body']['locals'][0]]['variants']]
    ok = names.index('Ok') if 'Ok' in names else names.index('Some')
    mk, cells = setup_args(ctx.P, inst, [Agg(0, (0,))])
    E = ctx.engine([hook])
    acc, rej = [], 0
    for o in ctx.run(E, inst, mk, log=log):
        if o.state.log[0] == 'bad':
            continue
        if o.value.v == ok:
            acc.append(o)
        else:
            rej += 1
    M = RR if kind == 'fr' else Q
    if not acc:
        ctx.fail(inst['name'], 'nothing decodes')
        return
    for o in acc:
        F = o.state.facts
        ws = words(o.value.v == ok and o.value.f[0])
        for i in range(0, len(ws), 4):
            V = add(ws[i], add(scale(ws[i + 1], 1 << 64), add(scale(ws[i + 2], 1 << 128), scale(ws[i + 3], 1 << 192))))
            if not in_range(F, V, 0, M - 1):
                ctx.fail(inst['name'], 'accepts coordinates that are not reduced' if rej else 'accepts every sequence of words')
                return
    if kind != 'fr':
        ctx.fail(inst['name'], 'membership in the group is not established by decoding')
