"""Effects: what every public operation can reach.

The dump holds every monomorphic function reachable from the public operations (calls, drop glue,
reified function pointers, trait-object tables).  The rule is a whole-program effect scan over it."""
import re
from ob import *

# functions whose bodies are not followed; everything here computes from its arguments or diverges
OPAQUE_OK = re.compile('|'.join([
    r'^(core|std|alloc)::fmt::', r'^<.* as (std|core|alloc)::fmt::\w+>::fmt$', r'^(core|std)::fmt::num::',
    r'^(core|std)::panicking::', r'^std::rt::panic', r'^(std|core)::(option|result)::(unwrap|expect)_failed', r'^std::result::unwrap_failed',
    r'^core::slice::', r'^core::str::slice_error', r'^(std|alloc|core)::alloc::(__rust_\w+|Global|Layout|handle_alloc_error|alloc|dealloc|realloc|exchange_malloc)', r'^alloc::raw_vec::(handle_error|capacity_overflow)',
    r'^std::alloc::handle_alloc_error', r'^std::ptr::drop_', r'drop_glue', r'^(std|core)::io::(Error|ErrorKind|error)\b', r'^<(core|std)::io::error::', r'^<(std|core)::io::Error as ', r'^std::string::String::from_utf8',
]))
ROOT_OK = re.compile(r"^roots::(\w+::)*(opaque_|tok_)")
BAD_INTRINSIC = re.compile(r'^(atomic|volatile|unaligned_volatile|caller_location|black_box$|type_id|breakpoint|prefetch|va_|catch_unwind|nontemporal)')
BAD_TYPES = re.compile(r'(^|::)(UnsafeCell|Cell|RefCell|OnceCell|LazyCell|Atomic\w+|Mutex|RwLock|OnceLock|LazyLock|Once|Rc|Arc|LocalKey|NonNull|Instant|SystemTime|File|Stdin|Stdout|Stderr|ThreadId)$')
BAD_CRATES = {'libc', 'getrandom', 'rand_chacha', 'std_detect'}


def _edges(P, i):
    """(kind, target, line) of everything body i refers to"""
    B = i['body']
    out = []
    if not B:
        return out

    def const(c, ln):
        if isinstance(c, dict):
            if 'fnptr' in c:
                out.append(('fn', c['fnptr'], ln))
            if 'static' in c:
                out.append(('static', c, ln))
            for k in ('ref', 'arr', 'agg', 'union'):
                v = c.get(k)
                if isinstance(v, list):
                    for x in v:
                        const(x, ln)
                elif isinstance(v, dict):
                    const(v, ln)

    def operand(o, ln):
        if o[0] == 'const':
            T = P.types[o[1]]
            if T['k'] == 'fndef' and T.get('inst') is not None:
                out.append(('fn', T['inst'], ln))
            const(o[2], ln)
        elif o[0] in ('copy', 'move'):
            place(o[1], ln)

    def place(p, ln):
        t = B['locals'][p[0]]
        for e in p[1]:
            T = P.types[t] if t is not None else None
            if e[0] == '*':
                if T is not None and T['k'] == 'ptr':
                    out.append(('deref', p, ln))
                t = T.get('to') if T else None
            elif e[0] == 'f':
                t = e[2]
            elif e[0] in ('i', 'ci'):
                t = T.get('elem') if T else None
            elif e[0] == 'oc':
                t = e[1]

    def rvalue(r, ln):
        k = r[0]
        if k in ('use', 'repeat'):
            operand(r[1], ln)
        elif k == 'ref':
            place(r[1], ln)
        elif k in ('bin', 'cbin'):
            operand(r[2], ln)
            operand(r[3], ln)
            if r[4] is not None and P.types[r[4]]['k'] in ('ptr', 'fnptr'):
                out.append(('ptrcmp', r[1], ln))
        elif k == 'un':
            operand(r[2], ln)
        elif k == 'cast':
            operand(r[2], ln)
            if isinstance(r[5], int):
                out.append(('fn', r[5], ln))
            elif isinstance(r[5], list):
                for x in r[5]:
                    out.append(('fn', x, ln))
            if 'Expose' in r[1] or 'Transmute' in r[1]:
                a, b = P.types[r[4]], P.types[r[3]]
                if 'Expose' in r[1] or (holds_pointer(P, r[4]) and not holds_pointer(P, r[3])):
                    out.append(('address', r[1], ln))
        elif k == 'discr' or k == 'len':
            place(r[1], ln)
        elif k == 'agg':
            for o in r[2]:
                operand(o, ln)
        elif k == 'tls':
            out.append(('tls', r[1], ln))

    for blk in B['blocks']:
        for s in blk[0]:
            if s[0] == '=':
                place(s[1], s[3])
                rvalue(s[2], s[3])
        t = blk[1]
        if t[0] == 'call':
            ln = t[5]
            if t[1] is None or not isinstance(t[1], int):
                out.append(('indirect', t[1], ln))
            else:
                out.append(('fn', t[1], ln))
            for o in t[2]:
                operand(o, ln)
        elif t[0] == 'asm':
            out.append(('asm', None, 0))
        elif t[0] == 'drop':
            d = P.drops.get(t[2], P.drops.get(str(t[2])))
            if isinstance(d, int) and d >= 0:
                out.append(('fn', d, 0))
        elif t[0] not in ('goto', 'ret', 'sw', 'switch', 'assert', 'unreach', 'unreachable', 'resume', 'abort'):
            out.append(('other', t[0], 0))
    return out


def holds_pointer(P, t, depth=0):
    T = P.types[t]
    k = T['k']
    if k in ('ptr', 'ref', 'fnptr', 'dyn'):
        return True
    if k == 'array':
        return holds_pointer(P, T['elem'], depth + 1)
    if k == 'tuple':
        return any(holds_pointer(P, x, depth + 1) for x in T['fields'])
    if k == 'adt' and depth < 8:
        return any(holds_pointer(P, f[1], depth + 1) for v in T['variants'] for f in v['fields'])
    return False


def components(P, t, seen):
    if t in seen:
        return
    seen.add(t)
    T = P.types[t]
    k = T['k']
    yield t
    if k == 'adt' and T['crate'] in ('std', 'core', 'alloc'):
        for x in T['args']:
            if isinstance(x, int):
                yield from components(P, x, seen)
    elif k == 'adt':
        for v in T['variants']:
            for f in v['fields']:
                yield from components(P, f[1], seen)
    elif k == 'tuple':
        for x in T['fields']:
            yield from components(P, x, seen)
    elif k in ('array', 'slice'):
        yield from components(P, T['elem'], seen)
    elif k in ('ref', 'ptr'):
        yield from components(P, T['to'], seen)


def ob_scan(ctx):
    P = ctx.P
    mine = lambda i: i['crate'] == 'rabe_bn'
    edges = {i['id']: _edges(P, i) for i in P.live}
    # a path from a public operation to every function, for the reports
    parent = {}
    work = []
    for r in sorted(P.roots):
        parent.setdefault(P.roots[r], None)
        work.append(P.roots[r])
    while work:
        a = work.pop(0)
        for k, b, _ in edges[a]:
            if k == 'fn' and b not in parent:
                parent[b] = a
                work.append(b)

    def path(i):
        p = []
        while i is not None and len(p) < 12:
            p.append(P.insts[i]['name'])
            i = parent.get(i)
        return ' < '.join(p)

    def owner(i):
        """nearest function of the crate on the path from a public operation"""
        while i is not None and not mine(P.insts[i]):
            i = parent.get(i)
        return P.insts[i]['name'] if i is not None else '?'
    st = ctx.stats
    for i in P.live:
        st['functions'].add(i['name'])
        name, own = i['name'], owner(i['id'])
        if i['crate'] in BAD_CRATES:
            ctx.fail(own, 'code outside the analysed libraries is reachable: ' + i['crate'], path(i['id']))
        if i['kind'] == 'intrinsic':
            if BAD_INTRINSIC.match(i['intrinsic'] or ''):
                if not (i['intrinsic'] == 'caller_location' and not mine(P.insts[parent.get(i['id']) or 0])):
                    ctx.fail(own, 'operation with an effect: ' + i['intrinsic'], path(i['id']))
            continue
        if i['body'] is None and not i['kind'].startswith('virtual'):
            if not OPAQUE_OK.match(name) and not (i['crate'] == 'roots' and ROOT_OK.match(name)) and not (i['kind'] == 'shim' and 'drop' in name):
                ctx.fail(own, 'reaches a function whose effects are unknown: ' + re.sub(r'<.*', '', name), path(i['id']))
            continue
        if i['body'] is None:
            continue
        st['steps'] += sum(len(b[0]) + 1 for b in i['body']['blocks'])
        for k, b, ln in edges[i['id']]:
            st['facts'] += 1
            if k == 'static':
                if b.get('mut') or not b.get('freeze'):
                    ctx.fail(own, 'global mutable state: ' + b['static'], path(i['id']))
            elif k == 'tls':
                ctx.fail(own, 'thread-local state: ' + str(b), path(i['id']))
            elif k == 'asm':
                ctx.fail(own, 'inline assembly', path(i['id']))
            elif mine(i) and k == 'deref':
                ctx.fail(own, 'raw pointer access', path(i['id']))
            elif mine(i) and k == 'address':
                ctx.fail(own, 'address turned into a value', path(i['id']))
            elif mine(i) and k == 'ptrcmp':
                ctx.fail(own, 'addresses compared', path(i['id']))
            elif mine(i) and k == 'indirect':
                ctx.notes.append('indirect call in ' + name)
            elif mine(i) and k == 'other':
                ctx.fail(own, 'terminator not understood: ' + str(b), path(i['id']))
            elif mine(i) and k == 'fn':
                c = P.insts[b]
                if c['unsafe'] and c['crate'] in ('core', 'alloc', 'std') and '::fmt::' not in c['name'] and not re.search(r'::(get_unchecked(_mut)?|from_utf8_unchecked|unwrap_unchecked|unchecked_\w+|unreachable_unchecked|from_u32_unchecked|set_len)(::<.*>)?$', c['name']):
                    ctx.fail(own, 'unsafe library function: ' + re.sub(r'::<.*', '', c['name']), path(i['id']))
                elif re.search(r'(^|::)(ptr_eq|addr_eq|fn_addr_eq|assume_init\w*|zeroed|uninit\w*|transmute\w*|addr|expose_provenance|uninitialized)(::<.*>)?$', c['name']) or c['name'].startswith('std::ptr::eq'):
                    ctx.fail(own, 'depends on addresses or uninitialised memory: ' + re.sub(r'::<.*', '', c['name']), path(i['id']))
    # no value of the crate's types can change behind a shared reference
    seen = set()
    n = 0
    for t, T in enumerate(P.types):
        if T['k'] == 'adt' and T['crate'] == 'rabe_bn':
            n += 1
            for c in components(P, t, seen):
                C = P.types[c]
                if C['k'] == 'ptr' or C['k'] == 'adt' and BAD_TYPES.search(C['name']):
                    ctx.fail(T['name'], 'type with interior mutability or shared pointer: ' + C.get('name', 'raw pointer'))
    ctx.items.append('%d functions, %d edges, %d types of the crate' % (len(P.live), st['facts'], n))
