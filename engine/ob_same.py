"""The two serialization configurations: same computation, and never both at once."""
import json
import os
import re
import subprocess
from ob import *

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Canon:
    """bodies with the numbering of one dump replaced by names"""

    def __init__(self, P):
        self.P = P
        self.tc = {}

    def ty(self, t):
        if t is None:
            return None
        if t in self.tc:
            return self.tc[t]
        self.tc[t] = '?rec'
        T = self.P.types[t]
        k = T['k']
        g = lambda x: self.ty(x) if isinstance(x, int) else json.dumps(x, sort_keys=True)
        if k == 'adt':
            s = '%s<%s>' % (T['name'], ','.join(g(a) for a in T['args']))
        elif k == 'tuple':
            s = '(%s)' % ','.join(g(a) for a in T['fields'])
        elif k in ('array', 'slice', 'pat'):
            s = '%s[%s;%s]' % (k, g(T['elem']), T.get('len'))
        elif k in ('ref', 'ptr'):
            s = '%s%s %s' % (k, T.get('mut'), g(T['to']))
        elif k == 'fndef':
            s = 'fn %s' % (self.inst(T['inst']) if T.get('inst') is not None else T['name'])
        elif k == 'closure':
            s = 'closure %s %s' % (T['name'], g(T['upvars']))
        else:
            s = json.dumps(T, sort_keys=True)
        s = re.sub(r'DefId\([^)]*\)', '', s)
        self.tc[t] = s
        return s

    def layout(self, t):
        T = self.P.types[t]
        return json.dumps([[v['name'], v['discr'][0] if v['discr'] else None, [[f[0], self.ty(f[1])] for f in v['fields']]] for v in T['variants']])

    def inst(self, i):
        return self.P.insts[i]['name'] if isinstance(i, int) else json.dumps(i)

    def const(self, c):
        if isinstance(c, dict):
            o = {}
            for k, v in c.items():
                if k in ('ty', 'ety', 'rty'):
                    o[k] = self.ty(v)
                elif k == 'fnptr':
                    o[k] = self.inst(v)
                else:
                    o[k] = self.const(v)
            return o
        if isinstance(c, list):
            return [self.const(x) for x in c]
        return c

    def operand(self, o):
        if o[0] == 'const':
            return ['const', self.ty(o[1]), self.const(o[2])]
        if o[0] in ('copy', 'move'):
            return [o[0], self.place(o[1])]
        return o

    def place(self, p):
        return [p[0], [[e[0], e[1], self.ty(e[2])] if e[0] == 'f' else ['oc', self.ty(e[1])] if e[0] == 'oc' else e for e in p[1]]]

    def rvalue(self, r):
        k = r[0]
        if k in ('use',):
            return [k, self.operand(r[1])]
        if k == 'repeat':
            return [k, self.operand(r[1]), r[2]]
        if k in ('ref',):
            return [k, self.place(r[1]), r[2]]
        if k in ('bin', 'cbin'):
            return [k, r[1], self.operand(r[2]), self.operand(r[3]), self.ty(r[4])]
        if k == 'un':
            return [k, r[1], self.operand(r[2]), self.ty(r[3])]
        if k == 'cast':
            return [k, r[1], self.operand(r[2]), self.ty(r[3]), self.ty(r[4]), [self.inst(x) for x in r[5]] if isinstance(r[5], list) else self.inst(r[5])]
        if k == 'discr':
            return [k, self.place(r[1]), self.ty(r[2])]
        if k == 'len':
            return [k, self.place(r[1])]
        if k == 'agg':
            return [k, r[1], [self.operand(o) for o in r[2]], self.ty(r[3]), r[4]]
        return r

    def stmt(self, s):
        if s[0] == '=':
            return ['=', self.place(s[1]), self.rvalue(s[2])]
        if s[0] == 'sd':
            return ['sd', self.place(s[1]), s[2]]
        if s[0] == 'assume':
            return ['assume', self.operand(s[1])]
        if s[0] == 'cpy':
            return ['cpy'] + [self.operand(x) for x in s[1:4]]
        return s

    def term(self, t):
        k = t[0]
        if k == 'switch':
            return [k, self.operand(t[1]), t[2], t[3], self.ty(t[4]) if isinstance(t[4], int) else t[4]]
        if k == 'drop':
            return [k, self.place(t[1]), self.ty(t[2]), t[3]]
        if k == 'call':
            f = self.inst(t[1]) if isinstance(t[1], int) else self.operand(t[1]) if isinstance(t[1], list) and t[1] and t[1][0] in ('copy', 'move', 'const') else t[1]
            return [k, f, [self.operand(o) for o in t[2]], self.place(t[3]), t[4]]
        if k == 'assert':
            m = t[3]
            return [k, self.operand(t[1]), t[2], [self.operand(x) if isinstance(x, list) and x and x[0] in ('copy', 'move', 'const') else x for x in m] if isinstance(m, list) else m, t[4]]
        if k == 'unreachable':
            return [k]
        return t

    def body(self, B):
        return json.dumps([B['argc'], [self.ty(t) for t in B['locals']], [[[self.stmt(s) for s in b[0]], self.term(b[1])] for b in B['blocks']]])


def reached(P, roots):
    from ob_pure import _edges
    seen, work = {}, []
    for r in roots:
        i = P.roots[r]
        seen.setdefault(i, {r}).add(r)
        work.append(i)
    E = {}
    while work:
        a = work.pop()
        if a not in E:
            E[a] = [b for k, b, _ in _edges(P, P.insts[a]) if k == 'fn']
        for b in E[a]:
            s = seen.setdefault(b, set())
            if not seen[a] <= s:
                s |= seen[a]
                work.append(b)
    return seen


def plain(P):
    return sorted(r for r in P.roots if not r.startswith(('root_ser_', 'root_de_')))


def ob_same(ctx, other='serde'):
    """every function a public operation reaches has the same body in both configurations"""
    import check_progs
    A, B = check_progs.get(other), ctx.P
    ra, rb = plain(A), plain(B)
    for r in sorted(set(ra) ^ set(rb)):
        ctx.fail(r, 'public operation exists in one configuration only')
    common = [r for r in ra if r in set(rb)]
    ca, cb = Canon(A), Canon(B)
    sa, sb = reached(A, common), reached(B, common)

    def table(P, C, seen):
        t = {}
        for i in seen:
            I = P.insts[i]
            t.setdefault(I['name'], [set(), set(), I])
            t[I['name']][0].add(C.body(I['body']) if I['body'] else 'no body')
            t[I['name']][1].update(seen[i])
        return t
    ta, tb = table(A, ca, sa), table(B, cb, sb)
    for n in sorted(set(ta) | set(tb)):
        ctx.stats['facts'] += 1
        x, y = ta.get(n), tb.get(n)
        if x is None or y is None or x[0] != y[0]:
            if (x or y)[2]['crate'] in ('rabe_bn', 'roots') or (x and y):
                for r in sorted((x or y)[1] | (y[1] if y else set())):
                    ctx.fail(r, 'different code in the two configurations', n)
        else:
            ctx.stats['functions'].add(n)
            ctx.stats['steps'] += sum(len(b[0]) + 1 for b in x[2]['body']['blocks']) if x[2]['body'] else 0
    # the values have the same layout
    da = {T['name'] + ca.ty(t): ca.layout(t) for t, T in enumerate(A.types) if T['k'] == 'adt' and T['crate'] == 'rabe_bn'}
    db = {T['name'] + cb.ty(t): cb.layout(t) for t, T in enumerate(B.types) if T['k'] == 'adt' and T['crate'] == 'rabe_bn'}
    for n in sorted(set(da) & set(db)):
        ctx.stats['facts'] += 1
        if da[n] != db[n]:
            ctx.fail(n, 'different fields in the two configurations', da[n] + ' / ' + db[n])
    ctx.items.append('%d operations, %d functions compared' % (len(common), len(set(ta) & set(tb))))


def ob_exclusive(ctx):
    """the compiler rejects both features together, for a reason that lies in this crate"""
    r = subprocess.run(['bash', os.path.join(HERE, 'extract.sh'), 'both', '-', os.path.join(HERE, '.work', 'build')], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    out = r.stdout.decode(errors='replace')
    ctx.stats['facts'] += 1
    if r.returncode == 0:
        ctx.fail('Cargo features', 'both serialization features together are accepted')
    elif 'could not compile `rabe-bn`' not in out:
        ctx.fail('Cargo features', 'not decided by the analysis', out[-300:])
