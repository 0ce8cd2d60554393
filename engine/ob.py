"""obligations: helpers shared by all property checks"""
import re
import time
import sys
from limbs import *
from lemma import word_lemmas
from vecs import vec_hooks, vec_items
import limbs as LB
import poly as PL

sys.setrecursionlimit(60000)
Q = 0x30644e72e131a029b85045b68181585d97816a916871ca8d3c208c16d87cfd47
RR = 0x30644e72e131a029b85045b68181585d2833e84879b9709143e1f593f0000001
MODS = {'Fr': RR, 'Fq': Q}
R256 = 1 << 256


class Problem:
    __slots__ = ('ob', 'construct', 'rule', 'detail')

    def __init__(self, ob, construct, rule, detail):
        self.ob = ob
        self.construct = construct
        self.rule = rule
        self.detail = detail

    def key(self):
        return '%s | %s | %s' % (self.ob, self.construct, self.rule)


class Ctx:
    """one obligation in progress"""

    def __init__(self, prog, config, name):
        self.P = prog
        self.config = config
        self.name = name
        self.problems = []
        self.stats = {'steps': 0, 'branches': 0, 'joins': 0, 'paths': 0, 'functions': set(), 'models': set(), 'facts': 0}
        self.notes = []
        self.items = []

    def fail(self, construct, rule, detail=''):
        self.problems.append(Problem(self.name, construct, rule, str(detail)[:600]))

    def find(self, name):
        i = self.P.byname.get(name)
        if i is None:
            raise Missing(name)
        return i

    def impl(self, ty, trait, method):
        """the instance implementing trait::method for the rabe_bn type with this last path segment"""
        r = self.P.impl_of(ty, trait, method)
        if r is None:
            raise self.absent(ty, method, '<%s as %s>::%s' % (ty, trait, method))
        return r

    def absent(self, ty, method, what):
        """an internal function that no public operation reaches needs no contract; one that exists under another shape is an error"""
        for i in self.P.live:
            if i['crate'] == 'rabe_bn' and re.search(r'::%s(::<.*>)?$' % re.escape(method), i['name']) and re.search(r'\b%s\b' % re.escape(ty), i['name']):
                return Missing(what)
        return Absent(what)

    def method(self, ty, m):
        """inherent method of a rabe_bn type, or None"""
        for i in self.P.insts:
            if i['crate'] == 'rabe_bn' and i.get('body') is not None and re.search(r'(^|::)%s(::<[^:]*>)?::%s(::<.*>)?$' % (re.escape(ty), re.escape(m)), i['name']) and not i['name'].startswith('<'):
                return i
        return None

    def root(self, name):
        i = self.P.roots.get(name)
        if i is None:
            raise Missing(name)
        return self.P.insts[i]

    def entry(self, T, m):
        """the public operation of the scalar field, the internal one of the base field"""
        if T == 'Fr':
            return self.root('root_fr_' + m)
        i = self.method(T, m)
        if i is None:
            raise self.absent(T, m, T + '::' + m)
        return i

    def engine(self, hooks=(), **kw):
        E = Runner(self.P, list(hooks) + [word_lemmas, vec_hooks, std_hooks])
        for k, v in kw.items():
            setattr(E, k, v)
        return E

    def attempts(self, f, **kw):
        """f(options): first as it stands, with joins at merge points; where that loses too much, with the options given (default: paths kept apart)"""
        n = len(self.problems)
        err = None
        try:
            f()
        except Undecided as e:
            err = e
        if err is None and len(self.problems) == n:
            return
        bad = self.problems[n:]
        del self.problems[n:]
        try:
            f(**(kw or {'nomerge': True, 'budget': 400000}))
            if len(self.problems) == n:
                return
        except Undecided:
            pass
        self.problems[n:] = bad
        if err is not None:
            raise err

    def run(self, E, inst, mk, panics=True, facts=None, extra=None, log=()):
        """outcomes that return; panics and dead ends are reported unless panics is False"""
        try:
            outs = E.start(inst, mk, facts=facts, extra=extra, log=log)
        finally:
            s = self.stats
            s['steps'] += E.steps
            s['branches'] += E.branches
            s['joins'] += E.merges
            s['functions'] |= {self.P.insts[i]['name'] for i in E.visited}
            s['models'] |= E.hooked
        self.stats['paths'] += len(outs)
        rets = []
        for o in outs:
            if o.kind == 'ret':
                rets.append(o)
            elif o.kind == 'panic' and panics:
                self.fail(o.info[1], 'panic reachable', '%s via %s' % (o.info[0], ' > '.join('%s:%s' % (a.split('::')[-1], c) for a, b, c in o.info[2])))
            elif o.kind == 'unreachable':
                self.fail(o.info[1], 'unreachable_unchecked reached', o.info[0])
        if panics is False:
            return outs
        return rets


class Missing(Exception):
    pass


class Absent(Exception):
    pass


def short(n):
    return n




def setup_args(P, inst, vals):
    """callable that places vals as arguments of inst (references get a memory cell); returns (mk, cells)"""
    B = inst['body']
    cells = [None] * len(vals)

    def mk(st):
        out = []
        for i, v in enumerate(vals):
            t = P.types[B['locals'][i + 1]]
            if t['k'] == 'ref' and not isinstance(v, Ptr):
                k = st.alloc(v, t['to'])
                cells[i] = k
                to = P.types[P.strip(t['to'])]
                if to['k'] in ('slice', 'str'):
                    out.append(Ptr(k, (0,), len(v.f) if not isinstance(v.f, SymElems) else v.f.len))
                else:
                    out.append(Ptr(k, (), None))
            else:
                out.append(v)
        return out
    return mk, cells


# ---------------------------------------------------------------- checks on results
def in_range(F, V, lo, hi):
    V = F.reval(V, 10000, True)
    if isinstance(V, int):
        return lo <= V <= hi
    return F.upper(V, hi, True) <= hi and -F.upper(neg(V), -lo, True) >= lo


def _modzero(d, m):
    if isinstance(d, int):
        return d % m == 0
    return all(c % m == 0 for c in d.t.values())


def congruent(F, d, m):
    """d = 0 (mod m) for all values of the atoms, under the facts"""
    d = F.reval(d, 10000, True) if not isinstance(d, int) else d
    d = n3(d)
    if _modzero(d, m):
        return True
    for z in F.zero:
        z = n3(z)
        if isinstance(z, int):
            continue
        q = divide_mod(d, z, m)
        if q:
            return True
    return False


def divide_mod(d, z, m):
    """d is a multiple of z modulo m (single reduction)"""
    lz = max(z.t, key=lambda k: (len(k), k))
    c = z.t[lz]
    try:
        ci = pow(c, -1, m)
    except ValueError:
        return False
    for _ in range(50):
        d = mk({k: v % m for k, v in terms(d).items() if v % m})
        if isinstance(d, int):
            return d % m == 0
        ld = max(d.t, key=lambda k: (len(k), k))
        q = PL._mdiv(ld, lz)
        if q is None:
            return False
        d = sub(d, PL.mul(mk({q: d.t[ld] * ci % m}), z))
    return False
