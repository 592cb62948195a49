"""Interned value-numbering terms.

Every abstract value is an interned node `N(kind, *args)`: structural equality is identity, so a
value number is the node itself.  Integer expressions are kept as polynomials over atoms, integer
comparisons as `ge0(p)` / `eq0(p)`; floating point expressions keep their operation tree.
"""
import re

# types that hand out what they hold for changing it
WRAP = re.compile(r'core::cell::(UnsafeCell|Cell|RefCell)$|core::sync::atomic::Atomic$|std::sync::(poison::)?(mutex::|rwlock::)?(Mutex|RwLock)$|std::sync::(once_lock::|lazy_lock::)?(OnceLock|LazyLock)$|core::cell::(once::|lazy::)?(OnceCell|LazyCell)$|std::sys::thread_local::.*Storage$')

_tab = {}


class Node(object):
    __slots__ = ('t', 'h', 'id', 'r')

    def __init__(self, t, i, r):
        self.t = t
        self.h = hash(t)
        self.id = i
        self.r = r          # contains a reference / box / rc (needs deep resolution)

    def __hash__(self):
        return self.h

    def __getitem__(self, i):
        return self.t[i]

    def __len__(self):
        return len(self.t)

    def __iter__(self):
        return iter(self.t)

    @property
    def k(self):
        return self.t[0]

    def __repr__(self):
        return show(self)


REFK = ('ref', 'box', 'rc', 'weak')


def N(*t):
    n = _tab.get(t)
    if n is None:
        r = t[0] in REFK
        if not r:
            for x in t:
                if type(x) is Node and x.r:
                    r = True
                    break
        n = Node(t, len(_tab), r)
        _tab[t] = n
    return n


def isn(x, *k):
    return type(x) is Node and x.t[0] in k


# ------------------------------------------------------------------ constants
def ci(v): return N('c', 'int', v)
def cf(v): return N('c', 'float', v)
def cb(v): return N('c', 'bool', bool(v))
def cs(v): return N('c', 'str', v)


TRUE, FALSE = cb(True), cb(False)
UNIT = N('agg', 'tuple', 0)
NONE = N('agg', 'core::option::Option', 0)


def some(x): return N('agg', 'core::option::Option', 1, x)
def ok(x): return N('agg', 'core::result::Result', 0, x)
def err(x): return N('agg', 'core::result::Result', 1, x)
def tup(*x): return N('agg', 'tuple', 0, *x)


# ------------------------------------------------------------------ integer polynomials
def pdict(v):
    if isn(v, 'c'):
        return {(): int(v[2])} if v[2] else {}
    if isn(v, 'poly'):
        return dict(v[1])
    return {(v,): 1}


def mkpoly(d):
    d = {m: c for m, c in d.items() if c}
    if not d:
        return ci(0)
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return ci(c)
        if len(m) == 1 and c == 1:
            return m[0]
    return N('poly', tuple(sorted(d.items(), key=lambda x: tuple(a.id for a in x[0]))))


def padd(a, b, k=1):
    d = dict(pdict(a))
    for m, c in pdict(b).items():
        d[m] = d.get(m, 0) + k * c
    return mkpoly(d)


def psub(a, b): return padd(a, b, -1)


def pmul(a, b):
    d = {}
    for m, c in pdict(a).items():
        for n, e in pdict(b).items():
            x = tuple(sorted(m + n, key=lambda q: q.id))
            d[x] = d.get(x, 0) + c * e
    return mkpoly(d)


def split_const(p):
    d = dict(pdict(p))
    c = d.pop((), 0)
    return mkpoly(d), c


def pneg(p): return mkpoly({m: -c for m, c in pdict(p).items()})


def ge0(p):
    if isn(p, 'c'):
        return cb(p[2] >= 0)
    return N('ge0', p)


def lt(a, b): return ge0(psub(psub(b, a), ci(1)))
def le(a, b): return ge0(psub(b, a))


def eq0(p):
    if isn(p, 'c'):
        return cb(p[2] == 0)
    d = pdict(p)
    # sign normal form: first (by id) non constant monomial positive
    ms = sorted((m for m in d if m), key=lambda m: tuple(a.id for a in m))
    if ms and d[ms[0]] < 0:
        p = pneg(p)
    return N('eq0', p)


def ieq(a, b): return eq0(psub(a, b))


def neg(c):
    if isn(c, 'c'):
        return cb(not c[2])
    if isn(c, 'not'):
        return c[1]
    if isn(c, 'ge0'):
        return ge0(psub(pneg(c[1]), ci(1)))
    return N('not', c)


def feq(a, b):
    if a.id > b.id:
        a, b = b, a
    if isn(a, 'c') and isn(b, 'c'):
        return cb(a[2] == b[2])
    return N('feq', a, b)


def show(n, d=0):
    if type(n) is not Node:
        if isinstance(n, tuple):
            return '(' + ','.join(show(x, d) for x in n) + ')'
        return str(n)
    if d > 14:
        return '...'
    k = n.t[0]
    s = lambda x: show(x, d + 1)
    if k == 'c':
        return repr(n[2])
    if k == 'sym':
        return n[1]
    if k == 'agg':
        return '%s#%s{%s}' % (n[1].split('::')[-1], n[2], ', '.join(s(x) for x in n.t[3:]))
    if k == 'fld':
        return '%s.%s%s' % (s(n[1]), '' if n[2] is None else '%s:' % n[2], n[3])
    if k == 'deref':
        return '*' + s(n[1])
    if k == 'poly':
        return '(' + ' + '.join('%s%s' % ('' if c == 1 and m else c, ''.join('*' + s(a) for a in m) if c != 1 else '*'.join(s(a) for a in m)) for m, c in n[1]) + ')'
    if k in ('fadd', 'fsub', 'fmul', 'fdiv'):
        return '(%s %s %s)' % (s(n[1]), {'fadd': '+.', 'fsub': '-.', 'fmul': '*.', 'fdiv': '/.'}[k], s(n[2]))
    if k == 'phi':
        return 'phi%s[%s%s]' % (n[1], s(n[2]), ''.join('.%s' % (show(x, d + 1),) for x in n[3]))
    if k == 'ref':
        return '&<%s%s>' % (s(n[1]), ''.join('.%s' % (show(p, d + 1),) for p in n[2]))
    if k == 'elem':
        return '%s[%s]' % (s(n[1]), s(n[2]))
    return '%s(%s)' % (k, ', '.join(s(x) for x in n.t[1:] if not (isinstance(x, str) and len(x) > 60)))


def walk(n, f, seen=None):
    """call f on every sub node (each once)"""
    if seen is None:
        seen = set()
    stack = [n]
    while stack:
        x = stack.pop()
        if type(x) is tuple:
            stack.extend(x)
            continue
        if type(x) is not Node or x in seen:
            continue
        seen.add(x)
        f(x)
        stack.extend(x.t)


def contains(n, pred):
    hit = []
    walk(n, lambda x: hit.append(x) if pred(x) else None)
    return hit


def subst(n, m, memo=None):
    """replace nodes by dict m (bottom-up rebuild, polynomials renormalised)"""
    if memo is None:
        memo = {}
    if type(n) is tuple:
        return tuple(subst(x, m, memo) for x in n)
    if type(n) is not Node:
        return n
    if n in m:
        return m[n]
    if n in memo:
        return memo[n]
    if n.t[0] == 'poly':
        r = ci(0)
        for mono, c in n[1]:
            p = ci(c)
            for a in mono:
                p = pmul(p, subst(a, m, memo))
            r = padd(r, p)
    else:
        t = tuple(subst(x, m, memo) for x in n.t)
        r = N(*t)
        if t[0] == 'ge0':
            r = ge0(t[1])
        elif t[0] == 'eq0':
            r = eq0(t[1])
    memo[n] = r
    return r
