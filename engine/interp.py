"""Path-partitioned value-numbering dataflow over MIR.

Nothing is executed: every function is analysed once over abstract values (terms.N), control-flow
paths are partitioned, loops are summarised by a fixpoint over the locations they change (phi
values with init/next), and calls are either inlined (repository and small std bodies), given a
hand written summary (models.py) or left as uninterpreted terms.
"""
import re
import time

from terms import *

CELLS = ('core::cell::RefCell', 'core::cell::Cell', 'core::cell::OnceCell')
CELLFN = re.compile(r'core::cell::')


class Budget(Exception):
    pass


class Facts(object):
    __slots__ = ('iv', 'var', 'at')

    def __init__(self, o=None):
        if o is None:
            self.iv, self.var, self.at = {}, {}, {}
        else:
            self.iv, self.var, self.at = dict(o.iv), dict(o.var), dict(o.at)

    # interval on a linear form q (constant free, sign normalised)
    @staticmethod
    def _norm(p):
        q, c = split_const(p)
        d = pdict(q)
        ms = sorted(d, key=lambda m: tuple(a.id for a in m))
        s = 1
        if d[ms[0]] < 0:
            q = pneg(q)
            s = -1
        return q, s, c

    def bounds(self, p):
        """(lo,hi) of p, None = unbounded"""
        if isn(p, 'c'):
            return p[2], p[2]
        q, s, c = self._norm(p)
        lo, hi = self.iv.get(q, (None, None))
        if s < 0:
            lo, hi = (None if hi is None else -hi), (None if lo is None else -lo)
        # fall back on per-monomial bounds
        d = pdict(q) if s > 0 else pdict(pneg(q))
        l2, h2 = 0, 0
        for m, k in d.items():
            a, b = self._mono(m)
            if k < 0:
                a, b = b, a
            l2 = None if (l2 is None or a is None) else l2 + k * a
            h2 = None if (h2 is None or b is None) else h2 + k * b
        if l2 is not None and (lo is None or l2 > lo):
            lo = l2
        if h2 is not None and (hi is None or h2 < hi):
            hi = h2
        return (None if lo is None else lo + c), (None if hi is None else hi + c)

    def _mono(self, m):
        lo, hi = 1, 1
        for a in m:
            x, y = self.iv.get(a, (None, None))
            if x is None and nonneg_atom(a):
                x = 0
            if x is None or x < 0:
                return None, None
            lo = lo * x
            hi = None if (hi is None or y is None) else hi * y
        return lo, hi

    def add_ge0(self, p):
        q, s, c = self._norm(p)
        lo, hi = self.iv.get(q, (None, None))
        if s > 0:      # q + c >= 0
            lo = -c if lo is None else max(lo, -c)
        else:          # -q + c >= 0
            hi = c if hi is None else min(hi, c)
        self.iv[q] = (lo, hi)
        return not (lo is not None and hi is not None and lo > hi)

    def ev(self, c):
        """truth value of condition c: True/False/None"""
        k = c.t[0]
        if k == 'c':
            return bool(c[2])
        if k == 'not':
            v = self.ev(c[1])
            return None if v is None else not v
        if k == 'ge0':
            lo, hi = self.bounds(c[1])
            if lo is not None and lo >= 0:
                return True
            if hi is not None and hi < 0:
                return False
            return None
        if k == 'eq0':
            lo, hi = self.bounds(c[1])
            if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                return False
            if lo == 0 and hi == 0:
                return True
            return self.at.get(c)
        if k == 'isvar':
            v = self.var.get(c[1])
            if v is None:
                return None
            if isinstance(v, frozenset):
                return False if c[2] in v else None
            return v == c[2]
        return self.at.get(c)

    def assume(self, c, val=True):
        """returns False when contradictory"""
        k = c.t[0]
        if k == 'not':
            return self.assume(c[1], not val)
        v = self.ev(c)
        if v is not None:
            return v == val
        if k == 'ge0':
            return self.add_ge0(c[1] if val else psub(pneg(c[1]), ci(1)))
        if k == 'eq0':
            if val:
                self.at[c] = True
                return self.add_ge0(c[1]) and self.add_ge0(pneg(c[1]))
            self.at[c] = False
            lo, hi = self.bounds(c[1])
            if lo == 0:
                return self.add_ge0(psub(c[1], ci(1)))
            if hi == 0:
                return self.add_ge0(psub(pneg(c[1]), ci(1)))
            return True
        if k == 'isvar':
            o = self.var.get(c[1])
            if val:
                self.var[c[1]] = c[2]
            else:
                self.var[c[1]] = (o or frozenset()) | {c[2]}
            return True
        self.at[c] = val
        return True


UNS = ('usize', 'u8', 'u16', 'u32', 'u64', 'u128')


def nonneg_atom(a):
    k = a.t[0]
    if k in ('len', 'strlen', 'maplen'):
        return True
    if k == 'sym':
        return a[2] in UNS
    if k == 'fld':
        return a[4] in UNS
    if k in ('deref',):
        return a[2] in UNS
    if k == 'phi':
        return len(a) > 4 and a[4] in UNS
    if k == 'udiv' or k == 'urem':
        return True
    return False


class St(object):
    __slots__ = ('mem', 'f', 'conds', 'ev')

    def __init__(self, o=None):
        if o is None:
            self.mem, self.f, self.conds, self.ev = {}, Facts(), (), ()
        else:
            self.mem, self.f, self.conds, self.ev = dict(o.mem), Facts(o.f), o.conds, o.ev

    def copy(self):
        return St(self)

    def event(self, *a):
        self.ev = self.ev + (a,)

    def assume(self, c, val=True):
        if isn(c, 'not'):
            return self.assume(c[1], not val)
        known = self.f.ev(c)
        if known is not None:
            return known == val
        if not self.f.assume(c, val):
            return False
        self.conds = self.conds + ((c, val),)
        return True


class Frame(object):
    __slots__ = ('body', 'id', 'info', 'loops', 'live')

    def __init__(self, body, fid, info):
        self.body, self.id = body, fid
        self.loops, self.live = info


# ---------------------------------------------------------------- per-body CFG facts
def successors(t, panics=False):
    k = t[0]
    if k == 'goto':
        return [t[1]]
    if k == 'switch':
        return [x[1] for x in t[2]] + [t[3]]
    if k == 'call':
        r = [] if t[4] is None else [t[4]]
        if panics and isinstance(t[5], int):
            r.append(t[5])
        return r
    if k == 'drop':
        r = [t[2]]
        if panics and isinstance(t[3], int):
            r.append(t[3])
        return r
    if k == 'assert':
        r = [t[5]]
        if panics and isinstance(t[6], int):
            r.append(t[6])
        return r
    return []


def body_info(body):
    """natural loops {header: set(blocks)} and locals live at loop headers"""
    if '_info' in body:
        return body['_info']
    bl = body['blocks']
    n = len(bl)
    succ = [successors(b['t']) for b in bl]
    pred = [[] for _ in range(n)]
    seen = set()
    order = []
    stack = [(0, iter(succ[0]))]
    seen.add(0)
    while stack:
        b, it = stack[-1]
        nx = next(it, None)
        if nx is None:
            order.append(b)
            stack.pop()
        elif nx not in seen:
            seen.add(nx)
            stack.append((nx, iter(succ[nx])))
    rpo = order[::-1]
    idx = {b: i for i, b in enumerate(rpo)}
    for b in rpo:
        for s in succ[b]:
            pred[s].append(b)
    dom = {0: 0}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            ps = [p for p in pred[b] if p in dom]
            if not ps:
                continue
            d = ps[0]
            for p in ps[1:]:
                x, y = p, d
                while x != y:
                    while idx[x] > idx[y]:
                        x = dom[x]
                    while idx[y] > idx[x]:
                        y = dom[y]
                d = x
            if dom.get(b) != d:
                dom[b] = d
                ch = True

    def dominates(a, b):
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = dom[b]
    loops = {}
    for b in rpo:
        for s in succ[b]:
            if dominates(s, b):
                L = loops.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x not in L:
                        L.add(x)
                        st.extend(p for p in pred[x])
    # liveness (locals whose address is taken are always live)
    borrowed = set()
    use = [set() for _ in range(n)]
    de = [set() for _ in range(n)]

    def place_uses(p, out):
        for e in p[1:]:
            if isinstance(e, list) and e[0] == 'ix':
                out.add(e[1])

    def op_uses(o, out):
        if o[0] in ('copy', 'move'):
            out.add(o[1][0])
            place_uses(o[1], out)
    for i in range(n):
        u, d = use[i], de[i]

        def addu(s):
            for x in s:
                if x not in d:
                    u.add(x)
        for s in bl[i]['s']:
            if s[0] == '=':
                tmp = set()
                rv = s[2]
                k = rv[0]
                if k in ('use', 'repeat'):
                    op_uses(rv[1], tmp)
                elif k == 'cast':
                    op_uses(rv[2], tmp)
                elif k == 'ref':
                    tmp.add(rv[2][0])
                    place_uses(rv[2], tmp)
                    if '*' not in rv[2][1:]:
                        borrowed.add(rv[2][0])
                elif k == 'bin':
                    op_uses(rv[2], tmp)
                    op_uses(rv[3], tmp)
                elif k == 'un':
                    op_uses(rv[2], tmp)
                elif k == 'discr':
                    tmp.add(rv[1][0])
                    place_uses(rv[1], tmp)
                elif k == 'agg':
                    for o in rv[2]:
                        op_uses(o, tmp)
                addu(tmp)
                if len(s[1]) == 1:
                    d.add(s[1][0])
                else:
                    t2 = {s[1][0]}
                    place_uses(s[1], t2)
                    addu(t2)
            elif s[0] == 'dead':
                d.add(s[1])
            elif s[0] == 'setd':
                addu({s[1][0]})
        t = bl[i]['t']
        tmp = set()
        if t[0] == 'switch':
            op_uses(t[1], tmp)
        elif t[0] == 'call':
            op_uses(t[1], tmp)
            for a in t[2]:
                op_uses(a, tmp)
            if len(t[3]) > 1:
                tmp.add(t[3][0])
                place_uses(t[3], tmp)
        elif t[0] == 'assert':
            op_uses(t[1], tmp)
            if t[3][0] == 'bounds':
                for o in t[3][1:]:
                    if isinstance(o, list):
                        op_uses(o, tmp)
        elif t[0] == 'drop':
            tmp.add(t[1][0])
        elif t[0] == 'return':
            tmp.add(0)
        addu(tmp)
        if t[0] == 'call' and len(t[3]) == 1:
            d.add(t[3][0])
    allsucc = [successors(b['t'], True) for b in bl]
    live = [set() for _ in range(n)]
    ch = True
    while ch:
        ch = False
        for i in range(n - 1, -1, -1):
            o = set()
            for s in allsucc[i]:
                o |= live[s]
            x = use[i] | (o - de[i])
            if x != live[i]:
                live[i] = x
                ch = True
    for i in range(n):
        live[i] = live[i] | borrowed
    body['_info'] = (loops, live)
    return body['_info']


def sym_value(n):
    """kinds of values that carry a type at index -1"""
    return n


class Engine(object):
    def __init__(self, db, opaque=None, inline=None, panics=False, trace=None, max_paths=20000, max_steps=400000,
                 max_depth=40, unroll=40, store_events=False, may_panic=None, deadline=None, snap=None):
        self.statics = {}
        self.db = db
        self.opaque = opaque or (lambda key, path: False)
        self.inline = inline
        self.panics = panics
        self.trace = trace or (lambda key, path: False)
        self.max_steps, self.max_paths, self.max_depth, self.unroll = max_steps, max_paths, max_depth, unroll
        self.may_panic = may_panic
        self.deadline = deadline
        self.store_events = store_events
        self.snap = snap       # opaque calls whose result depends on memory: they get a snapshot of it
        self.steps = 0
        self.fid = 0
        self.hid = 0
        self.lid = 0
        self.uid = 0
        self.loops = {}
        self.fninfo = {}
        self.lty = {}          # ('L',fid,i) -> ty
        self.pty = {}          # location -> ty of pointee, when known
        self.stack = []
        self.notes = []
        self.analysed = set()
        self.lits = set()      # literals of the analysed code
        import models
        self.models = models

    # ------------------------------------------------------------ allocation
    def new_h(self, st, v, ty=None):
        self.hid += 1
        loc = N('H', self.hid)
        st.mem[loc] = v
        if ty:
            self.pty[loc] = ty
        return loc

    def fresh(self, tag, ty=None):
        self.uid += 1
        return N('sym', '%s#%d' % (tag, self.uid), ty)

    def kref(self, v):
        return N('ref', N('K', v), ())

    # ------------------------------------------------------------ memory
    def loc_ty(self, loc):
        if loc in self.lty:
            return self.lty[loc]
        return self.pty.get(loc)

    def load(self, st, loc, proj=()):
        v = st.mem.get(loc)
        if v is None:
            v = self.initial(loc)
        for p in proj:
            v = self.project(v, p, st)
        return v

    def initial(self, loc):
        if loc[0] == 'K':
            return loc[1]
        if loc[0] == 'P':
            return N('deref', loc[1], self.pty.get(loc))
        return N('uninit')

    def val_ty(self, v):
        k = v.t[0]
        if k == 'sym' or k == 'deref':
            return v[2]
        if k == 'fld':
            return v[4]
        if k in ('elem', 'mapget'):
            return v[3]
        if k == 'phi':
            return v[4]
        if k == 'mut':
            return v[3]
        if k == 'call':
            return v[3]
        return None

    def project(self, v, p, st=None):
        k = p[0]
        if k == 'f':
            vi, i = p[1], p[2]
            vk = v.t[0]
            if vk == 'agg':
                if 3 + i < len(v):
                    return v[3 + i]
                return N('fld', v, vi, i, None)
            if vk == 'clo':
                return v[2 + i] if 2 + i < len(v) else N('fld', v, vi, i, None)
            if vk == 'box':
                return N('bptr', v)
            if vk == 'bptr':
                return v
            if vk == 'setf':
                if v[2] == vi and v[3] == i:
                    return v[4]
                return self.project(v[1], p, st)
            if vk == 'uninit':
                return v
            if vk == 'mu':      # MaybeUninit-like wrapper: transparent
                return v
            if vk == 'seq' and vi is None:      # array in MaybeUninit/ManuallyDrop wrappers
                return v
            t = self.val_ty(v)
            return N('fld', v, vi, i, self.db.field_ty(t, vi, i) if t else None)
        if k == 'ix':
            return self.seq_get(v, p[1], st)
        if k == 'key':
            return self.map_get(v, p[1])
        if k == 'sub':
            return N('slice', v, p[1], p[2])
        if k == 'mx':
            return N('melem', v, p[1], p[2])
        if k == 'a':
            return v.t[p[1]]
        return N('proj', v, p)

    def ety(self, v):
        t = self.val_ty(v)
        return self.db.elem_ty(t) if t else None

    def seq_get(self, s, i, st=None):
        k = s.t[0]
        if k == 'seq':
            if isn(i, 'c') and 0 <= i[2] < len(s) - 1:
                return s[1 + i[2]]
        elif k == 'rep':
            return s[1]
        elif k == 'push':
            d = psub(i, self.seq_len(s[1]))
            if isn(d, 'c'):
                if d[2] == 0:
                    return s[2]
                if d[2] < 0:
                    return self.seq_get(s[1], i, st)
            elif st is not None:
                lo, hi = st.f.bounds(d)
                if hi is not None and hi < 0:
                    return self.seq_get(s[1], i, st)
        elif k == 'set':
            d = psub(i, s[2])
            if isn(d, 'c'):
                if d[2] == 0:
                    return s[3]
                return self.seq_get(s[1], i, st)
        elif k == 'slice':
            return self.seq_get(s[1], padd(s[2], i), st)
        elif k == 'append' and isn(i, 'c'):
            n = self.seq_len(s[1])
            if isn(n, 'c'):
                return self.seq_get(s[1], i, st) if i[2] < n[2] else self.seq_get(s[2], psub(i, n), st)
        elif k == 'sinit':
            return self.seq_get(s[1], i, st)
        return N('elem', s, i, self.ety(s))

    def seq_len(self, s):
        k = s.t[0]
        if k == 'seq':
            return ci(len(s) - 1)
        if k == 'ecap':
            return ci(0)
        if k == 'rep':
            return s[2]
        if k == 'push':
            return padd(self.seq_len(s[1]), ci(1))
        if k == 'set':
            return self.seq_len(s[1])
        if k == 'append':
            return padd(self.seq_len(s[1]), self.seq_len(s[2]))
        if k == 'slice':
            return psub(s[3], s[2]) if s[3] is not None else psub(self.seq_len(s[1]), s[2])
        if k == 'arrange' and s[2] != 'dedup':
            return self.seq_len(s[1])
        if k == 'sinit':
            return psub(self.seq_len(s[1]), ci(1))
        if k == 'c' and s[1] == 'str':
            return ci(len(s[2].encode()))
        return N('len', s)

    def map_base(self, m, k):
        """resolve key k in map term m -> ('hit',v) | ('miss',) | ('open', remaining)"""
        while True:
            kk = m.t[0]
            if kk in ('mapins', 'mapset'):
                if m[2] is k:
                    return ('hit', m[3])
                if isn(m[2], 'c') and isn(k, 'c') and m[2] is not k:
                    m = m[1]
                    continue
                return ('open', m)
            if kk == 'maprem':
                if m[2] is k:
                    return ('miss',)
                if isn(m[2], 'c') and isn(k, 'c'):
                    m = m[1]
                    continue
                return ('open', m)
            if kk == 'mapnew':
                return ('miss',)
            return ('open', m)

    def map_get(self, m, k):
        r = self.map_base(m, k)
        if r[0] == 'hit':
            return r[1]
        if r[0] == 'open':
            m = r[1]
        t = self.val_ty(m)
        ty = None
        if t:
            d = self.db.ty(t)
            if d.get('k') == 'adt' and len(d.get('args', [])) >= 2:
                ty = d['args'][1]
        return N('mapget', m, k, ty)

    def map_has(self, m, k):
        r = self.map_base(m, k)
        if r[0] == 'hit':
            return TRUE
        if r[0] == 'miss':
            return FALSE
        return N('has', r[1], k)

    def expand(self, v, vi, ty=None):
        """symbolic struct -> agg of its fields (when its type is known)"""
        t = ty or self.val_ty(v)
        if not t:
            return None
        d = self.db.ty(t)
        if d.get('k') == 'tuple':
            return N('agg', 'tuple', 0, *[self.project(v, ('f', None, i)) for i in range(len(d['of']))])
        if d.get('k') == 'adt' and d.get('ftys'):
            a = self.db.adts.get(d['adt'])
            if a and a['kind'] == 'enum' and vi is None:
                return None
            n = self.db.nfields(t, vi or 0)
            if n is None:
                return None
            return N('agg', d['adt'], vi or 0, *[self.project(v, ('f', vi, i)) for i in range(n)])
        return None

    def update(self, v, proj, nv, st, ty=None):
        if not proj:
            return nv
        p = proj[0]
        rest = proj[1:]
        k = p[0]
        if k == 'f':
            if v.t[0] == 'agg' and 3 + p[2] < len(v):
                t = list(v.t)
                t[3 + p[2]] = self.update(t[3 + p[2]], rest, nv, st)
                return N(*t)
            if v.t[0] == 'clo' and 2 + p[2] < len(v):
                t = list(v.t)
                t[2 + p[2]] = self.update(t[2 + p[2]], rest, nv, st)
                return N(*t)
            if v.t[0] in ('uninit', 'seq', 'mu') and p[1] is None:
                d = self.db.ty(ty) if ty else {}
                if v.t[0] == 'uninit' and (d.get('k') == 'tuple' or (d.get('k') == 'adt' and d.get('ftys'))):
                    e = self.expand_uninit(ty, None)
                    if e is not None:
                        return self.update(e, proj, nv, st)
                return self.update(v, rest, nv, st)   # transparent wrapper (MaybeUninit, ManuallyDrop)
            if v.t[0] == 'uninit' and p[1] is not None:
                e = self.expand_uninit(ty, p[1])
                if e is not None:
                    return self.update(e, proj, nv, st)
            e = self.expand(v, p[1], ty)
            if e is not None and 3 + p[2] < len(e):
                return self.update(e, proj, nv, st)
            return N('setf', v, p[1], p[2], self.update(self.project(v, p, st), rest, nv, st))
        if k == 'ix':
            x = self.update(self.seq_get(v, p[1], st), rest, nv, st) if rest else nv
            return self.seq_set(v, p[1], x)
        if k == 'key':
            x = self.update(self.map_get(v, p[1]), rest, nv, st) if rest else nv
            return self.map_set(v, p[1], x)
        if k == 'a':
            t = list(v.t)
            t[p[1]] = self.update(t[p[1]], rest, nv, st)
            return N(*t)
        if k == 'mx':
            return N('mset', v, p[1], p[2], nv)
        if k == 'sub':
            if rest and rest[0][0] == 'ix':
                return self.update(v, (('ix', padd(p[1], rest[0][1])),) + tuple(rest[1:]), nv, st)
            return N('setsub', v, p[1], p[2], nv)
        return N('upd', v, p, nv)

    def expand_uninit(self, ty, vi):
        d = self.db.ty(ty) if ty else {}
        if d.get('k') == 'tuple':
            return N('agg', 'tuple', 0, *([N('uninit')] * len(d['of'])))
        if d.get('k') == 'adt' and d.get('ftys'):
            n = self.db.nfields(ty, vi or 0)
            return N('agg', d['adt'], vi or 0, *([N('uninit')] * n))
        return None

    def seq_set(self, s, i, x):
        if s.t[0] == 'seq' and isn(i, 'c') and 0 <= i[2] < len(s) - 1:
            t = list(s.t)
            t[1 + i[2]] = x
            return N(*t)
        if s.t[0] == 'set' and s[2] is i:
            return N('set', s[1], i, x)
        if isn(x, 'elem') and x[1] is s and x[2] is i:
            return s
        return N('set', s, i, x)

    def map_set(self, m, k, x):
        if isn(m, 'mapset', 'mapins') and m[2] is k:
            return N(m.t[0], m[1], k, x)
        return N('mapset', m, k, x)

    def store(self, st, loc, proj, v):
        if loc[0] == 'K':
            self.notes.append('store to constant')
            return
        if self.store_events and loc[0] in ('P', 'H'):
            st.event('store', loc, tuple(proj), v)
        if not proj:
            st.mem[loc] = v
        else:
            o = st.mem.get(loc)
            if o is None:
                o = self.initial(loc)
            st.mem[loc] = self.update(o, tuple(proj), v, st, self.loc_ty(loc))

    # ------------------------------------------------------------ pointers
    def target(self, v, ty=None):
        """pointer value -> (loc, proj)"""
        k = v.t[0]
        if k == 'ref':
            return v[1], v[2]
        if k == 'bptr':
            return self.target(v[1])
        if k == 'box' or k == 'rc':
            return v[1], ()
        if k == 'weak':
            return v[1], ()
        loc = N('P', v)
        if loc not in self.pty:
            t = ty
            if not t:
                vt = self.val_ty(v)
                if vt:
                    t = self.db.deref_ty(vt)
            if t:
                self.pty[loc] = t
        return loc, ()

    def deref(self, st, v, ty=None):
        loc, proj = self.target(v, ty)
        return self.load(st, loc, proj)

    def resolve(self, fr, place, st):
        loc = N('L', fr.id, place[0])
        proj = ()
        vi = None
        for n, e in enumerate(place[1:]):
            if e == '*':
                v = self.load(st, loc, proj)
                pt = self.db.place_ty(fr.body, place[:n + 1])
                loc, proj = self.target(v, self.db.deref_ty(pt) if pt else None)
                vi = None
            elif isinstance(e, int):
                proj = proj + (('f', vi, e),)
                vi = None
            elif e[0] == 'as':
                vi = e[1]
            elif e[0] == 'ix':
                proj = proj + (('ix', self.load(st, N('L', fr.id, e[1]))),)
            elif e[0] == 'cix':
                if e[2]:
                    proj = proj + (('ix', psub(self.seq_len(self.load(st, loc, proj)), ci(e[1]))),)
                else:
                    proj = proj + (('ix', ci(e[1])),)
            elif e[0] == 'sub':
                ln = self.seq_len(self.load(st, loc, proj))
                to = psub(ln, ci(e[2])) if e[3] else ci(e[2])
                proj = proj + (('sub', ci(e[1]), to),)
        return loc, proj

    def read(self, fr, place, st):
        loc, proj = self.resolve(fr, place, st)
        v = self.load(st, loc, proj)
        if v.t[0] == 'uninit' and not proj and loc[0] == 'L':
            t = self.lty.get(loc)
            d = self.db.ty(t) if t else {}
            if d.get('k') == 'tuple' and not d['of']:
                return UNIT
            if d.get('k') in ('closure', 'adt', 'fndef'):   # zero sized values are never assigned
                return N('zst', t)
        return v

    # ------------------------------------------------------------ constants / operands
    def const(self, c):
        if 'fn' in c:
            key = c['fn'] or c['path']
            if key not in self.fninfo:
                self.fninfo[key] = c
            return N('fn', key)
        return self.cval(c.get('c'), c.get('ty'), c.get('name'))

    def cval(self, v, ty, name=None):
        if v is None:
            t = self.db.ty(ty) if ty else {}
            if t.get('k') == 'tuple' and not t['of']:
                return UNIT
            if t.get('k') == 'closure':
                return N('clo', t['def'])
            return N('sym', 'const:' + (name or str(ty)), ty)
        if 'int' in v:
            if ty and ty != 'u8':       # not the bytes of format strings
                self.lits.add(int(v['int']))
            return ci(int(v['int']))
        if 'float' in v:
            self.lits.add(float(v['float']))
            return cf(float(v['float']))
        if 'bool' in v:
            return cb(v['bool'])
        if 'char' in v:
            return N('c', 'char', v['char'])
        if 'str' in v:
            self.lits.add(v['str'])
            return cs(v['str'])
        if 'static' in v:
            return N('ref', self.static(v['static'], v.get('sty'), lambda: self.content(v.get('init'), v.get('sty'))), ())
        if 'ref' in v:
            if 'int' in v['ref']:
                self.lits.add(int(v['ref']['int']))
            return self.kref(self.cval(v['ref'], None))
        if 'arr' in v:
            return N('seq', *[self.cval(x, None) for x in v['arr']])
        if 'tuple' in v:
            return tup(*[self.cval(x, None) for x in v['tuple']])
        if 'adt' in v:
            return N('agg', v['adt'], v.get('v', 0), *[self.cval(x, None) for x in v.get('f', [])])
        if 'fn' in v:
            return self.const(v)
        return N('sym', 'const:' + str(sorted(v)) + str(ty), ty)

    # ------------------------------------------------------------ statics
    def static(self, name, ty, init):
        """location of the contents of a static that can change: symbolic before the first run, see evalx.STATICS"""
        loc = N('P', N('sym', 'static:' + name, None))
        if name not in self.statics:
            self.pty[loc] = self.shared_ty(ty)
            self.statics[name] = [loc, None]
            try:
                self.statics[name][1] = init()
            except Exception as ex:
                if isinstance(ex, (Budget, MemoryError)):
                    raise
        return loc

    def shared_ty(self, ty):
        """type of the contents of a cell, lock or atomic"""
        for _ in range(6):
            d = self.db.ty(ty) if ty else {}
            if d.get('k') == 'adt' and WRAP.match(d['adt']) and d['args']:
                if d['adt'].endswith(('OnceLock', 'OnceCell')):
                    return None
                ty = d['args'][0]
            else:
                break
        return ty

    def content(self, v, ty=None):
        """initial contents of a static: locks and cells are transparent, lazy ones are forced"""
        if v is None:
            return None
        if 'adt' in v:
            a = v['adt']
            if a.endswith(('::OnceLock', '::OnceCell')):
                return NONE
            # a constant owns no memory: these are empty
            if a in ('alloc::string::String', 'alloc::ffi::c_str::CString'):
                return cs('')
            if a in ('alloc::vec::Vec', 'alloc::collections::vec_deque::VecDeque'):
                return N('seq')
            if a.endswith(('::HashMap', '::HashSet', '::BTreeMap', '::BTreeSet')):
                return N('mapnew')
            if 'lazy_lock::LazyLock' in a or 'cell::lazy::LazyCell' in a:
                f = [x for x in v['f'] if x] and self.find_fn(v)
                return self.pure_call(f, [])
            if WRAP.match(a) or a.startswith('core::sync::atomic::private::Align'):
                fs = [x for x in v['f']]
                return self.content(fs[0 if 'thread_local' in a else -1])
            xs = [self.content(x) for x in v.get('f', [])]
            if any(x is None for x in xs):
                return None
            return N('agg', a, v.get('v', 0), *xs)
        if 'arr' in v or 'tuple' in v:
            xs = [self.content(x) for x in v.get('arr', v.get('tuple'))]
            if any(x is None for x in xs):
                return None
            return N('seq', *xs) if 'arr' in v else tup(*xs)
        return self.cval(v, None)

    def find_fn(self, v):
        if isinstance(v, dict):
            if v.get('fn'):
                return v
            for x in v.values():
                r = self.find_fn(x)
                if r:
                    return r
        elif isinstance(v, list):
            for x in v:
                r = self.find_fn(x)
                if r:
                    return r
        return None

    def pure_call(self, f, args):
        """value of a function without arguments that has one way through it"""
        if f is None:
            return None
        body = f if 'blocks' in f else self.db.bodies.get(f['fn']) or next((b for k, b in self.db.bodies.items() if b['path'] == re.sub(r'^\{closure_once\}|<.*$', '', f['fn'])), None)
        if body is None:
            return None
        if not body['argc'] and not body['closure'] and self.opaque(body.get('key') or body['path'], body['path']):
            return N('call', body['path'], (), body['locals'][0], ())
        st = St()
        while len(args) < body['argc']:
            args = args + [UNIT]
        outs = [o for o in self.exec_body(body, args, st) if o[0] == 'ret']
        if len(outs) != 1:
            return None
        return self.deep(outs[0][1], outs[0][2])

    def local_key(self, v, st):
        """location of the contents of a thread local, given the LocalKey"""
        for _ in range(4):
            if v.t[0] in ('ref', 'bptr'):
                v = self.deref(st, v)
        if not isn(v, 'agg') or not v[1].endswith('LocalKey') or v[3].t[0] != 'fn':
            return None
        m = re.match(r'(?:\{closure_once\})?(.*?)::\{constant#\d+\}', v[3][1])
        if not m:
            return None
        name = m.group(1)

        def init():
            b = [x for x in self.db.bodies.values() if x['path'].startswith(name + '::')]
            for x in b:
                if x['path'] == name + '::__rust_std_internal_init_fn':
                    return self.pure_call(x, [])
            for x in b:
                for bl in x['blocks']:
                    for q in bl['s']:
                        if q[0] == '=' and q[2][0] == 'use' and q[2][1][0] == 'const' and isinstance(q[2][1][1].get('c'), dict) and 'static' in q[2][1][1]['c']:
                            i = q[2][1][1]['c'].get('init')
                            return self.content(i)
            return None
        return self.static(name, None, init)

    def operand(self, fr, o, st):
        if o[0] == 'const':
            v = self.const(o[1])
            if isn(v, 'c') and v[1] == 'str':
                ty = o[1].get('ty') or ''
                if ty.startswith('&'):
                    return self.kref(v)
            return v
        return self.read(fr, o[1], st)

    def op_ty(self, fr, o):
        if o[0] == 'const':
            return o[1].get('ty')
        return self.db.place_ty(fr.body, o[1])

    # ------------------------------------------------------------ arithmetic
    def tykind(self, ty):
        return self.db.ty(ty).get('k') if ty else None

    def binop(self, op, a, b, ty, st):
        k = self.tykind(ty)
        if op.endswith('WithOverflow'):
            r = self.binop(op[:-12], a, b, ty, st)
            return tup(r, N('ovf', op, a, b) if not (isn(a, 'c') and isn(b, 'c') and not (k == 'uint' and isn(r, 'c') and r[2] < 0)) else (TRUE if k == 'uint' and r[2] < 0 else FALSE))
        op = op.replace('Unchecked', '')
        if k == 'float':
            return self.fop(op, a, b)
        if k in ('bool',):
            if op in ('Eq', 'Ne'):
                if isn(a, 'c') and isn(b, 'c'):
                    return cb((a[2] == b[2]) == (op == 'Eq'))
                if isn(b, 'c'):
                    a, b = b, a
                if isn(a, 'c'):
                    r = b if a[2] else neg(b)
                else:
                    r = N('iff', *sorted((a, b), key=lambda x: x.id))
                return r if op == 'Eq' else neg(r)
            if op in ('BitAnd', 'BitOr'):
                for x, y in ((a, b), (b, a)):
                    if isn(x, 'c'):
                        if op == 'BitAnd':
                            return y if x[2] else FALSE
                        return TRUE if x[2] else y
                return N('and' if op == 'BitAnd' else 'or', *sorted((a, b), key=lambda x: x.id))
            if op == 'BitXor':
                return neg(N('iff', *sorted((a, b), key=lambda x: x.id)))
            return N('bop', op, a, b)
        if k == 'char' or (isn(a, 'c') and a[1] == 'char') or (isn(b, 'c') and b[1] == 'char'):
            if isn(a, 'c') and isn(b, 'c'):
                return cb({'Eq': a[2] == b[2], 'Ne': a[2] != b[2], 'Lt': a[2] < b[2], 'Le': a[2] <= b[2], 'Gt': a[2] > b[2], 'Ge': a[2] >= b[2]}[op])
            if op in ('Eq', 'Ne'):
                r = N('eqv', *sorted((a, b), key=lambda x: x.id))
                return r if op == 'Eq' else neg(r)
            return N('bop', op, a, b)
        if k in ('ptr', 'ref', 'fnptr') or op == 'Offset':
            if op in ('Eq', 'Ne'):
                r = N('eqv', *sorted((a, b), key=lambda x: x.id)) if a is not b else TRUE
                return r if op == 'Eq' else neg(r)
            return N('bop', op, a, b)
        # integers
        if op == 'Add':
            return padd(a, b)
        if op == 'Sub':
            return psub(a, b)
        if op == 'Mul':
            return pmul(a, b)
        if op in ('Eq', 'Ne') and (isn(a, 'discr') and isn(b, 'c') or isn(b, 'discr') and isn(a, 'c')):
            d, x = (a, b[2]) if isn(a, 'discr') else (b, a[2])
            td = self.db.ty(d[2]) if d[2] else {}
            ad = self.db.adts.get(td.get('adt'))
            if ad and ad['kind'] == 'enum':
                vi = [i for i in range(len(ad['variants'])) if self.discr_of(d[2], i) == int(x)]
                r = N('isvar', d[1], vi[0]) if vi else FALSE
                return r if op == 'Eq' else neg(r)
        if k == 'uint' and op in ('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne'):
            for x in (a, b):
                if not isn(x, 'c'):
                    st.f.add_ge0(x)
        if op == 'Lt':
            return lt(a, b)
        if op == 'Le':
            return le(a, b)
        if op == 'Gt':
            return lt(b, a)
        if op == 'Ge':
            return le(b, a)
        if op == 'Eq':
            return ieq(a, b)
        if op == 'Ne':
            return neg(ieq(a, b))
        if isn(a, 'c') and isn(b, 'c'):
            x, y = a[2], b[2]
            try:
                if op == 'Div':
                    return ci(int(x / y) if abs(x) < 2 ** 50 else x // y)
                if op == 'Rem':
                    return ci(x - y * int(x / y))
                if op == 'BitAnd':
                    return ci(x & y)
                if op == 'BitOr':
                    return ci(x | y)
                if op == 'BitXor':
                    return ci(x ^ y)
                if op == 'Shl':
                    return ci(x << y)
                if op == 'Shr':
                    return ci(x >> y)
            except Exception:
                pass
        if k == 'uint' and op == 'Div':
            return N('udiv', a, b)
        if k == 'uint' and op == 'Rem':
            return N('urem', a, b)
        if op in ('BitAnd', 'BitOr', 'BitXor', 'Shl', 'Shr', 'Div', 'Rem') and k in ('uint', 'int'):
            return N('ibop', op, self.db.ty(ty).get('n') or ty, a, b)
        return N('bop', op, a, b)

    def fop(self, op, a, b):
        if op in ('Add', 'Sub', 'Mul', 'Div', 'Rem'):
            if isn(a, 'c') and isn(b, 'c') and op != 'Rem':
                try:
                    x, y = a[2], b[2]
                    return cf({'Add': lambda: x + y, 'Sub': lambda: x - y, 'Mul': lambda: x * y, 'Div': lambda: x / y}[op]())
                except ZeroDivisionError:
                    pass
            return N('f' + op.lower(), a, b)
        if isn(a, 'c') and isn(b, 'c'):
            x, y = a[2], b[2]
            return cb({'Lt': x < y, 'Le': x <= y, 'Gt': x > y, 'Ge': x >= y, 'Eq': x == y, 'Ne': x != y}[op])
        if op == 'Lt':
            return N('flt', a, b)
        if op == 'Le':
            return N('fle', a, b)
        if op == 'Gt':
            return N('flt', b, a)
        if op == 'Ge':
            return N('fle', b, a)
        if op == 'Eq':
            return feq(a, b)
        if op == 'Ne':
            return neg(feq(a, b))
        return N('bop', op, a, b)

    def variant_of(self, v, st):
        """known variant index or None"""
        if v.t[0] == 'agg':
            return v[2]
        x = st.f.var.get(v)
        return x if isinstance(x, int) else None

    def discr_of(self, ty, vi):
        t = self.db.ty(ty) if ty else {}
        a = self.db.adts.get(t.get('adt')) if t else None
        if a and a['kind'] == 'enum' and vi < len(a['variants']):
            d = a['variants'][vi].get('discr')
            if d is not None:
                return int(d)
        return vi

    def rvalue(self, fr, rv, st, dty):
        k = rv[0]
        if k == 'use':
            return self.operand(fr, rv[1], st)
        if k == 'ref':
            loc, proj = self.resolve(fr, rv[2], st)
            if not proj and loc[0] == 'P':
                return loc[1]           # &*p == p
            return N('ref', loc, proj)
        if k == 'bin':
            a = self.operand(fr, rv[2], st)
            b = self.operand(fr, rv[3], st)
            t = self.op_ty(fr, rv[2]) or self.op_ty(fr, rv[3])
            return self.binop(rv[1], a, b, t, st)
        if k == 'un':
            a = self.operand(fr, rv[2], st)
            if rv[1] == 'Not':
                if self.tykind(dty) == 'bool' or self.tykind(self.op_ty(fr, rv[2])) == 'bool':
                    return neg(a)
                return N('ibnot', self.db.ty(dty).get('n') or dty, a) if self.tykind(dty) in ('uint', 'int') else N('bnot', a)
            if rv[1] == 'Neg':
                if self.tykind(dty) == 'float':
                    return cf(-a[2]) if isn(a, 'c') else N('fneg', a)
                return pneg(a)
            if rv[1] == 'PtrMetadata':
                t = self.deref(st, a)
                return self.seq_len(t)
            return N('un', rv[1], a)
        if k == 'discr':
            v = self.read(fr, rv[1], st)
            ty = self.db.place_ty(fr.body, rv[1])
            vi = self.variant_of(v, st)
            if vi is not None:
                return ci(self.discr_of(ty, vi))
            return N('discr', v, ty)
        if k == 'agg':
            ops = [self.operand(fr, o, st) for o in rv[2]]
            kk = rv[1][0]
            if kk == 'tuple':
                return tup(*ops)
            if kk == 'array':
                return N('seq', *ops)
            if kk == 'adt':
                path, vi = rv[1][1], rv[1][2]
                if len(rv[1]) > 3 and rv[1][3] is not None:     # union
                    return ops[0]
                r = N('agg', path, vi, *ops)
                return self.eta(r, dty)
            if kk == 'closure':
                return N('clo', rv[1][1], *ops)
            if kk == 'rawptr':
                return ops[0]
            return N('aggx', str(rv[1]), *ops)
        if k == 'cast':
            a = self.operand(fr, rv[2], st)
            ck = rv[1]
            if ck == 'IntToInt':
                if isn(a, 'c'):
                    if a[1] == 'bool':
                        return ci(1 if a[2] else 0)
                    if a[1] == 'char':
                        return ci(ord(a[2]) if isinstance(a[2], str) else a[2])
                    t = self.db.ty(rv[3]).get('n')
                    w = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64}.get(t)
                    if w:
                        return ci(a[2] % (1 << w))
                    return a
                src = self.op_ty(fr, rv[2])
                if src == rv[3]:
                    return a
                bits = [self.db.ty(q).get('n') for q in (src, rv[3])] if src else [None, None]
                bits = [64 if str(q).endswith('size') else int(q[1:]) if isinstance(q, str) and q[1:].isdigit() else 0 for q in bits]
                if 0 < bits[1] < bits[0]:
                    self.lits.add(1 << bits[1])     # behaviour may change where values stop to fit
                return N('cast', rv[3], a)
            if ck == 'IntToFloat':
                return cf(float(a[2])) if isn(a, 'c') and a[1] == 'int' else N('i2f', a)
            if ck == 'FloatToInt':
                return N('f2i', rv[3], a)
            if ck == 'FloatToFloat':
                return N('cast', rv[3], a)
            if ck == 'BoxDerefTransmute' or ck == 'Transmute':
                return a
            return a
        if k == 'repeat':
            a = self.operand(fr, rv[1], st)
            try:
                n = int(rv[2])
                if n <= 16:
                    return N('seq', *([a] * n))
                return N('rep', a, ci(n))
            except Exception:
                return N('rep', a, N('sym', 'n:' + str(rv[2]), 'usize'))
        return N('unk', str(rv)[:80])

    def eta(self, r, ty=None):
        """agg of all the fields of one value == that value (fieldwise copy)"""
        if len(r) <= 3:
            return r
        f0 = r[3]
        if f0.t[0] != 'fld':
            return r
        base = f0[1]
        vi = r[2]
        for i, f in enumerate(r.t[3:]):
            if f.t[0] != 'fld' or f[1] is not base or f[3] != i or (f[2] or 0) != vi:
                return r
        bt = self.val_ty(base)
        if not bt:
            return r
        d = self.db.ty(bt)
        if d.get('k') == 'adt' and d['adt'] == r[1] and self.db.adts.get(r[1], {}).get('kind') == 'struct' and self.db.nfields(bt, 0) == len(r) - 3:
            return base
        return r

    # ------------------------------------------------------------ deep values
    def deep(self, v, st, d=0, memo=None):
        if type(v) is tuple:
            return tuple(self.deep(x, st, d, memo) for x in v)
        if type(v) is not Node or not v.r:
            return v
        if memo is None:
            memo = {}
        if v in memo:
            return memo[v]
        k = v.t[0]
        if d > 12:
            return N('deepcut')
        if k == 'ref':
            r = N('&', self.deep(self.load(st, v[1], v[2]), st, d + 1, memo))
        elif k == 'box':
            r = N('Box', self.deep(self.load(st, v[1]), st, d + 1, memo))
        elif k == 'rc':
            r = N('Rc', self.deep(self.load(st, v[1]), st, d + 1, memo), v[1])
        elif k == 'weak':
            r = N('Weak', v[1])
        else:
            r = N(*[self.deep(x, st, d, memo) for x in v.t])
        memo[v] = r
        return r

    def passed(self, v, st):
        """argument of an uninterpreted call: a reference whose target changed shows the changed contents"""
        if type(v) is Node and v.t[0] in ('sym', 'deref', 'fld', 'elem', 'mapget', 'item'):
            loc = N('P', v)
            if loc in self.pty:
                c = self.load(st, loc)
                if c is not self.initial(loc):
                    return N('&', self.deep(c, st))
        return self.deep(v, st)

    def sval(self, v, st):
        """value behind any number of references (for strings, keys, numbers)"""
        for _ in range(6):
            if v.t[0] in ('ref', 'bptr'):
                v = self.deref(st, v)
            elif v.t[0] in ('box', 'rc'):
                v = self.load(st, v[1])
            else:
                t = self.val_ty(v)
                tk = self.db.ty(t) if t else {}
                if tk.get('k') in ('ref', 'ptr'):
                    v = self.deref(st, v)
                elif tk.get('k') == 'adt' and tk['adt'] == 'alloc::boxed::Box':
                    v = self.deref(st, v)
                else:
                    break
        return self.deep(v, st)

    # ------------------------------------------------------------ running
    def start_state(self):
        return St()

    def sym_args(self, body):
        out = []
        names = {}
        for n, p in body['dbg']:
            if isinstance(p, list) and len(p) == 1 and 1 <= p[0] <= body['argc']:
                names[p[0]] = n
        for i in range(1, body['argc'] + 1):
            out.append(N('sym', names.get(i, 'arg%d' % i), body['locals'][i]))
        return out

    def run(self, body, args=None, st=None):
        if isinstance(body, str):
            body = self.db.bodies[body]
        st = st or St()
        if args is None:
            args = self.sym_args(body)
        return self.exec_body(body, args, st)

    def exec_body(self, body, args, st):
        self.analysed.add(body['key'])
        self.fid += 1
        fr = Frame(body, self.fid, body_info(body))
        for i, t in enumerate(body['locals']):
            self.lty[N('L', fr.id, i)] = t
        if body['spread'] is not None and len(args) >= 1:
            sp = body['spread']
            # args beyond `spread` are packed in a tuple local
            pre = args[:sp - 1]
            rest = args[sp - 1:]
            args = pre + [tup(*rest)]
        for i, a in enumerate(args):
            st.mem[N('L', fr.id, i + 1)] = a
        self.stack.append(body['key'])
        if len(self.stack) > self.max_depth:
            raise Budget('call depth')
        try:
            outs = self.blocks(fr, 0, st, None)
        finally:
            self.stack.pop()
        res = []
        for o in outs:
            kind, val, s = o
            if kind == 'ret':
                val = s.mem.get(N('L', fr.id, 0), UNIT)
                if val.t[0] == 'uninit':
                    t = body['locals'][0]
                    val = UNIT if t == '()' else N('zst', t)
            for i in range(len(body['locals'])):
                s.mem.pop(N('L', fr.id, i), None)
            res.append((kind, val, s))
        return res

    def blocks(self, fr, start, st, region):
        """region: None or (header, blockset).  outcomes: ret/panic/exit and, inside a region,
        ('back',None,st) for the header and ('leave',bb,st) for a target outside the region."""
        out = []
        work = [(start, st, True)]
        while work:
            bb, s, first = work.pop()
            if region is not None and not first:
                if bb == region[0]:
                    out.append(('back', None, s))
                    continue
                if bb not in region[1] and not fr.body['blocks'][bb]['cleanup']:
                    out.append(('leave', bb, s))
                    continue
            if bb in fr.loops and not (first and region is not None and bb == region[0]):
                for o in self.mir_loop(fr, bb, s):
                    if o[0] == 'leave':
                        work.append((o[1], o[2], False))
                    else:
                        out.append(o)
                continue
            self.steps += 1
            if self.deadline and not self.steps & 255 and time.time() > self.deadline:
                raise Budget('time')
            if self.steps > self.max_steps:
                raise Budget('steps in %s' % fr.body['key'])
            if len(out) > self.max_paths or len(work) > self.max_paths:
                raise Budget('paths in %s' % fr.body['key'])
            blk = fr.body['blocks'][bb]
            for x in blk['s']:
                if x[0] == '=':
                    dty = self.db.place_ty(fr.body, x[1])
                    v = self.rvalue(fr, x[2], s, dty)
                    loc, proj = self.resolve(fr, x[1], s)
                    self.store(s, loc, proj, v)
                elif x[0] == 'dead':
                    s.mem.pop(N('L', fr.id, x[1]), None)
                elif x[0] == 'setd':
                    loc, proj = self.resolve(fr, x[1], s)
                    self.store(s, loc, proj, N('agg', 'setd', x[2]))
            t = blk['t']
            k = t[0]
            if k == 'goto':
                work.append((t[1], s, False))
            elif k == 'switch':
                for tgt, s2 in self.switch(fr, t, s):
                    work.append((tgt, s2, False))
            elif k == 'return':
                out.append(('ret', None, s))
            elif k == 'unreachable':
                pass
            elif k in ('resume', 'abort'):
                out.append(('panic', N('resumed') if k == 'resume' else N('abort'), s))
            elif k == 'drop':
                v = self.read(fr, t[1], s)
                if not isn(v, 'uninit'):
                    s.event('drop', v, self.db.place_ty(fr.body, t[1]), t[-1])
                work.append((t[2], s, False))
            elif k == 'assert':
                c = self.operand(fr, t[1], s)
                exp = t[2]
                if isn(c, 'ovf'):
                    work.append((t[5], s, False))
                    continue
                if t[3][0] not in ('bounds', 'div0', 'rem0', 'overflow', 'overflow_neg') if isinstance(t[3], list) else t[3] not in ('bounds', 'div0', 'rem0', 'overflow', 'overflow_neg'):
                    work.append((t[5], s, False))
                    continue
                cc = c if exp else neg(c)
                if self.panics:
                    s2 = s.copy()
                    if s2.assume(cc, False):
                        out.extend(self.unwind(fr, t[6], s2, N('panic', 'assert', str(t[3][0] if isinstance(t[3], list) else t[3])), region))
                    if s.assume(cc, True):
                        work.append((t[5], s, False))
                else:
                    if s.f.assume(cc, True):
                        s.event('assumed', cc)
                        work.append((t[5], s, False))
            elif k == 'call':
                for o in self.call(fr, t, s):
                    kind, val, s2 = o
                    if kind == 'ret':
                        if t[4] is None:
                            continue
                        loc, proj = self.resolve(fr, t[3], s2)
                        self.store(s2, loc, proj, val)
                        work.append((t[4], s2, False))
                    elif kind == 'panic':
                        out.extend(self.unwind(fr, t[5], s2, val, region))
                    else:
                        out.append(o)
            else:
                self.notes.append('terminator ' + k)
        return out

    def unwind(self, fr, tgt, st, val, region):
        if not self.panics or not isinstance(tgt, int):
            return [('panic', val, st)]
        res = []
        for kind, v, s in self.blocks(fr, tgt, st, None):
            if kind == 'panic':
                res.append(('panic', val if isn(v, 'resumed') else v, s))
            elif kind == 'ret':
                res.append(('panic', val, s))
            else:
                res.append((kind, v, s))
        return res

    def switch(self, fr, t, s):
        v = self.operand(fr, t[1], s)
        res = []
        cases = t[2]
        oth = t[3]
        if isn(v, 'c'):
            x = v[2]
            if v[1] == 'char' and isinstance(x, str):
                x = ord(x)
            x = int(x)
            for val, bb in cases:
                if int(val) == x:
                    return [(bb, s)]
            return [(oth, s)]
        ty = self.op_ty(fr, t[1])
        if v.t[0] == 'discr':
            base, bty = v[1], v[2]
            td = self.db.ty(bty) if bty else {}
            a = self.db.adts.get(td.get('adt'))
            d2v = {}
            nv = None
            if a and a['kind'] == 'enum':
                nv = len(a['variants'])
                for i, var in enumerate(a['variants']):
                    d2v[int(var['discr']) if var.get('discr') is not None else i] = i
            seen = []
            for val, bb in cases:
                vi = d2v.get(int(val), int(val))
                seen.append(vi)
                s2 = s.copy()
                if s2.assume(N('isvar', base, vi), True):
                    res.append((bb, s2))
            rest = None if nv is None else [i for i in range(nv) if i not in seen]
            if fr.body['blocks'][oth]['t'][0] == 'unreachable' and not fr.body['blocks'][oth]['s']:
                pass
            elif rest is not None and len(rest) == 0:
                pass
            elif rest is not None and len(rest) == 1:
                if s.assume(N('isvar', base, rest[0]), True):
                    res.append((oth, s))
            else:
                okf = True
                for vi in seen:
                    okf = okf and s.assume(N('isvar', base, vi), False)
                if okf:
                    res.append((oth, s))
            # a single feasible variant is implied by exclusion
            return res
        if self.tykind(ty) == 'bool' or v.t[0] in ('ge0', 'eq0', 'not', 'flt', 'fle', 'feq', 'isvar', 'has'):
            for val, bb in cases:
                s2 = s.copy()
                if s2.assume(v, bool(int(val))):
                    res.append((bb, s2))
            vals = [bool(int(x[0])) for x in cases]
            for b in (True, False):
                if b not in vals:
                    if s.assume(v, b):
                        res.append((oth, s))
                    break
            return res
        okf = True
        for val, bb in cases:
            if self.tykind(ty) == 'char':
                c = N('eqv', *sorted((v, N('c', 'char', chr(int(val)))), key=lambda x: x.id))
            else:
                c = ieq(v, ci(int(val)))
            s2 = s.copy()
            if s2.assume(c, True):
                res.append((bb, s2))
            okf = okf and s.assume(c, False)
        if okf:
            res.append((oth, s))
        return res

    # ------------------------------------------------------------ loops
    def mir_loop(self, fr, hd, st):
        region = (hd, fr.loops[hd])
        live = fr.live[hd]

        def prep(s):
            for i in range(len(fr.body['locals'])):
                if i not in live:
                    s.mem.pop(N('L', fr.id, i), None)

        def step(s):
            outs = self.blocks(fr, hd, s, region)
            for o in outs:
                if o[0] == 'back':
                    prep(o[2])
            return outs
        prep(st)
        return self.loop(st, step, (fr.body['key'], hd, fr.body['blocks'][hd]['t'][-1]))

    def loop(self, st, step, tag):
        done = []
        cur = st
        peeled = 0
        while True:
            outs = step(cur.copy())
            backs = [o for o in outs if o[0] == 'back']
            oth = [o for o in outs if o[0] != 'back']
            if not backs:
                return done + oth
            if len(backs) == 1 and not [o for o in oth if o[0] != 'panic'] and peeled < self.unroll:
                done += oth
                cur = backs[0][2]
                peeled += 1
                continue
            break
        self.lid += 1
        lid = self.lid
        hav = {}
        for it in range(40):
            hs = cur.copy()
            for (loc, path), (phi, init) in sorted(hav.items(), key=lambda x: len(x[0][1])):
                o = self.load(hs, loc)
                hs.mem[loc] = self.update(o, path, phi, hs, self.loc_ty(loc))
                if nonneg_atom(phi) and isn(init, 'c') and False:
                    pass
            nc, ne = len(hs.conds), len(hs.ev)
            hdr = dict(hs.mem)
            outs = step(hs)
            new = {}
            for o in outs:
                if o[0] != 'back':
                    continue
                bs = o[2]
                for loc in hdr:
                    b = bs.mem.get(loc)
                    if b is None or b is hdr[loc]:
                        continue
                    self.diff(hdr[loc], b, (), lambda p: new.setdefault((loc, p), True), hs)
                for loc in bs.mem:
                    if loc not in hdr and loc[0] == 'P':
                        i0 = self.initial(loc)
                        if bs.mem[loc] is not i0:
                            self.diff(i0, bs.mem[loc], (), lambda p: new.setdefault((loc, p), True), hs)
            add = [x for x in new if x not in hav]
            if not add:
                break
            for (loc, path) in add:
                # drop deeper ones, skip when an ancestor is already havocked
                if any(l is loc and path[:len(q)] == q for (l, q) in hav):
                    continue
                for key in [x for x in hav if x[0] is loc and x[1][:len(path)] == path]:
                    del hav[key]
                init = self.load(cur, loc, path)
                hav[(loc, path)] = (N('phi', lid, loc, path, self.path_ty(loc, path)), init)
        else:
            raise Budget('loop fixpoint in %s' % (tag,))
        info = {'id': lid, 'tag': tag, 'phis': {}, 'backs': [], 'peeled': peeled, 'exits': [], 'st0': cur}
        for (loc, path), (phi, init) in hav.items():
            info['phis'][phi] = init
        self.loops[lid] = info
        for o in outs:
            if o[0] == 'back':
                nx = {}
                for (loc, path), (phi, init) in hav.items():
                    nx[phi] = self.load(o[2], loc, path)
                info['backs'].append({'conds': o[2].conds[nc:], 'next': nx, 'ev': o[2].ev[ne:], 'st': o[2]})
            else:
                s = o[2]
                info['exits'].append({'kind': o[0], 'conds': s.conds[nc:], 'ev': s.ev[ne:], 'val': o[1]})
                s.conds = s.conds[:nc] + ((N('loop', lid), True),) + s.conds[nc:]
                s.ev = s.ev[:ne] + (('loop', lid),) + s.ev[ne:]
                done.append(o)
        return done

    def path_ty(self, loc, path):
        t = self.loc_ty(loc)
        vi = None
        for p in path:
            if t is None:
                return None
            if p[0] == 'f':
                t = self.db.field_ty(t, p[1], p[2])
            elif p[0] == 'ix':
                t = self.db.elem_ty(t)
            else:
                return None
        return t

    def diff(self, a, b, path, hit, st):
        if a is b:
            return
        if b.t[0] == 'agg':
            if a.t[0] == 'agg':
                if a[1] == b[1] and a[2] == b[2] and len(a) == len(b):
                    e = self.is_enum(a[1])
                    for i in range(3, len(a)):
                        self.diff(a[i], b[i], path + (('f', a[2] if e else None, i - 3),), hit, st)
                    return
            elif not self.is_enum(b[1]) and a.t[0] not in ('uninit',) and self.val_ty(a):
                for i in range(3, len(b)):
                    self.diff(self.project(a, ('f', None, i - 3)), b[i], path + (('f', None, i - 3),), hit, st)
                return
        elif a.t[0] == 'agg' and not self.is_enum(a[1]) and self.val_ty(b):
            for i in range(3, len(a)):
                self.diff(a[i], self.project(b, ('f', None, i - 3)), path + (('f', None, i - 3),), hit, st)
            return
        if a.t[0] == 'it' and b.t[0] == 'it' and a[1] == b[1] and len(a) == len(b):
            for i in range(2, len(a)):
                if type(a[i]) is Node and type(b[i]) is Node:
                    self.diff(a[i], b[i], path + (('a', i),), hit, st)
                elif a[i] != b[i]:
                    hit(path)
                    return
            return
        if a.t[0] == 'seq' and b.t[0] == 'seq' and len(a) == len(b):
            for i in range(1, len(a)):
                self.diff(a[i], b[i], path + (('ix', ci(i - 1)),), hit, st)
            return
        hit(path)

    def is_enum(self, path):
        a = self.db.adts.get(path)
        return bool(a and a['kind'] == 'enum')

    # ------------------------------------------------------------ calls
    def call(self, fr, t, s):
        f = t[1]
        args = [self.operand(fr, a, s) for a in t[2]]
        tys = [self.op_ty(fr, a) for a in t[2]]
        site = t[-1]
        dty = self.db.place_ty(fr.body, t[3])
        if f[0] == 'const' and 'fn' in f[1]:
            c = f[1]
            if c['fn']:
                self.fninfo.setdefault(c['fn'], c)
            else:
                self.fninfo.setdefault(c['path'], c)
            return self.call_fn(c, args, tys, dty, s, site)
        fv = self.operand(fr, f, s)
        return self.call_value(fv, args, tys, dty, s, site)

    def call_value(self, fv, args, tys, dty, s, site):
        """call a function value (fn pointer, closure, boxed dyn Fn) with untupled args"""
        for _ in range(5):
            if fv.t[0] == 'ref':
                tgt = self.load(s, fv[1], fv[2])
                if tgt.t[0] == 'clo':
                    break
                fv = tgt
            elif fv.t[0] in ('box', 'bptr', 'rc'):
                loc, proj = self.target(fv)
                fv = N('ref', loc, proj)
            else:
                break
        if fv.t[0] == 'fn':
            c = self.fninfo[fv[1]]
            return self.call_fn(c, args, tys, dty, s, site)
        clo = None
        if fv.t[0] == 'clo':
            clo = fv
            selfref = None
        elif fv.t[0] == 'ref':
            clo = self.load(s, fv[1], fv[2])
            selfref = fv
        if clo is not None and clo.t[0] == 'clo':
            key = clo[1]
            body = self.db.bodies.get(key)
            if body is not None and self.stack.count(key) < 2 and not self.opaque(key, body['path']):
                t1 = body['locals'][1] if body['argc'] >= 1 else None
                if t1 and self.tykind(t1) == 'ref':
                    if selfref is None:
                        selfref = N('ref', self.new_h(s, clo, self.db.deref_ty(t1)), ())
                    a0 = selfref
                else:
                    a0 = clo
                # closure bodies take (self, a, b, ...) untupled
                return self.exec_body(body, [a0] + list(args), s)
        dargs = [self.passed(a, s) for a in args]
        fd = self.deep(fv, s)
        r = N('call', 'value', (fd,) + tuple(dargs), dty, ())
        return self.opaque_result(r, None, args, tys, dty, s, site)

    def opaque_result(self, r, c, args, tys, dty, s, site):
        """result of an uninterpreted call; pointees of &mut arguments are havocked"""
        muts = []
        for i, (a, t) in enumerate(zip(args, tys)):
            d = self.db.ty(t) if t else {}
            if d.get('k') == 'ref' and d.get('mut'):
                muts.append((i, a, d['to']))
            elif d.get('k') == 'ref' and c and CELLFN.match(c.get('path') or '') and (self.db.ty(d['to']).get('adt') or '') in CELLS:
                muts.append((i, a, d['to']))        # a cell handed to a function of the library that is not known
        if muts:
            # result depends on the identity of this call in the state: make it unique per state
            pass
        outs = []
        s.event('call', (c or {}).get('rpath') or (c or {}).get('path') or 'value', r[2], r, site, (c or {}).get('fn'))
        if self.panics and self.may_panic and self.may_panic(c):
            s2 = s.copy()
            for i, a, t in muts:
                loc, proj = self.target(a, t)
                self.store(s2, loc, proj, N('mut', N('unwound', r), i, t))
            s2.event('unwind', (c or {}).get('rpath') or (c or {}).get('path') or 'value', site)
            outs.append(('panic', N('panic', 'callee', (c or {}).get('path') or 'value'), s2))
        for i, a, t in muts:
            loc, proj = self.target(a, t)
            self.store(s, loc, proj, N('mut', r, i, t))
        if dty == '!' or (c and self.tykind(dty) == 'never'):
            return outs + [('panic', N('panic', 'call', (c or {}).get('path')), s)]
        v = r
        if dty == '()':
            v = UNIT
        outs.append(('ret', v, s))
        return outs

    def call_fn(self, c, args, tys, dty, s, site):
        key, path, rpath = c['fn'], c['path'], c.get('rpath') or c['path']
        body = self.db.bodies.get(key) if key else None
        fpath = body['path'] if body else rpath
        if not self.opaque(key or path, fpath):
            m = self.models.lookup(self, c, body, args, s)
            if m is not None:
                r = m(self, c, args, tys, dty, s, site)
                if r is not None:
                    return r
            if path in ('core::ops::function::Fn::call', 'core::ops::function::FnMut::call_mut', 'core::ops::function::FnOnce::call_once') and len(args) == 2 and not (body and not body['closure'] and body.get('local')):
                tupv = args[1]
                td = self.db.ty(tys[1]) if tys[1] else {}
                n = len(td['of']) if td.get('k') == 'tuple' else None
                if n is None and tupv.t[0] == 'agg':
                    n = len(tupv) - 3
                if n is not None:
                    a = [self.project(tupv, ('f', None, i)) for i in range(n)]
                    at = list(td['of']) if td.get('k') == 'tuple' else [None] * n
                    fv = args[0]
                    if fv.t[0] == 'zst':
                        d = self.db.ty(fv[1])
                        if d.get('k') == 'closure':
                            fv = N('clo', d['def'])
                    return self.call_value(fv, a, at, dty, s, site)
            if body is not None and self.stack.count(key) < 1 and (body.get('local') or self.inline is None or self.inline(key, fpath)):
                if self.trace(key, fpath):
                    s.event('enter', fpath, tuple(self.deep(a, s) for a in args), site)
                outs = self.exec_body(body, list(args), s)
                if self.trace(key, fpath):
                    for o in outs:
                        if o[0] == 'ret':
                            o[2].event('leave', fpath, self.deep(o[1], o[2]), site)
                return outs
        dargs = tuple(self.passed(a, s) for a in args)
        if self.snap is not None and self.snap(fpath):
            dargs += (N('mem', tuple(N('at', l, self.deep(v, s)) for l, v in s.mem.items() if l[0] == 'P' and v is not self.initial(l))),)
        name = fpath
        if c.get('self') and (path != rpath or c['fn'] is None):
            name = rpath if c.get('rpath') else '%s@%s' % (path, c['self'])
        targs = tuple(x for x in (c.get('targs') or []) if x)
        r = N('call', name, dargs, dty, () if body else targs)
        return self.opaque_result(r, c, args, tys, dty, s, site)
