"""Instantiation of extracted value summaries.

A function summary (interp.Engine outcomes: path conditions, value terms, loop recurrences) is
instantiated at a small shape; real-valued entries are free variables decided over the prime field
GF(2^61-1) (polynomial identity), so `==` here is identity of the rational functions the summary
denotes, not equality of floating point numbers.
"""
from fractions import Fraction
from terms import *

P = (1 << 61) - 1


class Unk(Exception):
    """the summary cannot be instantiated (undecided)"""


class OOB(Exception):
    pass


class Panicked(OOB):
    """code which was certainly reached panics"""


EXACT = [False]


class exact(object):
    """within it, small numbers are also known as rationals, which can be compared"""
    def __enter__(self):
        self.old, EXACT[0] = EXACT[0], True

    def __exit__(self, *a):
        EXACT[0] = self.old


class F(object):
    """field element; q: the rational it stands for, if known"""
    __slots__ = ('v', 'q')

    def __init__(self, v, q=None):
        self.v = v % P
        if q is None and EXACT[0] and isinstance(v, int) and -(1 << 40) < v < 1 << 40:
            q = Fraction(v)
        self.q = q

    def __add__(self, o): return F(self.v + o.v, None if self.q is None or o.q is None else self.q + o.q) if EXACT[0] else F(self.v + o.v)
    def __sub__(self, o): return F(self.v - o.v, None if self.q is None or o.q is None else self.q - o.q) if EXACT[0] else F(self.v - o.v)
    def __mul__(self, o): return F(self.v * o.v, None if self.q is None or o.q is None else self.q * o.q) if EXACT[0] else F(self.v * o.v)

    def __truediv__(self, o):
        if o.v == 0:
            return INF
        return F(self.v * pow(o.v, P - 2, P), None if self.q is None or not o.q else self.q / o.q)

    def __neg__(self): return F(-self.v, None if self.q is None else -self.q)
    def __abs__(self):
        if self.q is None:
            raise Unk('size of a field element')
        return -self if self.q < 0 else self
    def __eq__(self, o): return isinstance(o, F) and self.v == o.v
    def __ne__(self, o): return not self == o
    def __hash__(self): return hash(self.v)
    def __repr__(self): return 'F%d' % self.v if self.v > 1000 else str(self.v)


class Inf(object):
    def __add__(self, o): return self
    __sub__ = __mul__ = __truediv__ = __add__
    __radd__ = __rsub__ = __rmul__ = __rtruediv__ = __add__
    def __neg__(self): return self
    def __repr__(self): return 'inf/nan'


INF = Inf()
F.__add_f = F.__add__


def _wrap(name):
    f = getattr(F, name)

    def g(self, o):
        if o is INF:
            return INF
        return f(self, o)
    setattr(F, name, g)


for _n in ('__add__', '__sub__', '__mul__', '__truediv__'):
    _wrap(_n)


def fl(x):
    q = Fraction(x)
    return F(q.numerator * pow(q.denominator, P - 2, P), q if EXACT[0] else None)


class Agg(object):
    __slots__ = ('p', 'vi', 'f')

    def __init__(self, p, vi, f): self.p, self.vi, self.f = p, vi, list(f)
    def __eq__(self, o): return isinstance(o, Agg) and (self.p, self.vi, self.f) == (o.p, o.vi, o.f)
    def __hash__(self): return hash((self.p, self.vi))
    def __repr__(self): return '%s#%s%r' % (self.p.split('::')[-1], self.vi, self.f)


class Sym(object):
    """opaque value equal only to itself"""
    def __init__(self, n): self.n = n
    def __repr__(self): return '<%s>' % self.n


NARROW = {'u8': (8, False), 'u16': (16, False), 'u32': (32, False), 'i8': (8, True), 'i16': (16, True), 'i32': (32, True)}


WIDTH = dict(NARROW, u64=(64, False), usize=(64, False), i64=(64, True), isize=(64, True), u128=(128, False), i128=(128, True))


def narrow(ty, x):
    """the value of an integer in a type of its width"""
    if ty not in WIDTH:
        raise Unk('integer type ' + str(ty))
    w, sg = WIDTH[ty]
    x &= (1 << w) - 1
    return x - (1 << w) if sg and x >> (w - 1) else x


def ibop(op, ty, a, b):
    if op == 'BitAnd':
        return a & b
    if op == 'BitOr':
        return a | b
    if op == 'BitXor':
        return narrow(ty, a ^ b)
    if op in ('Shl', 'Shr'):
        if not 0 <= b < WIDTH.get(ty, (0, 0))[0]:
            raise OOB('shift by %d' % b)
        return narrow(ty, a << b) if op == 'Shl' else a >> b
    if b == 0:
        raise OOB('division by 0')
    q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
    return q if op == 'Div' else a - q * b


def imeth(n, ty, x, *y):
    w = WIDTH[ty][0] if ty in WIDTH else None
    if w is None:
        raise Unk('integer type ' + str(ty))
    u = x & ((1 << w) - 1)
    if n == 'pow':
        return narrow(ty, x ** y[0])
    if n == 'count_ones':
        return bin(u).count('1')
    if n == 'count_zeros':
        return w - bin(u).count('1')
    if n == 'leading_zeros':
        return w - u.bit_length()
    if n == 'trailing_zeros':
        return (u & -u).bit_length() - 1 if u else w
    if n == 'is_power_of_two':
        return u != 0 and u & (u - 1) == 0
    if n == 'next_power_of_two':
        return 1 << (u - 1).bit_length() if u else 1
    if n == 'is_multiple_of':
        return x % y[0] == 0 if y[0] else x == 0
    if n == 'div_ceil':
        if y[0] == 0:
            raise OOB('division by 0')
        return -(-x // y[0])
    if n in ('rem_euclid', 'div_euclid'):
        if y[0] == 0:
            raise OOB('division by 0')
        r = x % abs(y[0])
        return r if n[0] == 'r' else (x - r) // y[0]
    if n == 'next_multiple_of':
        if y[0] == 0:
            raise OOB('division by 0')
        return -(-x // y[0]) * y[0]
    if n == 'midpoint':
        return (x + y[0]) // 2
    if n == 'isqrt':
        import math
        return math.isqrt(x)
    if n == 'ilog2':
        if x <= 0:
            raise OOB('logarithm of %d' % x)
        return x.bit_length() - 1
    if n == 'ilog10':
        if x <= 0:
            raise OOB('logarithm of %d' % x)
        return len(str(x)) - 1
    if n == 'signum':
        return (x > 0) - (x < 0)
    if n in ('abs', 'unsigned_abs', 'wrapping_abs'):
        return abs(x)
    if n in ('wrapping_add', 'wrapping_sub', 'wrapping_mul'):
        return narrow(ty, x + y[0] if n[-1] == 'd' else x - y[0] if n[-1] == 'b' else x * y[0])
    if n in ('wrapping_shl', 'wrapping_shr'):
        return ibop('Shl' if n[-1] == 'l' else 'Shr', ty, x, y[0] % w)
    if n == 'wrapping_neg':
        return narrow(ty, -x)
    if n in ('rotate_left', 'rotate_right'):
        r = y[0] % w if n[-1] == 't' and n[7] == 'l' else -y[0] % w
        return narrow(ty, u << r | u >> (w - r))
    if n == 'swap_bytes':
        return narrow(ty, int.from_bytes(u.to_bytes(w // 8, 'little'), 'big'))
    if n == 'reverse_bits':
        return narrow(ty, int(bin(u)[2:].zfill(w)[::-1], 2))
    raise Unk('integer method ' + n)


def as_f32(x):
    import struct
    try:
        return struct.unpack('f', struct.pack('f', x))[0]
    except OverflowError:
        return float('inf') if x > 0 else -float('inf')


class Ev(object):
    def __init__(self, eng, env, limit=200000):
        self.e = eng
        self.env = dict(env)
        self.memo = {}
        self.steps = 0
        self.limit = limit
        self.hook = None

    def bind(self, k, v):
        self.env[k] = v
        self.memo = {}

    def ev(self, t):
        if t in self.env:
            return self.env[t]
        if t in self.memo:
            return self.memo[t]
        self.steps += 1
        if self.steps > self.limit:
            raise Unk('limit')
        v = self.ev1(t)
        self.memo[t] = v
        return v

    def ev1(self, t):
        k = t.t[0]
        E = self.ev
        if self.hook is not None:
            r = self.hook(self, t)
            if r is not None:
                return r
        if k == 'c':
            if t[1] == 'float':
                v = t[2]
                if v != v or v in (float('inf'), float('-inf')):
                    return INF
                return fl(v)
            return t[2]
        if k == 'poly':
            r = 0
            for m, c in t[1]:
                p = c
                for a in m:
                    x = E(a)
                    if not isinstance(x, int):
                        raise Unk('poly over %r' % (x,))
                    p *= x
                r += p
            return r
        if k == 'ge0':
            return self.i(t[1]) >= 0
        if k == 'eq0':
            return self.i(t[1]) == 0
        if k == 'not':
            return not E(t[1])
        if k == 'and':
            return E(t[1]) and E(t[2])
        if k == 'or':
            return E(t[1]) or E(t[2])
        if k == 'iff':
            return E(t[1]) == E(t[2])
        if k in ('fadd', 'fsub', 'fmul', 'fdiv'):
            a, b = E(t[1]), E(t[2])
            if not isinstance(a, (F, Inf)) or not isinstance(b, (F, Inf)):
                raise Unk('float op over %r %r' % (a, b))
            return a + b if k == 'fadd' else a - b if k == 'fsub' else a * b if k == 'fmul' else a / b
        if k == 'fneg':
            return -E(t[1])
        if k == 'i2f':
            return F(self.i(t[1]))
        if k == 'feq':
            a, b = E(t[1]), E(t[2])
            if isinstance(a, F) and isinstance(b, F):
                return a == b
            raise Unk('feq')
        if k in ('flt', 'fle'):
            a, b = E(t[1]), E(t[2])
            if isinstance(a, F) and isinstance(b, F) and a.q is not None and b.q is not None:
                return a.q < b.q if k == 'flt' else a.q <= b.q
            raise Unk('order of %r %r' % (a, b))
        if k == 'ff':
            a = [E(x) for x in t.t[2:]]
            if t[1] == 'abs' and isinstance(a[0], F) and a[0].v == 0:
                return a[0]
            if t[1] in ('abs', 'max', 'min') and all(isinstance(x, F) and x.q is not None for x in a):
                return abs(a[0]) if t[1] == 'abs' else max(a, key=lambda x: x.q) if t[1] == 'max' else min(a, key=lambda x: x.q)
            raise Unk('ff ' + t[1])
        if k == 'udiv':
            a, b = self.i(t[1]), self.i(t[2])
            if b == 0:
                raise OOB('div0')
            return a // b
        if k == 'urem':
            a, b = self.i(t[1]), self.i(t[2])
            if b == 0:
                raise OOB('rem0')
            return a % b
        if k == 'ibop':
            return ibop(t[1], t[2], self.i(t[3]), self.i(t[4]))
        if k == 'ibnot':
            return narrow(t[1], ~self.i(t[2]))
        if k == 'imeth':
            return imeth(t[1], t[2], *[self.i(x) for x in t.t[3:]])
        if k == 'cast':
            x = E(t[2])
            if type(x) is int and t[1] in NARROW:
                return narrow(t[1], x)
            if type(x) is float and t[1] == 'f32':
                return as_f32(x)
            return x
        if k == 'agg':
            return Agg(t[1], t[2], [E(x) for x in t.t[3:]])
        if k in ('&', 'Box', 'Rc'):
            return E(t[1])
        if k == 'ref' or k == 'box':
            raise Unk('ref')
        if k == 'fld':
            b = E(t[1])
            if isinstance(b, Agg):
                if t[2] is not None and b.vi != t[2] and b.vi is not None:
                    raise Unk('variant')
                return b.f[t[3]]
            raise Unk('fld of %r' % (b,))
        if k == 'discr' and self.e is not None:
            b = E(t[1])
            if isinstance(b, Agg) and b.vi is not None:
                return self.e.discr_of(t[2], b.vi)
            raise Unk('discr of %r' % (b,))
        if k == 'isvar':
            b = E(t[1])
            if isinstance(b, Agg):
                return b.vi == t[2]
            raise Unk('isvar %r %s' % (E(t[1]), show(t)[:80]))
        if k == 'elem':
            s, i = E(t[1]), self.i(t[2])
            if not isinstance(s, list):
                raise Unk('elem of %r' % (s,))
            if not 0 <= i < len(s):
                raise OOB('index %d of %d' % (i, len(s)))
            return s[i]
        if k == 'len':
            s = E(t[1])
            if not isinstance(s, list):
                raise Unk('len')
            return len(s)
        if k == 'seq':
            return [E(x) for x in t.t[1:]]
        if k == 'ecap':
            return []
        if k == 'rep':
            n = self.i(t[2])
            if n > 4096 or n < 0:
                raise Unk('rep')
            return [E(t[1])] * n
        if k == 'push':
            return E(t[1]) + [E(t[2])]
        if k == 'append':
            return E(t[1]) + E(t[2])
        if k == 'sinit':
            return E(t[1])[:-1]
        if k == 'slice':
            s = E(t[1])
            lo, hi = self.i(t[2]), (self.i(t[3]) if t[3] is not None else len(s))
            if not 0 <= lo <= hi <= len(s):
                raise OOB('slice')
            return s[lo:hi]
        if k == 'set':
            s, i = E(t[1]), self.i(t[2])
            if not isinstance(s, list):
                raise Unk('set')
            if not 0 <= i < len(s):
                raise OOB('store %d of %d' % (i, len(s)))
            x = E(t[3])
            s = list(s)
            s[i] = x
            return s
        if k == 'anyhow':
            return E(t[1])
        if k == 'uninit':
            return Sym('uninit')
        raise Unk(k)

    def i(self, t):
        v = self.ev(t)
        if isinstance(v, bool) or not isinstance(v, int):
            raise Unk('int expected, got %r' % (v,))
        return v

    # -------------------------------------------------------------- conditions and loops
    def conds(self, cs):
        """True when all conditions hold; loops met on the way are instantiated"""
        for c, val in cs:
            if c.t[0] == 'loop':
                self.loop(c[1])
                continue
            v = self.ev(c)
            if not isinstance(v, bool):
                raise Unk('cond')
            if v != val:
                return False
        return True

    def loop(self, lid):
        info = self.e.loops[lid]
        vals = {p: self.ev(i) for p, i in info['phis'].items() if not isn(i, 'uninit')}
        for p, v in vals.items():
            self.bind(p, v)
        n = 0
        while True:
            n += 1
            if n > 3000:
                raise Unk('loop bound')
            hit = None
            for b in info['backs']:
                if self.conds(b['conds']):
                    hit = b
                    break
            if hit is None:
                return
            nx = {}
            for p, t in hit['next'].items():
                if isn(t, 'uninit'):
                    continue
                nx[p] = self.ev(t)
            for p, v in nx.items():
                self.env[p] = v
            self.memo = {}


def select(eng, outs, env, hook=None, limit=200000):
    """the outcome whose path condition holds under env -> (kind, value term, state, Ev)"""
    err = None
    for kind, val, st in outs:
        ev = Ev(eng, env, limit)
        ev.hook = hook
        try:
            if ev.conds(st.conds):
                return kind, val, st, ev
        except OOB as x:
            err = x
    if err is not None:
        if str(err).startswith('index -'):
            raise err
        raise Unk('oob while selecting: %s' % err)
    raise Unk('no outcome')
