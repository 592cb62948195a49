"""Instantiation of summaries over strings, maps, sequences and (optionally) IEEE numbers.

Same role as evalt.py.  Two numeric domains: 'F' = free values of a prime field (identities of
value terms, uninterpreted elementary functions), 'R' = IEEE doubles (predicates and clamping).
Path conditions are walked as a decision tree so that every condition and loop recurrence is
instantiated once.
"""
import functools
import math
import zlib
import re as _re
from re import error

from terms import *
from evalt import Ev, Unk, OOB, Panicked, F, Inf, INF, Agg, Sym, fl, P


def fpow(x, y):
    """IEEE pow"""
    try:
        return math.pow(x, y)
    except (ValueError, OverflowError):
        odd = float(y).is_integer() and abs(y) < 2.0 ** 53 and int(y) % 2 == 1
        if x == 0:
            return math.copysign(math.inf, x) if odd else math.inf
        if x < 0 and not float(y).is_integer():
            return math.nan
        return -math.inf if x < 0 and odd else math.inf


class Diverges(Exception):
    """the summary does not terminate on this input: a loop comes back to the very same state"""


class Fail(Exception):
    """the summary fails (panics) on this input"""


def uf(name, *args):
    """uninterpreted function over field values"""
    return F(hash_(('uf', name) + tuple(key(a) for a in args)))


def key(x):
    if isinstance(x, F):
        return ('F', x.v)
    if isinstance(x, float):
        return ('R', repr(x))
    if isinstance(x, (list, tuple)):
        return tuple(key(y) for y in x)
    if isinstance(x, Agg):
        return (x.p, x.vi, tuple(key(y) for y in x.f))
    if isinstance(x, dict):
        return tuple(sorted((str(key(a)), key(b)) for a, b in x.items()))
    return ('o', repr(x))


def hash_(x):
    import hashlib
    return int(hashlib.sha256(repr(x).encode()).hexdigest()[:15], 16) + 1


OPT = 'core::option::Option'
RES = 'core::result::Result'


def Some(x): return Agg(OPT, 1, [x])


def Nothing(): return Agg(OPT, 0, [])


def Ok(x): return Agg(RES, 0, [x])


def Er(x): return Agg(RES, 1, [x])


def rust_f64(s):
    """str::parse::<f64> -> float or None"""
    if _re.fullmatch(r'[+-]?(inf|infinity|nan)', s, _re.I):
        return float(s.lower().replace('infinity', 'inf'))
    if _re.fullmatch(r'[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?', s):
        return float(s)
    return None


class Cell(object):
    """shared mutable cell (Rc<RefCell<..>>): identity matters"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return 'Cell(%r)' % (self.v,)


def same_items(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if isinstance(x, list) and isinstance(y, list):
            if not same_items(x, y):
                return False
        elif isinstance(x, (float, int, str, F)) and isinstance(y, (float, int, str, F)):
            if not x == y:
                return False
        else:
            raise Unk('equality of %r and %r' % (x, y))
    return True


class Clo(object):
    """closure value with its captures"""
    __slots__ = ('k', 'caps', 'ev')

    def __init__(self, k, caps):
        self.k, self.caps = k, caps

    def __repr__(self):
        return 'Clo(%s)' % self.k


class Match(str):
    """a regex match: its text, with its groups and position"""
    __slots__ = ('m', 'g')

    def __new__(cls, m, g=0):
        s = str.__new__(cls, m.group(g))
        s.m, s.g = m, g
        return s

    def span(self):
        """byte offsets"""
        a, b = self.m.span(self.g)
        t = self.m.string
        return len(t[:a].encode()), len(t[:b].encode())


class Caps(object):
    """regex captures"""
    __slots__ = ('m',)

    def __init__(self, m):
        self.m = m


class Pred(object):
    """a character predicate"""
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f


class Rx(object):
    """a compiled regex"""
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p


def rust_show(x):
    """Display of an f64"""
    if x != x:
        return 'NaN'
    if math.isinf(x):
        return 'inf' if x > 0 else '-inf'
    from decimal import Decimal
    r = format(Decimal(repr(x)), 'f')
    return r[:-2] if r.endswith('.0') else r


def rust_debug(x):
    """Debug of an f64 or a text"""
    if isinstance(x, str):
        esc = {'"': '\\"', '\\': '\\\\', '\n': '\\n', '\r': '\\r', '\t': '\\t', '\0': '\\0'}
        return '"%s"' % ''.join(esc.get(c) or (c if c.isprintable() else '\\u{%x}' % ord(c)) for c in x)
    if x and x == x and not math.isinf(x) and not 1e-5 <= abs(x) < 1e16:
        from decimal import Decimal
        d = Decimal(repr(x)).normalize()
        sign, digits, exp = d.as_tuple()
        ds = ''.join(map(str, digits))
        return ('-' if sign else '') + ds[0] + ('.' + ds[1:] if len(ds) > 1 else '') + 'e%d' % (exp + len(ds) - 1)
    r = rust_show(x)
    return r if not r.lstrip('-').isdigit() else r + '.0'


def charcall(n, c, a):
    """methods of char"""
    asc = c.isascii()
    if n == 'is_whitespace': return c.isspace()
    if n == 'is_alphabetic': return c.isalpha()
    if n == 'is_numeric': return c.isnumeric()
    if n == 'is_alphanumeric': return c.isalpha() or c.isnumeric()
    if n == 'is_uppercase': return c.isupper()
    if n == 'is_lowercase': return c.islower()
    if n == 'is_ascii': return asc
    if n == 'is_ascii_digit': return c in '0123456789'
    if n == 'is_ascii_alphabetic': return asc and c.isalpha()
    if n == 'is_ascii_alphanumeric': return asc and (c.isalpha() or c.isdigit())
    if n == 'is_ascii_lowercase': return asc and c.islower()
    if n == 'is_ascii_uppercase': return asc and c.isupper()
    if n == 'is_ascii_whitespace': return c in ' \t\n\r\x0c'
    if n == 'is_ascii_punctuation': return asc and 33 <= ord(c) < 127 and not c.isalnum()
    if n == 'to_ascii_lowercase': return c.lower() if asc else c
    if n == 'to_ascii_uppercase': return c.upper() if asc else c
    if n == 'len_utf8': return len(c.encode())
    if n == 'eq_ignore_ascii_case' and isinstance(a[0], str): return c.lower() == a[0].lower()
    if n in ('is_digit', 'to_digit') and isinstance(a[0], int):
        d = '0123456789abcdefghijklmnopqrstuvwxyz'.find(c.lower()) if asc else -1
        good = 0 <= d < a[0]
        return good if n == 'is_digit' else Some(d) if good else Nothing()
    return None


def rust_expand(m, rep):
    """replacement string of Regex::replace_all"""
    if '$' not in rep:
        return rep
    def one(x):
        n = x.group(1) or x.group(2)
        if x.group(0) == '$$':
            return '$'
        try:
            return m.group(int(n) if n.isdigit() else n) or ''
        except (IndexError, error):
            return ''
    return _re.sub(r'\$\$|\$\{([^}]*)\}|\$([0-9A-Za-z_]+)', one, rep)


_re_cache = {}


def pyre(p):
    """Rust regex -> Python"""
    if type(p) is Node:
        p = p[2]
    if p not in _re_cache:
        q = p.replace('(?P<', '(?P<')
        q = _re.sub(r'\(\?<(?=[A-Za-z_])', '(?P<', q)
        flags = 0
        for f, v in (('i', _re.I), ('x', _re.X), ('s', _re.S), ('m', _re.M)):
            m = _re.match(r'\(\?([a-z]+)\)', q)
            if m and f in m.group(1):
                flags |= v
        q = _re.sub(r'^\(\?[a-z]+\)', '', q)
        if q.endswith('$') and not q.endswith('\\$') and not flags & _re.M:
            q = q[:-1] + '\\Z'
        if '&&' in q or '\\p{' in q:
            raise Unk('regex ' + p)
        try:
            _re_cache[p] = _re.compile(q, flags)
        except _re.error:
            raise Unk('regex ' + p)
    return _re_cache[p]


def ordered(k):
    if isinstance(k, str):
        return k.encode()
    if isinstance(k, (bool, int)):
        return k
    if isinstance(k, Agg) and k.p == 'tuple' or isinstance(k, tuple):
        return tuple(ordered(x) for x in (k.f if isinstance(k, Agg) else k))
    raise Unk('sort key %r' % (k,))


class HMap(dict):
    """a hash table: every one is walked in an order of its own, which changing values does not affect"""
    __slots__ = ('salt', 'order')

    def __init__(self, s, *a):
        dict.__init__(self, *a)
        self.salt, self.order = s, None


def salt(m):
    if isinstance(m, HMap):
        return m.salt
    return zlib.crc32(repr(sorted((repr(k), repr(v) if type(v) in (int, float, bool, str) else type(v).__name__) for k, v in m.items())).encode())


def walk(m):
    if ORDER is None or len(m) < 2:
        return list(m)
    if isinstance(m, HMap) and m.order is not None and len(m.order) == len(m):
        return m.order
    z = salt(m) + ORDER
    ks = sorted(m, key=lambda k: zlib.crc32(('%d %r' % (z, k)).encode()))
    if isinstance(m, HMap):
        m.order = ks
    return ks


ORDER = 0


class Tree(object):
    """decision tree over a list of condition sequences"""
    __slots__ = ('leaf', 'groups')

    def __init__(self, items, pos=0):
        self.leaf = []
        g = {}
        order = []
        for cs, payload in items:
            if pos >= len(cs):
                self.leaf.append(payload)
                continue
            c, v = cs[pos]
            k = c
            if k not in g:
                g[k] = {}
                order.append(k)
            g[k].setdefault(bool(v), []).append((cs, payload))
        self.groups = [(k, {v: Tree(x, pos + 1) for v, x in g[k].items()}) for k in order]


def rust_exp(v):
    """{:e}"""
    if v != v or abs(v) == math.inf:
        return rust_show(v)
    import decimal
    sg, ds, ex = decimal.Decimal(repr(v)).as_tuple()
    d = ''.join(map(str, ds)).rstrip('0') or '0'
    ex = ex + len(ds) - 1 if v else 0
    return ('-' if sg else '') + d[0] + ('.' + d[1:] if len(d) > 1 else '') + 'e%d' % ex


def libm(f, x):
    """as the C function: not a number outside of the domain, infinite beyond the range"""
    try:
        return f(x)
    except ValueError:
        return math.nan
    except OverflowError:
        return math.copysign(math.inf, x) if f is math.sinh else math.inf


def ln(x):
    return -math.inf if x == 0 else libm(math.log, x)


FMATH = {'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'asin': math.asin, 'acos': math.acos, 'atan': math.atan, 'sinh': math.sinh, 'cosh': math.cosh, 'tanh': math.tanh,
         'ln': math.log, 'log10': math.log10, 'log2': math.log2, 'exp2': lambda x: 2.0 ** x, 'exp_m1': math.expm1, 'ln_1p': math.log1p, 'to_radians': math.radians, 'to_degrees': math.degrees}


class Evx(Ev):
    def __init__(self, eng, env, mode='F', limit=3000000, deadline=None):
        Ev.__init__(self, eng, env, limit)
        self.mode = mode
        self.calls = None           # (ev, term, args) -> value | None
        self.events = []
        self.deadline = deadline
        self.cells = {}
        self.loopw = {}             # location written in a loop -> [(cell, projection, value)]
        self.wt = False             # loop writes go to the cells as they happen; reads see them

    # ---------------------------------------------------------------- decision trees
    def tree(self, holder, items):
        t = getattr(holder, 'get', None)
        return t

    def walk(self, tr):
        for p in tr.leaf:
            return p
        for c, br in tr.groups:
            if c.t[0] == 'loop':
                self.loop(c[1])
                v = True
            else:
                v = self.ev(c)
                if not isinstance(v, bool):
                    raise Unk('cond %r' % (v,))
            n = br.get(v)
            if n is not None:
                r = self.walk(n)
                if r is not None:
                    return r
        return None

    def loop(self, lid):
        info = self.e.loops[lid]
        tr = info.get('_tree')
        if tr is None:
            tr = info['_tree'] = Tree([(b['conds'], b) for b in info['backs']])
        vals = {}
        for p, i in info['phis'].items():
            if not isn(i, 'uninit'):
                try:
                    vals[p] = self.ev(self.e.deep(i, info['st0']) if i.r else i)
                except Panicked:
                    raise
                except (Unk, OOB) as x:
                    vals[p] = Sym('unk: %s' % x)
        for p, v in vals.items():
            self.bind(p, v)
        if self.wt:
            self.resync(vals)
        n = 0
        while True:
            n += 1
            if n > 20000:
                raise Unk('loop bound')
            hit = self.walk(tr)
            if hit is None:
                return
            nx = {}
            for p, t in hit['next'].items():
                if isn(t, 'uninit'):
                    continue
                try:
                    nx[p] = self.ev(self.e.deep(t, hit['st']) if t.r else t)
                except Panicked:
                    raise
                except (Unk, OOB) as x:
                    nx[p] = Sym('unk: %s' % x)
            self.note(hit)
            if n in (60, 600, 2900) and not self.wt and self.same_state(info, hit, vals, nx):
                raise Diverges('loop %r repeats its state' % (lid,))
            vals = nx
            for p, v in nx.items():
                if p.t[0] == 'phi' and p[2].t[0] == 'P' and hit['next'][p] is not p:
                    try:
                        c = self.ev(p[2][1])
                    except (Unk, OOB):
                        c = None
                    if isinstance(c, Cell):
                        self.loopw.setdefault(p[2], []).append((c, p[3], v))
                        if self.wt:
                            if isinstance(v, Sym):
                                raise Unk('written %r' % v)
                            c.v = self.proj_set(c.v, p[3], v)
            for p, v in nx.items():
                self.env[p] = v
            self.memo = {}
            if self.wt:
                self.resync(nx)
            for l in [l for l in self.cells if l in hit['st'].mem and l not in info['st0'].mem]:
                del self.cells[l]           # allocated by this iteration

    def resync(self, ph):
        for p in ph:
            if p.t[0] == 'phi' and p[2].t[0] == 'P':
                self.memo = {}
                try:
                    c = self.ev(p[2][1])
                except (Unk, OOB):
                    continue
                if isinstance(c, Cell):
                    v = c.v
                    for e in p[3]:
                        if e[0] != 'f' or not isinstance(v, Agg):
                            raise Unk('cell projection %r' % (e,))
                        v = v.f[e[2]]
                    self.env[p] = v
        self.memo = {}

    def note(self, back):
        pass

    def same_state(self, info, hit, a, b):
        """does this iteration leave every value the loop carries as it was?  (Only where that is exact: no opaque
        call in the iteration, no value which could not be followed, no modular image of a float.)"""
        if any(p not in a for p in b) or any(not isn(t, 'uninit') and p not in b for p, t in hit['next'].items()):
            return False
        if any(x[0] == 'call' for x in hit['st'].ev[len(info['st0'].ev):]):
            return False
        ka = key([a[p] for p in b])
        if ka != key([b[p] for p in b]):
            return False
        t = repr(ka)
        return 'unk' not in t and ' object at ' not in t and '<' not in t and "('F'," not in t

    def conds(self, cs):
        tr = Tree([(cs, True)])
        return self.walk(tr) is True

    # ---------------------------------------------------------------- numbers
    def num(self, v):
        if self.mode == 'R':
            return float(v)
        if v != v or v in (float('inf'), float('-inf')):
            return INF
        return fl(v)

    def rel(self, a, b):
        if isinstance(a, float) and isinstance(b, float):
            return a, b
        if isinstance(a, F) and isinstance(b, F) and a.q is not None and b.q is not None:
            return a.q, b.q
        raise Unk('order of %r %r' % (a, b))

    def same(self, a, b):
        if isinstance(a, float) or isinstance(b, float):
            return a == b
        if isinstance(a, Inf) or isinstance(b, Inf):
            return False
        return a == b

    def ev1(self, t):
        k = t.t[0]
        E = self.ev
        if self.hook is not None:
            r = self.hook(self, t)
            if r is not None:
                return r
        f = getattr(self, 'k_' + k, None) if isinstance(k, str) and k.isidentifier() else None
        if f is not None:
            return f(t)
        return Ev.ev1(self, t)

    def k_c(self, t):
        if t[1] == 'float':
            return self.num(t[2])
        return t[2]

    def arith(self, t, op):
        a, b = self.ev(t[1]), self.ev(t[2])
        if self.mode == 'R':
            if not isinstance(a, float) or not isinstance(b, float):
                raise Unk('float op over %r %r' % (a, b))
            if op == '/':
                if b == 0:
                    return math.nan if a == 0 or a != a else math.copysign(math.inf, a) * math.copysign(1, b)
                try:
                    return a / b
                except OverflowError:
                    return math.inf
            return a + b if op == '+' else a - b if op == '-' else a * b
        if not isinstance(a, (F, Inf)) or not isinstance(b, (F, Inf)):
            raise Unk('float op over %r %r' % (a, b))
        return a + b if op == '+' else a - b if op == '-' else a * b if op == '*' else a / b

    def k_fadd(self, t): return self.arith(t, '+')
    def k_fsub(self, t): return self.arith(t, '-')
    def k_fmul(self, t): return self.arith(t, '*')
    def k_fdiv(self, t): return self.arith(t, '/')
    def k_i2f(self, t):
        v = self.ev(t[1])
        if isinstance(v, (F, float)):
            return v                      # From<Variable> for f64 and friends
        if isinstance(v, int):
            return self.num(v)
        raise Unk('i2f %r' % (v,))

    def k_flt(self, t):
        a, b = self.rel(self.ev(t[1]), self.ev(t[2]))
        return a < b

    def k_fle(self, t):
        a, b = self.rel(self.ev(t[1]), self.ev(t[2]))
        return a <= b

    def k_feq(self, t):
        return self.same(self.ev(t[1]), self.ev(t[2]))

    def k_ff(self, t):
        a = [self.ev(x) for x in t.t[2:]]
        n = t[1]
        if n in ('abs', 'max', 'min') and a and all(isinstance(x, F) and x.q is not None for x in a):
            return abs(a[0]) if n == 'abs' else max(a, key=lambda x: x.q) if n == 'max' else min(a, key=lambda x: x.q)
        if n in ('is_finite', 'is_nan', 'is_infinite', 'is_normal', 'is_subnormal') and isinstance(a[0], (F, Inf)):
            # an element of the field stands for any (normal) real number
            if isinstance(a[0], F):
                return n == 'is_finite' or n == 'is_normal' and a[0].v != 0
            if n in ('is_nan', 'is_infinite'):
                raise Unk('infinite or not a number')
            return False
        if self.mode == 'R' and n in ('is_normal', 'is_subnormal') and isinstance(a[0], float):
            tiny = a[0] != 0 and abs(a[0]) < 2.2250738585072014e-308
            return tiny if n == 'is_subnormal' else a[0] != 0 and math.isfinite(a[0]) and not tiny
        if self.mode == 'R' and all(isinstance(x, (float, int)) for x in a):
            x = a[0]
            try:
                if n == 'abs': return abs(x)
                if n == 'sqrt': return math.sqrt(x) if x >= 0 else math.nan
                if n == 'max': return max(x, a[1]) if x == x and a[1] == a[1] else (a[1] if x != x else x)
                if n == 'min': return min(x, a[1]) if x == x and a[1] == a[1] else (a[1] if x != x else x)
                if n == 'clamp': return a[1] if x < a[1] else a[2] if x > a[2] else x
                if n == 'is_nan': return x != x
                if n == 'is_finite': return math.isfinite(x)
                if n == 'is_infinite': return math.isinf(x)
                if n == 'round': return math.copysign(math.floor(abs(x) + 0.5), x) if math.isfinite(x) else x
                if n == 'floor': return float(math.floor(x)) if math.isfinite(x) else x
                if n == 'ceil': return float(math.ceil(x)) if math.isfinite(x) else x
                if n == 'trunc': return float(math.trunc(x)) if math.isfinite(x) else x
                if n == 'signum': return math.copysign(1.0, x) if x == x else x
                if n == 'powi' or n == 'powf': return fpow(x, a[1])
                if n == 'exp': return libm(math.exp, x)
                if n == 'hypot': return math.hypot(x, a[1])
                if n == 'fract': return x - math.trunc(x) if math.isfinite(x) else math.nan
                if n == 'copysign': return math.copysign(x, a[1])
                if n == 'cbrt': return math.copysign(abs(x) ** (1 / 3), x)
                if n == 'log': return ln(x) / ln(a[1]) if ln(a[1]) else math.copysign(math.inf, ln(x)) * math.copysign(1, ln(a[1])) if ln(x) else math.nan
                if n in ('ln', 'log10', 'log2') and x == 0:
                    return -math.inf
                if n in FMATH:
                    return libm(FMATH[n], x)
                if n == 'is_sign_negative': return math.copysign(1, x) < 0
                if n == 'is_sign_positive': return math.copysign(1, x) > 0
            except ValueError:
                return math.nan
            except OverflowError:
                raise Unk('ff ' + n)
            raise Unk('ff ' + n)
        if any(isinstance(x, Inf) for x in a):
            return INF
        if n == 'powf' or n == 'powi':
            return uf('pow', *[self.num(x) if isinstance(x, int) else x for x in a])
        return uf(n, *a)

    def tyname(self, k):
        return str(self.e.db.ty(k).get('n') or k)

    def k_cast(self, t):
        v = self.ev(t[2])
        ty = self.tyname(t[1])
        v = address(v)
        if isinstance(v, str) and len(v) == 1:
            v = ord(v)
        if isinstance(v, int) and (ty in ('usize', 'isize') or ty[:1] in 'iu' and ty[1:].isdigit()):
            b = 64 if ty.endswith('size') else int(ty[1:])
            v = int(v) % (1 << b)
            return v - (1 << b) if ty[0] == 'i' and v >> (b - 1) else v
        if isinstance(v, float) and ty == 'f32':
            import struct
            try:
                return struct.unpack('f', struct.pack('f', v))[0]
            except OverflowError:
                return math.copysign(math.inf, v)
        if isinstance(v, (float, F)) and ty == 'f64':
            return v
        raise Unk('cast to ' + ty)

    def k_f2i(self, t):
        v = self.ev(t[2])
        if isinstance(v, float):
            if v != v:
                return 0
            ty = self.tyname(t[1])
            b = int(ty[1:]) if ty[1:].isdigit() else 64
            lo, hi = (0, 2 ** b - 1) if ty.startswith('u') else (-2 ** (b - 1), 2 ** (b - 1) - 1)
            return max(lo, min(hi, int(v) if math.isfinite(v) else (hi if v > 0 else lo)))
        raise Unk('f2i')

    # ---------------------------------------------------------------- references are transparent
    def k_deref(self, t):
        v = self.ev(t[1])
        return v.v if isinstance(v, Cell) else v

    def k_Rc(self, t):
        k = t[2] if len(t) > 2 else t
        if k not in self.cells:
            self.cells[k] = Cell(self.ev(t[1]))
        return self.cells[k]

    def k_weakof(self, t): return self.ev(t[1])

    def k_sameptr(self, t):
        a, b = self.ev(t[1]), self.ev(t[2])
        if not (isinstance(a, Cell) and isinstance(b, Cell)):
            raise Unk('pointers %r and %r' % (a, b))
        return a is b

    def k_clo(self, t):
        return Clo(t[1], [self.ev(x) for x in t.t[2:]])

    def written(self, mem):
        """{cell: contents} of a memory snapshot"""
        out = {}
        for at in mem[1]:
            loc, content = at[1], at[2]
            if loc[1].t[0] == 'sym' and str(loc[1][1]).startswith('static:'):
                continue
            if loc in self.loopw:
                for c, proj, v in self.loopw[loc]:
                    x = out.get(id(c), (c, c.v))[1]
                    out[id(c)] = (c, self.proj_set(x, proj, v))
                continue
            try:
                c = self.ev(loc[1])
            except OOB:
                continue
            if isinstance(c, Cell):
                v = self.ev(content)
                if v != c.v:
                    if id(c) in out and loc not in self.loopw and out[id(c)][1] != v:
                        raise Unk('one object written under two names')
                    out[id(c)] = (c, v)
        return out

    def proj_set(self, x, proj, v):
        if not proj:
            return v
        e = proj[0]
        if e[0] != 'f' or not isinstance(x, Agg):
            raise Unk('cell projection %r' % (e,))
        f = list(x.f)
        f[e[2]] = self.proj_set(f[e[2]], proj[1:], v)
        return Agg(x.p, x.vi, f)
    def k_mut(self, t): return self.ev(t[1])

    def k_ref(self, t):
        loc, proj = t[1], t[2]
        if loc[0] == 'K':
            v = loc[1]
            if type(v) is Node and not proj:
                return self.ev(v)
        if loc[0] == 'P':
            v = self.ev(self.e.initial(loc))
            for e in proj:
                if isinstance(v, Cell):
                    v = v.v
                if e[0] == 'sub':
                    v = self.slice(v, self.i(e[1]), self.i(e[2]))
                elif e[0] == 'f' and isinstance(v, Agg) and (e[1] is None or v.vi is None or e[1] == v.vi):
                    v = v.f[e[2]]
                elif e[0] == 'key' and isinstance(v, dict):
                    k = hk(self.ev(e[1]))
                    if k not in v:
                        raise OOB('key')
                    v = v[k]
                elif e[0] == 'ix' and isinstance(v, list):
                    i = self.i(e[1])
                    if not 0 <= i < len(v):
                        raise OOB('ix')
                    v = v[i]
                else:
                    raise Unk('ref %s' % show(t)[:300])
            return v
        raise Unk('ref %s' % show(t)[:300])

    def k_agg(self, t):
        return Agg(t[1], t[2], [self.lazy(x) for x in t.t[3:]])

    def lazy(self, x):
        """aggregate fields that are not needed must not block the evaluation"""
        try:
            return self.ev(x)
        except Unk as e:
            return Sym('unk: %s' % e)

    def k_fld(self, t):
        b = self.ev(t[1])
        if isinstance(b, Cell):
            b = b.v
        if isinstance(b, Clo):
            return b.caps[t[3]]
        if isinstance(b, Agg):
            if t[2] is not None and b.vi != t[2] and b.vi is not None:
                raise Unk('variant')
            return b.f[t[3]]
        if isinstance(b, tuple):
            return b[t[3]]
        raise Unk('fld of %r' % (b,))

    def k_setf(self, t):
        b = self.ev(t[1])
        if isinstance(b, Agg):
            f = list(b.f)
            f[t[3]] = self.ev(t[4])
            return Agg(b.p, b.vi, f)
        if isinstance(b, Clo):
            f = list(b.caps)
            f[t[3]] = self.ev(t[4])
            return Clo(b.k, f)
        raise Unk('setf')

    # ---------------------------------------------------------------- sequences
    def k_len(self, t):
        s = self.ev(t[1])
        if isinstance(s, (list, str)):
            return len(s) if isinstance(s, list) else len(s.encode())
        if isinstance(s, dict):
            return len(s)
        raise Unk('len of %r' % (s,))

    def k_strlen(self, t): return self.k_len(t)

    def k_seqeq(self, t):
        a, b = self.ev(t[1]), self.ev(t[2])
        if isinstance(a, str) and isinstance(b, str):
            return str(a) == str(b)
        if type(a) is type(b) and isinstance(a, list) and not (isinstance(a, list) and any(isinstance(x, Sym) for x in a + b)):
            return same_items(a, b)
        raise Unk('seqeq %r %r' % (a, b))

    def k_eqv(self, t):
        a, b = self.ev(t[1]), self.ev(t[2])
        if isinstance(a, str) and isinstance(b, int):
            b = chr(b)
        if isinstance(b, str) and isinstance(a, int):
            a = chr(a)
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        raise Unk('eqv')

    def k_strcmp(self, t):
        a, b = self.ev(t[1]), self.ev(t[2])
        if not isinstance(a, str) or not isinstance(b, str):
            raise Unk('strcmp')
        a, b = a.encode(), b.encode()
        return Agg('core::cmp::Ordering', (a > b) - (a < b) + 1, [])

    def k_arrange(self, t):
        a = self.ev(t[1])
        if not isinstance(a, list):
            raise Unk('arrange')
        if t[2] == 'reverse':
            return a[::-1]
        if t[2] in ('by', 'key'):
            xs = list(t[3].t[1:])
            f = self.case(xs, t.t[4:])
            if t[2] == 'key':
                return sorted(a, key=lambda y: ordered(f(y)))

            def cmp(y, z):
                o = f(y, z)
                if isinstance(o, Agg) and o.p == 'core::cmp::Ordering':
                    return o.vi - 1
                raise Unk('ordering %r' % (o,))
            return sorted(a, key=functools.cmp_to_key(cmp))
        if not (all(isinstance(x, str) for x in a) or all(isinstance(x, (int, float)) for x in a)):
            raise Unk('arrange')
        if t[2] == 'dedup':
            return [x for i, x in enumerate(a) if not i or a[i - 1] != x]
        return sorted(a, key=lambda x: x.encode() if isinstance(x, str) else x)

    def k_bop(self, t):
        a, b = self.ev(t[2]), self.ev(t[3])
        if isinstance(a, str) and isinstance(b, int):
            b = chr(b)
        if isinstance(b, str) and isinstance(a, int):
            a = chr(a)
        o = t[1]
        if type(a) is type(b) and isinstance(a, (str, int)) and o in ('Lt', 'Le', 'Gt', 'Ge'):
            return {'Lt': a < b, 'Le': a <= b, 'Gt': a > b, 'Ge': a >= b}[o]
        raise Unk('bop ' + str(o))

    def k_contains(self, t):
        a, b = self.ev(t[1]), self.ev(t[2])
        if isinstance(a, list):
            return b in a
        raise Unk('contains')

    # ---------------------------------------------------------------- strings
    def text(self, term, v):
        if isinstance(v, str):
            return v
        if isinstance(v, int) and not isinstance(v, bool):
            ty = None
            if isn(term, 'item', 'sym', 'deref', 'elem'):
                ty = term.t[3] if term.t[0] in ('item', 'elem') and len(term) > 3 else term.t[2]
            if isn(term, 'c') and term[1] in ('int', 'char'):
                return chr(v)
            return chr(v) if ty == 'char' else str(v)
        if isinstance(v, float):
            return rust_show(v)
        raise Unk('text of %r' % (v,))

    def k_cat(self, t):
        out = ''
        for x in t.t[1:]:
            v = self.ev(x)
            if isinstance(v, Sym):
                return Sym('unk: text with a part that is not followed: %s' % str(v)[:90])
            out += v if isinstance(v, str) else chr(v) if isinstance(v, int) else self.text(x, v)
        return out

    def k_shown(self, t):
        v = self.ev(t[2])
        if t[1] == 'exp' and isinstance(v, float):
            return rust_exp(v)
        if t[1].startswith('display:'):
            return self.styled(t[2], v, *[int(x) for x in t[1][8:].split(',')])
        if t[1] == 'debug' or t[1].startswith('debug:') and not int(t[1].split(':')[1].split(',')[0]) >> 24 & 0x1e:
            if isinstance(v, str) and not isinstance(v, Sym):
                return rust_debug(v)
            if isinstance(v, float):
                return rust_debug(v)
        if t[1] != 'display':
            return Sym('unk: debug format')
        return self.text(t[2], v)

    def styled(self, term, v, flags, width, prec):
        fill, align = chr(flags & 0x1fffff), flags >> 29 & 3
        if flags >> 21 & 0x3f & ~0x1 or isinstance(v, Sym):
            return Sym('unk: format options')
        num = isinstance(v, (int, float)) and not isinstance(v, bool) and not (isinstance(term, Node) and isn(term, 'c') and term[1] == 'char')
        if num and flags >> 28 & 1 and isinstance(v, float):
            x = '%.*f' % (prec, v) if v == v and abs(v) != float('inf') else rust_show(v)
        else:
            x = self.text(term, v)
            if flags >> 28 & 1 and isinstance(v, str):
                x = x[:prec]
        if num and flags >> 21 & 1 and not x.startswith('-'):
            x = '+' + x
        if flags >> 27 & 1 and len(x) < width:
            n = width - len(x)
            if align == 3:
                align = 1 if num else 0
            l = 0 if align == 0 else n if align == 1 else n // 2
            x = fill * l + x + fill * (n - l)
        return x

    def k_fmt(self, t):
        return Sym('unk: formatted text')

    def k_tostr(self, t):
        return self.text(t[1], self.ev(t[1]))

    def source(self, t):
        """items of an opaque iterator source"""
        if isn(t, 'src') and t[1] == 'find_iter':
            text = self.ev(t[3])
            if not isinstance(text, str):
                raise Unk('find_iter')
            return [Match(m) for m in self.rx(t[2]).finditer(text)]
        if isn(t, 'src') and t[1] == 'captures_iter':
            text = self.ev(t[3])
            if not isinstance(text, str):
                raise Unk('captures_iter')
            return [Caps(m) for m in self.rx(t[2]).finditer(text)]
        if isn(t, 'src') and t[1] == 'char_indices':
            text = self.ev(t[2])
            return [Agg('tuple', 0, [len(text[:i].encode()), c]) for i, c in enumerate(text)]
        if isn(t, 'src'):
            s = self.ev(t[2])
            if isinstance(s, str):
                if t[1] == 'chars':
                    return list(s)
                if t[1] in ('split', 'split_terminator', 'rsplit', 'split_inclusive', 'matches', 'match_indices'):
                    pat = self.ev(t[3])
                    hs = self.hits(s, pat)
                    if t[1] == 'matches':
                        return [s[x:y] for x, y in hs]
                    if t[1] == 'match_indices':
                        return [Agg('tuple', 0, [len(s[:x].encode()), s[x:y]]) for x, y in hs]
                    if t[1] == 'split_inclusive':
                        r = self.pieces(s, [(y, y) for x, y in hs])
                        return r[:-1] if r[-1] == '' else r
                    r = self.pieces(s, hs)
                    if t[1] == 'split_terminator' and r[-1] == '':
                        r.pop()
                    return r[::-1] if t[1] == 'rsplit' else r
                if t[1] in ('splitn', 'rsplitn'):
                    k = self.ev(t[3])
                    hs = self.hits(s, self.ev(t[4]))
                    if not isinstance(k, int) or k < 1:
                        raise Unk('splitn')
                    return self.pieces(s, hs[:k - 1]) if t[1] == 'splitn' else self.pieces(s, hs[max(0, len(hs) - k + 1):])[::-1]
                if t[1] == 'bytes':
                    return list(s.encode())
                if t[1] == 'split_ascii_whitespace':
                    return s.split()
                if t[1] == 'lines':
                    r = s.split('\n')
                    if r and r[-1] == '':
                        r.pop()
                    return [x[:-1] if x.endswith('\r') else x for x in r]
                if t[1] == 'split_whitespace':
                    return s.split()
        v = self.ev(t)
        if isinstance(v, list):
            return v
        raise Unk('source %s: %s' % (show(t)[:80], str(v)[:100]))

    def rx(self, t):
        if not isn(t, 'regex'):
            r = self.ev(t)
            if isinstance(r, Rx):
                return r.p
            raise Unk('regex')
        return self.k_regex(t).p

    def k_regex(self, t):
        p = t[1]
        if type(p) is Node and p.t[0] != 'c':
            p = self.ev(p)
            if not isinstance(p, str):
                raise Unk('regex pattern')
        return Rx(pyre(p))

    def k_hasnext(self, t): return self.i(t[2]) < len(self.source(t[1]))

    def k_item(self, t):
        s = self.source(t[1])
        i = self.i(t[2])
        if not 0 <= i < len(s):
            raise OOB('item')
        return s[i]

    def slice(self, v, lo, hi):
        if isinstance(v, str):
            b = v.encode()
            if not 0 <= lo <= hi <= len(b):
                raise OOB('slice')
            try:
                return b[lo:hi].decode()
            except UnicodeDecodeError:
                raise OOB('char boundary')
        if isinstance(v, list):
            if not 0 <= lo <= hi <= len(v):
                raise OOB('slice')
            return v[lo:hi]
        raise Unk('slice of %r' % (v,))

    # ---------------------------------------------------------------- maps
    def mp(self, t):
        m = self.ev(t)
        if not isinstance(m, dict):
            raise Unk('map expected, got %r' % (m,))
        return m

    def k_mapnew(self, t): return HMap(0)

    def k_mapins(self, t):
        b = self.mp(t[1])
        k = hk(self.ev(t[2]))
        # only a new key changes the order in which a map is walked
        m = HMap(salt(b) if k in b else zlib.crc32(('%d %r' % (salt(b), k)).encode()), b)
        m[k] = self.lazy(t[3])
        return m

    k_mapset = k_mapins

    def k_mapunion(self, t):
        m = self.mp(t[1])
        o = self.ev(t[2])
        if not isinstance(o, dict):
            raise Unk('mapunion')
        m = HMap(salt(m) if all(k in m for k in o) else zlib.crc32(('%d %d' % (salt(m), salt(o))).encode()), m)
        m.update(o)
        return m

    def k_maprem(self, t):
        m = self.mp(t[1])
        m = HMap(salt(m), m)
        m.pop(hk(self.ev(t[2])), None)
        return m

    def k_mapget(self, t):
        m = self.mp(t[1])
        k = hk(self.ev(t[2]))
        if k not in m:
            raise OOB('key %r' % (k,))
        return m[k]

    def k_has(self, t): return hk(self.ev(t[2])) in self.mp(t[1])
    def k_maplen(self, t): return len(self.mp(t[1]))

    def k_keyat(self, t):
        m = self.mp(t[1])
        i = self.i(t[2])
        ks = walk(m)
        if not 0 <= i < len(ks):
            raise OOB('keyat')
        return unhk(ks[i])

    def k_discr(self, t):
        b = self.ev(t[1])
        if isinstance(b, Agg) and b.vi is not None:
            a = self.db.adts.get(b.p) if getattr(self, 'db', None) else None
            d = a['variants'][b.vi].get('discr') if a and b.vi < len(a['variants']) else None
            return b.vi if d is None else int(d)
        raise Unk('discr of %r' % (b,))

    def k_mapold(self, t):
        return Some(self.ev(t[2])) if self.ev(t[1]) else Nothing()

    # ---------------------------------------------------------------- calls
    def k_call(self, t):
        p = t[1]
        args = t[2]
        if self.calls is not None:
            r = self.calls(self, t, p, args)
            if r is not None:
                return r
        n = p.split('::')[-1]
        if p.startswith(('regex::', '<regex::')):
            r = self.rxcall(p, n, args)
            if r is not None:
                return r
        if p.endswith('SliceOrd>::compare'):
            a, b = [ordered(x) if isinstance(x, str) else x for x in (self.ev(y) for y in args[:2])]
            if type(a) is type(b) and isinstance(a, (bytes, list)) and all(type(x) is int for y in (a, b) for x in y):
                return Agg('core::cmp::Ordering', (a > b) - (a < b) + 1, [])
        if p in ('alloc::slice::<impl [T]>::join', 'alloc::slice::<impl [T]>::concat'):
            a = [self.ev(x) for x in args]
            if isinstance(a[0], list) and all(isinstance(x, str) for x in a[0]):
                return (a[1] if len(a) > 1 else '').join(a[0])
        if '::methods::<impl char>::' in p or p.startswith(('core::char::', 'core::unicode::')):
            a = [self.ev(x) for x in args]
            if a and (isinstance(a[0], str) and len(a[0]) == 1 or isinstance(a[0], int) and not isinstance(a[0], bool)):
                r = charcall(n, a[0] if isinstance(a[0], str) else chr(a[0]), a[1:])
                if r is not None:
                    return r
        if 'str' in p and p.startswith(('core::str', 'alloc::str', 'alloc::string')):
            a = [self.ev(x) for x in args]
            s = a[0]
            if isinstance(s, str):
                r = self.strcall(n, s, a[1:], t)
                if r is not None:
                    return r
        raise Unk('call ' + p)

    def rxcall(self, p, n, args):
        if '::Match::' in p or '::Match::<' in p:
            v = self.ev(args[0])
            if isinstance(v, Match):
                if n == 'as_str': return str(v)
                if n == 'start': return v.span()[0]
                if n == 'end': return v.span()[1]
                if n == 'len': return v.span()[1] - v.span()[0]
                if n == 'is_empty': return str(v) == ''
                if n == 'range': return Agg('core::ops::range::Range', 0, list(v.span()))
            return None
        if '::Captures::match_' in p:
            v = self.ev(args[0])
            if isinstance(v, Caps):
                return v.m.span()[n == 'match_end']
            return None
        if '::Captures::' in p:
            v = self.ev(args[0])
            if isinstance(v, Caps) and n == 'len':
                return v.m.re.groups + 1
            if isinstance(v, Caps) and n == 'extract':
                return Agg('tuple', 0, [v.m.group(0), list(v.m.groups())]) if None not in v.m.groups() else None
            if isinstance(v, Caps) and n in ('get', 'name'):
                g = self.ev(args[1])
                try:
                    return Nothing() if v.m.group(g) is None else Some(Match(v.m, g))
                except IndexError:
                    return Nothing()
            return None
        if 'Captures<' in p and n == 'index':
            v, g = self.ev(args[0]), self.ev(args[1])
            if isinstance(v, Caps) and isinstance(g, (int, str)):
                try:
                    r = v.m.group(g)
                except IndexError:
                    r = None
                if r is None:
                    raise Panicked('no group %r' % (g,))
                return r
            return None
        if '::Regex::' in p and n in ('replace_all', 'replace', 'is_match', 'find', 'captures'):
            r = self.rx(args[0])
            text = self.ev(args[1])
            if not isinstance(text, str):
                return None
            if n == 'is_match':
                return r.search(text) is not None
            if n in ('find', 'captures'):
                m = r.search(text)
                return Nothing() if m is None else Some(Match(m) if n == 'find' else Caps(m))
            rep = self.ev(args[2])
            if isinstance(rep, Agg) and rep.p.endswith('NoExpand'):
                lit = rep.f[0]
                return r.sub(lambda m: lit, text, 0 if n == 'replace_all' else 1)
            if isinstance(rep, str):
                return r.sub(lambda m: rust_expand(m, rep), text, 0 if n == 'replace_all' else 1)
        return None

    def case(self, xs, alts):
        """a pure function of the abstract values xs"""
        tr = Tree([([(c[1], c[2][2]) for c in a.t[2:]], a) for a in alts])

        def f(*vals):
            keep, memo = self.env, self.memo
            self.env, self.memo = dict(keep), {}
            self.env.update(zip(xs, vals))
            try:
                a = self.walk(tr)
                if a is None:
                    raise Unk('predicate')
                return self.ev(a[1])
            finally:
                self.env, self.memo = keep, memo
        return f

    def k_chpred(self, t):
        """a character predicate"""
        g = self.case([t[1]], t.t[2:])

        def f(ch):
            v = g(ch)
            if not isinstance(v, bool):
                raise Unk('predicate %r' % (v,))
            return v
        return Pred(f)

    def hits(self, s, pat):
        """where a pattern matches: [(start, end)] in characters, left to right, not overlapping"""
        if isinstance(pat, int) and not isinstance(pat, bool):
            pat = chr(pat)
        if isinstance(pat, str):
            if pat == '':
                raise Unk('empty pattern')
            out, i = [], 0
            while True:
                i = s.find(pat, i)
                if i < 0:
                    return out
                out.append((i, i + len(pat)))
                i += len(pat)
        if isinstance(pat, list) and all((isinstance(c, int) and not isinstance(c, bool)) or (isinstance(c, str) and len(c) == 1) for c in pat):
            cs_ = {chr(c) if isinstance(c, int) else c for c in pat}
            return [(i, i + 1) for i, c in enumerate(s) if c in cs_]
        if isinstance(pat, Pred):
            return [(i, i + 1) for i, c in enumerate(s) if pat.f(c)]
        raise Unk('pattern %r' % (pat,))

    def pieces(self, s, hs):
        out, i = [], 0
        for x, y in hs:
            out.append(s[i:x])
            i = y
        return out + [s[i:]]

    def strcall(self, n, s, a, t):
        bl = lambda i: len(s[:i].encode())
        if n == 'trim': return s.strip()
        if n == 'trim_start': return s.lstrip()
        if n == 'trim_end': return s.rstrip()
        if n == 'is_empty': return s == ''
        if n == 'len': return len(s.encode())
        if n in ('to_owned', 'to_string', 'as_str', 'as_ref', 'into', 'clone', 'deref', 'borrow', 'as_bytes'): return s
        if n == 'to_lowercase' or n == 'to_ascii_lowercase': return s.lower()
        if n == 'to_uppercase' or n == 'to_ascii_uppercase': return s.upper()
        if n == 'eq_ignore_ascii_case' and isinstance(a[0], str): return s.lower() == a[0].lower()
        if n == 'repeat' and isinstance(a[0], int): return s * a[0]
        if n == 'is_ascii': return s.isascii()
        if n == 'split_at' and isinstance(a[0], int):
            b = s.encode()
            if not 0 <= a[0] <= len(b):
                raise Panicked('split_at')
            try:
                return Agg('tuple', 0, [b[:a[0]].decode(), b[a[0]:].decode()])
            except UnicodeDecodeError:
                raise Panicked('split_at')
        pat = a[0] if a else None
        if pat == '' and isinstance(pat, str):
            if n in ('contains', 'starts_with', 'ends_with'): return True
            if n in ('strip_prefix', 'strip_suffix'): return Some(s)
            if n == 'find': return Some(0)
            return None
        if n in ('contains', 'find', 'rfind', 'starts_with', 'ends_with', 'strip_prefix', 'strip_suffix', 'replace', 'replacen', 'split_once', 'rsplit_once', 'trim_matches', 'trim_start_matches', 'trim_end_matches'):
            if isinstance(pat, int) and not isinstance(pat, bool):
                pat = chr(pat)
            if isinstance(pat, str):
                if n == 'starts_with': return s.startswith(pat)
                if n == 'ends_with': return s.endswith(pat)
                if n == 'strip_prefix': return Some(s[len(pat):]) if s.startswith(pat) else Nothing()
                if n == 'strip_suffix': return Some(s[:len(s) - len(pat)]) if s.endswith(pat) else Nothing()
                if n == 'rfind':
                    i = s.rfind(pat)
                    return Nothing() if i < 0 else Some(bl(i))
                if n == 'rsplit_once':
                    i = s.rfind(pat)
                    return Nothing() if i < 0 else Some(Agg('tuple', 0, [s[:i], s[i + len(pat):]]))
                if n in ('trim_start_matches', 'trim_end_matches', 'trim_matches'):
                    r = s
                    while n != 'trim_end_matches' and r.startswith(pat):
                        r = r[len(pat):]
                    while n != 'trim_start_matches' and r.endswith(pat):
                        r = r[:-len(pat)]
                    return r
            hs = self.hits(s, pat)
            if n == 'contains': return bool(hs)
            if n == 'find': return Some(bl(hs[0][0])) if hs else Nothing()
            if n == 'rfind': return Some(bl(hs[-1][0])) if hs else Nothing()
            if n == 'starts_with': return bool(hs) and hs[0][0] == 0
            if n == 'ends_with': return bool(hs) and hs[-1][1] == len(s)
            if n == 'strip_prefix': return Some(s[1:]) if hs and hs[0][0] == 0 else Nothing()
            if n == 'strip_suffix': return Some(s[:-1]) if hs and hs[-1][1] == len(s) else Nothing()
            if n == 'split_once' and not hs or n == 'rsplit_once' and not hs: return Nothing()
            if n == 'split_once': return Some(Agg('tuple', 0, [s[:hs[0][0]], s[hs[0][1]:]]))
            if n == 'rsplit_once': return Some(Agg('tuple', 0, [s[:hs[-1][0]], s[hs[-1][1]:]]))
            if n == 'replace' and isinstance(a[1], str): return a[1].join(self.pieces(s, hs))
            if n == 'replacen' and isinstance(a[1], str): return a[1].join(self.pieces(s, hs[:a[2]]))
            if n.startswith('trim_'):
                at = {x for x, y in hs}
                i, j = 0, len(s)
                while n != 'trim_end_matches' and i < j and i in at:
                    i += 1
                while n != 'trim_start_matches' and j > i and j - 1 in at:
                    j -= 1
                return s[i:j]
            return None
        if n == 'parse':
            ty = t[3] if len(t) > 3 else ''
            ty = show(ty) if type(ty) is Node else str(ty)
            if 'f64' in ty:
                v = rust_f64(s)
                return Ok(self.num(v)) if v is not None else Er(Sym('parse'))
            if 'f32' in ty:
                import struct
                v = rust_f64(s)
                if v is not None:
                    try:
                        v = struct.unpack('f', struct.pack('f', v))[0]
                    except OverflowError:
                        v = math.copysign(math.inf, v)
                return Ok(self.num(v)) if v is not None else Er(Sym('parse'))
            w = _re.search(r'\b([ui])(8|16|32|64|128|size)\b', ty)
            if w:
                n = 64 if w.group(2) == 'size' else int(w.group(2))
                lo, hi = (0, 1 << n) if w.group(1) == 'u' else (-(1 << n - 1), 1 << n - 1)
                good = _re.fullmatch(r'\+?[0-9]+' if not lo else r'[+-]?[0-9]+', s) and lo <= int(s) < hi
                return Ok(int(s)) if good else Er(Sym('parse'))
        return None

    def k_fn(self, t): return ('rfn', t[1])

    def k_anyhow(self, t): return self.ev(t[1])

    def k_sinit(self, t):
        s = self.ev(t[1])
        if not isinstance(s, list):
            raise Unk('sinit')
        return s[:-1]

    def k_sremove(self, t):
        s, i = self.ev(t[1]), self.i(t[2])
        if not isinstance(s, list):
            raise Unk('sremove')
        if not 0 <= i < len(s):
            raise OOB('remove')
        return s[:i] + s[i + 1:]

    def k_sinsert(self, t):
        s, i = self.ev(t[1]), self.i(t[2])
        if not isinstance(s, list):
            raise Unk('sinsert')
        if not 0 <= i <= len(s):
            raise OOB('insert')
        return s[:i] + [self.ev(t[3])] + s[i:]

    def k_poly(self, t):
        r = 0
        for m, c in t[1]:
            p = c
            for a in m:
                x = address(self.ev(a))
                if isinstance(x, bool):
                    x = int(x)
                if isinstance(x, str) and len(x) == 1:
                    x = ord(x)
                if not isinstance(x, int):
                    raise Unk('poly over %r' % (x,))
                p *= x
            r += p
        return r

    def i(self, t):
        v = self.ev(t)
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, str) and len(v) == 1:
            return ord(v)
        if not isinstance(v, int):
            raise Unk('int expected, got %r' % (v,))
        return v


def hk(v):
    """hashable map key"""
    if isinstance(v, Agg):
        return ('agg', v.p, v.vi, tuple(hk(x) for x in v.f))
    return v


def unhk(k):
    if isinstance(k, tuple) and k and k[0] == 'agg':
        return Agg(k[1], k[2], [unhk(x) for x in k[3]])
    return k


def captured(eng, st, ev, a0, clo):
    """what a call of the closure left in the cells it captured by value (a memo, a counter) stays for the next call"""
    own = N('P', a0)
    if own in st.mem and st.mem[own] is not eng.initial(own):
        new = ev.ev(eng.deep(st.mem[own], st))
        if not isinstance(new, Clo):
            raise Unk('captured state %r' % (new,))
        clo.caps = new.caps


STATICS = {}        # contents of the statics of the program after what was evaluated so far: they live as long as the process
KEEP = {}


def address(v):
    """a function as a number"""
    if isinstance(v, tuple) and v and v[0] == 'rfn':
        return 1 << 32 | zlib.crc32(repr(v).encode()) << 4
    return v


class Summary(object):
    """outcomes of a function, arranged as a decision tree over its path conditions"""

    def __init__(self, eng, outs, body=None):
        self.eng, self.outs, self.body = eng, outs, body
        self.tree = Tree([(st.conds, (kind, val, st)) for kind, val, st in outs])

    def at(self, env, mode='F', calls=None, hook=None, limit=3000000, wt=False):
        """(kind, value term, state, ev) of the selected outcome"""
        if self.eng.statics:
            env = dict(env)
            # one history per arithmetic and, where a rule replaces functions by its own, per replacement
            own = getattr(getattr(calls, '__self__', None), 'override', None)
            world = (mode, id(own) if own else 0)
            KEEP[id(own)] = own
            for name, (loc, init) in self.eng.statics.items():
                k = world + (name,)
                if k not in STATICS:
                    first = Evx(self.eng, {}, mode, limit)
                    first.calls, first.hook = calls, hook
                    STATICS[k] = first.ev(init) if init is not None else None
                if STATICS[k] is not None:
                    env[self.eng.initial(loc)] = STATICS[k]
        ev = Evx(self.eng, env, mode, limit)
        ev.wt = wt
        ev.calls, ev.hook = calls, hook
        r = ev.walk(self.tree)
        if r is None:
            raise Unk('no outcome')
        kind, val, st = r
        for name, (loc, init) in self.eng.statics.items():
            if loc in st.mem:
                STATICS[world + (name,)] = None
                STATICS[world + (name,)] = ev.ev(self.eng.deep(st.mem[loc], st))
        return kind, val, st, ev

    def value(self, env, **kw):
        kind, val, st, ev = self.at(env, **kw)
        v = self.eng.deep(val, st) if type(val) is Node else val
        return kind, (ev.ev(v) if kind == 'ret' else v), st, ev
