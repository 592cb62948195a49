"""Matrix summaries: instantiation of gmatlib operations at small shapes."""
import random

from terms import *
from evalx import Summary
from evalt import EXACT, exact, F, INF, Agg, Ev, Unk, OOB, select, P
from framework import Missing, Undecided

MAT = 'gmatlib::Matrix'


class M(object):
    """oracle matrix"""
    def __init__(self, r, c, v):
        self.r, self.c, self.v = r, c, list(v)

    def __getitem__(self, ij): return self.v[ij[0] * self.c + ij[1]]
    def __setitem__(self, ij, x): self.v[ij[0] * self.c + ij[1]] = x
    def __eq__(self, o): return isinstance(o, M) and (self.r, self.c, self.v) == (o.r, o.c, o.v)
    def __repr__(self): return 'M(%d,%d,%r)' % (self.r, self.c, self.v)
    def copy(self): return M(self.r, self.c, self.v)

    def mul(self, o):
        out = []
        for i in range(self.r):
            for j in range(o.c):
                s = F(0)
                for x in range(self.c):
                    s = s + self[i, x] * o[x, j]
                out.append(s)
        return M(self.r, o.c, out)

    def det(self):
        if self.r == 0:
            return F(1)
        if self.r == 1:
            return self.v[0]
        d = F(0)
        for j in range(self.c):
            m = M(self.r - 1, self.c - 1, [self[i, k] for i in range(1, self.r) for k in range(self.c) if k != j])
            t = self[0, j] * m.det()
            d = d + t if j % 2 == 0 else d - t
        return d


def ident(n): return M(n, n, [F(1) if i == j else F(0) for i in range(n) for j in range(n)])


PATTERN = [None]
# entries that coincide, vanish or repeat: (row, column, rows, columns, first operand?) -> small number
PATTERNS = {
    'zeros': lambda i, j, r, c, o: 0,
    'ones': lambda i, j, r, c, o: 1,
    'twos and threes': lambda i, j, r, c, o: 2 if o else 3,
    'identity': lambda i, j, r, c, o: int(i == j),
    'reversed identity': lambda i, j, r, c, o: int(i + j == r - 1),
    'checkers': lambda i, j, r, c, o: (i + j + (not o)) % 2,
    'signs': lambda i, j, r, c, o: -1 if (i + j) % 2 else 1,
    'equal rows': lambda i, j, r, c, o: j + 2,
    'equal columns': lambda i, j, r, c, o: i + 2,
    'symmetric': lambda i, j, r, c, o: 1 + min(i, j) * 5 + max(i, j) * 7 + min(i, j) * max(i, j),
    'antisymmetric': lambda i, j, r, c, o: i - j,
    'circulant': lambda i, j, r, c, o: (2, 5, 11, 17, 23, 31)[(j - i) % max(r, c) % 6],
    'first column repeated': lambda i, j, r, c, o: i + 2 if j < 2 else i * 7 + j * 3 + 1,
    'row of zeros': lambda i, j, r, c, o: 0 if i == 0 else 3 * i + j + 1,
    'column of zeros': lambda i, j, r, c, o: 0 if j == c - 1 else 5 * i + 2 * j + 1,
    'counted': lambda i, j, r, c, o: i * c + j,
    'counted down': lambda i, j, r, c, o: (i * c + j if o else r * c - 1 - i * c - j),
}


class pattern(object):
    """within it, free matrices have entries of the named pattern"""

    def __init__(self, name): self.n = name
    def __enter__(self): PATTERN[0] = PATTERNS[self.n]
    def __exit__(self, *a): PATTERN[0] = None


def free(r, c, seed):
    if PATTERN[0]:
        return M(r, c, [F(PATTERN[0](i, j, r, c, seed != 'b')) for i in range(r) for j in range(c)])
    """a matrix of free variables (distinct random points of the field)"""
    rnd = random.Random('%s/%s/%s' % (r, c, seed))
    # (within exact(): small random integers)
    return M(r, c, [F(rnd.choice((-1, 1)) * rnd.randrange(1, 1 << 20) if EXACT[0] else rnd.randrange(1, P)) for _ in range(r * c)])


class Tall(list):
    """storage of any length whose element i is the value i"""

    def __init__(self, n):
        super().__init__()
        self.n = n

    def __len__(self): return self.n

    def __getitem__(self, i):
        if not isinstance(i, int) or not 0 <= i < self.n:
            raise Unk('slice of a large matrix')
        return F(i)

    def __iter__(self): raise Unk('walk through a large matrix')
    def __bool__(self): return self.n > 0
    def __eq__(self, o): return self is o
    __hash__ = None


class Panic(object):
    def __repr__(self): return 'panic'
    def __eq__(self, o): return isinstance(o, Panic)


class Err(object):
    """Err carrying error `path#variant` (None: any)"""
    def __init__(self, what=None): self.w = what
    def __repr__(self): return 'Err(%s)' % (self.w or '..')


class Mats(object):
    def __init__(self, ctx):
        self.ctx = ctx
        self.cache, self.rsum = {}, {}
        adt = ctx.db.adts.get(MAT)
        if not adt:
            raise Missing('no Matrix type')
        self.rf = self.getter('gmatlib::Matrix::<T>::get_rows')
        self.cf = self.getter('gmatlib::Matrix::<T>::get_cols')
        vec = [i for i in range(self.nf) if ctx.db.types[ctx.db.field_ty(self.mty, 0, i)].get('adt') == 'alloc::vec::Vec']
        if len(vec) != 1:
            raise Undecided('element storage field not found')
        self.vf = vec[0]

    def getter(self, path):
        body = self.ctx.public(path)
        eng, outs = self.ctx.engine(body, panics=True)
        arg = eng.sym_args(body)[0]
        base = eng.initial(N('P', arg))
        self.mty = self.ctx.db.deref_ty(body['locals'][1])
        self.nf = self.ctx.db.nfields(self.mty, 0)
        rets = [o for o in outs if o[0] == 'ret']
        if len(outs) == 1 and len(rets) == 1:
            v = rets[0][1]
            if isn(v, 'fld') and v[1] is base:
                return v[3]
        raise Undecided('%s is not a plain field read' % path)

    # -- values
    def agg(self, m):
        f = [None] * self.nf
        f[self.rf], f[self.cf], f[self.vf] = m.r, m.c, m.v if isinstance(m.v, Tall) else list(m.v)
        return Agg(MAT, 0, f)

    def from_agg(self, a):
        if isinstance(a, Agg) and a.p == MAT:
            v = a.f[self.vf]
            if not isinstance(v, list):
                raise Unk('storage')
            return M(a.f[self.rf], a.f[self.cf], v)
        return a

    def unwrap(self, x):
        if isinstance(x, Agg):
            if x.p == MAT:
                return self.from_agg(x)
            if x.p == 'core::result::Result':
                return ('Ok', self.unwrap(x.f[0])) if x.vi == 0 else ('Err', self.unwrap(x.f[0]))
            if x.p == 'core::option::Option':
                return ('Some', self.unwrap(x.f[0])) if x.vi == 1 else ('None',)
            if x.p == 'tuple':
                return tuple(self.unwrap(y) for y in x.f)
            return ('E', x.p, x.vi, [self.unwrap(y) for y in x.f])
        return x

    # -- operations
    def summary(self, path, find=None):
        if path in self.cache:
            return self.cache[path]
        body = self.ctx.public(path) if find is None else find
        eng, outs = self.ctx.engine(body, panics=True)
        self.cache[path] = (body, eng, outs)
        return self.cache[path]

    def apply(self, path, args, body=None, mode='F'):
        """instantiate the summary of `path` -> (kind, value, final values of reference arguments)"""
        body, eng, outs = self.summary(path, body)
        syms = eng.sym_args(body)
        env = {}
        for s, a in zip(syms, args):
            v = self.agg(a) if isinstance(a, M) else a
            if self.ctx.db.types[s[2]]['k'] in ('ref', 'ptr'):
                env[eng.initial(N('P', s))] = v
            else:
                env[s] = v
        # an index below zero overflows before it is used
        neg = lambda e: str(e).startswith('index -')
        if mode == 'R':
            if path not in self.rsum:
                self.rsum[path] = Summary(eng, outs, body)
            kind, val, st, ev = self.rsum[path].at(env, mode='R')
        else:
            try:
                kind, val, st, ev = select(eng, outs, env)
            except OOB as e:
                if not neg(e):
                    raise
                return 'panic', None, None
        fin = []
        for s in syms:
            if self.ctx.db.types[s[2]]['k'] in ('ref', 'ptr'):
                loc = N('P', s)
                v = eng.load(st, loc) if kind == 'ret' else None
                fin.append((eng, st, ev, v))
            else:
                fin.append(None)
        if kind == 'ret':
            val = eng.deep(val, st) if not isn(val, 'ref') else eng.deep(eng.deref(st, val), st)
            try:
                out = self.unwrap(ev.ev(val))
            except OOB as e:
                if not neg(e):
                    raise
                return 'panic', None, None
        else:
            out = None

        def final(i):
            e, s2, ev2, v = fin[i]
            return self.unwrap(ev2.ev(e.deep(v, s2)))
        return kind, out, final

    def where(self, path):
        b = self.cache.get(path, (None,))[0]
        return (b or {}).get('span', '') if b else ''
