"""nexsys: modular instantiation of the summaries of the preprocessing and unit functions over texts."""
import json
import re
from fractions import Fraction

from expr import *
from evalx import Fail, rust_f64, hk, hash_

NP = 'nexsys::parsing::'
CD = NP + 'conditionals::'
NU = 'nexsys::units::'
MODULAR = [NP + x for x in ('comments', 'consts', 'conversions', 'const_values', 'domains', 'guess_values')] + [CD + 'conditionals', CD + 'format_conditional'] + \
    [NU + x for x in ('convert', 'unit_data', 'raw_unit_data', 'const_data', 'generate_num_denom_units', 'generate_fact_fact_units', 'generate_volume_units')]
EVSTR = 'geqslib::shunting::eval_str'
VALUE = 'serde_json::value::Value'


class Panics(Exception):
    pass


def jvalue(x):
    """serde_json::Value"""
    return Json(x)


class Json(object):
    __slots__ = ('x',)

    def __init__(self, x):
        self.x = x

    def __repr__(self):
        return 'Json(%r)' % (self.x,)


class Nx(object):
    """Each function's summary is instantiated on concrete texts; calls to the other functions of the list are
    replaced by the instantiation of their own summaries, library calls by their specification."""

    def __init__(self, ctx, mode='R', override=None):
        self.ctx, self.db, self.mode = ctx, ctx.db, mode
        self.sums = {}
        self.memo = {}
        self.override = override or {}

    def opaque(self, k, p):
        return p in MODULAR or p == EVSTR or p.startswith('serde') or p in self.override

    def summary(self, path):
        if path not in self.sums:
            b = self.ctx.fn(path)
            eng, outs = self.ctx.engine(b, panics=True, opaque=self.opaque)
            self.sums[path] = (eng, Summary(eng, outs, b), eng.sym_args(b), b)
        return self.sums[path]

    def run(self, path, args, muts=()):
        """(kind, value, {index: contents of the &mut argument afterwards})"""
        eng, sm, a, b = self.summary(path)
        env = dict(zip(a, args))
        for i in muts:
            env[eng.initial(N('P', a[i]))] = args[i]
        kind, v, st, ev = sm.value(env, mode=self.mode, calls=self.calls, hook=self.hook)
        post = {}
        if kind == 'ret':
            for i in muts:
                post[i] = ev.ev(eng.deep(eng.load(st, N('P', a[i])), st))
        return kind, v, post

    def call(self, path, *args):
        k = (path,) + tuple(repr(x) for x in args)
        if k not in self.memo:
            try:
                kind, v, _ = self.run(path, args)
            except OOB as x:
                raise Unk('%s: out of range: %s' % (path, x))
            self.memo[k] = (kind, v)
        kind, v = self.memo[k]
        if kind != 'ret':
            raise Panics(path)
        return v

    def hook(self, ev, t):
        if t.t[0] == 'src' and t[1] not in ('chars', 'split', 'find_iter', 'captures_iter', 'lines', 'split_whitespace', 'char_indices'):
            return None
        return None

    def calls(self, ev, t, p, args):
        if p in self.override:
            return self.override[p](*[ev.ev(x) for x in args])
        if p in MODULAR:
            return self.call(p, *[ev.ev(x) for x in args])
        if p == EVSTR:
            s = ev.ev(args[0])
            if not isinstance(s, str):
                raise Unk('eval_str of %r' % (s,))
            v = rust_f64(s.replace(' ', ''))
            if v is None:
                raise Unk('eval_str %s' % s)
            return Ok(v)
        if p.startswith('serde_json::') or 'serde_json' in p:
            return self.serde(ev, p, [ev.ev(x) for x in args])
        return None

    def serde(self, ev, p, a):
        n = p.split('::')[-1]
        if n == 'from_str' and isinstance(a[0], str):
            try:
                x = json.loads(a[0])
            except ValueError:
                return Er(Sym('json'))
            if isinstance(x, dict):
                return Ok({k: Json(v) for k, v in x.items()})
            return Ok(Json(x))
        x = a[0]
        if not isinstance(x, Json):
            return None
        x = x.x
        num = isinstance(x, (int, float)) and not isinstance(x, bool)
        if n == 'as_object':
            return Some([Agg('tuple', 0, [k, Json(v)]) for k, v in sorted(x.items())]) if isinstance(x, dict) else Nothing()
        if n == 'as_array':
            return Some([Json(v) for v in x]) if isinstance(x, list) else Nothing()
        if n == 'as_f64':
            return Some(float(x)) if num else Nothing()
        if n == 'as_str':
            return Some(x) if isinstance(x, str) else Nothing()
        if n == 'is_number':
            return num
        if n == 'is_string':
            return isinstance(x, str)
        return None


def pair(v):
    """components of a returned tuple"""
    if isinstance(v, Agg) and len(v.f) == 2:
        return v.f
    if isinstance(v, tuple) and len(v) == 2:
        return list(v)
    raise Unk('pair %r' % (v,))


def stateful(*ns):
    """do the functions keep state between calls?"""
    return any(eng.statics for n in ns for eng, _, _, _ in n.sums.values())


def decoys(t):
    """texts that share something with t, to be read before it"""
    ls = t.split('\n')
    flip = lambda x: ''.join(chr((ord(c) - 48 + 1) % 9 + 49) if c.isdigit() else c for c in x)
    out = ['x' * len(t), ' ' * len(t), t.upper(), t.lower(), flip(t), t[::-1], '\n'.join(ls[::-1]), '\n'.join([ls[0]] + [flip(x) for x in ls[1:]]), '\n'.join([flip(x) for x in ls[:-1]] + [ls[-1]]),
           '\n'.join([ls[0]] + ['q = 1'] * (len(ls) - 1)), t + '\nq = 1', 'q = 1\n' + t, t.replace('a', 'q2'), t.replace('x', 'zq'), t.replace(' ', ''), t.replace('<', '>'), t[:max(1, len(t) // 2)], t]
    return [x for i, x in enumerate(out) if x not in out[:i]]


def result(v):
    if isinstance(v, Agg) and v.vi in (0, 1) and len(v.f) == 1:
        return v.vi == 0, v.f[0]
    raise Unk('result %r' % (v,))


# ---------------------------------------------------------------- reference reading of equations with conditionals
class RefQ(RefR):
    """exact rational reading; if(a, op, b, t, e) selects one of its branches"""
    CMP = {1: lambda a, b: a == b, 2: lambda a, b: a <= b, 3: lambda a, b: a >= b, 4: lambda a, b: a < b, 5: lambda a, b: a > b, 6: lambda a, b: a != b}

    def __init__(self, vals):
        self.n = vals
        self.f = {'if': (5, self.cond)}

    def cond(self, e, t, b, op, a):
        if op not in self.CMP:
            raise Bad('operator code %s' % op)
        return t if self.CMP[op](a, b) else e

    def power(self):
        b = self.prim()
        if self.pk() == '^':
            self.nx()
            x = self.unary()
            if x.denominator != 1 or abs(x) > 8:
                raise Bad('exponent')
            return b ** int(x)
        return b

    def unary(self):
        if self.pk() == '-':
            self.nx()
            return -self.unary()
        return self.power()

    def prim(self):
        x = self.pk()
        if x is not None and x not in self.f and x not in self.n and x not in '()^*/+-,':
            self.nx()
            try:
                return Fraction(x)
            except ValueError:
                raise Bad('token %r' % (x,))
        return RefR.prim(self)
