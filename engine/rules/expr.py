"""Expressions: generator, reference reading and instantiation of the evaluator summaries."""
import itertools
import math
import random

from terms import *
from evalt import F, INF, Inf, Agg, Unk, OOB, Panicked, fl, P, Sym
from evalx import Evx, Cell, Clo, Summary, captured, Some, Nothing, Ok, Er, uf, key, fpow
from framework import Missing, Undecided

TOK = 'geqslib::context::Token'
VAR = 'geqslib::variable::Variable'
OPS = '+-*/^'


class Bad(Exception):
    pass


class Div0(Bad):
    pass


def lex(s):
    out = []
    w = ''
    for c in s:
        if c in '()^*/+-, ':
            if w:
                out.append(w)
            w = ''
            if c != ' ':
                out.append(c)
        else:
            w += c
    if w:
        out.append(w)
    return out


class Ref(object):
    """reference reading of an expression: ^ right associative above * / above + -, unary minus below ^"""

    def __init__(self, names, funcs):
        self.n, self.f = names, funcs

    def value(self, s):
        self.t, self.i = lex(s), 0
        v = self.sum()
        if self.i != len(self.t):
            raise Bad('trailing')
        return v

    def pk(self): return self.t[self.i] if self.i < len(self.t) else None

    def nx(self):
        x = self.pk()
        self.i += 1
        return x

    def sum(self):
        v = self.term()
        while self.pk() in ('+', '-'):
            o = self.nx()
            w = self.term()
            v = v + w if o == '+' else v - w
        return v

    def term(self):
        v = self.unary()
        while self.pk() in ('*', '/'):
            o = self.nx()
            w = self.unary()
            if o == '*':
                v = v * w
            else:
                if w == F(0):
                    raise Div0()
                v = v / w
        return v

    def unary(self):
        if self.pk() == '-':
            self.nx()
            return F(0) - self.unary()
        return self.power()

    def power(self):
        b = self.prim()
        if self.pk() == '^':
            self.nx()
            return uf('pow', b, self.unary())
        return b

    def prim(self):
        x = self.nx()
        if x == '(':
            v = self.sum()
            if self.nx() != ')':
                raise Bad('paren')
            return v
        if x in self.f:
            if self.nx() != '(':
                raise Bad('call')
            a = [self.sum()] if self.f[x] or self.pk() != ')' else []
            while self.pk() == ',':
                self.nx()
                a.append(self.sum())
            if self.nx() != ')' or len(a) != self.f[x]:
                raise Bad('args')
            return uf('fn ' + x, *reversed(a))
        if x in self.n:
            return self.n[x]
        try:
            return fl(float(x))
        except (TypeError, ValueError):
            raise Bad('token %r' % (x,))


def names(seed='ctx'):
    r = random.Random(seed)
    return {n: F(r.randrange(1, P)) for n in 'abcdexyz'}


FUNCS = {'f': 1, 'g': 2, 'h': 3}
MORE = {'f': 1, 'g': 2, 'h': 3, 'p': 0, 'v': 5, 'pq': 0}


def newvar(ctx):
    """(value, min, max) -> Variable; fields this rule knows nothing of are as Variable::new leaves them"""
    db = ctx.db
    fields = db.adts[VAR]['variants'][0]['fields']
    sm = None
    if set(fields) - {'value', 'min', 'max'}:
        body = ctx.public('geqslib::variable::Variable::new')
        eng, outs = ctx.engine(body)
        sm, args = Summary(eng, outs, body), eng.sym_args(body)

    def make(v, lo, hi):
        f = [None] * len(fields)
        if sm is not None:
            kind, x, st, ev = sm.value(dict(zip(args, (float(v), float(lo), float(hi)))), mode='R')
            if kind != 'ret' or not isinstance(x, Agg) or x.p != VAR:
                raise Unk('Variable::new')
            f = list(x.f)
        for n, x in (('value', v), ('min', lo), ('max', hi)):
            f[db.fi(VAR, n)] = float(x)
        return Agg(VAR, 0, f)
    return make


def context(db, vals, funcs=FUNCS, variables='xyz'):
    """abstract ContextHashMap: constants, variables (cells holding a Variable) and functions"""
    c = {}
    tn, tv, tf = db.vi(TOK, 'Num'), db.vi(TOK, 'Var'), db.vi(TOK, 'Func')
    vv = db.fi(VAR, 'value')
    nv = len(db.adts[VAR]['variants'][0]['fields'])
    for n, v in vals.items():
        if n in variables:
            f = [Sym('domain')] * nv
            f[vv] = v
            c[n] = Agg(TOK, tv, [Agg(VAR, 0, f)])
        else:
            c[n] = Agg(TOK, tn, [v])
    for n, k in funcs.items():
        c[n] = Agg(TOK, tf, [k, ('fn', n, k)])
    return c


def fncall(ev, t, p, args):
    if p != 'value':
        return None
    f = ev.ev(args[0])
    if isinstance(f, tuple) and f[0] == 'fn':
        a = ev.ev(args[1])
        if not isinstance(a, list):
            raise Unk('arguments')
        if len(a) != f[2]:
            return uf('fn?%d ' % len(a) + f[1], *a)
        return uf('fn ' + f[1], *a)
    return None


def var_value(db, eng):
    """i2f of a Variable value (From<Variable>) reads its value field"""
    vv = db.fi(VAR, 'value')

    def hook(ev, t):
        if t.t[0] == 'i2f':
            v = ev.ev(t[1])
            if isinstance(v, Agg) and v.p == VAR:
                return v.f[vv]
        return None
    return hook


def flat(k, rnd=None, limit=None):
    """a op b op c ... with optional unary minuses"""
    ops = itertools.product(OPS, repeat=k)
    allx = []
    for o in ops:
        for m in itertools.product((0, 1), repeat=k + 1):
            allx.append(join(o, m, 'axbyc'))
    return pick(allx, rnd, limit)


def join(o, m, ns):
    s = ''
    for i, n in enumerate(ns[:len(o) + 1]):
        if i:
            s += o[i - 1]
        s += '-' * m[i] + n
    return s


def paren(k, rnd=None, limit=None):
    allx = []
    for o in itertools.product(OPS, repeat=k):
        for i in range(k + 1):
            for j in range(i + 1, k + 1):
                if (i, j) == (0, k):
                    continue
                for m in (0, 1, 2, 3):
                    s = ''
                    for q, n in enumerate('axbyc'[:k + 1]):
                        if q:
                            s += o[q - 1]
                        if q == i:
                            s += ('-' if m & 1 else '') + '('
                        s += ('-' if m & 2 and q == i else '') + n
                        if q == j:
                            s += ')'
                    allx.append(s)
    return pick(allx, rnd, limit)


TEMPL = ['f(a)', '-f(a)', 'f(-a)', '-f(-a)', 'f(a)@b', 'a@f(b)', 'a@-f(b)', 'a@f(b)@x', 'f(a@b)', 'f(a@b)@c', 'f((a@b)@c)', 'f((a)@b)', 'f(a@(b@c))@d',
         'g(a,b)', 'g(a@b,c)', 'g(a,b@c)', 'g(a@b,c@d)@e', 'g(-a,-b)', 'g((a),(b))', 'g((a@b),c)', 'g(a,(b@c))', 'a@g(b,c)@d', 'f(f(a))', 'f(g(a,b))', 'g(f(a),b)',
         'g(a,f(b))', 'g(g(a,b),c)', 'g(a,g(b,c))', 'g(g(a,b),g(c,d))@e', 'f(f(a)@b)@c', '(f(a))@b', '(f(a)@b)@c', 'f(a)@f(b)', 'f(a)@(b@c)', '(a@b)@f(c)',
         'h(a,b,c)', 'h(a@b,c@d,x@y)', 'h(-a,b,-c)@d', 'h(f(a),g(b,c),d)', 'f(h(a,b,c)@d)', '2@f(3)', 'f(2.5)@0.5', '((a))@b', '((a@b))', '(((a@b)@c)@d)', '(a@(b@(c@d)))',
         'a@b@f(c)@d@e', 'f(a)@b@c', '-(a@b)@c', '-(-(a@b))', 'a@(-b)@c', 'f(-(a@b))', 'a@b@c@d@e', '-a@-b@-c@-d']


def templ(rnd=None, limit=None):
    allx = []
    for t in TEMPL:
        k = t.count('@')
        combos = list(itertools.product(OPS, repeat=k))
        if len(combos) > 125:
            r2 = random.Random(t)
            combos = r2.sample(combos, 125)
        for o in combos:
            s = t
            for c in o:
                s = s.replace('@', c, 1)
            allx.append(s)
    return pick(allx, rnd, limit)


def pick(xs, rnd, limit):
    xs = sorted(set(xs))
    if limit is None or len(xs) <= limit:
        return xs
    return rnd.sample(xs, limit)


def spaced(s, rnd):
    out = ''
    for c in s:
        out += ' ' * rnd.randrange(2) + c if c in '()+-*/^,' else c
        if c in '()+-*/^,':
            out += ' ' * rnd.randrange(2)
    return out


class Caller(object):
    """calls through function pointers: abstract context functions and analysed repository functions"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.sums = {}

    def summary(self, path):
        if path not in self.sums:
            body = self.ctx.db.bodies.get(path)
            if body is None:
                raise Unk('no body of ' + path)
            eng, outs = self.ctx.engine(body, panics=True)
            self.sums[path] = (Summary(eng, outs, body), eng.sym_args(body))
        return self.sums[path]

    def __call__(self, ev, t, p, args):
        if p != 'value':
            return None
        f = ev.ev(args[0])
        if isinstance(f, tuple) and f[0] == 'fn':
            return fncall(ev, t, p, args)
        if isinstance(f, tuple) and f[0] == 'rfn':
            a = ev.ev(args[1])
            return self.apply(f[1], [a], ev.mode)
        return None

    def apply(self, path, vals, mode):
        sm, syms = self.summary(path)
        kind, v, st, ev = sm.value(dict(zip(syms, vals)), mode=mode, calls=self)
        if kind != 'ret':
            raise Panicked('%s panics' % path)
        return v


class Evaluator(object):
    """eval_str_with_context, instantiated"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.body = ctx.public('geqslib::shunting::eval_str_with_context')
        self.eng, outs = ctx.engine(self.body, panics=True)
        self.sm = Summary(self.eng, outs, self.body)
        self.a = self.eng.sym_args(self.body)
        self.caller = Caller(ctx)
        self.hook = var_value(ctx.db, self.eng)

    def __call__(self, text, cx, mode='F'):
        """-> ('ok', value) | ('err', error) | ('panic', what)"""
        try:
            kind, v, st, ev = self.sm.value({self.a[0]: text, self.a[1]: cx}, calls=self.caller, hook=self.hook, mode=mode)
        except Panicked as e:
            return 'panic', str(e)
        if kind != 'ret':
            return 'panic', v
        if not isinstance(v, Agg) or v.vi not in (0, 1):
            raise Unk('result %r' % (v,))
        return ('err' if v.vi else 'ok'), v.f[0]

    def builtins(self):
        """the ContextHashMap made by new_context"""
        body = self.ctx.public('geqslib::context::new_context')
        eng, outs = self.ctx.engine(body)
        sm = Summary(eng, outs, body)
        first = None
        for i in range(4):
            k, v, st, ev = sm.value({})
            if k != 'ret' or not isinstance(v, dict):
                raise Undecided('new_context value')
            if first is None:
                first = dict(v)
            n = next((x for x in sorted(set(v) | set(first)) if not alike(v.get(x), first.get(x))), None)
            if n is not None:
                raise Varies('%s in call %d of new_context is %r, in the first call %r' % (n, i + 1, v.get(n), first.get(n)), body)
        return first, body


class Varies(Exception):
    def __init__(self, text, body):
        Exception.__init__(self, text)
        self.body = body


def alike(a, b):
    if isinstance(a, Agg) and isinstance(b, Agg):
        return (a.p, a.vi, len(a.f)) == (b.p, b.vi, len(b.f)) and all(alike(x, y) for x, y in zip(a.f, b.f))
    if isinstance(a, Clo) and isinstance(b, Clo):
        return a.k == b.k and len(a.caps) == len(b.caps)
    if isinstance(a, Cell) and isinstance(b, Cell):
        return alike(a.v, b.v)
    return a == b or (type(a) is type(b) and repr(a) == repr(b))


RPNIFY, EVALRPN = 'geqslib::shunting::rpnify', 'geqslib::shunting::eval_rpn_expression'


class Rpn(object):
    """postfix form of a text over a context (tokens share the context's variable cells)"""

    def __init__(self, text, cx):
        self.text, self.cx = text, cx


class World(object):
    """Summaries over contexts with shared variable cells: closures, postfix forms and their evaluation.

    rpnify and eval_rpn_expression are kept as opaque calls; their composition is the evaluator
    summary decided by E01/E02, applied to the context with the cells' contents at the call.
    """
    FN = {'f': (1, lambda a: 2 * a + 1), 'g': (2, lambda b, a: a - 3 * b), 'sq': (1, lambda a: a * a)}

    def __init__(self, ctx, mode='R'):
        self.ctx, self.db, self.mode = ctx, ctx.db, mode
        for p in (RPNIFY, EVALRPN):
            if not ctx.db.find(p):
                raise Undecided('no function ' + p)
        self.evaluator = Evaluator(ctx)
        self.sums = {}
        self.rp = {}
        self.extra = []

    def summary(self, path, **kw):
        if path not in self.sums:
            bs = [self.db.bodies[path]] if path in self.db.bodies else self.db.find(path)
            if not bs:
                raise Undecided('no body of ' + path)
            op = kw.pop('opaque', None)
            eng, outs = self.ctx.engine(bs[0], panics=True, opaque=lambda k, p: p in (RPNIFY, EVALRPN) or (op is not None and op(k, p)), snap=lambda p: p == EVALRPN, **kw)
            self.sums[path] = (eng, Summary(eng, outs, bs[0]), eng.sym_args(bs[0]), bs[0])
        return self.sums[path]

    def token(self, kind, *f):
        return Agg(TOK, self.db.vi(TOK, kind), list(f))

    def var(self, v, lo=-math.inf, hi=math.inf):
        return newvar(self.ctx)(v, lo, hi)

    def context(self, consts=(), variables=(), funcs=True):
        c = {}
        for n, (k, fn) in self.FN.items() if funcs else ():
            c[n] = self.token('Func', k, ('pfn', n))
        for n, v in dict(consts).items():
            c[n] = self.token('Num', float(v))
        for n, v in dict(variables).items():
            c[n] = self.token('Var', Cell(self.var(*v) if isinstance(v, tuple) else self.var(v)))
        return c

    def value_of(self, cell):
        return cell.v.f[self.db.fi(VAR, 'value')]

    def domain(self, cell):
        return cell.v.f[self.db.fi(VAR, 'min')], cell.v.f[self.db.fi(VAR, 'max')]

    def calls(self, ev, t, p, args):
        for x in self.extra:
            r = x(ev, t, p, args)
            if r is not None:
                return r
        if p == 'value':
            f = ev.ev(args[0])
            if isinstance(f, tuple) and f[0] == 'pfn':
                return self.FN[f[1]][1](*ev.ev(args[1]))
            if isinstance(f, Clo):
                return self.apply(f, [ev.ev(a) for a in args[1:]])
            if callable(f):
                return f(*[ev.ev(a) for a in args[1:]])
            if isinstance(f, tuple) and f[0] == 'rfn':
                eng, sm, a, b = self.summary(f[1])
                kind, v, st, e2 = sm.value(dict(zip(a, [ev.ev(x) for x in args[1:]])), mode=self.mode, calls=self.calls, hook=self.evaluator.hook)
                if kind != 'ret':
                    raise Panicked('%s panics' % f[1])
                return v
        if p == RPNIFY:
            text, cx = ev.ev(args[0]), ev.ev(args[1])
            eng, sm, a, b = self.rpnify()
            kind, v, st, e2 = sm.value({a[0]: text, a[1]: cx}, mode=self.mode, calls=self.calls, hook=self.evaluator.hook)
            if kind != 'ret':
                raise Panicked('rpnify')
            return Ok(Rpn(text, cx)) if v.vi == 0 else v
        if p == EVALRPN:
            r = ev.ev(args[0])
            if not isinstance(r, Rpn):
                raise Unk('postfix form %r' % (r,))
            w = ev.written(args[1]) if len(args) > 1 and isn(args[1], 'mem') else {}
            kind, v = self.eval_text(r.text, r.cx, w)
            if kind == 'panic':
                raise Panicked('evaluator')
            return Ok(v) if kind == 'ok' else Er(v)
        m = p.split('::')[-1]
        if m == 'as_str' and 'Match' in p:
            return ev.ev(args[0])
        return None

    def rpnify(self):
        if 'rp' not in self.rp:
            b = self.db.find(RPNIFY)[0]
            eng, outs = self.ctx.engine(b, panics=True)
            self.rp['rp'] = (eng, Summary(eng, outs, b), eng.sym_args(b), b)
        return self.rp['rp']

    def eval_text(self, text, cx, over={}):
        c = {}
        for n, t in cx.items():
            if isinstance(t, Agg) and t.f and isinstance(t.f[0], Cell):
                t = Agg(t.p, t.vi, [over.get(id(t.f[0]), (0, t.f[0].v))[1]])
            c[n] = t
        ev = self.evaluator
        kind, v, st, e2 = ev.sm.value({ev.a[0]: text, ev.a[1]: c}, calls=self.calls, hook=ev.hook, mode=self.mode)
        if kind != 'ret':
            return 'panic', v
        return ('err' if v.vi else 'ok'), v.f[0]

    def apply(self, clo, args):
        """result of calling a closure value"""
        eng, sm, a, b = self.summary(clo.k)
        env = dict(zip(a, [clo] + list(args)))
        kind, v, st, ev = sm.value(env, mode=self.mode, calls=self.calls, hook=self.evaluator.hook)
        if kind != 'ret':
            raise Panicked('closure panics')
        return v

    def call(self, clo, args):
        """result of calling a closure value, whose effects on the cells and on what it captured stay"""
        eng, sm, a, b = self.summary(clo.k)
        kind, v, st, ev = sm.value(dict(zip(a, [clo] + list(args))), mode=self.mode, calls=self.calls, hook=self.evaluator.hook)
        w = ev.written(N('mem', tuple(N('at', l, eng.deep(x, st)) for l, x in st.mem.items() if l[0] == 'P' and l[1] is not a[0] and x is not eng.initial(l))))
        captured(eng, st, ev, a[0], clo)
        for c, x in w.values():
            c.v = x
        if kind != 'ret':
            raise Panicked('closure panics')
        return v

    def run(self, path, args, **kw):
        """(kind, value, state, evaluation) of a function"""
        eng, sm, a, b = self.summary(path, **kw)
        env = dict(zip(a, args))
        return sm.value(env, mode=self.mode, calls=self.calls, hook=self.hook)

    def method(self, path, this, args=(), **kw):
        """(kind, value, contents of self afterwards) of a function taking &self or &mut self"""
        eng, sm, a, b = self.summary(path, **kw)
        loc = N('P', a[0])
        env = dict(zip(a[1:], args))
        env[a[0]] = this
        env[eng.initial(loc)] = this
        kind, v, st, ev = sm.value(env, mode=self.mode, calls=self.calls, hook=self.hook)
        if kind != 'ret':
            return kind, v, None
        return kind, v, ev.ev(eng.deep(eng.load(st, loc), st))

    def hook(self, ev, t):
        return self.evaluator.hook(ev, t)


def close(a, b, rel=1e-11):
    """equal up to rounding, whatever the magnitude"""
    if not isinstance(a, float) or not isinstance(b, float):
        return False
    if a != a or b != b:
        return a != a and b != b
    if a == b:
        return True
    if math.isinf(a) or math.isinf(b):
        # the order of operations decides what overflows
        return abs(a) > 1e300 and abs(b) > 1e300 and (a > 0) == (b > 0)
    return abs(a - b) <= rel * max(abs(a), abs(b)) + 1e-307


def near(a, b, rel=1e-9):
    if not isinstance(a, float) or not isinstance(b, float):
        return False
    if a != a or b != b:
        return a != a and b != b
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= rel * (1 + max(abs(a), abs(b)))


class RefR(Ref):
    """reference reading over doubles"""

    def __init__(self, names, funcs):
        self.n, self.f = names, funcs

    def power(self):
        b = self.prim()
        if self.pk() == '^':
            self.nx()
            return fpow(b, self.unary())
        return b

    def unary(self):
        if self.pk() == '-':
            self.nx()
            return 0.0 - self.unary()
        return self.power()

    def term(self):
        v = self.unary()
        while self.pk() in ('*', '/'):
            o = self.nx()
            w = self.unary()
            if o == '/' and w == 0:
                raise Div0()
            v = v * w if o == '*' else v / w
        return v

    def prim(self):
        x = self.nx()
        if x == '(':
            v = self.sum()
            if self.nx() != ')':
                raise Bad('paren')
            return v
        if x in self.f:
            if self.nx() != '(':
                raise Bad('call')
            a = [self.sum()] if self.f[x] or self.pk() != ')' else []
            while self.pk() == ',':
                self.nx()
                a.append(self.sum())
            if self.nx() != ')' or len(a) != self.f[x][0]:
                raise Bad('args')
            return self.f[x][1](*reversed(a))
        if x in self.n:
            return self.n[x]
        try:
            return float(x)
        except (TypeError, ValueError):
            raise Bad('token %r' % (x,))


def residual(eqn, vals, funcs=World.FN):
    """left side minus right side"""
    l, r = eqn.split('=')
    ref = RefR(vals, funcs)
    return ref.value(l) - ref.value(r)


SUCC = ['a', '3*a', 'a+b', 'a-b', 'x*y-a', '-x^b', 'f(a)', 'g(a,x)-b', 'a*(b-c)', 'f(a)+g(b,c)', '2*x/a', 'a/b', 'y', 'c', '(a)', 'aa', 'a*2', '2', '3', '5+2*3', 'b-a', 'g(x,a)', 'f(b)']


def successive(ctx, run, rnd, wanted, key, where):
    """texts and contexts one after another: each evaluation is about its own text and its own context"""
    base = names()
    worlds = []
    for seed, drop, funcs, variables in (('ctx', '', FUNCS, 'xyz'), ('two', '', FUNCS, 'xyz'), ('three', 'ax', FUNCS, 'yz'), ('four', '', {}, 'abc'), ('five', 'by', {'f': 2, 'g': 1}, 'xz'), ('six', '', FUNCS, '')):
        vals = {k: v for k, v in names(seed).items() if k not in drop}
        worlds.append((vals, dict(funcs), variables))
    steps = []
    for t in SUCC:
        steps += [(t, i) for i in (0, 1, 0, 2, 3, 5, 4, 1)]
    for i in range(6):
        steps += [(t, i) for t in SUCC]
    for i in range(150):
        steps.append((rnd.choice(SUCC), rnd.randrange(6)))
    made = [context(ctx.db, v, funcs=f, variables=u) for v, f, u in worlds]
    n = 0
    for j, (t, i) in enumerate(steps):
        vals, funcs, variables = worlds[i]
        # the same context object again, or an equal new one
        cx = made[i] if j % 3 else context(ctx.db, vals, funcs=funcs, variables=variables)
        kind, got = run(t, cx)
        try:
            want = ('ok', Ref(vals, funcs).value(t))
        except Div0:
            continue
        except Bad:
            want = ('err', None)
        if want[0] != wanted:
            continue
        n += 1
        if kind != want[0] or kind == 'ok' and got != want[1]:
            what = 'panics' if kind == 'panic' else 'is refused with %r' % (got,) if kind == 'err' else 'is given a value' if wanted == 'err' else 'does not denote its value'
            before = ', '.join('"%s"' % s[0] for s in steps[max(0, j - 3):j])
            ctx.violation(key, 'the %s expression "%s", evaluated after %s with contexts that differ, %s' % ('malformed' if wanted == 'err' else 'well formed', t, before, what), where)
            return
    ctx.ok('%s (%d evaluations)' % (key, n))
