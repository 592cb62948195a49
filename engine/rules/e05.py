import math
import itertools
from expr import *

TINY = (1e-30, 1e-17, 1e-13, 1e-9, 1e-5)    # margins: the values returned are that near

EXPLAIN = ('Value-numbering summaries of both Newton-Raphson solvers (matrix code inlined, loops as recurrences, the user functions uninterpreted), instantiated over IEEE doubles on '
           'functions with known roots chosen to separate the two halves of the promise (residual and step), the bounds on iteration and the error exits.')
NW = 'geqslib::newton::'
ERR = 'geqslib::errors::NewtonRaphsonSolverError'


class Deep(Exception):
    pass


class Solver(object):
    """one solver of the module, applied to Python functions; recursion re-enters the summary"""

    def __init__(self, ctx, name):
        self.ctx, self.name = ctx, name
        bs = [b for k, b in ctx.db.bodies.items() if k.startswith(NW + name) and '{' not in k[len(NW):].split('<')[0] and k[len(NW) + len(name):len(NW) + len(name) + 1] in ('', ':')]
        gen = [b for b in bs if '<K' in b['key'] or '<E' in b['key']] if bs and 'key' in bs[0] else bs
        if not bs:
            ctx.violation('missing ' + name, 'public function %s%s is gone' % (NW, name))
            raise Missing(name)
        self.body = (gen or bs)[0]
        self.eng, self.outs = ctx.engine(self.body, panics=True)
        self.a = self.eng.sym_args(self.body)
        self.sm = Summary(self.eng, self.outs, self.body)

    def run(self, f, guess, margin, limit, depth=0, used=None):
        """-> (outcome, value, final guess)"""
        used = used or (limit, {})

        def calls(ev, t, p, args):
            if p == 'value':
                fn = ev.ev(args[0])
                x = ev.ev(args[1])
                if isinstance(x, (list, tuple)) and len(x) == 1:
                    x = x[0]
                if isinstance(x, Agg) and len(x.f) == 1:
                    x = x.f[0]
                r = fn(x)
                return Er(Sym('user error')) if r is None else Ok(float(r))
            if p == NW + self.name or p.startswith(NW + self.name + '::<'):
                if depth > used[0] + 3:
                    raise Deep()
                a = [ev.ev(x) for x in args]
                k = key(a[1:]) + (depth,)
                if k not in used[1]:
                    used[1][k] = self.run(a[0], a[1], a[2], a[3], depth + 1, used)[:2]
                o, v = used[1][k]
                if o != 'ret':
                    raise OOB('recursion panics')
                return v
            return None

        env = dict(zip(self.a, (f, guess, margin, limit)))
        if isinstance(guess, dict):
            env[self.eng.initial(N('P', self.a[1]))] = dict(guess)
            env[self.a[1]] = dict(guess)
        kind, t, st, ev = self.sm.at(env, mode='R', calls=calls)
        if kind != 'ret':
            return kind, t, ev
        t = self.eng.deep(t, st) if type(t) is Node else t
        v = ev.ev(t)
        if isinstance(guess, dict) and isn(t, 'agg') and len(t) > 3 and t[3] is self.a[1] and isinstance(v, Agg):
            # the reference to the guesses is handed back: it stands for what they are by then
            v = Agg(v.p, v.vi, [ev.ev(self.eng.deep(self.eng.load(st, N('P', self.a[1])), st))])
        return kind, v, ev


def ok(v): return isinstance(v, Agg) and v.vi == 0
def er(v): return isinstance(v, Agg) and v.vi == 1


def univariate(ctx):
    s = Solver(ctx, 'newton_raphson')
    w = s.body['span']
    nerr = ctx.db.vi(ERR, 'NegativeMargin')
    lerr = ctx.db.vi(ERR, 'ReachedIterationLimit')

    def kinds(v, vi):
        e = v.f[0]
        return not isinstance(e, Agg) or e.p != ERR or e.vi == vi

    def go(key, cases, judge):
        with ctx.sub('newton_raphson: ' + key):
            for what, f, g, m, l in cases:
                try:
                    o, v, ev = s.run(f, g, m, l)
                except Deep:
                    ctx.violation('newton_raphson: ' + key, 'the iteration limit %d is exceeded for %s from %g' % (l, what, g), w)
                    return
                why = 'the call unwinds' if o != 'ret' else judge(f, g, m, l, v)
                if why:
                    ctx.violation('newton_raphson: ' + key, '%s (%s from guess %g, margin %g, limit %d)' % (why, what, g, m, l), w)
                    return
            ctx.ok('newton_raphson: %s (%d cases)' % (key, len(cases)))

    def lin(sl, r): return ('%g*(x-%g)' % (sl, r), lambda x: sl * (x - r), r)
    fl_ = []
    for sl in (1e-4, -1e-3, 0.05, 1.0, -1.0, 7.0, -250.0, 1e4):
        for r in (0.0, 2.0, -3.5, 40.0):
            n, f, _ = lin(sl, r)
            for d in (0.0, 5e-4, -5e-4, 0.02, -0.02, 1.0, -1.0, 30.0, -30.0):
                for m in (1e-2, 1e-4):
                    fl_.append((n, f, r + d, m, 4, r, sl))
    meta = {(a[0], a[2], a[3]): (a[5], a[6]) for a in fl_}

    def judge(f, g, m, l, v):
        n = [x for x in fl_ if x[1] is f][0]
        r, sl = n[5], n[6]
        if er(v):
            return 'no root is found although one step reaches it'
        x = v.f[0]
        if not isinstance(x, float):
            raise Unk('root %r' % (x,))
        t = m * (1 + 1e-6) + 1e-9
        if not abs(f(x)) <= t:
            return 'the value returned, %r, has residual %g above the margin' % (x, abs(f(x)))
        if not abs(x - r) <= t:
            return 'the value returned, %r, is %g from the root, above the margin' % (x, abs(x - r))
        return None
    go('linear functions, limit 4', [c[:5] for c in fl_], judge)
    near_ = []
    for c in [x for x in ctx.floats() + list(TINY) if 0 < x < 10]:
        for sl in (1.0, 0.125, -16.0):
            for m in (c * 0.5, c * 0.999, c * 4):
                for d in (c * 0.9, -c * 0.7, c * 1.5, c * 8):
                    near_.append(('%g*x' % sl, lambda x, sl=sl: sl * x, d, m, 6))

    def judge3(f, g, m, l, v):
        if er(v):
            return 'no root is found although one step reaches it'
        x = v.f[0]
        if not isinstance(x, float):
            raise Unk('root %r' % (x,))
        if not abs(f(x)) <= m * (1 + 1e-6) + min(1e-13, m * 0.01):
            return 'the value returned, %r, has residual %g above the margin' % (x, abs(f(x)))
        if not abs(x) <= m * (1 + 1e-6) + min(1e-13, m * 0.01):
            return 'the value returned, %r, is %g from the root, above the margin' % (x, abs(x))
    go('margins around the literals of the code', near_, judge3)
    cur = [('x^2-4', lambda x: x * x - 4, 9.0, 2.0), ('x^2-4', lambda x: x * x - 4, -9.0, -2.0), ('x^3-8', lambda x: x ** 3 - 8, 5.0, 2.0), ('exp(x)-1', lambda x: math.exp(min(x, 700.0)) - 1, 2.0, 0.0), ('1/x-4', lambda x: 1 / x - 4 if x else math.inf, 0.3, 0.25)]

    def judge2(f, g, m, l, v):
        r = [c[3] for c in cur if c[1] is f][0]
        if er(v):
            return 'no root is found within %d iterations' % l
        if abs(f(v.f[0])) > m * 1.001 or abs(v.f[0] - r) > max(20 * m, 1e-4):
            return 'the value returned, %r, is not a root' % v.f[0]
    go('curved functions', [(c[0], c[1], c[2], m, 60) for c in cur for m in (1e-2, 1e-5)], judge2)

    huge = []
    for g in [x for x in ctx.probes() if abs(x) < 4e12] + [3e12, -1.3e11]:
        for sl in (1.0, -0.5, 24.0):
            for r in (0.0, 3.5, g * 1.5):
                huge.append(('%g*(x-%g)' % (sl, r), (lambda x, sl=sl, r=r: sl * (x - r)), g, 2e-2, 40, r))

    def judge4(f, g, m, l, v):
        if er(v):
            return 'no root is found within %d iterations' % l
        r = [c[5] for c in huge if c[1] is f][0]
        if abs(f(v.f[0])) > m * 1.001 or abs(v.f[0] - r) > m * 1.2 + 1e-2:
            return 'the value returned, %r, is not the root' % v.f[0]
    go('guesses of every magnitude', [c[:5] for c in huge], judge4)

    def none(f, g, m, l, v):
        if ok(v):
            return 'a value (%r) is returned although the function has no root' % (v.f[0],)
        return None if kinds(v, lerr) else 'the error is not that the iteration limit was reached'
    go('functions without a root', [('x^2+1', lambda x: x * x + 1, g, 1e-3, l) for g in (0.3, 10.0, -2.0) for l in (1, 2, 7, 20)] +
       [('1', lambda x: 1.0, 3.0, 1e-3, l) for l in (1, 5)] + [('NaN', lambda x: math.nan, 3.0, 1e-3, l) for l in (1, 5)] + [('-5', lambda x: -5.0, 1.0, 1e-3, 6)] +
       [('infinity', lambda x: math.inf, 1.0, 1e-3, 6), ('-infinity', lambda x: -math.inf, 1.0, 1e-3, 6)], none)

    def after(f, g, m, l, v):
        r = roots_.get(f)
        if r is None:
            return 'a value (%r) is returned although the function has no root' % (v.f[0],) if ok(v) else None
        if er(v):
            return 'no root is found although one step reaches it'
        if not abs(v.f[0] - r) <= m * 1.001 + 1e-9:
            return 'the value returned, %r, is not the root %g of this function, solved after another one' % (v.f[0], r)
    roots_, hist = {}, []
    for g in (2.0, 0.0, -7.5, 2.0):
        for sl, r in ((1.0, g), (1.0, g - 3), (-4.0, g + 1), (-4.0, g), (1.0, g + 2), (2.0, g), (None, 0.0), (1.0, g), (None, 4e-4)):
            f = (lambda x, sl=sl, r=r: sl * (x - r)) if sl is not None else lambda x, r=r: r + 5e-4
            if sl is not None:
                roots_[f] = r
            hist.append(('%g*(x-%g)' % (sl, r) if sl is not None else '%g' % (r + 5e-4), f, g, 1e-3, 5))
    hist += [hist[i] for i in (20, 3, 3, 1, 8, 0, 4, 17)]
    go('one function after another', hist, after)
    idf = lambda x: x - 1
    go('margin not above zero', [('x-1', idf, g, m, 10) for g in (1.0, 5.0) for m in (0.0, -1e-9, -1.0, -math.inf)],
       lambda f, g, m, l, v: 'a margin that is not positive is accepted' if ok(v) else None if kinds(v, nerr) else 'the error is not NegativeMargin')
    go('limit zero', [('x-1', idf, g, 1e-3, 0) for g in (1.0, 5.0)], lambda f, g, m, l, v: 'a limit of zero iterations is exceeded' if ok(v) else None if kinds(v, lerr) else 'the error is not ReachedIterationLimit')
    go('guess already a root, limit 1', [('x-1', idf, 1.0, 1e-3, 1)], lambda f, g, m, l, v: None if ok(v) and abs(v.f[0] - 1) <= 1e-3 else 'the root given as guess is not returned')
    go('failing functions', [('error everywhere', lambda x: None, 1.0, 1e-3, 9), ('error above 1', lambda x: None if x > 1 else x - 1, 1.0, 1e-3, 9), ('error below 1', lambda x: None if x < 1 else x + 5, 1.5, 1e-3, 9),
                             ('error above 1', lambda x: None if x > 1 else x - 1, 1.0, 10.0, 9)],
       lambda f, g, m, l, v: 'an error of the function is not reported' if ok(v) else None)


def multivariate(ctx):
    s = Solver(ctx, 'multivariate_newton_raphson')
    w = s.body['span']
    ierr = ctx.db.vi(ERR, 'ImproperlyConstrainedSystem')
    nerr = ctx.db.vi(ERR, 'NegativeMargin')
    lerr = ctx.db.vi(ERR, 'ReachedIterationLimit')

    def kinds(v, vi):
        e = v.f[0]
        return not isinstance(e, Agg) or e.p != ERR or e.vi == vi

    def go(key, cases, judge):
        key = 'multivariate_newton_raphson: ' + key
        with ctx.sub(key):
            n = 0
            for what, fs, g, m, l, root in cases:
                try:
                    o, v, ev = s.run(fs, g, m, l)
                except Deep:
                    ctx.violation(key, 'the iteration limit %d is exceeded for %s from %r' % (l, what, g), w)
                    return
                why = 'the call unwinds' if o != 'ret' else judge(fs, g, m, l, root, v)
                if why:
                    ctx.violation(key, '%s (%s from %r, margin %g, limit %d)' % (why, what, g, m, l), w)
                    return
                n += 1
            ctx.ok('%s (%d cases)' % (key, n))

    def linear(A, r, names_):
        fs = []
        for row in A:
            fs.append(lambda x, row=row: sum(c * (x[n] - q) for c, n, q in zip(row, names_, r)))
        return fs

    def norm(v): return math.sqrt(sum(x * x for x in v))

    def judge(fs, g, m, l, root, v):
        if er(v):
            return 'no root is found although one step reaches it'
        x = v.f[0]
        if not isinstance(x, dict):
            raise Unk('root %r' % (x,))
        if set(x) != set(root):
            return 'the solution has values for %s' % sorted(map(str, x))
        t = m * (1 + 1e-5) + 1e-7
        res = norm([f(x) for f in fs])
        if not res <= t:
            return 'the solution has residual %g, above the margin' % res
        d = norm([x[k] - root[k] for k in root])
        if not d <= t:
            return 'the solution is %g from the root, above the margin' % d
    SYS = [('1 unknown', [[2.0]], [3.0]), ('1 unknown, steep', [[-400.0]], [1.5]), ('1 unknown, flat', [[0.003]], [-2.0]),
           ('x+y-., x-y-.', [[1.0, 1.0], [1.0, -1.0]], [6.5, 2.5]), ('2 unknowns, flat', [[0.004, 0.001], [-0.002, 0.005]], [1.0, -4.0]), ('2 unknowns, steep', [[300.0, -90.0], [10.0, 410.0]], [0.0, 7.0]),
           ('2 unknowns, off diagonal', [[0.0, 3.0], [-2.0, 0.0]], [5.0, 1.0]), ('2 unknowns, triangular', [[1.0, 0.0], [5.0, 2.0]], [5.0, 1.0]),
           ('3 unknowns', [[2.0, 1.0, 0.0], [0.0, 3.0, -1.0], [1.0, 0.0, 4.0]], [1.0, 2.0, -3.0]), ('3 unknowns, flat', [[0.002, 0.001, 0.0], [0.0, 0.003, -0.001], [0.001, 0.0, 0.004]], [0.5, -2.0, 3.0]),
           ('4 unknowns', [[4.0, 1.0, 0.0, 0.5], [1.0, 5.0, -1.0, 0.0], [0.0, 2.0, 6.0, 1.0], [1.0, 0.0, 1.0, 3.0]], [1.0, 2.0, -3.0, 0.0])]
    cases = []
    nn = ['p', 'q', 'r', 's']
    for what, A, r in SYS:
        k = len(r)
        fs = linear(A, r, nn[:k])
        root = dict(zip(nn, r))
        ds = [(0.0,) * k, (5e-4,) * k, (3.0,) + (-2.0,) * (k - 1), (-8.0,) * k, (0.0,) * (k - 1) + (0.5,), (0.5,) + (0.0,) * (k - 1)]
        if k > 1:
            ds.append((0.009, ) * k)
        for d in ds:
            for m in (1e-2, 1e-4) if k < 4 else (1e-2,):
                cases.append((what, fs, {n: q + e for n, q, e in zip(nn, r, d)}, m, 4, root))
    go('linear systems, limit 4', cases, judge)

    cases = []
    for c in [x for x in ctx.floats() + list(TINY) if 0 < x < 10]:
        for A in ([[1.0]], [[-0.25]], [[1.0, 0.0], [0.5, 2.0]]):
            k = len(A)
            fs = linear(A, [0.0] * k, nn[:k])
            for m in (c * 0.5, c * 4):
                for d in (c * 0.9, c * 1.5, c * 8):
                    cases.append(('%d unknowns' % k, fs, {n: d if i == 0 else -d / 3 for i, n in enumerate(nn[:k])}, m, 6, {n: 0.0 for n in nn[:k]}))

    def judge3(fs, g, m, l, root, v):
        if er(v):
            return 'no root is found although one step reaches it'
        x = v.f[0]
        if not isinstance(x, dict):
            raise Unk('root %r' % (x,))
        t = m * (1 + 1e-5) + min(1e-12, m * 0.01)
        if not norm([f(x) for f in fs]) <= t or not norm(list(x.values())) <= t:
            return 'the solution %r is not within the margin' % x
    go('margins around the literals of the code', cases, judge3)

    def none(fs, g, m, l, root, v):
        if ok(v):
            return 'a solution is returned although there is none'
        return None if not root or kinds(v, lerr) else 'the error is not that the iteration limit was reached'
    no = [('x^2+1, y', [lambda x: x['p'] ** 2 + 1, lambda x: x['q']], {'p': 3.0, 'q': 1.0}, 1e-3, l, True) for l in (1, 2, 6)]
    no += [('x^2+1', [lambda x: x['p'] ** 2 + 1], {'p': 3.0}, 1e-3, l, True) for l in (1, 2, 6)]
    no += [('1', [lambda x: 1.0], {'p': 3.0}, 1e-3, 4, False), ('singular', [lambda x: x['p'] + x['q'], lambda x: 2 * x['p'] + 2 * x['q'] - 1], {'p': 3.0, 'q': 1.0}, 1e-3, 4, False),
           ('NaN', [lambda x: math.nan], {'p': 3.0}, 1e-3, 4, False), ('NaN', [lambda x: math.nan, lambda x: x['q']], {'p': 3.0, 'q': 1.0}, 1e-3, 4, False)]
    go('systems without a solution', no, none)
    cases = []
    for g in [x for x in ctx.probes() if abs(x) < 1e11] + [9e10, -6e10]:
        for A in ([[2.0]], [[1.0, 0.5], [-0.25, 2.0]]):
            k = len(A)
            for r in ([0.0] * k, [g * 1.5] * k):
                cases.append(('%d unknowns, root near %g' % (k, r[0]), linear(A, r, nn[:k]), {n: g if i == 0 else -g / 2 for i, n in enumerate(nn[:k])}, 1e-2, 40, dict(zip(nn, r))))

    def judge4(fs, g, m, l, root, v):
        if er(v):
            return 'no root is found within %d iterations' % l
        x = v.f[0]
        if not isinstance(x, dict):
            raise Unk('root %r' % (x,))
        if norm([f(x) for f in fs]) > m * 1.001 or norm([x[k] - root[k] for k in root]) > m * 2:
            return 'the solution %r is not the root' % x
    go('guesses of every magnitude', cases, judge4)
    cases = []
    for k in ctx.lengths(6, 10, 17, hi=40):
        nn_ = ['v%d' % i for i in range(k)]
        A = [[4.0 + (i % 3) if i == j else (1.0 if (i - j) % k == 1 else -0.5 if (j - i) % k == 2 else 0.0) for j in range(k)] for i in range(k)]
        r = [(i * 7 % 11) / 2.0 - 2 for i in range(k)]
        for d in (1.0, 0.25):
            cases.append(('%d unknowns' % k, linear(A, r, nn_), {n: q + d * (-1) ** i for i, (n, q) in enumerate(zip(nn_, r))}, 1e-2, 4, dict(zip(nn_, r))))
    go('systems of many unknowns', cases, judge)
    hist = []
    for d in (0.0, 2.0, -1.0, 0.0):
        for what, A, r in SYS[1:4] + SYS[6:9] + SYS[3:5]:
            k = len(r)
            hist.append((what + ', solved after another system', linear(A, [q + d for q in r], nn[:k]), dict(zip(nn, r)), 1e-3, 4, {n: q + d for n, q in zip(nn, r)}))
    hist += [hist[i] for i in (0, 5, 5, 3, 9, 1)]
    go('one system after another', [h[:2] + (dict(h[2]),) + h[3:] for h in hist], judge)
    idf = linear([[1.0, 0.0], [0.0, 1.0]], [1.0, 2.0], nn[:2])
    g0, gr = {'p': 5.0, 'q': 5.0}, {'p': 1.0, 'q': 2.0}
    go('margin not above zero', [('identity', idf, g, m, 10, None) for g in (g0, gr) for m in (0.0, -1e-9, -1.0)],
       lambda fs, g, m, l, root, v: 'a margin that is not positive is accepted' if ok(v) else None if kinds(v, nerr) else 'the error is not NegativeMargin')
    go('limit zero', [('identity', idf, g, 1e-3, 0, None) for g in (g0, gr)], lambda fs, g, m, l, root, v: 'a limit of zero iterations is exceeded' if ok(v) else None if kinds(v, lerr) else 'the error is not ReachedIterationLimit')
    go('as many functions as unknowns', [('identity', idf[:1], g0, 1e-3, 9, None), ('identity', idf, {'p': 5.0}, 1e-3, 9, None), ('identity', idf + idf[:1], g0, 1e-3, 9, None), ('nothing', [], g0, 1e-3, 9, None), ('identity', idf, {}, 1e-3, 9, None)],
       lambda fs, g, m, l, root, v: 'a system with %d functions and %d unknowns is accepted' % (len(fs), len(g)) if ok(v) else None if kinds(v, ierr) else 'the error is not ImproperlyConstrainedSystem')
    go('no unknowns', [('nothing', [], {}, 1e-3, 9, None)], lambda fs, g, m, l, root, v: None if ok(v) else 'a system without unknowns is refused')
    go('failing functions', [('error in function %d' % i, [(lambda x: None) if j == i else f for j, f in enumerate(idf)], g, 1e-3, 9, None) for i in range(2) for g in (g0, gr)] +
       [('error when q is perturbed', [idf[0], lambda x: None if x['q'] > 2 else x['q'] - 2], gr, 10.0, 9, None)],
       lambda fs, g, m, l, root, v: 'an error of a function is not reported' if ok(v) else None)


def check(ctx):
    ctx.rule('a solver result has residual and last step within the margin; otherwise an error; never more than `limit` iterations')
    with ctx.sub('newton_raphson'):
        univariate(ctx)
    with ctx.sub('multivariate_newton_raphson'):
        multivariate(ctx)
