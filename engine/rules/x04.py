import re
import random
from nx import *
from e07 import Model, BADEQ

EXPLAIN = ('Value-numbering summaries of basic_solve (equation pool, context and declarations as values, the solving loop and the search for subsystems as recurrences) and of solve_with_preprocessors, instantiated with abstract '
           'solvers: every solution value records which equations, known values, guess, domain, margin and limit it was computed from, and the reported solution is checked against the equations given.')
BS, SP = 'nexsys::basic_solve', 'nexsys::solve_with_preprocessors'
GU, SE = 'geqslib::system::get_equation_unknowns', 'geqslib::solve_equation_with_context'
SB, SY = 'geqslib::system::SystemBuilder::', 'geqslib::system::System::'
CR = 'geqslib::system::ConstrainResult'
NC = 'geqslib::context::new_context'
DEF = (1.0, -math.inf, math.inf)
FAILS = ('bad', 'worse')
FNS = ('sin', 'sq')


def words(eqn):
    out = []
    for n in re.findall(r'(?i)[a-z][a-z0-9_]*', eqn):
        if n not in out:
            out.append(n)
    return out


def wellformed(eqn):
    l = eqn.split('=')
    ops = '+-*/^'
    return len(l) == 2 and not re.search(r'[^\w\s.+*/^()=,-]', eqn) and all(x.strip() and x.strip()[-1] not in ops and x.count('(') == x.count(')') for x in l)


class Build(object):
    """a system under construction, or built"""

    def __init__(self, eqs, vars, known, info=()):
        self.eqs, self.vars, self.known, self.info = eqs, vars, known, info

    def full(self): return len(self.eqs) == len(self.vars)

    def __repr__(self):
        return 'Build(%r, %r, %r, %r)' % (self.eqs, self.vars, self.known, self.info)


class Solves(object):
    """specification of the geqslib functions (decided by E05-E07) with abstract solutions"""

    def __init__(self, ctx):
        self.ctx, self.db = ctx, ctx.db
        self.num, self.var, self.fun = [ctx.db.vi(TOK, k) for k in ('Num', 'Var', 'Func')]
        self.cr = {v['name']: i for i, v in enumerate(ctx.db.adts[CR]['variants'])}
        self.prov = {}
        self.vals = {}
        self.sums = {}
        self.given = ()

    def start(self):
        self.prov, self.vals = {}, {}
        self.pool = list(self.given)

    def op(self, k, p):
        return p.startswith('geqslib::system::') or p.startswith('geqslib::solve_') or p == NC

    def known(self, cx):
        return tuple(sorted((n, t.f[0]) for n, t in cx.items() if t.vi == self.num))

    def others(self, cx):
        return any(t.vi == self.var for t in cx.values())

    def value(self, name, eqs, known, info, margin, limit):
        """an abstract solution, different for everything it depends on"""
        k = repr((name, tuple(eqs), known, info, margin, limit))
        if k not in self.vals:
            v = self.pool.pop(0) if self.pool else 1000.0 + 0.125 * len(self.vals)
            self.vals[k] = v
            self.prov[v] = (name, tuple(eqs), dict(known), info, margin, limit)
        return self.vals[k]

    def unknowns(self, eqn, cx):
        return [n for n in words(eqn) if n not in cx]

    def calls(self, ev, t, p, args):
        if p == GU:
            return self.unknowns(ev.ev(args[0]), ev.ev(args[1]))
        if p == SE:
            return self.single(ev, args)[0]
        if p == SB + 'new':
            e, cx = ev.ev(args[0]), ev.ev(args[1])
            if not wellformed(e) or self.others(cx):
                return Er(Sym('malformed'))
            return Ok(Build((e,), tuple(self.unknowns(e, cx)), (self.known(cx), tuple(sorted(cx)))))
        if p == SB + 'try_constrain_with':
            return self.constrain(ev, args)[0]
        if p == SB + 'build_system':
            b = ev.ev(args[0])
            return Some(b) if b.full() else Nothing()
        if p == SB + 'is_fully_constrained':
            return ev.ev(args[0]).full()
        if p == SY + 'specify_variable':
            return ev.ev(args[1]) in ev.ev(args[0]).vars
        if p == SY + 'solve':
            b, margin, limit = [ev.ev(a) for a in args]
            if not isinstance(b, Build):
                raise Unk('system %r' % (b,))
            if set(b.vars) & set(FAILS):
                return Er(Sym('failure'))
            info = dict(b.info)
            return Ok({n: self.value(n, b.eqs, b.known[0], tuple(info.get(n, DEF)), margin, limit) for n in b.vars})
        return None

    def single(self, ev, args):
        e, cx, g, lo, hi, margin, limit = [ev.ev(a) for a in args]
        if not isinstance(cx, dict):
            raise Unk('context')
        u = self.unknowns(e, cx)
        if len(u) != 1 or not wellformed(e) or self.others(cx) or u[0] in FAILS:
            return Er(Sym('failure')), cx
        post = dict(cx)
        post[u[0]] = Agg(TOK, self.var, [Cell(Agg(VAR, 0, [-555.0 if i == self.db.fi(VAR, 'value') else 0.0 for i in range(len(self.db.adts[VAR]['variants'][0]['fields']))]))])
        return Ok(Agg('tuple', 0, [u[0], self.value(u[0], [e], self.known(cx), (g, lo, hi), margin, limit)])), post

    def constrain(self, ev, args):
        b, e = ev.ev(args[0]), ev.ev(args[1])
        if not isinstance(b, Build):
            raise Unk('builder %r' % (b,))
        res = lambda n: Ok(Agg(CR, self.cr[n], []))
        if b.full():
            return res('WillOverConstrain'), b
        new = [n for n in words(e) if n not in b.known[1] and n not in b.vars]
        if len(new) > 1:
            return res('WillNotConstrain'), b
        if not wellformed(e):
            return Er(Sym('malformed')), b
        return res('WillConstrain'), Build(b.eqs + (e,), b.vars + tuple(new), b.known, b.info)

    def hook(self, ev, t):
        if t.t[0] == 'mut' and isn(t[1], 'call'):
            p, args = t[1][1], t[1][2]
            if p == SE:
                return self.single(ev, args)[1]
            if p == SB + 'try_constrain_with':
                return self.constrain(ev, args)[1]
            if p == SY + 'specify_variable':
                b, n, g, lo, hi = [ev.ev(a) for a in args]
                if n not in b.vars:
                    return b
                return Build(b.eqs, b.vars, b.known, tuple(sorted(dict(b.info, **{n: (g, lo, hi)}).items())))
        return None

    def summary(self, path, op=None):
        if path not in self.sums:
            b = self.ctx.fn(path)
            eng, outs = self.ctx.engine(b, panics=True, opaque=op or self.op)
            self.sums[path] = (eng, Summary(eng, outs, b), eng.sym_args(b), b)
        return self.sums[path]

    def solve(self, text, consts, declared, margin, limit):
        """(ok, log, solution, context afterwards)"""
        self.start()
        eng, sm, a, b = self.summary(BS)
        cx = {n: Agg(TOK, self.num, [v]) for n, v in consts.items()}
        for n in FNS:
            cx[n] = Agg(TOK, self.fun, [1, ('pfn', n)])
        dd = {n: list(v) for n, v in declared.items()}
        env = dict(zip(a, [text, cx, dd, margin, limit]))
        env[eng.initial(N('P', a[1]))] = cx
        env[eng.initial(N('P', a[2]))] = dd
        kind, v, st, ev = sm.value(env, mode='R', calls=self.calls, hook=self.hook, limit=30000000)
        if kind != 'ret':
            raise Panics(BS)
        good, x = result(v)
        if not good:
            return False, None, None, None
        log, sol = pair(x)
        post = ev.ev(eng.deep(eng.load(st, N('P', a[1])), st))
        if not isinstance(sol, dict) or not isinstance(post, dict) or not isinstance(log, list):
            raise Unk('solution %r %r %r' % (type(sol), type(post), log))
        return True, log, sol, post


def blocks(rnd, sizes, consts):
    """equations of a system solvable block after block: the n equations of a block are about the same n new unknowns"""
    names = rnd.sample(['x', 'y', 'z', 'u_1', 'V2', 'w', 'q', 'pp', 'Tmax', 'h', 'inf', 'NaN'], sum(sizes))
    seen, eqs = [], []
    for s in sizes:
        new, names = names[:s], names[s:]
        for i in range(s):
            use = list(new) + rnd.sample(seen, min(len(seen), rnd.choice((0, 1, 1, 2)))) + rnd.sample(sorted(consts), rnd.choice((0, 0, 1)))
            rnd.shuffle(use)
            terms = [rnd.choice(('%s', '2*%s', 'sin(%s)', '%s^2', '3/%s')) % v for v in use] + ['%d' % rnd.randrange(1, 99)]
            c = rnd.randrange(1, len(terms))
            eqs.append('%s = %s' % (rnd.choice((' + ', ' - ')).join(terms[:c]), ' + '.join(terms[c:])))
        seen += new
    return eqs, seen


def sparse(rnd, sizes, consts):
    """blocks that can be ordered so that every equation after the first of a block brings at most one new unknown"""
    names = rnd.sample(['x', 'y', 'z', 'u_1', 'V2', 'w', 'q', 'pp', 'Tmax', 'h', 'inf', 'NaN'], sum(sizes))
    seen, eqs = [], []
    for s in sizes:
        new, names = names[:s], names[s:]
        k = rnd.randrange(2, s + 1)
        uses = [new[:k]]
        while len(uses) < s:
            # the unknowns that are left must all come
            if k < s and rnd.random() < 0.6 or s - k >= s - len(uses):
                uses.append([new[k]] + rnd.sample(new[:k], rnd.choice((1, 1, 2))))
                k += 1
            else:
                uses.append(rnd.sample(new[:k], min(k, rnd.choice((2, 2, 3)))))
        for use in uses:
            use = use + rnd.sample(seen, min(len(seen), rnd.choice((0, 0, 1)))) + rnd.sample(sorted(consts), rnd.choice((0, 0, 1)))
            rnd.shuffle(use)
            terms = [rnd.choice(('%s', '2*%s', 'sin(%s)', '%s^2', '3/%s')) % v for v in use] + ['%d' % rnd.randrange(1, 999)]
            c = rnd.randrange(1, len(terms))
            eqs.append('%s = %s' % (' + '.join(terms[:c]), ' + '.join(terms[c:])))
        seen += new
    return eqs, seen


def check(ctx):
    ctx.rule('a system that can be solved block after block is solved completely; every solution comes from one solver call on unsolved equations of the text with the known values, declared guess and domain, margin and limit; solver failures are failures')
    W = Solves(ctx)
    w = ctx.public(BS)['span']
    rnd = random.Random(5)
    thorough = ctx.tier == 'thorough'
    CONSTS = {'k': 2.5, 'g_0': -3.0}
    NOISE = ['', 'no equation here', '   ', 'x + y', 'k']

    def judge(text, eqs, solvable, consts, declared, margin, limit):
        good, log, sol, post = W.solve(text, consts, declared, margin, limit)
        if not good:
            return 'fails'
        for n, v in consts.items():
            if sol.get(n) != v:
                return 'reports the constant %s as %r' % (n, sol.get(n))
        for n in solvable:
            if n not in sol:
                return 'does not solve %s' % n
        groups = {}
        for n, v in sol.items():
            if n in consts:
                continue
            if n not in solvable:
                return 'reports a value for %s, which cannot be solved' % n
            if v not in W.prov:
                return 'reports %s = %r, which no solver returned' % (n, v)
            name, used, known, info, m, l = W.prov[v]
            if name != n:
                return 'reports the solution for %s as %s' % (name, n)
            want = tuple(declared.get(n, DEF))
            if tuple(info) != want:
                return 'solves %s with guess and domain %r instead of %r' % (n, info, want)
            if m != margin or l != limit:
                return 'solves %s with margin %r and limit %r instead of %r and %r' % (n, m, l, margin, limit)
            for e in used:
                if e not in eqs:
                    return 'solves %r, which is not an equation of the text' % e
                for x in words(e):
                    if x in known and sol.get(x) != known[x]:
                        return 'solves %r with %s = %r but reports %r' % (e, x, known[x], sol.get(x))
            groups.setdefault(used, set()).add(n)
        seen = {}
        for used, ns in groups.items():
            for e in used:
                if e in seen and eqs.count(e) < 2:
                    return 'uses the equation %r for two solutions' % e
                seen[e] = used
            unk = set()
            for e in used:
                unk |= set(words(e)) - set(FNS) - set(consts) - {x for x in words(e) for k in [W.prov[sol[next(iter(ns))]][2]] if x in k}
            if unk != ns:
                return 'solves %r for %s' % (list(used), sorted(ns))
        for n in solvable:
            t = post.get(n)
            if t is None or t.vi != W.num or t.f[0] != sol[n]:
                return 'leaves %s in the context as something else than its solution' % n
        if len(log) != len(groups):
            return 'logs %d steps for %d solutions' % (len(log), len(groups))
        return None

    def group(key, cases):
        with ctx.sub(key):
            k = 0
            for c in cases:
                try:
                    why = judge(*c)
                except Panics:
                    why = 'panics'
                k += 1
                if why:
                    ctx.violation(key, 'basic_solve(%r) %s' % (c[0], why), w)
                    return
            ctx.ok('%s (%d systems)' % (key, k))

    def decl(names):
        return {n: (rnd.choice((0.5, -2.0, 30.0)), rnd.choice((-50.0, 0.0, -math.inf)), rnd.choice((100.0, math.inf))) for n in names if rnd.random() < 0.6}

    def case(sizes, noise=True, extra=(), order=None, make=blocks):
        eqs, names = make(rnd, sizes, CONSTS)
        eqs = list(eqs) + list(extra)
        if order is None:
            rnd.shuffle(eqs)
        elif order < 0:
            eqs = eqs[::-1]
        ls = list(eqs)
        for _ in range(rnd.randrange(3) if noise else 0):
            ls.insert(rnd.randrange(len(ls) + 1), rnd.choice(NOISE))
        return '\n'.join(ls), eqs, names, CONSTS, decl(names + ['unused']), rnd.choice((1e-4, 0.01)), rnd.choice((10, 77, 200))

    N_ = 60 if thorough else 12
    group('one unknown', [case([1]) for _ in range(N_)])
    group('chains', [case([1] * n, order=o) for n in (2, 3, 4) for o in (1, -1, None) for _ in range(N_ // 4)])
    group('one block', [case([n]) for n in (2, 3, 4) for _ in range(N_ // 2)])
    group('blocks', [case([rnd.choice((1, 1, 2, 2, 3)) for _ in range(n)]) for n in (2, 3) for _ in range(N_ * 2)])
    group('sparse blocks', [case(s, make=sparse) for s in ([3], [4], [5], [6], [2, 4], [4, 3]) for _ in range(N_)])
    group('sparse blocks and equations that cannot be solved', [case(s, extra=x, make=sparse) for s in ([4], [6], [3, 3]) for x in (['m1 = 3 + n1'], ['m1 + m2*m3 = 1', 'm1 - k = m2/m4']) for _ in range(N_ // 4)])
    RING = ['a + b = 4', 'd + e = 13', 'b + c = 7', 'e + f = 16', 'c + d = 10', 'f + a = 13']
    group('rings', [('\n'.join(o), list(o), list('abcdef'), CONSTS, {}, 1e-4, 10) for o in [RING, RING[::-1]] + [rnd.sample(RING, 6) for _ in range(N_)]])
    group('with equations that cannot be solved', [case(s, extra=x) for s in ([], [1], [2], [1, 2], [1, 1]) for x in (['m1 = 3 + n1'], ['m1 + m2*m3 = 1', 'm1 - k = m2/m4']) for _ in range(N_ // 4)])
    # solutions, margins, limits and domains of every magnitude, long texts
    pb = sorted(set(ctx.probes()) | {math.inf, -math.inf})

    def rotate(k, n):
        return [pb[(k * n + i) % len(pb)] for i in range(n)]

    def extremes(cs):
        for i, c in enumerate(cs):
            W.given = rotate(i, 5)
            yield c
        W.given = ()
    lims = [0, 1, 2, 50, 250, 1001, 65537, 10 ** 6, 2 ** 33] + ctx.ints()

    def settings():
        for i, m in enumerate(pb):
            c = list(case([(1,), (2,), (1, 2)][i % 3]))
            c[5], c[6] = m, lims[i % len(lims)]
            yield c
        for i, l in enumerate(lims * 2):
            c = list(case([(1,), (2,)][i % 2]))
            c[6] = l
            yield c

    def declared():
        for i in range(len(pb)):
            c = list(case([(1,), (2,)][i % 2]))
            c[4] = {n: tuple([pb[(i + j) % len(pb)]] + sorted((pb[(3 * i + j) % len(pb)], pb[(5 * i + 2 * j) % len(pb)]))) for j, n in enumerate(c[2])}
            yield c

    def constants():
        for i in range(len(pb)):
            c = list(case([(1,), (2,)][i % 2]))
            c[3] = {'k': pb[i], 'g_0': pb[i - 4]}
            yield c

    def longer():
        for ln in [40, 150, 700] + ctx.ints(lo=14, hi=2000):
            for s in ((1,), (2,), (1, 2)):
                c = list(case(s, noise=False))
                c[1] = [e.replace(' = ', ' = ' + ' ' * (ln - len(e))) for e in c[1]]
                c[0] = '\n'.join(c[1])
                yield c
        for k in sorted({9} | set(ctx.ints(hi=24))):
            yield case([1] * min(k, 10), noise=False, order=-1)
    def large():
        # rings grow by one equation at a time from wherever they are begun; the orders make that slow
        for k in sorted({9, 14} | {x for x in ctx.ints(lo=7, hi=20)}) + ([26] if thorough else []):
            v = ['r%d' % i for i in range(k)]
            ring = ['%s + %s = %d' % (v[i], v[(i + 1) % k], 3 * i + 1) for i in range(k)]
            zig = [ring[i] for i in sorted(range(k), key=lambda i: (i % 2, i))]
            for o in (zig, zig[::-1], rnd.sample(ring, k)):
                yield '\n'.join(o), o, v, CONSTS, {}, 1e-4, 10
        for k in [20, 70] + [x for x in ctx.ints(lo=14, hi=300)]:
            v = ['s%d' % i for i in range(k)]
            o = ['%s = %d' % (x, i) for i, x in enumerate(v)]
            yield '\n'.join(o), o, v, CONSTS, {v[-1]: (3.0, -1.0, 400.0)}, 1e-4, 10
            if k < 100:
                o = ['s0 = 1'] + ['%s = %s + k' % (v[i], v[i - 1]) for i in range(1, k)]
                yield '\n'.join(o), o, v, CONSTS, {}, 1e-4, 10
            if k < 40:
                o = o[::-1]
                yield '\n'.join(o), o, v, CONSTS, {}, 1e-4, 10
        for k in (40, ):
            v = ['r%d' % i for i in range(k)]
            ring = ['%s + %s = %d' % (v[i], v[(i + 1) % k], 3 * i + 1) for i in range(k)]
            o = [ring[i] for i in sorted(range(k), key=lambda i: ((i % 4) in (1, 3), i % 4, i))]
            yield '\n'.join(o), o, v, CONSTS, {}, 1e-4, 10
        for k in [12, 70] + [x for x in ctx.ints(lo=14, hi=80)]:
            o = ['m%d*n%d = %d' % (i, i, i) for i in range(k)] + ['x + y = 3', 'x - y = 1']
            yield '\n'.join(o), o, ['x', 'y'], CONSTS, {}, 1e-4, 10
    group('solutions of every magnitude', extremes([case([(1,), (2,), (1, 1), (2, 1)][i % 4]) for i in range(len(pb))]))
    W.given = ()
    group('margins and limits of every magnitude', settings())
    group('declarations of every magnitude', declared())
    group('constants of every magnitude', constants())
    group('long equations and chains', longer())
    group('large systems', large())
    def again():
        for i, sizes in enumerate([(1,), (2,), (1, 2), (2, 1), (1, 1, 1), (3,)]):
            c = list(case(sizes))
            yield c
            yield c
            d = list(c)
            d[3] = {'k': 7.25 + i, 'g_0': 11.5}
            yield d
            d = list(c)
            d[4] = {n: (1.5 + i + j, -9.0 - j, 40.0 + i) for j, n in enumerate(c[2])}
            yield d
            d = list(c)
            d[4] = {}
            d[5], d[6] = 1e-3, 7
            yield d
            e = case(sizes[::-1])
            yield e
            yield c
    group('one system after another', again())
    group('nothing to solve', [('', [], [], CONSTS, {}, 1e-4, 10), ('\n\nhello\n', [], [], {}, {}, 1e-4, 10), ('2 = k', ['2 = k'], [], CONSTS, {}, 1e-4, 10)])
    group('repeated equations', [('x = 3\ny = x + 1\nx = 3', ['x = 3', 'y = x + 1', 'x = 3'], ['x', 'y'], CONSTS, {}, 1e-4, 10), ('x + y = 3\nx + y = 3\nx - y = 1', ['x + y = 3', 'x + y = 3', 'x - y = 1'], ['x', 'y'], CONSTS, {'x': (4.0, 0.0, 9.0)}, 1e-4, 10)])

    ALIKE = [['x + y = 1', 'x - y = 3', 'x + y = 1 + z'], ['x + y = 1', 'x - y = 3', 'z + x + y = 1'], ['a = 2', 'A = 3', 'a*A = b'], ['x + y = 4', 'x - y = 2', 'X + Y = 4', 'X - Y = 2'],
             ['x = 1', 'xx = 1', 'xxx = x'], ['x = 1', 'x1 = 1', 'x1x = 1', 'y = x1x'], [' x + y = 1', 'x - y = 3 ', '  x + z = y'], ['y = 1', '-y = z', 'q*y = 1', 'q*y = 12 + p'],
             ['a + b = 1', 'b - a = 1 - 2*b', 'c + a + b = 1', 'c + a + b = 12*d'], ['u = v', 'v = u + w - 2*v', 'w = 1'], ['x_1 = 4', 'x_1*x_12 = 3', 'x_2 = 4'], ['1 = p', 'p = r', 'r + 1 = s', 'p = 1*t']]

    def alike():
        for o in ALIKE:
            ns = sorted({n for e in o for n in words(e)})
            for q in (o, o[::-1], rnd.sample(o, len(o))):
                yield '\n'.join(q), list(q), ns, CONSTS, decl(ns), 1e-4, 10
    group('equations that resemble one another', alike())
    with ctx.sub('failures'):
        k = 0
        for t in ['bad = 3', 'x = 2\nbad*2 = x', 'bad + y = 2\nbad - y = 3', 'x = 1\ny + bad = 2 - x\ny - bad = 4', 'worse + bad = 3\nworse - bad = 1\nx = 2', 'x = 2 = 3', 'x = 1\ny = = 2', 'x + = 3', 'x = (2', 'y = x +\nx = 2', '# x = 2', 'y = 2\n#x = y', 'x = 3; y', 'y = 1\nx = $y', 'x + y = 2\nx - y = 3 # easy']:
            k += 1
            try:
                if W.solve(t, CONSTS, {}, 1e-4, 10)[0]:
                    ctx.violation('failures', 'basic_solve(%r) reports a solution although a solver fails or an equation is malformed' % t, w)
                    return
            except Panics:
                ctx.violation('failures', 'basic_solve(%r) panics' % t, w)
                return
        ctx.ok('failures (%d systems)' % k)

    # ---- solve_with_preprocessors: compile, then solve what it gives
    with ctx.sub('preprocessing'):
        CO = NP + 'compile'
        key = 'preprocessing'
        log = []
        eng, sm, a, b = W.summary(SP, lambda k, p: p in (BS, CO, NC))
        ws = b['span']

        def calls(ev, t, p, args):
            if p == NC:
                return {'std': 1}
            if p == CO:
                x = [ev.ev(y) for y in args]
                return Er(Sym('compile')) if x[0] == 'wrong' else Ok('compiled ' + x[0])
            if p == BS:
                x = [ev.ev(y) for y in args]
                log.append(x)
                return Er(Sym('solve')) if 'unsolvable' in x[0] else Ok(('solution', repr(x)))
            return None

        def hook(ev, t):
            if t.t[0] == 'mut' and isn(t[1], 'call'):
                x = [ev.ev(y) for y in t[1][2]]
                return dict(x[t[2]], **{'by %s %d' % (t[1][1], t[2]): x[0]})
            return None
        for code in ('some code', 'wrong', 'unsolvable'):
            for m, l in [(1e-4, 10), (0.25, 300)] + [(m, 25) for m in ctx.probes()] + [(1e-3, l) for l in [0, 1, 2, 50, 1001, 10 ** 6] + ctx.ints()]:
                env = dict(zip(a, [code, m, l]))
                kind, v, st, ev = sm.value(env, mode='R', calls=calls, hook=hook)
                if kind != 'ret':
                    ctx.violation(key, 'solve_with_preprocessors panics', ws)
                    return
                good, x = result(v)
                if good != (code == 'some code'):
                    ctx.violation(key, 'solve_with_preprocessors %s' % ('reports success although %s fails' % ('compile' if code == 'wrong' else 'the solver') if good else 'fails'), ws)
                    return
                want = ('solution', repr(['compiled ' + code, {'std': 1, 'by %s 1' % CO: code}, {'by %s 2' % CO: code}, m, l]))
                if good and x != want:
                    ctx.violation(key, 'solve_with_preprocessors solves %s instead of %s' % (x[1:], want[1:]), ws)
                    return
        ctx.ok(key)
