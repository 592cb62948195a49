import random
from expr import *
from e08 import clamp

EXPLAIN = ('Value-numbering summaries of SystemBuilder and System (the equations are closures sharing variable cells with the context), instantiated along random histories of calls; after every call the '
           'result and the final contents of the builder are compared with the accounting of equations and unknowns.')
B = 'geqslib::system::SystemBuilder::'
S = 'geqslib::system::System::'
TC = B + 'try_constrain_with'
MN = 'geqslib::newton::multivariate_newton_raphson'
CONSTS = {'a': 2.0, 'b': -3.0, 'k1': 0.5}
WILL, WONT, OVER = 'WillConstrain', 'WillNotConstrain', 'WillOverConstrain'
BADEQ = ['x + 1', 'x = 1 = 2', '(x = y', 'x a = y', 'x + = 3', 'f() = x']


class SysWorld(World):
    """try_fully_constrain_with over the summary of try_constrain_with"""

    def __init__(self, ctx):
        World.__init__(self, ctx)
        self.cache = {}
        self.solver = None
        self.cells = {}
        self.extra = [self.more]

    def step(self, ev, args):
        this, eqn = ev.ev(args[0]), ev.ev(args[1])
        k = (id(this), eqn)
        if k not in self.cache:
            self.cache[k] = (this,) + self.method(TC, this, [eqn])
        if self.cache[k][1] != 'ret':
            raise OOB('try_constrain_with panics')
        return self.cache[k]

    def more(self, ev, t, p, args):
        if p == TC:
            return self.step(ev, args)[2]
        if self.solver and (p == MN or p.startswith(MN + '::<')):
            return self.solver([ev.ev(a) for a in args])
        return None

    def hook(self, ev, t):
        if t.t[0] == 'mut' and isn(t[1], 'call') and t[1][1] == TC:
            return self.step(ev, t[1][2])[3]
        if t.t[0] == 'mut' and isn(t[1], 'call') and self.solver and (t[1][1] == MN or t[1][1].startswith(MN + '::<')):
            # the solver leaves its solution in the guesses it was given
            r = self.solver([ev.ev(a) for a in t[1][2]])
            return r.f[0] if r.vi == 0 else dict(self.cells)
        return World.hook(self, ev, t)

    def final_cells(self, eng, st, ev):
        """{id(cell): contents} written by the selected outcome"""
        mem = N('mem', tuple(N('at', l, eng.deep(v, st)) for l, v in st.mem.items() if l[0] == 'P' and v is not eng.initial(l)))
        return ev.written(mem)


class Model(object):
    def __init__(self, eqn):
        self.eqs, self.vars = [eqn], set(unknowns(eqn, set()))

    def full(self): return len(self.eqs) == len(self.vars)

    def add(self, eqn):
        if self.full():
            return OVER
        new = unknowns(eqn, self.vars)
        if len(new) > 1:
            return WONT
        self.eqs.append(eqn)
        self.vars |= set(new)
        return WILL


def unknowns(eqn, known):
    import re
    out = []
    for n in re.findall(r'(?i)[a-z][a-z0-9_]*', eqn):
        if n not in CONSTS and n not in World.FN and n not in known and n not in out:
            out.append(n)
    return out


def gen(rnd, nv):
    vs = (['x', 'y', 'z', 'u_1', 'V2'] if rnd.random() < 0.85 else ['inf', 'y', 'NaN', 'e1', 'Infinity'])[:nv]
    r = rnd.random()
    k = 1 if r < 0.3 else 2 if r < 0.75 else 3 if r < 0.95 else 0
    use = [rnd.choice(vs) for _ in range(k)]
    terms = [rnd.choice(['%s', '2*%s', 'sq(%s)', '-%s', '%s/4', 'f(%s)', '(%s-1)', 'g(%s,a)']) % v for v in use] + [rnd.choice(['a', 'b', '3', 'k1*2'])]
    rnd.shuffle(terms)
    c = rnd.randrange(1, len(terms) + 1) if len(terms) > 1 else 1
    l, r = terms[:c], terms[c:] or ['1']
    return '%s = %s' % (rnd.choice(' + | - '.split('|')).join(l), ' + '.join(r))


def check(ctx):
    ctx.rule('a system takes an equation exactly when it is not yet fully constrained and the equation brings at most one new unknown; its unknowns are exactly those of its equations; it is built exactly when there are as many equations as unknowns; it is solved for exactly those unknowns')
    W = SysWorld(ctx)
    db = ctx.db
    SB, SY = 'geqslib::system::SystemBuilder', 'geqslib::system::System'
    CR = [v['name'] for v in db.adts['geqslib::system::ConstrainResult']['variants']]
    ivars, ieqs, ictx = db.fi(SB, 'system_vars'), db.fi(SB, 'system_equations'), db.fi(SB, 'context')
    w = ctx.public(TC)['span']
    CONSTS = dict(globals()['CONSTS'])
    cx = lambda: W.context(CONSTS)

    def other(h):
        """contexts differ from system to system"""
        for i, n in enumerate(sorted(CONSTS)):
            CONSTS[n] = float((h * 7 + i * 5) % 13) / 2 - 2.75
    rnd = random.Random(7)

    def new(eqn):
        k, v, st, ev = W.run(B + 'new', [eqn, cx()])
        return (k, v.f[0] if k == 'ret' and v.vi == 0 else None)

    def same(key, sb, m, how, where):
        """builder contents against the accounting"""
        vs, eqs = sb.f[ivars], sb.f[ieqs]
        if not isinstance(vs, list) or not isinstance(eqs, list):
            raise Unk('builder')
        if sorted(vs) != sorted(m.vars):
            ctx.violation(key, 'the unknowns of the system are %s instead of %s after %s' % (sorted(vs), sorted(m.vars), how), where)
            return False
        if len(eqs) != len(m.eqs):
            ctx.violation(key, 'the system holds %d equations instead of %d after %s' % (len(eqs), len(m.eqs), how), where)
            return False
        return True

    def equations(key, sb, m, how, where):
        for vals in ({n: rnd.choice([1.0, -2.0, 3.5, 250.0]) for n in m.vars} for _ in range(2)):
            for f, e in zip(sb.f[ieqs], m.eqs):
                r = W.apply(f, [dict(vals)])
                want = residual(e, dict(CONSTS, **vals))
                if r.vi != 0 or not (near(r.f[0], want) or near(r.f[0], -want)):
                    ctx.violation(key, 'the equation "%s" of the system is %r at %r where left minus right is %r (after %s)' % (e, r.f[0], vals, want, how), where)
                    return False
        return True

    with ctx.sub('histories'):
        key = 'histories'
        n = 0
        for h in range(400 if ctx.tier == 'thorough' else 90):
            nv = rnd.choice([1, 2, 3, 3, 4, 5])
            e0 = gen(rnd, nv)
            how = 'new("%s")' % e0
            other(h)
            k, sb = new(e0)
            if sb is None:
                ctx.violation(key, '%s %s' % (how, 'panics' if k != 'ret' else 'is refused'), ctx.public(B + 'new')['span'])
                return
            m = Model(e0)
            if not same(key, sb, m, how, ctx.public(B + 'new')['span']):
                return
            for i in range(rnd.randrange(1, 8)):
                e = gen(rnd, nv) if rnd.random() < 0.85 else rnd.choice(BADEQ)
                was = m.full()
                bad = e in BADEQ
                k, v, sb2 = W.method(TC, sb, [e])
                how += ', try_constrain_with("%s")' % e
                n += 1
                if k != 'ret':
                    ctx.violation(key, '%s panics' % how, w)
                    return
                got = CR[v.f[0].vi] if v.vi == 0 else 'an error'
                if bad and not was and len(unknowns(e, m.vars)) <= 1:
                    want = 'an error'
                else:
                    want = m.add(e)
                if got != want:
                    ctx.violation(key, '%s gives %s instead of %s' % (how, got, want), w)
                    return
                if not same(key, sb2, m, how, w):
                    return
                sb = sb2
                k, v, _ = W.method(B + 'is_fully_constrained', sb)
                if k != 'ret' or v is not m.full():
                    ctx.violation(key, 'is_fully_constrained is %r with %d equations and %d unknowns' % (v, len(m.eqs), len(m.vars)), ctx.public(B + 'is_fully_constrained')['span'])
                    return
            k, v, _ = W.method(B + 'get_vars', sb)
            if k != 'ret' or sorted(v) != sorted(m.vars):
                ctx.violation(key, 'get_vars gives %r after %s' % (v, how), ctx.public(B + 'get_vars')['span'])
                return
            if not equations(key, sb, m, how, w):
                return
            k, v, st, ev = W.run(B + 'build_system', [sb])
            if k != 'ret' or (v.vi == 1) != m.full():
                ctx.violation(key, 'a system with %d equations and %d unknowns is %sbuilt (after %s)' % (len(m.eqs), len(m.vars), '' if v.vi == 1 else 'not ', how), ctx.public(B + 'build_system')['span'])
                return
        ctx.ok('histories (%d calls)' % n)
    with ctx.sub('long equations, many unknowns'):
        key = 'long equations, many unknowns'
        lens = [40, 150, 700] + [x for x in ctx.ints(lo=14, hi=3000)]
        for ln in lens:
            e0, e1 = 'x + y = 9', 'x - y = 4'
            for a, b in ((e0.ljust(ln), e1), (e0, e1.ljust(ln)), (e0, e1.replace('4', '+'.join(['0'] * ((ln - len(e1)) // 2 + 1)) + '+4')), (e0.replace('y', 'y' * ln), e1.replace('y', 'y' * ln))):
                k, sb = new(a)
                if sb is None:
                    ctx.violation(key, 'new with an equation of %d characters %s' % (len(a), 'panics' if k != 'ret' else 'is refused'), ctx.public(B + 'new')['span'])
                    return
                k, v, sb = W.method(TC, sb, [b])
                if k != 'ret' or v.vi != 0 or CR[v.f[0].vi] != WILL:
                    ctx.violation(key, 'a system does not take an equation of %d characters with no new unknown' % len(b), w)
                    return
        for size in sorted({9, 20} | {x for x in ctx.ints(hi=70)}):
            k, sb = new('v0 = 1 + v1')
            m = Model('v0 = 1 + v1')
            how = 'a chain of %d equations' % size
            for i in range(1, size + 1):
                e = 'v%d = 1 + v%d' % (i, i + 1 if i < size else 0)
                k, v, sb = W.method(TC, sb, [e])
                want = m.add(e)
                got = 'panic' if k != 'ret' else CR[v.f[0].vi] if v.vi == 0 else 'an error'
                if got != want:
                    ctx.violation(key, 'equation %d of %s gives %s instead of %s' % (i, how, got, want), w)
                    return
                if not same(key, sb, m, how, w):
                    return
            k, v, st, ev = W.run(B + 'build_system', [sb])
            if k != 'ret' or (v.vi == 1) != m.full():
                ctx.violation(key, '%s: the system is %sbuilt' % (how, '' if v.vi == 1 else 'not '), ctx.public(B + 'build_system')['span'])
                return
        ctx.ok('%s (%d lengths)' % (key, len(lens)))
    with ctx.sub('malformed first equation'):
        for e in BADEQ + ['x', '', '=']:
            k, sb = new(e)
            if k != 'ret' or sb is not None:
                ctx.violation('malformed first equation', 'new("%s") %s' % (e, 'panics' if k != 'ret' else 'is accepted'), ctx.public(B + 'new')['span'])
                break
        else:
            ctx.ok('malformed first equation')
    with ctx.sub('constraining with many equations'):
        key = 'constraining with many equations'
        path = B + 'try_fully_constrain_with'
        w2 = ctx.public(path)['span']
        W.summary(path, opaque=lambda k, p: p == TC)
        n = 0
        for h in range(200 if ctx.tier == 'thorough' else 60):
            nv = rnd.choice([1, 2, 3, 4, 5])
            e0 = gen(rnd, nv)
            pool = [gen(rnd, nv) for _ in range(rnd.randrange(0, 7))]
            k, sb = new(e0)
            if sb is None:
                raise Undecided('new')
            m = Model(e0)
            left = list(pool)
            more = True
            while more and not m.full():
                more = False
                for e in left:
                    if m.add(e) == WILL:
                        left.remove(e)
                        more = True
                        break
            k, v, sb2 = W.method(path, sb, [list(pool)])
            how = 'new("%s"), try_fully_constrain_with(%r)' % (e0, pool)
            n += 1
            if k != 'ret' or v.vi != 0:
                ctx.violation(key, '%s %s' % (how, 'panics' if k != 'ret' else 'is refused'), w2)
                return
            if v.f[0] is not m.full():
                ctx.violation(key, '%s gives %r although the equations %s' % (how, v.f[0], 'fully constrain the system' if m.full() else 'do not'), w2)
                return
            vs, eqs = sb2.f[ivars], sb2.f[ieqs]
            if (len(vs) == len(eqs)) is not m.full():
                ctx.violation(key, '%s reports %r with %d equations and %d unknowns' % (how, v.f[0], len(eqs), len(vs)), w2)
                return
            if not set(vs) <= set(unknowns(' '.join([e0] + pool), set())):
                ctx.violation(key, '%s introduces unknowns %s' % (how, sorted(vs)), w2)
                return
            if m.full():
                # as many different equations of the pool as were added, each once
                vals = {x: rnd.choice([1.5, -2.0, 3.25, 7.0]) + i for i, x in enumerate(sorted(set(vs)))}
                have = []
                for f in eqs:
                    r = W.apply(f, [dict(vals)])
                    have.append(r.f[0] if r.vi == 0 else None)
                cand = []
                for e in [e0] + pool:
                    try:
                        cand.append(residual(e, dict(CONSTS, **vals)))
                    except Bad:
                        pass
                for x in have:
                    hit = [c for c in cand if x is not None and (near(c, x) or near(c, -x))]
                    if not hit:
                        ctx.violation(key, '%s: an equation of the system is none of those given, or one given once is taken twice' % how, w2)
                        return
                    cand.remove(hit[0])
        ctx.ok('%s (%d systems)' % (key, n))
        k, sb = new('x = y')
        for pool in (['x + 1'], ['x=2*y+', 'x=4'], ['y = z = 1']):
            k, v, sb2 = W.method(path, sb, [pool])
            ctx.check('malformed equation in %r' % pool, k == 'ret' and v.vi == 1, 'a malformed equation in %r is not reported' % pool, w2)

    with ctx.sub('constraining with very many equations'):
        key = 'constraining with very many equations'
        path = B + 'try_fully_constrain_with'
        w2 = ctx.public(path)['span']
        for size in ctx.lengths(9, 24, hi=48):
            ch = ['v%d = 1 + v%d' % (i, i + 1) for i in range(1, size)]
            last = 'v%d = 3' % size
            ways = [(ch + [last], True), ((ch + [last])[::-1], True), (ch, False), (ch[::2] + [last] + ch[1::2], True)]
            for pool, full in ways[:4 if size < 26 else 1] + [(['w = u + %d' % i for i in range(size)] + ['v1 = 2'], True)]:
                k, sb = new('v0 = 1 + v1')
                k, v, sb2 = W.method(path, sb, [list(pool)])
                if k != 'ret' or v.vi != 0:
                    ctx.violation(key, 'try_fully_constrain_with %s for %d equations' % ('panics' if k != 'ret' else 'fails', len(pool)), w2)
                    return
                if v.f[0] is not full:
                    ctx.violation(key, 'try_fully_constrain_with gives %r for %d equations that %s the system' % (v.f[0], len(pool), 'fully constrain' if full else 'do not fully constrain'), w2)
                    return
        ctx.ok(key)

    def system(e0, pool):
        k, sb = new(e0)
        for e in pool:
            k, v, sb = W.method(TC, sb, [e])
        k, v, st, ev = W.run(B + 'build_system', [sb])
        if k != 'ret' or v.vi != 1:
            raise Undecided('system not built')
        return v.f[0]
    with ctx.sub('specifying variables'):
        key = 'specifying variables'
        path = S + 'specify_variable'
        w3 = ctx.public(path)['span']
        jctx = db.fi(SY, 'context')
        inf = math.inf
        W.summary(path)
        pb = ctx.probes()
        far = [(g, -inf, inf) for g in pb] + [(2.5, lo, inf) for lo in pb] + [(2.5, -inf, hi) for hi in pb] + [(x, x, x) for x in pb[::3]] + [(x, x, x + abs(x) * 1e-9) for x in pb[1::3]]
        for var in ('x', 'y', 'z', 'a', 'f', 'q', '', 'X'):
            for g, lo, hi in (far if var == 'y' else []) + list(((1.0, -inf, inf), (3.0, 2.0, 5.0), (9.0, 2.0, 5.0), (-9.0, 2.0, 5.0), (0.0, 0.0, 0.0), (-4.0, -8.0, -1.0))):
                sy = system('a*x + y = 4', ['x = z', 'z = y + 1'])
                eng, sm, a, b = W.summary(path)
                env = dict(zip(a[1:], [var, g, lo, hi]))
                env[a[0]] = env[eng.initial(N('P', a[0]))] = sy
                k, v, st, ev = sm.value(env, mode='R', calls=W.calls, hook=W.hook)
                isv = var in ('x', 'y', 'z')
                if k != 'ret' or v is not isv:
                    ctx.violation(key, 'specify_variable("%s", ..) %s' % (var, 'panics' if k != 'ret' else 'reports %s although it is %san unknown of the system' % (v, '' if isv else 'not ')), w3)
                    return
                wr = W.final_cells(eng, st, ev)
                after = ev.ev(eng.deep(eng.load(st, N('P', a[0])), st))
                for n, t in sy.f[jctx].items():
                    if t.vi != db.vi(TOK, 'Var'):
                        continue
                    t2 = after.f[jctx].get(n)
                    c2 = t2.f[0] if isinstance(t2, Agg) and t2.f else None
                    if not isinstance(c2, Cell):
                        raise Unk('variable')
                    if c2 is not t.f[0]:
                        ctx.violation(key, 'specify_variable replaces the variable %s that the equations refer to' % n, w3)
                        return
                    now = wr.get(id(t.f[0]), (0, t.f[0].v))[1]
                    want = W.var(clamp(g, (lo, hi)), lo, hi) if n == var else t.f[0].v
                    trio = lambda x: [x.f[db.fi(VAR, q)] for q in ('value', 'min', 'max')]
                    if trio(now) != trio(want):
                        ctx.violation(key, 'specify_variable("%s", %r, %r, %r) leaves %s with value, minimum, maximum %r' % (var, g, lo, hi, n, trio(now)), w3)
                        return
        for size in ctx.lengths(20, 33, hi=70):
            sy = system('v0 = 1 + v1', ['v%d = %s' % (i, '1 + v%d' % (i + 1) if i < size - 1 else '7') for i in range(1, size)])
            ok = [W.method(path, sy, ['v%d' % i, 2.5, -inf, inf])[1] for i in range(size)]
            if not all(x is True for x in ok):
                ctx.violation(key, 'specify_variable does not report that v%d is one of the %d unknowns of the system' % ([x is True for x in ok].index(False), size), w3)
                return
        ctx.ok(key)
    with ctx.sub('solving'):
        key = 'solving'
        path = S + 'solve'
        w4 = ctx.public(path)['span']
        W.summary(path, opaque=lambda k, p: p == MN or p.startswith(MN + '::<'))
        big = [('v0 = 1 + v1', ['v%d = %s' % (i, '1 + v%d' % (i + 1) if i < size - 1 else '7') for i in range(1, size)]) for size in ctx.lengths(20, 33, hi=70)]
        for e0, pool in (('x = 4', []), ('a*x + y = 4', ['x - y = b']), ('x = y', ['y = z', 'z = sq(x) - 2']), ('b = V2*u_1', ['V2 = u_1 + a']), *big):
            more = [(m, 25) for m in ctx.probes()] + [(1e-3, l) for l in (0, 1, 2, 50, 250, 1001, 65537, 10 ** 6, 2 ** 33) + tuple(ctx.ints())] if e0 == 'x = y' else []
            gs = iter(ctx.probes())
            n_done = 0
            for margin, limit in [(1e-4, 10), (0.5, 77)] + more:
                sy = system(e0, pool)
                if more:
                    g = next(gs, 1.0)
                    for n in ('x', 'y', 'z'):
                        c = sy.f[db.fi(SY, 'context')][n].f[0]
                        c.v = W.var(g, -math.inf, math.inf)
                        g = -g / 3
                doms = {}
                if margin == 0.5 or (more and margin != 1e-4 and n_done % 3 == 0):
                    # variables kept to domains
                    for i, n in enumerate(unknowns(' '.join([e0] + pool), set())):
                        c = sy.f[db.fi(SY, 'context')][n].f[0]
                        doms[n] = ((-inf, 9.5), (9.0, 10.75), (12.0 + 1e-13, inf), (0.0, 20.0))[(i + n_done // 3) % 4]
                        c.v = W.var(clamp(W.value_of(c), doms[n]), *doms[n])
                n_done += 1
                seen = []
                vs = unknowns(' '.join([e0] + pool), set())
                soln = {n: 10.0 + i for i, n in enumerate(vs)}

                def solver(a):
                    seen.append(a)
                    return Ok(dict(soln))
                W.solver = solver
                k, v, st, ev = W.run(path, [sy, margin, limit])
                if not seen:
                    raise Undecided('solver not seen')
                fs, guess, mg, lm = seen[-1]
                if (mg, lm) != (margin, limit):
                    ctx.violation(key, 'the solver gets margin %r and limit %r instead of %r and %r' % (mg, lm, margin, limit), w4)
                    return
                if not isinstance(guess, dict) or not isinstance(fs, list):
                    raise Unk('solver arguments')
                if sorted(guess) != sorted(vs):
                    ctx.violation(key, 'the system of "%s" and %r is solved for %s' % (e0, pool, sorted(guess)), w4)
                    return
                jc = db.fi(SY, 'context')
                for n in vs:
                    if not close(guess[n], W.value_of(sy.f[jc][n].f[0])):
                        ctx.violation(key, 'the solver starts %s from %r instead of its guess' % (n, guess[n]), w4)
                        return
                if len(fs) != len(vs):
                    ctx.violation(key, 'the solver gets %d of %d equations' % (len(fs), len(vs)), w4)
                    return
                kept = {n: clamp(x, doms.get(n, (-inf, inf))) for n, x in soln.items()}
                if k != 'ret' or v.vi != 0 or v.f[0] != kept:
                    if k == 'ret' and v.vi == 0 and doms and v.f[0] == soln:
                        ctx.violation(key, 'a solution outside of its variable\'s domain is reported', w4)
                        return
                    ctx.violation(key, 'the solution found is not what is returned', w4)
                    return
                W.solver = lambda a: Er(Sym('no solution'))
                k, v, st, ev = W.run(path, [sy, margin, limit])
                if k != 'ret' or v.vi != 1:
                    ctx.violation(key, 'a failure of the solver is not reported', w4)
                    return
        ctx.ok(key)
