from nodal import *
from n04 import B, SB, MODEL

EXPLAIN = ('Value-numbering summary of run_study and of the residual functions it hands to the solver, instantiated for models of up to four nodes with element types of the rule\'s own '
           '(registered in the builder\'s configuration): element constructors, fluxes, balances and the solver are abstract, all potentials free.')
RUN = SB + '::run_study'
SOLVER = 'geqslib::newton::multivariate_newton_raphson'
RES = NE + 'NodalAnalysisStudyResult'
MARGIN, LIMIT = Sym('margin'), 77


def raw(x):
    return x.v if isinstance(x, F) else x


def like(a, b):
    if not isinstance(a, list) or len(a) != len(b):
        return False
    most = max([abs(x) for x in list(a) + list(b) if isinstance(x, float) and x == x] or [0.0])
    for x, y in zip(a, b):
        if isinstance(x, float) and isinstance(y, float):
            if not abs(x - y) <= 1e-9 * most:
                return False
        elif x != y:
            return False
    return True


class El(object):
    def __init__(self, kind, a, b, gain, i):
        self.kind, self.a, self.b, self.gain, self.i = kind, a, b, gain, i

    def __repr__(self):
        return 'El%d' % self.i


class World(object):
    """abstract elements: p passes (in - out) * gain, s drives the output to the input plus gain, e's flux is an error, c cannot be created"""

    def __init__(self, ctx, n, dim, mode='F'):
        self.ctx, self.n, self.dim, self.mode = ctx, n, dim, mode
        self.num = F if mode == 'F' else float
        self.els = []
        self.cells = None
        self.at_solver = None
        self.solution = None
        self.solver_calls = 0
        self.fail = False           # fluxes of 'x' elements are errors from now on

    def field(self, cell, name, v=None):
        i = self.n.db.fi(NODE, name)
        if v is None:
            return cell.v.f[i]
        f = list(cell.v.f)
        f[i] = v
        cell.v = Agg(NODE, 0, f)

    def flux(self, e):
        n = self.n
        if e.kind == 'e' or (e.kind == 'x' and self.fail):
            return None
        pa, pb = [n.vals(self.field(c, 'potential'))[2] for c in (e.a, e.b)]
        if e.kind == 's':
            self.field(e.b, 'potential', n.mat([q + g for q, g in zip(pa, e.gain)]))
            self.changed = True
            # the flux of a source is the balance of the node it drives, which makes further driven nodes follow
            self.balance(self.field(e.b, 'inputs'), self.field(e.b, 'outputs'))
            return [e.gain[0] * e.gain[0] + self.num(j) for j in range(self.dim)]
        return [(x - y) * g for x, y, g in zip(pa, pb, e.gain)]

    def balance(self, inputs, outputs):
        r = [self.num(0)] * self.dim
        for es, sg in ((inputs, 1), (outputs, -1)):
            for e in es:
                f = self.flux(e)
                if f is None:
                    return None
                r = [q + x if sg > 0 else q - x for q, x in zip(r, f)]
        return r

    def calls(self, ev, t, p, args):
        if p == 'value':
            f = ev.ev(args[0])
            if isinstance(f, tuple) and f[0] == 'ctor':
                a, b, g = (ev.ev(x) for x in args[1:])
                if not (isinstance(a, Cell) and isinstance(b, Cell)):
                    raise Unk('constructor arguments')
                k = (f[1], id(a), id(b), tuple(getattr(q, 'v', q) for q in g))
                if k in self.made:          # the same call, evaluated again
                    return Ok(self.made[k])
                e = self.made[k] = El(f[1], a, b, g, len(self.els))
                if f[1] == 'c':
                    return Er('ctor')
                if f[1] == 's':
                    self.field(b, 'is_locked', True)
                self.field(a, 'outputs', list(self.field(a, 'outputs')) + [e])
                if f[1] != 's':
                    self.field(b, 'inputs', list(self.field(b, 'inputs')) + [e])
                self.els.append(e)
                return Ok(e)
            return None
        if p == GETFLUX:
            e = ev.ev(args[0])
            if not isinstance(e, El):
                raise Unk('flux of %r' % (e,))
            self.changed = False
            f = self.flux(e)
            if self.changed:
                ev.memo = {}
            return Er('flux') if f is None else Ok(self.n.mat(f))
        if p == DISC:
            c = ev.ev(args[0])
            c = c.v if isinstance(c, Cell) else c
            r = self.balance(self.n.get(c, 'inputs'), self.n.get(c, 'outputs'))
            ev.memo = {}
            return Er('balance') if r is None else Ok(self.n.mat(r))
        if p.startswith(SOLVER):
            if t not in self.solved:        # the same call may be evaluated again
                self.solver_calls += 1
                self.solved[t] = self.at_solver(*[ev.ev(x) for x in args])
                ev.memo = {}
            return self.solved[t]
        return None

    def run(self, builder, margin=MARGIN, limit=LIMIT):
        self.made, self.solved = {}, {}
        eng, sm, a, b = self.n.summary(RUN, (GETFLUX, DISC, SOLVER))
        kind, v, st, ev = sm.value(dict(zip(a, [builder, margin, limit])), mode=self.mode, calls=self.calls, hook=self.n.hook, wt=True)
        return kind, v

    def residual(self, clo, x):
        body = self.n.clo_body(clo)
        eng, sm, a, b = self.n.summary(body, (GETFLUX, DISC, SOLVER))
        kind, v, st, ev = sm.value(dict(zip(a, [clo, x])), mode=self.mode, calls=self.calls, hook=self.n.hook, wt=True)
        if isinstance(clo, Clo):
            captured(eng, st, ev, a[0], clo)
        return kind, v


MODELS5 = [     # (dimension, nodes, {node: (potential, locked)}, elements)
    (1, 2, {0: ('k', True)}, [('p', 0, 1)]),
    (1, 3, {2: ('k', True)}, [('p', 0, 1), ('p', 1, 2), ('p', 2, 0)]),
    (1, 3, {0: ('k', True), 1: ('k', False)}, [('s', 0, 1), ('p', 1, 2), ('p', 2, 0)]),
    (1, 4, {3: ('k', True)}, [('s', 0, 1), ('p', 0, 3), ('p', 1, 2), ('p', 1, 3)]),
    (1, 4, {0: ('k', True), 2: ('k', True)}, [('p', 1, 0), ('p', 3, 1), ('p', 3, 2)]),
    (2, 3, {0: ('k', True)}, [('p', 0, 1), ('p', 1, 2)]),
    (2, 2, {}, [('p', 0, 1)]),
    (1, 1, {0: ('k', True)}, []),
    (1, 3, {0: ('k', True)}, [('p', 1, 2), ('p', 2, 0), ('s', 0, 1)]),
    (1, 3, {0: ('k', True)}, [('p', 2, 1), ('s', 2, 1), ('p', 0, 2), ('p', 1, 0)]),
    (2, 3, {2: ('k', True)}, [('p', 1, 2), ('s', 0, 1), ('p', 0, 2)]),
    (1, 4, {0: ('k', True)}, [('p', 2, 3), ('s', 1, 2), ('s', 3, 1), ('p', 3, 0)]),
    # several elements between the same nodes, elements from a node to itself, nodes without elements
    (1, 3, {0: ('k', True)}, [('p', 0, 1), ('p', 0, 1), ('p', 1, 0), ('p', 1, 1), ('p', 1, 2), ('p', 2, 0), ('p', 0, 0)]),
    (1, 4, {0: ('k', True), 3: ('k', True)}, [('p', 0, 1), ('p', 1, 2), ('p', 2, 0)]),
]


class Study(object):
    def __init__(self, ctx, n, mode='F'):
        self.ctx, self.n, self.b = ctx, n, B(n)
        self.mode = mode
        self.num = F if mode == 'F' else float
        self.r = random.Random(5)

    scale = 1.0
    pool = None

    def free(self):
        if self.pool:
            return self.num(self.r.choice(self.pool))
        return F(self.r.randrange(1, P)) if self.mode == 'F' else self.r.uniform(0.5, 9.0) * self.scale * self.r.choice((-1, 1))

    def build(self, dim, cnt, conf, els, mtype='t', types='psecx', key='t'):
        pots = {i: [self.free() for _ in range(dim)] for i in conf}
        c = {i: self.b.meta(pots[i], lk, Nothing()) for i, (_, lk) in conf.items()}
        gains = [[self.free() for _ in range(dim)] for _ in els]
        m = self.b.model(mtype, cnt, c, [self.b.elem(t, i, o, g) for (t, i, o), g in zip(els, gains)])
        cf = {key: self.b.config(dim, {x: ('ctor', x) for x in types}), 'zz': self.b.config(dim + 1, {})}
        return self.b.builder(cf, m), pots, gains

    def expect(self, dim, cnt, conf, els, pots, gains, x):
        """potentials, element fluxes and node balances at unknowns x, computed by the rule"""
        locked = {i for i, (_, lk) in conf.items() if lk} | {o for t, i, o in els if t == 's'}
        p = {i: list(pots[i]) if i in pots else None for i in range(cnt)}
        for i in range(cnt):
            if i not in locked:
                p[i] = [x[i, c] for c in range(dim)]
        for _ in els:
            for (t, i, o), g in zip(els, gains):
                if t == 's' and p[i] is not None:
                    p[o] = [a + b for a, b in zip(p[i], g)]
        fx = []
        for (t, i, o), g in zip(els, gains):
            fx.append([g[0] * g[0] + self.num(j) for j in range(dim)] if t == 's' else [(a - b) * k for a, b, k in zip(p[i], p[o], g)])
        bal = {i: [self.num(0)] * dim for i in range(cnt)}
        for (t, i, o), f in zip(els, fx):
            bal[i] = [a - b for a, b in zip(bal[i], f)]
            if t != 's':
                bal[o] = [a + b for a, b in zip(bal[o], f)]
        return p, fx, bal, sorted(set(range(cnt)) - locked)


def study(ctx, n, s, dim, cnt, conf, els, w, MARGIN=MARGIN, LIMIT=LIMIT, only=None):
    bd, pots, gains = s.build(dim, cnt, conf, els)
    wl = World(ctx, n, dim, s.mode)
    free = s.expect(dim, cnt, conf, els, pots, gains, {(i, c): s.num(0) for i in range(cnt) for c in range(dim)})[3]
    unk = [(i, c) for i in free for c in range(dim)]
    CI = NE + 'ComponentIndex'
    ck = lambda i, c: n.agg(CI, node=i, component=c)
    sol = {k: s.free() for k in unk}
    probs = []

    def solver(fns, guess, margin, limit):
        if isinstance(margin, Sym) and margin is not MARGIN or isinstance(limit, Sym):
            raise Unk('solver settings')
        if margin != MARGIN or limit != LIMIT:
            probs.append(('solver settings', 'the solver is not given the margin and the iteration limit of the study'))
        if not isinstance(guess, dict) or not isinstance(fns, list):
            raise Unk('solver arguments %r' % (guess,))
        from evalx import hk, unhk
        ks = {tuple(n.fields(unhk(k), CI, 'node', 'component')) for k in guess}
        if ks != set(unk):
            probs.append(('unknowns', 'the unknowns of the study are %s instead of the components of the nodes that are not locked' % sorted(ks)))
            return Er('solver')
        if len(fns) != len(unk):
            probs.append(('equations', '%d equations are solved for %d unknown potentials' % (len(fns), len(unk))))
            return Er('solver')
        xs = [{k: s.free() for k in unk} for _ in range(2)]
        for k in unk[:2] + unk[-1:] if len(unk) < 8 else ():
            # a solver moves one unknown at a time, by little, and evaluates every equation there
            xs += [dict(xs[-1], **{}), {q: z + s.num(1) / s.num(1000) if q == k else z for q, z in xs[-1].items()}]
        if only is not None:
            xs = [{k: s.num(only) for k in unk}]
        for turn, x in enumerate(xs):
            p, fx, bal, fr = s.expect(dim, cnt, conf, els, pots, gains, x)
            want = sorted(raw(bal[i][c]) for i, c in unk)
            got = []
            for f in fns:
                for y in (x, {k: s.free() for k in unk}) if turn < 2 and only is None else (x,):
                    kind, v = wl.residual(f, {hk(ck(*k)): q for k, q in y.items()})
                    if kind != 'ret' or v.vi != 0:
                        probs.append(('equations', 'an equation %s' % ('panics' if kind != 'ret' else 'is an error')))
                        return Er('solver')
                    if y is x:
                        got.append(raw(v.f[0]))
            if any(type(q) not in (int, float) for q in got):
                raise Unk('residual %r' % got)
            if not like(sorted(got), want):
                probs.append(('equations', 'the equations are not the balances of the unlocked nodes at the potentials they are given, one per component'))
                return Er('solver')
        # leave other potentials in the nodes: the solution must be what counts
        for f in fns[:1] if only is None else ():
            wl.residual(f, {hk(ck(*k)): s.free() for k in unk})
        return Ok({hk(ck(*k)): q for k, q in sol.items()})
    wl.at_solver = solver
    lab = '%d nodes, %d elements, %d components' % (cnt, len(els), dim)
    kind, v = wl.run(bd, MARGIN, LIMIT)
    if kind != 'ret':
        ctx.violation('study panics', 'a study of a model with %s panics' % lab, w)
        return
    if len(wl.els) != len(els):
        ctx.violation('elements', '%d elements are created for a model of %d' % (len(wl.els), len(els)), w)
        return
    if probs:
        for k, m in probs:
            ctx.violation(k, m, w)
        return
    if v.vi != 0:
        ctx.violation('study', 'a study of a model with %s is an error' % lab, w)
        return
    if unk and wl.solver_calls == 0:
        ctx.violation('solver', 'the equations of a model with %s are not solved' % lab, w)
        return
    p, fx, bal, fr = s.expect(dim, cnt, conf, els, pots, gains, sol)
    rn, re = n.fields(v.f[0], RES, 'nodes', 'elements')
    nm = {'%s.%d' % (t, i): f for i, ((t, a, b), f) in enumerate(zip(els, fx))}
    if not isinstance(rn, dict) or not isinstance(re, dict):
        raise Unk('results')
    ctx.check('node results of ' + lab, set(rn) == set(p) and all(like(rn[i], p[i]) for i in p),
              'the reported potentials are not those of the solution, the configured ones at locked nodes, and those following their driver at driven nodes', w)
    ctx.check('element results of ' + lab, set(re) == set(nm) and all(like(re[k], nm[k]) for k in nm),
              'the reported fluxes are not, for every element under its type and index, the flux of the element at the solution', w)


def faults(ctx, n, s, w):
    cases = []
    base = (1, 3, {0: ('k', True)}, [('p', 0, 1), ('x', 1, 2)])
    for what in ('solver', 'constructor', 'flux', 'equation'):
        with ctx.sub('failing ' + what):
            els = {'solver': base[3], 'constructor': base[3] + [('c', 0, 2)], 'flux': base[3], 'equation': base[3]}[what]
            bd, pots, gains = s.build(base[0], base[1], base[2], els)
            wl = World(ctx, n, 1)
            CI = NE + 'ComponentIndex'
            from evalx import hk

            def solver(fns, guess, margin, limit):
                if what == 'solver':
                    return Er('solver')
                if what == 'flux':
                    wl.fail = True
                if what == 'equation':
                    wl.fail = True
                    for f in fns:
                        kind, v = wl.residual(f, {hk(n.agg(CI, node=i, component=0)): s.free() for i in (1, 2)})
                        ctx.check('equation error', kind == 'ret' and v.vi == 1, 'an equation %s when the flux of an element cannot be calculated' % ('panics' if kind != 'ret' else 'gives a value'), w)
                    return Er('solver')
                return Ok({hk(n.agg(CI, node=i, component=0)): s.free() for i in (1, 2)})
            wl.at_solver = solver
            kind, v = wl.run(bd)
            ctx.check('failing ' + what, kind == 'ret' and v.vi == 1, 'a study %s although %s' % (
                'panics' if kind != 'ret' else 'reports results', {'solver': 'the equations could not be solved', 'constructor': 'an element could not be created',
                                                                   'flux': 'the flux of an element could not be calculated', 'equation': 'the equations could not be evaluated'}[what]), w)


def check(ctx):
    ctx.rule('a study solves, to the given margin and iteration limit, one balance per component of every node that is neither locked nor driven, and reports the potentials of the solution and '
             'every element\'s flux there; failures of construction, of fluxes and of the solver are the study\'s')
    n = Nodal(ctx)
    w = ctx.public(RUN)['span']
    s = Study(ctx, n)
    for m in MODELS5:
        with ctx.sub('study %d %d %d' % (m[0], m[1], len(m[3]))):
            study(ctx, n, s, m[0], m[1], m[2], m[3], w)
    r = Study(ctx, Nodal(ctx, 'R'), 'R')
    for i, (mg, lim) in enumerate(((1e-3, 100), (1e-12, 1), (2.5, 100000), (1e-30, 0))):
        m = MODELS5[i + 1]
        with ctx.sub('study to %g in %d' % (mg, lim)):
            study(ctx, r.n, r, m[0], m[1], m[2], m[3], w, mg, lim)
    for i, sc in enumerate(sorted({abs(x) for x in ctx.probes() if x and 1e-100 < abs(x) < 1e100})):
        for m in (MODELS5[2 + i % 4], MODELS5[8 + i % 4]):
            with ctx.sub('potentials of size %g' % sc):
                r.scale = sc
                study(ctx, r.n, r, m[0], m[1], m[2], m[3], w, 1e-3, 100)
    r.scale = 1.0
    # potentials, gains and solutions that coincide
    for pool in ((2,), (0, 3), (1, -1), (0,)):
        for i, m in enumerate(MODELS5):
            if len(set(m[3])) == len(m[3]):
                with ctx.sub('values among %r' % (pool,)):
                    for t in (s, r):
                        t.pool = pool
                        study(ctx, t.n, t, m[0], m[1], m[2], m[3], w, 1e-3, 100)
    s.pool = r.pool = None
    for k in ctx.lengths(20, 300, hi=1100):
        # many nodes, nearly all of them locked
        fr = [k - 1, k // 2, 1]
        with ctx.sub('%d nodes' % k):
            study(ctx, n, s, 1, k, {i: ('k', True) for i in range(k) if i not in fr}, [('p', 0, fr[0]), ('p', fr[0], fr[1]), ('p', fr[1], fr[2]), ('p', k - 2, fr[2])], w)
    for k in ctx.lengths(12, 300, hi=1100):
        with ctx.sub('%d elements' % k):
            # few of them at nodes that are not locked when there are many
            fr = (1, 2, 3) if k <= 80 else (2,)
            lk = {i: ('k', True) for i in range(4) if i not in fr}
            els = [('p', i % 4, (i + 1 + i // 4 % 3) % 4) if k <= 80 or i % 29 == 5 or i == k - 1 else ('p', (0, 1, 3)[i % 3], (1, 3, 0)[i % 3]) for i in range(k)]
            study(ctx, n, s, 1, 4, lk, els, w)
    with ctx.sub('one study after the other'):
        for m in MODELS5[:6] * 2:
            study(ctx, n, s, m[0], m[1], m[2], m[3], w, only=3)
    faults(ctx, n, s, w)
