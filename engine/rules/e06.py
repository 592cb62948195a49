from expr import *
from e08 import errname, clamp

EXPLAIN = ('Value-numbering summary of solve_equation_with_context and solve_equation_from_str with the solver call opaque: its arguments (the compiled closure, guess, margin, limit) and the result '
           'built from its outcome are instantiated and compared with the equation, the inferred unknown and the caller\'s values; the closure is applied through its own summary.')
SE = 'geqslib::errors::EquationSolverError'
NR = 'geqslib::newton::newton_raphson'
CONSTS = {'a': 2.0, 'b': -3.0, 'k1': 0.5, 'mass': 3.0}
EQNS = [('x + 4 = 12', 'x'), ('x=a', 'x'), ('a = x', 'x'), ('a*y - f(b) = y^2 + 1', 'y'), ('sq(t_1) = a', 't_1'), ('Q2 - b = -Q2', 'Q2'), ('  3*x  =  x - a ', 'x'), ('x*x - x = x', 'x'), ('g(x, a) = b', 'x'), ('a - b = x - 1', 'x'),
        ('a + b = z / k1 - 2', 'z'), ('x-1=a-b', 'x'), ('0 = m - a - b', 'm'),
        ('MASS + mass = 12', 'MASS'), ('mas - massive_1 + massive_1 = mass', None), ('A = a', 'A'), ('K1 / k1 = b', 'K1'), ('mass2 = mass', 'mass2'), ('k = k1', 'k'), ('m_ = -mass', 'm_'), ('F - f(a) = b', 'F'),
        ('k1_ + k1 = a', 'k1_'), ('x1 + 2 = 3*x1', 'x1'), ('sq(SQ) = sq(mass)', 'SQ'),
        ('inf + 4 = 12', 'inf'), ('3 - nan = a*NaN_2 - NaN_2*a', None), ('NaN = a*NaN - b', 'NaN'), ('a = 2*Infinity', 'Infinity'), ('e1 - 1 = a', 'e1'), ('f64 = b', 'f64')]
EQNS = [x for x in EQNS if x[1]]
PTS = [0.0, 1.0, -2.5, 7.0, 100.0]


class Probe(object):
    def __init__(self, W, result):
        self.W, self.result, self.seen = W, result, []

    def __call__(self, ev, t, p, args):
        if p == NR or p.startswith(NR + '::<'):
            self.seen.append([ev.ev(a) for a in args])
            return self.result
        return None


def roots(dom):
    """values a solver may end at, beyond the domain it was given among them"""
    out = []
    for b, sg in zip(dom, (-1, 1)):
        if not math.isinf(b):
            out += [b, b + sg * 1e-9, b + sg * abs(b) * 1e-15, b + sg * 5e8, b - sg * 1e-9]
    return out + [42.5]


def is_solver(k, p): return p == NR or p.startswith(NR + '::<')


def check(ctx):
    ctx.rule('an equation with exactly one unknown is solved for that unknown: the solver gets left side minus right side as a function of it, restricted to its domain, with the given guess, margin and limit; everything else is refused')
    if not ctx.db.find(NR) and not any(k.startswith(NR) for k in ctx.db.bodies):
        raise Undecided('no solver')
    W = World(ctx)
    db = ctx.db
    inf = math.inf
    body = ctx.public('geqslib::solve_equation_with_context')
    w = body['span']

    def run(text, cx, guess, lo, hi, margin, limit, result):
        pr = Probe(W, result)
        W.extra = [pr]
        k, v, st, ev = W.run('geqslib::solve_equation_with_context', [text, cx, guess, lo, hi, margin, limit], opaque=is_solver)
        return k, v, pr.seen

    def same_fn(f, eqn, name, dom, consts, key, where):
        n = sg = 0
        for x in PTS + [dom[0], dom[1]]:
            if math.isinf(x):
                continue
            r = W.apply(f, [x])
            try:
                want = residual(eqn, dict(consts, **{name: clamp(x, dom)}))
            except Div0:
                if r.vi == 0:
                    ctx.violation(key, 'a division by zero in "%s" is not reported to the solver' % eqn, where)
                    return False
                continue
            if r.vi != 0:
                ctx.violation(key, 'the function solved for "%s" fails at %s=%g' % (eqn, name, x), where)
                return False
            s = 1 if near(r.f[0], want) else -1 if near(r.f[0], -want) else None
            if near(want, 0.0) and s:
                s = sg
            if s is None or (sg and s != sg):
                ctx.violation(key, 'the function solved for "%s" is %r at %s=%g where left minus right is %r (domain %r)' % (eqn, r.f[0], name, x, want, dom), where)
                return False
            sg = s
            n += 1
        return True
    def around():
        W.extra = [Probe(W, Ok(42.5))]
        W.run('geqslib::solve_equation_with_context', ['x = a', W.context(CONSTS), 1.0, -inf, inf, 1e-4, 10], opaque=is_solver)
        fl = [f for f in ctx.floats() if abs(f) not in (math.pi, math.e)]
        return [(f, (-inf, inf), 1e-4, 10) for f in fl] + [(1.0, (-inf, f), 1e-4, 10) for f in fl] + [(1.0, (f, inf), 1e-4, 10) for f in fl] + \
            [(1.0, (-inf, inf), f, 10) for f in fl if f > 0] + [(1.0, (-1e9, 1e9), 1e-4, i) for i in ctx.ints()]
    settings = [(1.0, (-inf, inf), 1e-4, 10), (4.0, (2.0, 50.0), 1e-2, 99), (-1.5, (-2.0, 0.0), 0.5, 1), (0.0, (-1e-9, 1e-9), 1e-15, 1 << 20), (1e12, (-inf, 1e300), 1e6, 65537), (7.0, (0.0, 5.0), 1e-3, 8),
                (-1e-300, (-5.0, inf), 1e-300, 1 << 40), (3.0, (2.0, 2.0), 1e-6, 5)]
    with ctx.sub('settings'):
        settings = settings + around()
    with ctx.sub('single unknown'):
        key = 'single unknown'
        for eqn, name in EQNS:
            for guess, dom, margin, limit in settings if eqn == EQNS[0][0] else settings[:3]:
                for root in roots(dom) if eqn == EQNS[0][0] else [42.5]:
                    k, v, seen = run(eqn, W.context(CONSTS), guess, dom[0], dom[1], margin, limit, Ok(root))
                    r = v.f[0] if k == 'ret' and v.vi == 0 else None
                    if isinstance(r, Agg) and len(r.f) == 2 and r.f[1] != clamp(root, dom):
                        ctx.violation(key, 'solving "%s" in %r reports %r where the solver ended at %r' % (eqn, dom, r.f[1], root), w)
                        return
                if k != 'ret' or v.vi != 0:
                    ctx.violation(key, '"%s" is not solved for %s' % (eqn, name), w)
                    return
                if not seen:
                    raise Undecided('solver not seen')
                f, g, m, l = seen[-1]
                if g != guess:
                    ctx.violation(key, 'the solver starts from %r instead of the given guess %r ("%s")' % (g, guess, eqn), w)
                    return
                if m != margin or l != limit:
                    ctx.violation(key, 'the solver gets margin %r and limit %r instead of %r and %r' % (m, l, margin, limit), w)
                    return
                if not same_fn(f, eqn, name, dom, CONSTS, key, w):
                    return
                r = v.f[0]
                if not (isinstance(r, Agg) and len(r.f) == 2):
                    raise Unk('result')
                if r.f[0] != name or r.f[1] != clamp(root, dom):
                    ctx.violation(key, 'solving "%s" returns (%r, %r) instead of %s and the value found' % (eqn, r.f[0], r.f[1], name), w)
                    return
        ctx.ok('single unknown (%d equations)' % len(EQNS))
    with ctx.sub('refusals'):
        for eqns, why in ((['a = 2', 'a + b = k1', '1 = 1', 'sq(a) = 4'], 'SingleUnknownNotFound'), (['x + y = 1', 'x = y', 'sq(x) - t = a', 'x*y*z = b', 'x = Y + X'], 'SingleUnknownNotFound'),
                          (['x + 4', 'x', 'f(x)'], 'FoundExpression'), (['x = 1 = 2', 'x == 4', 'a = x = b', '=x='], 'FoundMultipleEquations'),
                          (['x + = 2', 'x * = 2', '(x = 2', 'x) = 2', 'x = ', '= x', 'x a = 2', 'x = f()', 'f(x,a) = 2'], None)):
            for eqn in eqns:
                k, v, seen = run(eqn, W.context(CONSTS), 1.0, -inf, inf, 1e-4, 10, Ok(42.5))
                if why is None and k == 'ret' and v.vi == 0 and seen and all(W.apply(seen[-1][0], [x]).vi == 1 for x in PTS):
                    continue
                if not (k == 'ret' and v.vi == 1):
                    ctx.violation('refusals', '"%s" %s instead of being refused' % (eqn, 'is solved' if k == 'ret' else 'panics'), w)
                    return
                got = errname(db, v.f[0], SE)
                if why and got and got != why:
                    ctx.violation('refusals', '"%s" is refused with %s instead of %s' % (eqn, got, why), w)
                    return
        ctx.ok('refusals')
    with ctx.sub('solver failure'):
        k, v, seen = run('x + 4 = 12', W.context(CONSTS), 1.0, -inf, inf, 1e-4, 10, Er(Sym('no root')))
        ctx.check('solver failure', k == 'ret' and v.vi == 1, 'a failure of the solver is not reported', w)
    with ctx.sub('from text alone'):
        body = ctx.public('geqslib::solve_equation_from_str')
        w = body['span']
        for eqn, name in (('x + 4 = 12', 'x'), ('y^2 = 2*y + 5', 'y'), ('3 = q/2 - 1', 'q'), ('-w = 3-4', 'w')):
            pr = Probe(W, Ok(-7.25))
            W.extra = [pr]
            k, v, st, ev = W.run('geqslib::solve_equation_from_str', [eqn, 1e-3, 12], opaque=is_solver)
            if k != 'ret' or v.vi != 0:
                ctx.violation('from text alone', '"%s" is not solved' % eqn, w)
                return
            if not pr.seen:
                raise Undecided('solver not seen')
            f, g, m, l = pr.seen[-1]
            if (g, m, l) != (1.0, 1e-3, 12):
                ctx.violation('from text alone', 'the solver gets guess %r, margin %r, limit %r instead of 1, 0.001, 12' % (g, m, l), w)
                return
            if not same_fn(f, eqn, name, (-inf, inf), {}, 'from text alone', w):
                return
            r = v.f[0]
            if isinstance(r, Agg) and (r.f[0] != name or r.f[1] != -7.25):
                ctx.violation('from text alone', 'solving "%s" returns (%r, %r)' % (eqn, r.f[0], r.f[1]), w)
                return
        ctx.ok('from text alone')
        for eqn in ('1 = 2', 'x + y = 2', 'pi = e', 'x', 'x = 1 = 2', 'sin = 2'):
            pr = Probe(W, Ok(-7.25))
            W.extra = [pr]
            k, v, st, ev = W.run('geqslib::solve_equation_from_str', [eqn, 1e-3, 12], opaque=is_solver)
            ctx.check('from text alone: refuses "%s"' % eqn, k == 'ret' and v.vi == 1, '"%s" is not refused' % eqn, w)
