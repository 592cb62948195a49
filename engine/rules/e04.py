import math
from expr import *

EXPLAIN = ('Value-numbering summaries of the Variable operations (paths, final contents of the variable), instantiated over values below, at, inside and above the '
           'domain; the final contents are compared with the clamped value.')
V = 'geqslib::variable::Variable::'
INFN = float('inf')


def same(db, x, v, lo, hi):
    return isinstance(x, Agg) and x.p == VAR and [x.f[db.fi(VAR, n)] for n in ('value', 'min', 'max')] == [v, lo, hi]


def clamp(v, lo, hi): return hi if v > hi else lo if v < lo else v


def check(ctx):
    ctx.rule('a variable given a domain holds the given value when it lies in the domain and the nearer bound otherwise, after every assignment; its bounds never change')
    db = ctx.db
    mk = newvar(ctx)
    doms = [(-1.0, 1.0), (-INFN, INFN), (0.0, 0.0), (0.0, INFN), (-INFN, -2.0), (2.5, 10.0)]
    vals = [-INFN, -1e300, -5.0, -2.0, -1.0, -0.5, 0.0, 0.25, 1.0, 2.5, 7.0, 10.0, 1e300, INFN]
    cells = [(v, lo, hi) for lo, hi in doms for v in vals]

    def bodies(path):
        bs = [b for b in db.find(path)]
        return bs

    with ctx.sub('new'):
        body = ctx.public(V + 'new')
        eng, outs = ctx.engine(body)
        sm = Summary(eng, outs, body)
        s = eng.sym_args(body)
        kind, v, st, ev = sm.value(dict(zip(s, (1.0, 2.0, 3.0))), mode='R')
        ctx.check('new', kind == 'ret' and same(db, v, 1.0, 2.0, 3.0), 'Variable::new(value, min, max) does not hold its value, minimum and maximum', body['span'])
    with ctx.sub('read'):
        bs = [b for k, b in db.bodies.items() if 'From<' in k and 'variable::Variable' in k and k.endswith('::from') and 'f64' in k]
        if not bs:
            raise Undecided('no conversion to f64')
        body = bs[0]
        eng, outs = ctx.engine(body)
        kind, v, st, ev = Summary(eng, outs, body).value({eng.sym_args(body)[0]: mk(1.0, 2.0, 3.0)}, mode='R')
        ctx.check('read', kind == 'ret' and v == 1.0, 'converting a variable to f64 does not give its value', body['span'])

    def run(name, body, want, cur):
        with ctx.sub(name):
            eng, outs = ctx.engine(body)
            sm = Summary(eng, outs, body)
            s = eng.sym_args(body)
            loc = N('P', s[0])
            more = [f for f in ctx.floats() if abs(f) < 1e300]
            extra = [(f, lo, hi) for lo, hi in doms for f in more]
            extra += [(b + f, lo, hi) for lo, hi in doms for b in (lo, hi) if abs(b) < 1e300 for f in more]
            extra += [(v, min(0.0, f), max(0.0, f)) for f in more for v in (-1.0, 1.0, f / 2, 2 * f)]
            # subtler than any literal: the neighbours of the bounds
            extra += [(math.nextafter(b, d), lo, hi) for lo, hi in doms for b in (lo, hi) if abs(b) < 1e300 for d in (INFN, -INFN)]
            extra += [(b * k, lo, hi) for lo, hi in doms for b in (lo, hi) if abs(b) < 1e300 for k in (1 - 1e-12, 1 + 1e-12, 1 - 1e-7, 1 + 1e-7)]
            for v, lo, hi in cells + extra:
                for c in cur:
                    c0 = clamp(c, lo, hi)
                    w = want(c0, v)
                    if w != w:
                        continue
                    env = {eng.initial(loc): mk(c0, lo, hi), s[1]: v}
                    kind, val, st, ev = sm.at(env, mode='R')
                    fin = ev.ev(eng.deep(eng.load(st, loc), st)) if kind == 'ret' else None
                    if not same(db, fin, clamp(w, lo, hi), lo, hi):
                        ctx.violation(name, '%s with %r on a variable of value %r and domain [%r, %r] leaves %r' % (name, v, c0, lo, hi, fin and fin.f), body['span'])
                        return
            ctx.ok('%s (%d cases)' % (name, len(cells) * len(cur)))
    run('set', ctx.public(V + 'set'), lambda c, v: v, [0.25])
    import operator
    for tr, m, op in (('AddAssign', 'add_assign', operator.add), ('SubAssign', 'sub_assign', operator.sub), ('MulAssign', 'mul_assign', operator.mul), ('DivAssign', 'div_assign', None)):
        bs = [b for k, b in db.bodies.items() if k.startswith('<geqslib::variable::Variable as ') and tr in k and k.endswith(m)]
        if not bs:
            ctx.undecided(tr, 'no body')
            continue

        def f(c, v, op=op):
            if op is None:
                if v == 0:
                    return math.nan if c == 0 else math.copysign(INFN, c) * math.copysign(1, v)
                return c / v
            return op(c, v)
        run(m, bs[0], f, [-1.0, 0.5, 3.0])
