import random
from expr import *

EXPLAIN = ('Value-numbering summaries of the definition methods of a context (the generic conversions to f64 instantiated at f64), applied one after another to contexts along generated '
           'histories of definitions over a small pool of names; after every step the whole table, and every variable cell handed out before, is compared with a reference dictionary.')
IMPL = 'geqslib::context::ContextLike>::'
METHODS = ['add_func_to_ctx', 'add_const_to_ctx', 'add_var_to_ctx', 'add_var_with_domain_to_ctx']
NAMES = ['x', 'X', 'x1', 'x_1', 'mass', 'mas', 'T_hot', 'sin', 'pi', 'e', 'if']
VALS = [0.0, -0.0, 1.0, -2.5, 1e-300, 3.7e200, 7.0, 0.1]
DOMS = [(-math.inf, math.inf), (0.0, 10.0), (-1e9, 1e9), (-5.0, math.inf), (-math.inf, 3.0), (2.0, 2.0), (-1e-3, 1e-3)]


def conv(ev, t, p, args):
    """conversion of a number of generic type, here a double"""
    if len(args) == 1 and (p.endswith('Into::into') or p.endswith('From::from') or '::convert::' in p and p.split('::')[-1] in ('into', 'from')):
        return ev.ev(args[0])
    return None


def histories(tier, lens=(), floats=()):
    r = random.Random(20)
    # every ordered pair of kinds of definition under one name, with another definition between or not
    for a in METHODS:
        for b in METHODS:
            for mid in (None, 'y'):
                yield [step(r, a, 'x')] + ([step(r, r.choice(METHODS), mid)] if mid else []) + [step(r, b, 'x')]
    # the neighbours of a name
    for m in METHODS:
        yield [step(r, r.choice(METHODS), n) for n in NAMES] + [step(r, m, n) for n in NAMES if n not in ('X', 'x_1')]
        yield [step(r, r.choice(METHODS), n) for n in NAMES[:4]] + [step(r, m, 'X')]
    for k in lens:
        # names of k letters, k names, functions of k arguments
        long = ['n' * k, 'n' * (k - 1), 'n' * (k + 1), 'n' * (k - 1) + 'm', 'm' + 'n' * (k - 1), '_' * k]
        for m in METHODS:
            yield [step(r, m, n) for n in long] + [step(r, r.choice(METHODS), r.choice(long)) for _ in range(4)]
        yield [step(r, METHODS[1 + i % 2], 'v%d' % i) for i in range(k + 2)]
        yield [('add_func_to_ctx', 'f', ('pfn', 'f'), k), ('add_func_to_ctx', 'g', ('pfn', 'g'), k + 1), ('add_func_to_ctx', 'f', ('pfn', 'g'), k - 1)]
    for x in tuple(floats) + (math.inf, -math.inf, 1.7e308, 5e-324, 1e16 + 2, 0.1 + 0.2):
        yield [('add_const_to_ctx', 'x', x), ('add_var_to_ctx', 'y', x), ('add_var_with_domain_to_ctx', 'z', x, -math.inf, x), ('add_var_with_domain_to_ctx', 'w', x, x, math.inf), ('add_const_to_ctx', 'x', -x), ('add_const_to_ctx', 'y', x)]
    for i in range(12 if tier == 'quick' else 150):
        pool = r.sample(NAMES, r.choice([1, 2, 4, 8]))
        yield [step(r, r.choice(METHODS), r.choice(pool)) for _ in range(r.choice([3, 8, 20, 45]))]


def step(r, m, name):
    if m == 'add_func_to_ctx':
        return (m, name, ('pfn', r.choice(list(World.FN))), r.choice([0, 1, 2, 5]))
    if m in ('add_const_to_ctx', 'add_var_to_ctx'):
        return (m, name, r.choice(VALS))
    lo, hi = r.choice(DOMS)
    return (m, name, min(max(r.choice(VALS), lo), hi), lo, hi)


def shows(s):
    return '%s(%s)' % (s[0], ', '.join('%r' % (x[1] if isinstance(x, tuple) else x,) for x in s[1:]))


def check(ctx):
    ctx.rule('after any sequence of definitions a context holds, under each name, exactly what was last defined under it; every other name and every variable already handed out stays as it was')
    W = World(ctx)
    W.extra = [conv]
    db = ctx.db
    path, where = {}, {}
    for m in METHODS:
        ks = [k for k, b in db.bodies.items() if b['path'].endswith(IMPL + m) and (k == b['path'] or k.endswith('::<f64>'))]
        if len(ks) != 1:
            raise Undecided('%d implementations of %s at f64' % (len(ks), m))
        path[m], where[m] = ks[0], db.bodies[ks[0]]['span']

    def same(tok, s, cell):
        """the token is what this step defines"""
        if not isinstance(tok, Agg) or tok.p != TOK:
            raise Unk('entry %r' % (tok,))
        kind = db.adts[TOK]['variants'][tok.vi]['name']
        if s[0] == 'add_func_to_ctx':
            if kind != 'Func':
                return 'a %s' % kind
            return None if tok.f[0] == s[3] and tok.f[1] == s[2] else 'a function of %r arguments' % (tok.f[0],) if tok.f[1] == s[2] else 'another function'
        if s[0] == 'add_const_to_ctx':
            if kind != 'Num':
                return 'a %s' % kind
            return None if bits(tok.f[0], s[2]) else 'the number %r' % (tok.f[0],)
        if kind != 'Var':
            return 'a %s' % kind
        c = tok.f[0]
        if not isinstance(c, Cell):
            raise Unk('variable %r' % (c,))
        if cell is not None and c is not cell:
            return 'another cell than was handed out'
        v, d = W.value_of(c), W.domain(c)
        want = tuple(s[3:5]) if len(s) > 3 else (-math.inf, math.inf)
        if not bits(v, s[2]):
            return 'a variable whose value is %r' % (v,)
        return None if tuple(d) == want else 'a variable on %r..%r' % tuple(d)

    n = 0
    with ctx.sub('definitions'):
        for m in METHODS:
            W.summary(path[m])
        for h in histories(ctx.tier, [k for k in ctx.lengths(12, 33, 70) if k < 330], ctx.floats()):
            cx, ref, cells = {}, {}, []
            for i, s in enumerate(h):
                m = s[0]
                args = [s[1], s[2], s[3]] if m == 'add_func_to_ctx' else list(s[1:])
                kind, v, now = W.method(path[m], dict(cx), args)
                if kind != 'ret' or not isinstance(now, dict):
                    raise Unk('%s: %r' % (m, kind))
                cx = now
                ref[s[1]] = [s, None]
                n += 1
                bad = None
                for k in sorted(set(cx) | set(ref)):
                    if k not in ref:
                        bad = 'the context has an entry %r nobody defined' % k
                    elif k not in cx:
                        bad = '%r is missing, defined last by %s' % (k, shows(ref[k][0]))
                    else:
                        e = same(cx[k], *ref[k])
                        if e:
                            bad = '%r is %s, defined last by %s' % (k, e, shows(ref[k][0]))
                    if bad:
                        break
                if not bad:
                    t = cx[s[1]]
                    if t.f and isinstance(t.f[0], Cell):
                        ref[s[1]][1] = t.f[0]
                        if any(t.f[0] is c for c, _ in cells):
                            bad = '%s gives %r the cell of an earlier definition' % (m, s[1])
                        cells.append((t.f[0], (W.value_of(t.f[0]),) + tuple(W.domain(t.f[0]))))
                if not bad:
                    for c, was in cells:
                        if not all(bits(a, b) for a, b in zip((W.value_of(c),) + tuple(W.domain(c)), was)):
                            bad = 'a variable handed out before changes from %r to %r' % (was, (W.value_of(c),) + tuple(W.domain(c)))
                if bad:
                    ctx.violation(m, 'after %s: %s' % ('; '.join(shows(x) for x in h[max(0, i - 5):i + 1]), bad), where[m])
                    return
        for m in METHODS:
            ctx.ok(m)
        ctx.ok('%d definitions' % n)


def bits(a, b):
    return isinstance(a, float) and isinstance(b, float) and (a == b and math.copysign(1, a) == math.copysign(1, b) or a != a and b != b)
