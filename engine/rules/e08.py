from expr import *

EXPLAIN = ('Value-numbering summaries of compile_to_fn and compile_to_fn_of_hashmap and of the closures they return (captured variable cells shared with the postfix form, memory snapshot at the '
           'evaluation), instantiated on contexts and arguments; compared with the expression evaluated with the arguments clamped to the variables\' domains.')
C1, CN = 'geqslib::shunting::compile_to_fn', 'geqslib::shunting::compile_to_fn_of_hashmap'
XE = 'geqslib::errors::ExpressionCompilationError'


def clamp(v, d): return max(d[0], min(d[1], v))


def errname(db, e, path):
    if isinstance(e, Agg) and e.p == path:
        return db.adts[path]['variants'][e.vi]['name']
    return None


def check(ctx):
    ctx.rule('a compiled expression gives, for every argument, the value of the expression with the variables set to the arguments (within their domains) and everything else as in the context')
    W = World(ctx)
    db = ctx.db
    inf = math.inf
    consts = {'a': 2.0, 'b': -3.0, 'k1': 0.5}

    def ref(text, vals):
        try:
            return 'ok', RefR(dict(consts, **vals), W.FN).value(text)
        except Div0:
            return 'err', None

    w1 = ctx.public(C1)['span']
    EXPR = ['x', 'a*x+f(b)', 'a-b', 'x^2-b/x', 'sq(x-a)*k1', 'g(x,b)-g(a,x)', '-x+2', '(x-1)/(x-2)', 'x*x*x', 'a/(b-b)']
    ARGS = [0.0, 1.0, 2.0, -4.5, 10.0, 1e6, inf, -inf, 1e-300, -0.0, 1e300]

    def args():
        return ARGS + [f for f in ctx.floats() if f not in ARGS]

    def compiled(text, cx, path):
        k, v, st, ev = W.run(path, [text, cx])
        if k != 'ret':
            return 'panic', v
        return ('ok', v.f[0]) if v.vi == 0 else ('err', v.f[0])

    with ctx.sub('compile_to_fn: value'):
        n = 0
        for text in EXPR:
            for dom in ((-inf, inf), (-1.0, 5.0), (0.0, 0.0)):
                for cur in (0.25, 1.0):
                    k, f = compiled(text, W.context(consts, {'x': (cur, *dom)}), C1)
                    if k != 'ok':
                        ctx.violation('compile_to_fn: value', '"%s" with the single variable x is not compiled (%s)' % (text, k), w1)
                        return
                    for x in args():
                        n += 1
                        r = W.apply(f, [x])
                        wk, wv = ref(text, {'x': clamp(x, dom)})
                        if (r.vi == 0) != (wk == 'ok') or wk == 'ok' and not near(r.f[0], wv):
                            ctx.violation('compile_to_fn: value', 'the function compiled from "%s" (x in %r) gives %s at %g instead of %s' % (text, dom, r.f[0] if r.vi == 0 else 'an error', x, wv if wk == 'ok' else 'an error'), w1)
                            return
        ctx.ok('compile_to_fn: value (%d cases)' % n)
    with ctx.sub('compile_to_fn: refusals'):
        for text, cx, why in (('x+q', W.context(consts, {'x': 1.0}), 'VarNotFoundInContext'), ('q', W.context(consts, {'x': 1.0}), 'VarNotFoundInContext'), ('x+nope(a)', W.context(consts, {'x': 1.0}), 'VarNotFoundInContext'),
                              ('a+b', W.context(consts), 'WrongVarCount'), ('x+y', W.context(consts, {'x': 1.0, 'y': 2.0}), 'WrongVarCount'),
                              ('x+', W.context(consts, {'x': 1.0}), None), ('(x', W.context(consts, {'x': 1.0}), None), ('x)', W.context(consts, {'x': 1.0}), None), ('x a', W.context(consts, {'x': 1.0}), None)):
            k, e = compiled(text, cx, C1)
            if not ctx.check('compile_to_fn: refuses "%s"' % text, k == 'err' or (why is None and k == 'ok' and all(W.apply(e, [x]).vi == 1 for x in ARGS)), '"%s" %s instead of being refused' % (text, 'panics' if k == 'panic' else 'is compiled'), w1):
                return
            got = errname(db, e, XE)
            if why and got:
                ctx.check('compile_to_fn: error for "%s" with %d variables' % (text, sum(1 for t in cx.values() if t.vi == db.vi(TOK, 'Var'))), got == why, '"%s" is refused with %s instead of %s' % (text, got, why), w1)

    wn = ctx.public(CN)['span']
    EXN = ['x+y', 'a*x-f(y)', 'x/y', 'x^2+y^2-a', 'g(x,y)', 'g(y,x)', 'x*(y-b)', '-x-y', 'a+b', 'y', 'sq(x+y)/x']
    PTS = [{}, {'x': 1.0, 'y': 2.0}, {'x': -3.0, 'y': 7.5}, {'y': 4.0}, {'x': 9.0}, {'x': 2.0, 'y': 2.0, 'later': 5.0}, {'later': 1.0}, {'x': 100.0, 'y': -100.0}, {'y': 0.0, 'x': 1.0}, {'later': 3.0, 'y': 8.0, 'x': -1.0},
           {'x': inf, 'y': 1.0}, {'y': -inf, 'x': 2.0}, {'x': -inf, 'y': inf}, {'x': 1e-300, 'y': -1e300}, {'y': -0.0, 'x': 3.0}]
    with ctx.sub('compile_to_fn_of_hashmap: value'):
        n = 0
        for text in EXN:
            for dx, dy in (((-inf, inf), (-inf, inf)), ((-1.0, 5.0), (3.0, inf)), ((-inf, inf), (-2.0, 2.0))):
                cur = {'x': (clamp(0.25, dx),) + dx, 'y': (clamp(1.5, dy),) + dy}
                k, f = compiled(text, W.context(consts, cur), CN)
                if k != 'ok':
                    ctx.violation('compile_to_fn_of_hashmap: value', '"%s" is not compiled (%s)' % (text, k), wn)
                    return
                for p in PTS + [{'x': f, 'y': 2.0} for f in ctx.floats()]:
                    n += 1
                    r = W.apply(f, [dict(p)])
                    wk, wv = ref(text, {'x': clamp(p['x'], dx) if 'x' in p else cur['x'][0], 'y': clamp(p['y'], dy) if 'y' in p else cur['y'][0]})
                    if (r.vi == 0) != (wk == 'ok') or wk == 'ok' and not near(r.f[0], wv):
                        ctx.violation('compile_to_fn_of_hashmap: value', 'the function compiled from "%s" (x in %r, y in %r) gives %s at %r instead of %s' % (text, dx, dy, r.f[0] if r.vi == 0 else 'an error', p, wv if wk == 'ok' else 'an error'), wn)
                        return
        ctx.ok('compile_to_fn_of_hashmap: value (%d cases)' % n)
    with ctx.sub('calls one after the other'):
        histories(ctx, W, ref, clamp, consts, compiled, w1, wn)
    for k in ctx.lengths(12, 40, 130, hi=400):
        with ctx.sub('length %d' % k):
            longer(ctx, W, k, consts, compiled, w1, wn)
    with ctx.sub('compile_to_fn_of_hashmap: refusals'):
        vs = {'x': 1.0, 'y': 2.0}
        for text, why in (('x+q', 'VarNotFoundInContext'), ('q', 'VarNotFoundInContext'), ('x+nope(y)', 'VarNotFoundInContext'), ('x+', None), ('(x', None), ('y)', None), ('x y', None)):
            k, e = compiled(text, W.context(consts, vs), CN)
            if not ctx.check('compile_to_fn_of_hashmap: refuses "%s"' % text, k == 'err' or (why is None and k == 'ok' and all(W.apply(e, [dict(p)]).vi == 1 for p in PTS)), '"%s" %s instead of being refused' % (text, 'panics' if k == 'panic' else 'is compiled'), wn):
                return
            got = errname(db, e, XE)
            if why and got:
                ctx.check('compile_to_fn_of_hashmap: error for "%s"' % text, got == why, '"%s" is refused with %s instead of %s' % (text, got, why), wn)
        k, f = compiled('a*x+f(y)', W.context(consts, vs), CN)
        if k == 'ok':
            for p in ({'a': 1.0}, {'f': 1.0}, {'x': 1.0, 'a': 3.0}):
                ctx.check('compile_to_fn_of_hashmap: assigning %s' % sorted(p), W.apply(f, [dict(p)]).vi == 1, 'assigning a value to %s, which is not a variable, is not refused' % [q for q in p if q in 'af'], wn)


def longer(ctx, W, k, consts, compiled, w1, wn):
    """k variables, k values given at a time, names of k letters, expressions of k operands"""
    import random
    rnd = random.Random(k)
    inf = math.inf
    L = 'n' * k
    doms = {}
    vs = {}
    for i in range(k):
        doms['v%d' % i] = d = rnd.choice(((-inf, inf), (-1.0, 5.0), (2.0, inf)))
        vs['v%d' % i] = (clamp(0.5 + i % 7, d),) + d
    doms[L] = doms[L[:-1]] = (-inf, inf)
    vs[L], vs[L[:-1]] = (1.5, -inf, inf), (2.5, -inf, inf)
    many = rnd.sample(sorted(vs), min(k, 40))
    EX = ['v0-v%d' % (k - 1), '%s*a-%s' % (L, L[:-1]), 'v%d*v%d-v1' % (k - 1, k // 2), '-'.join(many)]
    for text in EX:
        kind, f = compiled(text, W.context(consts, vs), CN)
        if kind != 'ok':
            return ctx.violation('length', 'an expression over a context of %d variables is not compiled (%s)' % (k, kind), wn)
        full = {n: 3.25 + 0.5 * i for i, n in enumerate(vs)}
        order = list(full)
        for p in (full, {n: full[n] for n in reversed(order)}, {n: full[n] for n in rnd.sample(order, max(1, k // 2))}, dict({'later%d' % i: 1.0 for i in range(k)}, **{L: 9.0, 'v0': 4.0, 'v%d' % (k - 1): 3.0})):
            r = W.apply(f, [dict(p)])
            want = RefR(dict(consts, **{n: clamp(p[n], doms[n]) if n in p else vs[n][0] for n in vs}), W.FN).value(text)
            if r.vi != 0 or not near(r.f[0], want):
                return ctx.violation('length', 'a compiled expression over a context of %d variables, one with a name of %d letters, called with %d values, gives %s instead of %s' % (
                    len(vs), k, len(p), r.f[0] if r.vi == 0 else 'an error', want), wn)
    cs = dict(consts, **{'c%d' % i: i + 0.5 for i in range(k)})
    for x in ('x', L):
        for text in ('%s-c%d' % (x, k - 1), '-'.join([x, 'c1'] * (k if x == 'x' else 4)), 'f(' * k + x + ')' * k if k < 200 else x):
            kind, f = compiled(text, W.context(cs, {x: (1.0, -2.0, 50.0)}), C1)
            if kind != 'ok':
                return ctx.violation('length', 'an expression of length %d, over one variable with a name of %d letters and %d constants, is not compiled (%s)' % (len(text), len(x), len(cs), kind), w1)
            for v in (0.5, 60.0):
                r = W.apply(f, [v])
                want = RefR(dict(cs, **{x: clamp(v, (-2.0, 50.0))}), W.FN).value(text)
                if r.vi != 0 or not near(r.f[0], want):
                    return ctx.violation('length', 'the function compiled from an expression of length %d, over one variable with a name of %d letters and %d constants, gives %s at %g instead of %s' % (
                        len(text), len(x), len(cs), r.f[0] if r.vi == 0 else 'an error', v, want), w1)
    ctx.ok('length %d' % k)


def histories(ctx, W, ref, clamp, consts, compiled, w1, wn):
    """what was called before, and what other functions of the same context did, leave nothing behind but the values of the variables"""
    import random
    rnd = random.Random(3)
    inf = math.inf
    n = 0
    key = 'calls one after the other'
    XS = [0.0, 1.0, 1.0, 1.0 + 1e-9, -2.5, 7.0, 2.0, 2.0 + 1e-13, 100.0, -0.0]
    for text in ('x', 'a*x+f(b)', 'x^2-b/x', 'sq(x-a)*k1', '(x-1)/(x-2)'):
        for dom in ((-inf, inf), (-1.0, 5.0)):
            cx = W.context(consts, {'x': (0.25, *dom)})
            k, f = compiled(text, cx, C1)
            k2, g = compiled('x*3', cx, C1)
            if k != 'ok' or k2 != 'ok':
                raise Unk('not compiled')
            said = []
            for i in range(12):
                x = rnd.choice(XS)
                h, t = (f, text) if rnd.random() < 0.75 else (g, 'x*3')
                said.append('%s at %r' % (t, x))
                r = W.call(h, [x])
                n += 1
                c = clamp(x, dom)
                wk, wv = ref(t, {'x': c})
                if (r.vi == 0) != (wk == 'ok') or wk == 'ok' and not (r.f[0] == wv or abs(r.f[0] - wv) <= 1e-12 * abs(wv)):
                    return ctx.violation(key, 'with x in %r, evaluating one after the other %s, the last gives %s instead of %s' % (
                        dom, ', '.join(said), r.f[0] if r.vi == 0 else 'an error', wv if wk == 'ok' else 'an error'), w1)
                now = W.value_of(cx['x'].f[0])
                if now != c:
                    return ctx.violation(key, 'with x in %r, after evaluating %s the variable x is %s' % (dom, ', '.join(said), now), w1)
    for texts in (('x+y', 'a*x-f(y)'), ('x/y', 'y'), ('g(x,y)', 'x*x'), ('x^2+y^2-a', 'x-y')):
        for dx, dy in (((-inf, inf), (-inf, inf)), ((-1.0, 5.0), (3.0, inf))):
            val = {'x': clamp(0.25, dx), 'y': clamp(1.5, dy)}
            cx = W.context(consts, {'x': (val['x'],) + dx, 'y': (val['y'],) + dy})
            fs = []
            for t in texts:
                k, f = compiled(t, cx, CN)
                if k != 'ok':
                    raise Unk('not compiled')
                fs.append(f)
            said = []
            for i in range(14):
                if rnd.random() < 0.25:
                    v, d = ('x', dx) if rnd.random() < 0.5 else ('y', dy)
                    val[v] = clamp(rnd.choice(XS), d)
                    c = cx[v].f[0]
                    c.v = W.var(val[v], *W.domain(c))
                    said.append('setting %s to %s' % (v, val[v]))
                    continue
                j = rnd.randrange(len(fs))
                p = {v: rnd.choice(XS) for v in 'xy' if rnd.random() < 0.7}
                said.append('%s at %r' % (texts[j], p))
                r = W.call(fs[j], [dict(p)])
                n += 1
                for v, d in (('x', dx), ('y', dy)):
                    if v in p:
                        val[v] = clamp(p[v], d)
                wk, wv = ref(texts[j], val)
                if (r.vi == 0) != (wk == 'ok') or wk == 'ok' and not (r.f[0] == wv or abs(r.f[0] - wv) <= 1e-12 * abs(wv)):
                    return ctx.violation(key, 'with x in %r and y in %r, after %s: the last gives %s instead of %s' % (
                        dx, dy, ', '.join(said), r.f[0] if r.vi == 0 else 'an error', wv if wk == 'ok' else 'an error'), wn)
                for v in 'xy':
                    now = W.value_of(cx[v].f[0])
                    if now != val[v]:
                        return ctx.violation(key, 'with x in %r and y in %r, after %s the variable %s is %s' % (dx, dy, ', '.join(said), v, now), wn)
    ctx.ok('%s (%d calls)' % (key, n))
