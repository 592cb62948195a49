from matops import *

EXPLAIN = ('Value-numbering summaries of the 17 C functions of gmatlib with everything inlined (catch_unwind modelled, every panic an '
           'explicit outcome), instantiated on small shapes: the handle or status returned, the contents behind every handle and the '
           'sentinel returned for refused or panicking calls are compared with the documented contract.')
G = 'gmatlib::ffi::'
MAXU = 4294967295


class Null(object):
    def __repr__(self): return 'NULL'


NAN, FMIN = 'nan', 'min'


def call(ctx, m, name, args, want, finals=None, note=''):
    path = G + name
    body, eng, outs = m.summary(path, ctx.public(path))
    syms = eng.sym_args(body)
    env = {}
    for s, a in zip(syms, args):
        if isinstance(a, M):
            env[eng.initial(N('P', s))] = m.agg(a)
        else:
            env[s] = a
    if len(args) > 1 and isinstance(args[0], M) and isinstance(args[1], M) and args[0] is args[1]:
        pass
    kind, val, st, ev = select(eng, outs, env)
    shape = ', '.join('%dx%d' % (a.r, a.c) if isinstance(a, M) else repr(a) for a in args)
    w = body['span']
    if kind != 'ret':
        ctx.violation(name + ' unwinds', '%s(%s) unwinds into the C caller' % (name, shape), w)
        return
    got = value(ctx, m, eng, st, ev, val)
    okay = same_c(got, want)
    msg = '%s(%s)%s returns %s, not %s' % (name, shape, note, brief(got), brief(want))
    if okay and finals is not None:
        for i, x in finals.items():
            f = m.unwrap(ev.ev(eng.deep(eng.load(st, N('P', syms[i])), st)))
            if f != x:
                okay, msg = False, '%s(%s)%s leaves handle %d as %s, not %s' % (name, shape, note, i, brief(f), brief(x))
    ctx.check(name + ('' if not okay else ' [%s]%s' % (shape, note)), okay, msg, w)


def value(ctx, m, eng, st, ev, val):
    if isn(val, 'null') or (isn(val, 'call') and val[1].endswith('null')):
        return Null()
    if isn(val, 'ref', 'box'):
        v = eng.deref(st, val)
        return ('handle', m.unwrap(ev.ev(eng.deep(v, st))))
    if isn(val, 'c') and val[1] == 'float':
        x = val[2]
        if x != x:
            return NAN
        if x == -1.7976931348623157e308:
            return FMIN
    return m.unwrap(ev.ev(val))


def same_c(got, want):
    if isinstance(want, Null):
        return isinstance(got, Null)
    if isinstance(got, Null):
        return False
    return got == want


def check(ctx):
    m = Mats(ctx)
    ctx.rule('every C matrix function performs the operation of its name on the matrices behind its handles with its arguments in order, '
             'returns the documented status, handle or sentinel for success, refusal and internal panic, and never unwinds')
    k = F(987654321987)

    def one(r, c):
        a = free(r, c, 'a')
        call(ctx, m, 'new_double_matrix', [r, c], ('handle', M(r, c, [F(0)] * (r * c))))
        call(ctx, m, 'clone_double_matrix', [a], ('handle', a), {0: a})
        call(ctx, m, 'transpose', [a], ('handle', M(c, r, [a[i, j] for j in range(c) for i in range(r)])), {0: a})
        call(ctx, m, 'inplace_scale', [a, k], 1, {0: M(r, c, [x * k for x in a.v])})
        for i in range(r):
            w = a.copy()
            for x in range(c):
                w[i, x] = a[i, x] * k
            call(ctx, m, 'inplace_row_scale', [a, i, k], 1, {0: w})
            for j in range(r):
                sw, ad, sc = a.copy(), a.copy(), a.copy()
                for x in range(c):
                    sw[i, x], sw[j, x] = a[j, x], a[i, x]
                    ad[i, x] = a[i, x] + a[j, x]
                    sc[i, x] = a[i, x] + a[j, x] * k
                call(ctx, m, 'inplace_row_swap', [a, i, j], 1, {0: sw})
                call(ctx, m, 'inplace_row_add', [a, i, j], 1, {0: ad})
                call(ctx, m, 'inplace_scaled_row_add', [a, i, j, k], 1, {0: sc})
            for j in range(c):
                w = a.copy()
                w[i, j] = k
                call(ctx, m, 'index_double_matrix', [a, i, j], a[i, j], {0: a})
                call(ctx, m, 'index_mut_double_matrix', [a, i, j, k], 1, {0: w})
                for i2 in range(i, r):
                    for j2 in range(j, c):
                        want = M(i2 - i + 1, j2 - j + 1, [a[x, y] for x in range(i, i2 + 1) for y in range(j, j2 + 1)])
                        call(ctx, m, 'subset', [a, i, j, i2, j2], ('handle', want), {0: a})
        # refused by a panic inside
        call(ctx, m, 'inplace_row_scale', [a, r, k], 0)
        call(ctx, m, 'inplace_row_swap', [a, 0, r], 0)
        call(ctx, m, 'inplace_row_swap', [a, r, 0], 0)
        call(ctx, m, 'inplace_row_add', [a, 0, r], 0)
        call(ctx, m, 'inplace_row_add', [a, r, 0], 0)
        call(ctx, m, 'inplace_scaled_row_add', [a, 0, r, k], 0)
        call(ctx, m, 'inplace_scaled_row_add', [a, r, 0, k], 0)
        for i, j in ((r, 0), (0, c)):
            call(ctx, m, 'index_double_matrix', [a, i, j], FMIN, {0: a})
            call(ctx, m, 'index_mut_double_matrix', [a, i, j, k], 0, {0: a})
            call(ctx, m, 'subset', [a, 0, 0, i, j], Null(), {0: a})
        for i in range(1, r):
            call(ctx, m, 'subset', [a, i, 0, i - 1, c - 1], Null(), {0: a})
        for j in range(1, c):
            call(ctx, m, 'subset', [a, 0, j, r - 1, j - 1], Null(), {0: a})
    each(ctx, 'single handle', SHAPES, one)

    def eye(n):
        call(ctx, m, 'new_double_identity_matrix', [n], ('handle', ident(n)))
    each(ctx, 'identity', [(n,) for n in range(1, 5)], eye)

    def two(x, y):
        a, b = free(*x, 'a'), free(*y, 'b')
        call(ctx, m, 'multiply_matrix', [a, b], ('handle', a.mul(b)) if a.c == b.r else Null(), {0: a, 1: b})
        if a.r == b.r:
            want = ('handle', M(a.r, a.c + b.c, [v for i in range(a.r) for v in [a[i, j] for j in range(a.c)] + [b[i, j] for j in range(b.c)]]))
        else:
            want = Null()
        call(ctx, m, 'augment_with', [a, b], want, {0: a, 1: b})
    each(ctx, 'two handles', [(a, b) for a in SHAPES for b in SHAPES], two)

    def tr(r, c):
        a = free(r, c, 't')
        s = F(0)
        for i in range(min(r, c)):
            s = s + a[i, i]
        call(ctx, m, 'trace', [a], s if r == c else NAN, {0: a})
    each(ctx, 'trace', SHAPES, tr)

    from g06 import singular
    from evalt import exact

    def inv(n):
        a = free(n, n, 'i')
        body, eng, outs = m.summary(G + 'try_inplace_invert', ctx.public(G + 'try_inplace_invert'))
        k2, o2, f2 = m.apply(T + 'try_inplace_invert', [a])
        call(ctx, m, 'try_inplace_invert', [a], MAXU, {0: f2(0)})
        if n <= 4:
            s = singular(n, 'i')
            call(ctx, m, 'try_inplace_invert', [s], 1 if n == 1 else 0, {0: s}, ' singular')
        else:
            s = free(n, n, 'z')
            for i in range(n):
                s[i, n - 1] = F(0)
            kk, oo, _ = m.apply(T + 'try_inplace_invert', [s])
            if oo[0] == 'Err':
                call(ctx, m, 'try_inplace_invert', [s], 2, None, ' zero pivot')
    with exact():
        each(ctx, 'inverse', [(n,) for n in range(1, 6)], inv)

    def nsq(r, c):
        a = free(r, c, 'n')
        call(ctx, m, 'try_inplace_invert', [a], 3, {0: a})
    each(ctx, 'inverse of non-square', [(1, 2), (2, 1), (2, 3), (3, 2)], nsq)
