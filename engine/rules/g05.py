import math

from matops import *

EXPLAIN = ('Value-numbering summaries of the arithmetic operations, instantiated on every small shape; results are compared with the '
           'algebraic definition entry by entry as polynomial identities over the free entries (random interpretation over GF(2^61-1)).')


def check(ctx):
    m = Mats(ctx)
    pre(ctx, m, 'multiply_matrix', 'inplace_scale', 'inplace_row_add', 'inplace_scaled_row_add', 'trace', *arith('Add', 'add')[:1], *arith('Sub', 'sub')[:1])
    ctx.rule('+, -, *, scaling, trace and the row operations compute their algebraic definition on every entry, and change nothing else')
    S = SHAPES + [(2, 4), (4, 2)]
    k = F(123456789123)

    def mm(r, n, c):
        a, b = free(r, n, 'a'), free(n, c, 'b')
        compare(ctx, m, 'multiply_matrix', T + 'multiply_matrix', [a, b], ('Ok', a.mul(b)), {0: a, 1: b})
        for p in arith('Mul', 'mul'):
            compare(ctx, m, '*', p, [a, b], a.mul(b))
    each(ctx, 'multiply', [(r, n, c) for r in (1, 2, 3) for n in (1, 2, 3) for c in (1, 2, 3)], mm)
    each(ctx, 'multiply', [x for s in sizes(ctx) for x in ((1, s, 2), (s, 1, 1), (1, 2, s))], mm)

    def ew(r, c):
        a, b = free(r, c, 'a'), free(r, c, 'b')
        for tr, fn, op in (('Add', 'add', lambda x, y: x + y), ('Sub', 'sub', lambda x, y: x - y)):
            want = M(r, c, [op(x, y) for x, y in zip(a.v, b.v)])
            for p in arith(tr, fn):
                compare(ctx, m, tr, p, [a, b], want)
            p = 'gmatlib::trait_impls::<impl core::ops::arith::%sAssign for %s>::%s_assign' % (tr, MT, fn)
            compare(ctx, m, tr + 'Assign', p, [a, b], (), {0: want})
        sc = M(r, c, [x * k for x in a.v])
        compare(ctx, m, 'inplace_scale', T + 'inplace_scale', [a, k], (), {0: sc})
        compare(ctx, m, '* scalar', 'gmatlib::trait_impls::<impl core::ops::arith::Mul<T> for gmatlib::Matrix<T>>::mul', [a, k], sc)
        compare(ctx, m, '& * scalar', 'gmatlib::trait_impls::<impl core::ops::arith::Mul<T> for &gmatlib::Matrix<T>>::mul', [a, k], sc, {0: a})
    each(ctx, 'element-wise', S, ew)
    each(ctx, 'element-wise', wide(ctx), ew)

    def rows(r, c):
        a = free(r, c, 'r')
        for i in range(r) if r < 6 else (0, r - 1):
            w = a.copy()
            for x in range(c):
                w[i, x] = a[i, x] * k
            compare(ctx, m, 'inplace_row_scale', T + 'inplace_row_scale', [a, i, k], (), {0: w})
            for j in range(r) if r < 6 else (0, r - 2):
                w, v = a.copy(), a.copy()
                for x in range(c):
                    w[i, x] = a[i, x] + a[j, x]
                    v[i, x] = a[i, x] + a[j, x] * k
                compare(ctx, m, 'inplace_row_add', T + 'inplace_row_add', [a, i, j], (), {0: w})
                compare(ctx, m, 'inplace_scaled_row_add', T + 'inplace_scaled_row_add', [a, i, j, k], (), {0: v})
    each(ctx, 'row operations', S, rows)
    each(ctx, 'row operations', wide(ctx), rows)

    def tr(n):
        a = free(n, n, 't')
        s = F(0)
        for i in range(n):
            s = s + a[i, i]
        compare(ctx, m, 'trace', T + 'trace', [a], ('Ok', s), {0: a})
    each(ctx, 'trace', [(n,) for n in range(1, 6)], tr)
    each(ctx, 'trace', [(n,) for n in sizes(ctx, 140)], tr)

    # entries and factors that coincide or vanish
    for name in PATTERNS:
        with pattern(name):
            each(ctx, 'multiply ' + name, [(1, 1, 1), (1, 3, 1), (2, 2, 2), (3, 3, 3), (2, 3, 2), (3, 1, 3)], mm)
            for k in (F(0), F(1), F(-1), F(2)):
                each(ctx, 'element-wise ' + name, [(1, 1), (2, 2), (2, 3), (3, 3)], ew)
                each(ctx, 'row operations ' + name, [(2, 2), (3, 2), (3, 3)], rows)
            each(ctx, 'trace ' + name, [(n,) for n in (1, 2, 3, 4, 5)], tr)
    for k in (F(0), F(1), F(-1)):
        each(ctx, 'element-wise', SHAPES, ew)
        each(ctx, 'row operations', SHAPES, rows)

    # the same over doubles of every magnitude: nothing is dropped for being small or large
    def real(r, n, c, s, s2):
        a, b = reals(r, n, s, 'a'), reals(n, c, s2, 'b')
        want, mag = [], []
        for i in range(r):
            for j in range(c):
                ts = [a[i, x] * b[x, j] for x in range(n)]
                want.append(math.fsum(ts))
                mag.append(math.fsum(abs(t) for t in ts))
        for p, ok in [(T + 'multiply_matrix', True)] + [(p, False) for p in arith('Mul', 'mul')]:
            compare_r(ctx, m, 'real multiply', p, [a, b], M(r, c, want), mag, ok=ok)
        d = reals(r, n, s2, 'd')
        for tr_, fn, op in (('Add', 'add', lambda x, y: x + y), ('Sub', 'sub', lambda x, y: x - y)):
            w = M(r, n, [op(x, y) for x, y in zip(a.v, d.v)])
            mg = [abs(x) + abs(y) for x, y in zip(a.v, d.v)]
            for p in arith(tr_, fn):
                compare_r(ctx, m, 'real ' + tr_, p, [a, d], w, mg)
            compare_r(ctx, m, 'real ' + tr_, 'gmatlib::trait_impls::<impl core::ops::arith::%sAssign for %s>::%s_assign' % (tr_, MT, fn), [a, d], w, mg, final=0)
        k2 = s2 * 3
        sc = M(r, n, [x * k2 for x in a.v])
        mg = [abs(x) for x in sc.v]
        compare_r(ctx, m, 'real scale', T + 'inplace_scale', [a, k2], sc, mg, final=0)
        for q in ('', '&'):
            compare_r(ctx, m, 'real * scalar', 'gmatlib::trait_impls::<impl core::ops::arith::Mul<T> for %sgmatlib::Matrix<T>>::mul' % q, [a, k2], sc, mg)
        w, v, u = a.copy(), a.copy(), a.copy()
        for x in range(n):
            w[0, x] = a[0, x] * k2
            u[0, x] = a[0, x] + a[r - 1, x]
            v[0, x] = a[0, x] + a[r - 1, x] * k2
        ab = [abs(x) for x in a.v]
        grow = lambda k3: [max(ab) * (1 + abs(k3))] * n + ab[n:]
        compare_r(ctx, m, 'real row scale', T + 'inplace_row_scale', [a, 0, k2], w, [abs(x) for x in w.v], final=0)
        compare_r(ctx, m, 'real row add', T + 'inplace_row_add', [a, 0, r - 1], u, grow(1), final=0)
        compare_r(ctx, m, 'real scaled row add', T + 'inplace_scaled_row_add', [a, 0, r - 1, k2], v, grow(k2), final=0)
        if r == n:
            compare_r(ctx, m, 'real trace', T + 'trace', [a], math.fsum(a[i, i] for i in range(n)), [max(ab)], ok=True)
    each(ctx, 'real', [(r, n, c, s, s2) for r, n, c in ((1, 2, 1), (2, 2, 3), (3, 1, 2), (3, 3, 1)) for s in SCALES for s2 in (s, 1.0, 1 / s)], real)
