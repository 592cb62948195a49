import random
from matops import *
from g06 import invert, singular, invert_real, regular

EXPLAIN = ('Value-numbering summary of try_inplace_invert instantiated at sizes 5 and 6 (elimination loops kept as recurrences): whenever '
           'the extracted conditions select success, A*A^-1 = I holds as an identity of rational functions of the free entries, no '
           'division by a zero pivot is reached, and rank-deficient matrices select a refusal and all others success.')


def check(ctx):
    with exact():
        obligations(ctx)


def obligations(ctx):
    m = Mats(ctx)
    ctx.rule('inversion by elimination (n >= 5): every pivot is tested before it divides, row operations are applied to both matrices, so '
             'success implies A*X = I, and exactly the rank-deficient matrices are refused')
    sizes = (5, 6) if ctx.tier == 'quick' else (5, 6, 7, 8)

    def gen(n):
        invert(ctx, m, n, free(n, n, 'g'), 'general', 'ok')
    each(ctx, 'general', [(n,) for n in sizes], gen)

    each(ctx, 'doubles of every magnitude', [(n, s, k) for n in sizes[:2] for s in SCALES for k in range(2)], lambda n, s, k: invert_real(ctx, m, n, regular(n, s, k), 'size %g (%d)' % (s, k)))

    def zero_at(n, p):
        # leading principal minor p vanishes: the matrix is singular only if it is the last one
        a = free(n, n, 'p%d' % p)
        if p == 0:
            a[0, 0] = F(0)
        else:
            minor = M(p, p, [a[i, j] for i in range(p) for j in range(p)])
            inv = None
            # choose a[p,p] so that the Schur complement (p-th pivot) is zero
            import itertools
            d = minor.det()
            big = M(p + 1, p + 1, [a[i, j] for i in range(p + 1) for j in range(p + 1)])
            big[p, p] = F(0)
            a[p, p] = F(0) - big.det() / d
        invert(ctx, m, n, a, 'zero pivot %d' % p, 'err' if p == n - 1 else 'ok', keep=False)
    each(ctx, 'zero pivot', [(n, p) for n in sizes[:2] for p in range(n)], zero_at)

    # matrices that cannot be eliminated without exchanging rows
    rnd = random.Random(11)

    def exchange(n, what, k):
        a, b = free(n, n, 'x%s%d' % (what, k)), [[F(0)] * n for _ in range(n)]
        p = list(range(n))
        if k == 0:
            p = p[::-1]
        elif k == 1:
            p = p[1:] + p[:1]
        else:
            rnd.shuffle(p)
        for i in range(n):
            for j in range(n):
                # rows of a triangular, diagonal, full matrix, or one without diagonal, in another order
                if i == j and what != 'hollow' or what == 'lower' and j < i or what == 'upper' and j > i or what == 'hollow' and i != j:
                    b[p[i]][j] = F(1) if what == 'permutation' else a[i, j]
        invert(ctx, m, n, M(n, n, [x for r in b for x in r]), what + ' rows exchanged', 'ok')
    each(ctx, 'exchange', [(n, w, k) for n in sizes[:2] for w in ('permutation', 'diagonal', 'lower', 'upper', 'hollow') for k in range(3 if ctx.tier == 'quick' else 8)], exchange)

    def small(n, eps, sc, k):
        # well-conditioned, but eliminating them in the order of their rows divides by next to nothing
        a = regular(n, sc, k)
        p = list(range(1, n)) + [0] if k == 0 else list(range(n))[::-1] if k == 1 else [1, 0] + list(range(2, n)) if k == 2 else list(range(n - 2)) + [n - 1, n - 2]
        v = [0.0] * (n * n)
        for i in range(n):
            for j in range(n):
                v[p[i] * n + j] = a[i, j] * (1 if i == j else eps)
        invert_real(ctx, m, n, M(n, n, v), 'with pivots of size %g, times %g (%d)' % (eps, sc, k))
    each(ctx, 'small pivots', [(n, e, sc, k) for n in sizes[:2] for e in (1e-5, 1e-10, 1e-17, 1e-30) for sc in (1.0, 2.0 ** -35, 2.0 ** 70) for k in range(4)], small)

    def sing(n):
        invert(ctx, m, n, singular(n, 's'), 'singular', 'err', keep=False)
    each(ctx, 'singular', [(n,) for n in sizes], sing)

    def dup(n):
        a = free(n, n, 'd')
        for j in range(n):
            a[n - 1, j] = a[0, j]
        invert(ctx, m, n, a, 'repeated row', 'err', keep=False)
    each(ctx, 'repeated row', [(n,) for n in sizes], dup)

    # singular (and sparse) matrices: every zero pattern that leaves a row or a column empty, and triangular matrices with a zero on the diagonal
    def empty(n, what, k):
        a = free(n, n, 'e%s%d' % (what, k))
        for i in range(n):
            if what == 'column' or what == 'cross' or what == 'diagonal column':
                a[i, k] = F(0)
            if what == 'row' or what == 'cross':
                a[k, i] = F(0)
            if what in ('lower', 'upper', 'diagonal', 'diagonal column'):
                for j in range(n):
                    if (what == 'lower' and j > i) or (what == 'upper' and j < i) or (what[:8] == 'diagonal' and i != j):
                        a[i, j] = F(0)
        if what in ('lower', 'upper', 'diagonal'):
            a[k, k] = F(0)
        invert(ctx, m, n, a, '%s %d empty' % (what, k), 'err', keep=False)
    each(ctx, 'empty', [(n, w, k) for n in sizes[:2] for w in ('column', 'row', 'cross', 'lower', 'upper', 'diagonal', 'diagonal column') for k in range(n)], empty)

    def sparse(n, what):
        # regular matrices are inverted, whatever entries vanish
        a = free(n, n, 'r' + what)
        for i in range(n):
            for j in range(n):
                if (what == 'lower' and j > i) or (what == 'upper' and j < i) or (what == 'diagonal' and i != j) or (what == 'band' and abs(i - j) > 1) or (what == 'arrow' and i != j and i < n - 1 and j < n - 1):
                    a[i, j] = F(0)
        invert(ctx, m, n, a, what, 'ok')
    each(ctx, 'sparse', [(n, w) for n in sizes[:2] for w in ('lower', 'upper', 'diagonal', 'band', 'arrow')], sparse)

    def known(n, name):
        with pattern(name):
            a = free(n, n, 'a')
        invert(ctx, m, n, a, name, 'err' if a.det() == F(0) else 'ok', keep=False)
    each(ctx, 'pattern', [(n, name) for n in (sizes[:1] if ctx.tier == 'quick' else sizes[:2]) for name in PATTERNS], known)

    # large matrices of doubles (the elimination is the same recurrence at every size, unless the code says otherwise)
    big = ctx.lengths(12, 33, hi=66, most=2)
    each(ctx, 'large', [(n,) for n in big], lambda n: invert_real(ctx, m, n, regular(n, 1.0, 0), 'large'))
