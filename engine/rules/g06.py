from matops import *

EXPLAIN = ('Value-numbering summary of try_inplace_invert (all size dispatches inlined) instantiated at sizes 1..4: A*A^-1 = I is '
           'decided as an identity of rational functions of the free entries (random interpretation over GF(2^61-1)); singular '
           'matrices must select the refusing path with the matrix untouched.')
SIZES = (1, 2, 3, 4)
ZERO = {1: 'MatrixInversionError#1'}


def singular(n, seed):
    a = free(n, n, seed)
    if n == 1:
        return M(1, 1, [F(0)])
    for j in range(n):
        s = F(0)
        for i in range(n - 1):
            s = s + a[i, j] * F(i + 2)
        a[n - 1, j] = s
    return a


def invert(ctx, m, n, a, note, must=None, keep=True):
    path = T + 'try_inplace_invert'
    kind, out, final = m.apply(path, [a])
    w = m.where(path)
    key = 'inverse of %dx%d' % (n, n)
    if kind == 'panic':
        ctx.violation(key, 'try_inplace_invert panics on a %s %dx%d matrix' % (note, n, n), w)
    elif out[0] == 'Ok':
        if must == 'err':
            ctx.violation(key, 'try_inplace_invert accepts a %s %dx%d matrix' % (note, n, n), w)
            return
        inv = final(0)
        good = isinstance(inv, M) and inv.r == n and inv.c == n and len(inv.v) == n * n and not any(x is INF for x in inv.v) \
            and a.mul(inv) == ident(n)
        ctx.check(key if not good else key + ' ' + note, good, 'try_inplace_invert leaves a matrix X with A*X != I for a %s %dx%d matrix A' % (note, n, n), w)
    else:
        if must == 'ok':
            ctx.violation(key, 'try_inplace_invert refuses a %s %dx%d matrix with %r' % (note, n, n, out), w)
            return
        good = not keep or final(0) == a
        ctx.check(key if not good else key + ' ' + note, good, 'try_inplace_invert changes a %s %dx%d matrix it refuses' % (note, n, n), w)
    return out


def invert_real(ctx, m, n, a, note):
    """a well-conditioned matrix of doubles is inverted"""
    path = T + 'try_inplace_invert'
    kind, out, final = m.apply(path, [a], mode='R')
    w = m.where(path)
    key = 'inverse of %dx%d, %s' % (n, n, note)
    if kind == 'panic' or out[0] != 'Ok':
        ctx.violation(key, 'try_inplace_invert %s the regular %dx%d matrix %r' % ('panics on' if kind == 'panic' else 'refuses', n, n, a.v), w)
        return
    x = final(0)
    good = isinstance(x, M) and (x.r, x.c) == (n, n) and all(isinstance(y, float) for y in x.v)
    if good:
        for i in range(n):
            for j in range(n):
                ts = [a[i, k] * x[k, j] for k in range(n)]
                good = good and abs(sum(ts) - (i == j)) < 1e-8
    ctx.check(key, good, 'try_inplace_invert leaves a matrix X with A*X != I for the regular %dx%d matrix %r' % (n, n, a.v), w)


def regular(n, s, k):
    """diagonally dominant"""
    a = reals(n, n, s, 'dom%d' % k)
    for i in range(n):
        a[i, i] = s * (32.0 * n + i) * (-1) ** (i + k)
    return a


def check(ctx):
    with exact():
        obligations(ctx)


def obligations(ctx):
    m = Mats(ctx)
    ctx.rule('try_inplace_invert on 1x1..4x4 leaves X with A*X = I, or refuses exactly the singular matrices, leaving them untouched')
    seeds = range(3 if ctx.tier == 'quick' else 12)

    def gen(n, s):
        invert(ctx, m, n, free(n, n, 'g%d' % s), 'general', 'ok')
    each(ctx, 'general', [(n, s) for n in SIZES for s in seeds], gen)

    def sing(n, s):
        out = invert(ctx, m, n, singular(n, 's%d' % s), 'singular', 'err')
        if out and out[0] == 'Err':
            ctx.check('error of singular %dx%d' % (n, n), same(out, Err(ZERO.get(n, 'MatrixInversionError#0'))),
                      'singular %dx%d matrix is refused with %r' % (n, n, out), m.where(T + 'try_inplace_invert'))
    each(ctx, 'singular', [(n, s) for n in SIZES for s in seeds], sing)

    each(ctx, 'doubles of every magnitude', [(n, s, k) for n in SIZES for s in SCALES for k in range(2)], lambda n, s, k: invert_real(ctx, m, n, regular(n, s, k), 'size %g (%d)' % (s, k)))

    def special(n, s):
        # a zero in the leading position does not make the closed forms fail
        a = free(n, n, 'z%d' % s)
        a[0, 0] = F(0)
        invert(ctx, m, n, a, 'zero-leading', 'ok')
    each(ctx, 'zero-leading', [(n, s) for n in (2, 3, 4) for s in seeds], special)

    def empty(n, what, k):
        a = free(n, n, 'e%s%d' % (what, k))
        for i in range(n):
            if what == 'column':
                a[i, k] = F(0)
            elif what == 'row':
                a[k, i] = F(0)
        if what == 'zero':
            a = M(n, n, [F(0)] * (n * n))
        if what == 'rank 1':
            a = M(n, n, [a[i, 0] * a[0, j] for i in range(n) for j in range(n)]) if n > 1 else M(1, 1, [F(0)])
        invert(ctx, m, n, a, '%s %d' % (what, k), 'err')
    each(ctx, 'empty', [(n, w, k) for n in SIZES for w in ('column', 'row') for k in range(n)] + [(n, w, 0) for n in SIZES for w in ('zero', 'rank 1')], empty)

    def perm(n, s):
        # permutation-like and triangular matrices are regular
        import itertools
        q = list(itertools.permutations(range(n)))[s]
        a = free(n, n, 'q%d' % s)
        b = M(n, n, [a[i, j] if q[i] == j else F(0) for i in range(n) for j in range(n)])
        invert(ctx, m, n, b, 'permuted diagonal', 'ok')
    each(ctx, 'permuted', [(n, s) for n in (2, 3, 4) for s in range({2: 2, 3: 6, 4: 24}[n])], perm)

    def known(n, name):
        with pattern(name):
            a = free(n, n, 'a')
        invert(ctx, m, n, a, name, 'err' if a.det() == F(0) else 'ok')
    each(ctx, 'pattern', [(n, name) for n in SIZES for name in PATTERNS], known)

    # every small matrix over a few values
    def small(n, vals):
        import itertools
        for v in itertools.product(vals, repeat=n * n):
            a = M(n, n, [F(x) for x in v])
            invert(ctx, m, n, a, 'small', 'err' if a.det() == F(0) else 'ok')
    each(ctx, 'small', [(1, (0, 1, -1, 2)), (2, (0, 1, -1, 2)), (2, (3, -3, 5))] + ([(3, (0, 1))] if ctx.tier == 'quick' else [(3, (0, 1)), (3, (1, -1)), (3, (2, 0))]), small)
