"""Oracles for the public matrix operations, and the comparison with instantiated summaries."""
from mat import *

T = 'gmatlib::Matrix::<T>::'
TI = 'gmatlib::trait_impls::<impl core::ops::'
MT = 'gmatlib::Matrix<T>'


def arith(tr, fn):
    """the four reference/value combinations of a binary operator"""
    mod = 'core::ops::arith::'
    b = 'gmatlib::trait_impls::<impl ' + mod + tr
    return [b + ' for ' + MT + '>::' + fn,
            b + '<' + MT + '> for &' + MT + '>::' + fn,
            b + '<&' + MT + '> for ' + MT + '>::' + fn,
            b + '<&' + MT + '> for &' + MT + '>::' + fn]


INDEX = 'gmatlib::trait_impls::<impl core::ops::index::Index<(usize, usize)> for gmatlib::Matrix<T>>::index'
INDEX_MUT = 'gmatlib::trait_impls::<impl core::ops::index::IndexMut<(usize, usize)> for gmatlib::Matrix<T>>::index_mut'
BITOR = 'gmatlib::trait_impls::<impl core::ops::bit::BitOr for &gmatlib::Matrix<T>>::bitor'
ERR = 'gmatlib::error::'


def same(got, want):
    """compare an instantiated value with the oracle's"""
    if isinstance(want, Err):
        if not (isinstance(got, tuple) and got and got[0] == 'Err'):
            return False
        if want.w is None:
            return True
        e = got[1]
        if not (isinstance(e, tuple) and e[0] == 'E'):
            raise Unk('error value')
        name, _, vi = want.w.partition('#')
        return e[1].endswith(name) and (vi == '' or e[2] == int(vi))
    if want == ():
        return got == () or got is None
    return got == want


def compare(ctx, mats, key, path, args, want, finals=None, body=None, note=''):
    """one obligation: the summary of `path` instantiated on `args` equals the oracle"""
    try:
        kind, out, final = mats.apply(path, args, body)
    except OOB as e:
        raise Unk('oob %s' % e)
    w = mats.where(path)
    shape = ', '.join('%dx%d' % (a.r, a.c) if isinstance(a, M) else repr(a) for a in args)
    if kind == 'panic':
        ok = isinstance(want, Panic)
        ctx.check('%s' % key if not ok else '%s [%s]%s' % (key, shape, note), ok, '%s(%s)%s panics where %s is required' % (path, shape, note, brief(want)), w)
        return
    if isinstance(want, Panic):
        ctx.violation(key, '%s(%s)%s returns %s where the call must be refused' % (path, shape, note, brief(out)), w)
        return
    ok = same(out, want)
    msg = '%s(%s)%s yields %s, not %s' % (path, shape, note, brief(out), brief(want))
    if ok and finals:
        for i, x in finals.items():
            f = final(i)
            if f != x:
                ok = False
                msg = '%s(%s)%s leaves argument %d as %s, not %s' % (path, shape, note, i, brief(f), brief(x))
                break
    ctx.check(key if not ok else '%s [%s]%s' % (key, shape, note), ok, msg, w)


def brief(x):
    if isinstance(x, M):
        return '%dx%d matrix' % (x.r, x.c)
    if isinstance(x, tuple) and x and x[0] == 'Ok':
        return 'Ok(%s)' % brief(x[1])
    return repr(x)[:120]


SHAPES = [(1, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2), (3, 3)]


def each(ctx, key, cases, fn):
    """run fn on every case, an undecided case does not stop the others"""
    for c in cases:
        with ctx.sub('%s %r' % (key, c)):
            fn(*c)


def pre(ctx, m, *names):
    """summaries first, so that the literals of the code are known"""
    for x in names:
        with ctx.sub('summary of ' + x):
            m.summary(x if '::' in x else T + x)


def sizes(ctx, most=600):
    """sizes around the integer literals of the code, beyond the small ones"""
    out = set()
    for c in ctx.ints(lo=5, hi=most * most):
        out |= {x for x in (c - 1, c, c + 1, c // 2 + 1, int(c ** 0.5) + 1) if 5 < x <= most}
    return sorted(out)[:24]


def wide(ctx):
    """shapes that are long in one direction"""
    return [x for s in sizes(ctx) for x in ((1, s), (s, 1), (2, s), (s, 2))]


def reals(r, c, scale, seed):
    rnd = random.Random('%s/%s/%s' % (r, c, seed))
    return M(r, c, [scale * rnd.choice((-1, 1)) * rnd.randrange(1, 64) / 8.0 for _ in range(r * c)])


SCALES = [2.0 ** k for k in (-200, -70, -35, -16, 16, 35, 70, 200)]


def closeto(got, want, mag):
    """entries equal up to rounding, relative to the size of the terms summed"""
    return isinstance(got, M) and (got.r, got.c) == (want.r, want.c) and len(got.v) == len(want.v) and \
        all(isinstance(x, float) and abs(x - y) <= 1e-9 * m for x, y, m in zip(got.v, want.v, mag))


def compare_r(ctx, mats, key, path, args, want, mag, final=None, ok=False):
    """the summary of `path` instantiated over doubles; final: index of the operand that holds the result"""
    try:
        kind, out, fin = mats.apply(path, args, mode='R')
    except OOB as e:
        raise Unk('oob %s' % e)
    w = mats.where(path)
    if kind == 'panic':
        ctx.violation(key, '%s panics on doubles of size %g' % (path, mag[0]), w)
        return
    got = out
    if final is not None:
        got = fin(final)
    elif ok:
        got = out[1] if isinstance(out, tuple) and out and out[0] == 'Ok' else out
    if not isinstance(got, (M, float)) and not (isinstance(got, tuple) and got and got[0] == 'Err'):
        raise Unk('result %r' % (got,))
    good = closeto(got, want, mag) if isinstance(want, M) else isinstance(got, float) and abs(got - want) <= 1e-9 * mag[0]
    ctx.check(key if not good else '%s %s [%g]' % (key, path.split('::')[-1], mag[0]), good, '%s on doubles of size %g: %s instead of %s' % (path, mag[0], brief(got), brief(want)), w)
