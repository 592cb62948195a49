from matops import *

EXPLAIN = ('Value-numbering summaries (MIR, loops as recurrences) of every constructor, accessor and whole-matrix conversion, '
           'instantiated on every small shape with free entries and compared with the specified dimensions and row-major contents.')


def vec(r, c, seed): return free(r, c, seed).v


def check(ctx):
    m = Mats(ctx)
    pre(ctx, m, 'new', 'new_identity', 'from_vec', 'from_row_vec', 'from_col_vec', 'get_rows', 'get_cols')
    ctx.rule('every constructor yields rows*cols stored elements in row-major order with the requested dimensions')

    def new(r, c):
        compare(ctx, m, 'new', T + 'new', [r, c], zeros(r, c))
    each(ctx, 'new, many elements', [(s, s) for s in sorted({int(x ** 0.5) + 1 for x in ctx.ints(lo=300, hi=70000)})[:3]], new)
    each(ctx, 'new', [(r, c) for r in range(0, 5) for c in range(0, 5)] + wide(ctx), new)

    def eye(n):
        compare(ctx, m, 'new_identity', T + 'new_identity', [n], izero(n))
    each(ctx, 'new_identity', [(n,) for n in range(0, 6)] + [(s,) for s in sizes(ctx, 70)], eye)

    def fv(cols, n):
        v = vec(1, n, 'fv')
        want = ('Ok', M(n // cols, cols, v)) if n % cols == 0 else Err('MatrixFromVecError')
        compare(ctx, m, 'from_vec', T + 'from_vec', [cols, list(v)], want)
    each(ctx, 'from_vec', [(c, n) for c in range(1, 5) for n in range(0, 9)] + [(c, n) for s in ctx.ints(lo=9, hi=20000) for c in (1, 2) for n in (s, s + 1)] + [(s, 2 * s) for s in ctx.ints(lo=5, hi=5000)], fv)

    def fr(n):
        v = vec(1, n, 'fr')
        compare(ctx, m, 'from_row_vec', T + 'from_row_vec', [list(v)], M(1, n, v))
        compare(ctx, m, 'from_col_vec', T + 'from_col_vec', [list(v)], M(n, 1, v))
    each(ctx, 'from_row_vec/from_col_vec', [(n,) for n in list(range(0, 5)) + ctx.ints(lo=5, hi=20000)], fr)

    def acc(r, c):
        a = free(r, c, 'acc')
        compare(ctx, m, 'get_rows', T + 'get_rows', [a], r, {0: a})
        compare(ctx, m, 'get_cols', T + 'get_cols', [a], c, {0: a})
        compare(ctx, m, 'into Vec', 'gmatlib::trait_impls::<impl core::convert::From<gmatlib::Matrix<T>> for alloc::vec::Vec<T>>::from', [a], list(a.v))
        compare(ctx, m, 'clone', '<gmatlib::Matrix<T> as core::clone::Clone>::clone', [a], a, {0: a})
    each(ctx, 'accessors', SHAPES + wide(ctx), acc)
    with ctx.sub('iter'):
        itercheck(ctx, m)


def zeros(r, c): return M(r, c, [F(0)] * (r * c))


def izero(n): return ident(n)


def itercheck(ctx, m):
    """iter() walks the whole storage from element 0 upwards"""
    body, eng, outs = m.summary(T + 'iter')
    base = eng.initial(N('P', eng.sym_args(body)[0]))
    vals = eng.project(base, ('f', None, m.vf))
    for kind, val, st in outs:
        if kind != 'ret' or not isn(val, 'it'):
            raise Unk('iter result %s' % show(val))
        ctx.check('iter', contains(eng.deep(val, st), lambda t: t is vals), 'iter() does not walk the element storage', m.where(T + 'iter'))
