from matops import *

EXPLAIN = ('Value-numbering summaries of every public operation with a shape precondition, instantiated on all pairs of small shapes: '
           'the outcome selected by the extracted path conditions must be the refusal (Err or panic) exactly when the shapes do not fit, '
           'with every operand unchanged.')


def check(ctx):
    m = Mats(ctx)
    pre(ctx, m, 'multiply_matrix', 'augment_with', 'trace', 'inplace_row_swap')
    ctx.rule('operations on operands whose shapes do not fit are refused (documented Err, or panic for operators), never computed on misread data')
    pairs = [(a, b) for a in SHAPES for b in SHAPES]
    for s in sizes(ctx, 200):
        pairs += [((2, s), (s, 2)), ((2, s), (s + 1, 2)), ((2, s), (s - 1, 1)), ((s, 2), (s + 1, 2)), ((s, 2), (s, 1)), ((2, s), (2, s + 1))]

    def mm(x, y):
        a, b = free(*x, 'a'), free(*y, 'b')
        if a.c != b.r:
            compare(ctx, m, 'multiply_matrix', T + 'multiply_matrix', [a, b], Err('MatrixMultiplicationError'), {0: a, 1: b})
            for p in arith('Mul', 'mul'):
                compare(ctx, m, '*', p, [a, b], Panic())
        else:
            compare(ctx, m, 'multiply_matrix', T + 'multiply_matrix', [a, b], ('Ok', a.mul(b)), {0: a, 1: b})
    each(ctx, 'multiply', pairs, mm)

    def aug(x, y):
        a, b = free(*x, 'a'), free(*y, 'b')
        if a.r != b.r:
            compare(ctx, m, 'augment_with', T + 'augment_with', [a, b], Err('MatrixAugmentationError'), {0: a, 1: b})
            compare(ctx, m, '|', BITOR, [a, b], Panic())
    each(ctx, 'augment', pairs, aug)

    def addsub(x, y):
        if x == y:
            return
        a, b = free(*x, 'a'), free(*y, 'b')
        for tr, fn in (('Add', 'add'), ('Sub', 'sub')):
            for p in arith(tr, fn):
                compare(ctx, m, tr, p, [a, b], Panic())
            p = 'gmatlib::trait_impls::<impl core::ops::arith::%sAssign for %s>::%s_assign' % (tr, MT, fn)
            compare(ctx, m, tr + 'Assign', p, [a, b], Panic())
    each(ctx, 'add/sub', pairs, addsub)

    def square(r, c):
        if r != c:
            a = free(r, c, 'a')
            compare(ctx, m, 'trace', T + 'trace', [a], Err('NonSquareMatrixError'), {0: a})
            compare(ctx, m, 'try_inplace_invert', T + 'try_inplace_invert', [a], Err('NonSquareMatrixError'), {0: a})
    each(ctx, 'square only', SHAPES + [(4, 5), (5, 4), (1, 4), (4, 1)] + wide(ctx), square)

    def rows(r, c):
        a = free(r, c, 'a')
        for bad in (r, r + 1):
            compare(ctx, m, 'inplace_row_scale', T + 'inplace_row_scale', [a, bad, F(7)], Panic())
            for i, j in ((0, bad), (bad, 0)):
                compare(ctx, m, 'inplace_row_swap', T + 'inplace_row_swap', [a, i, j], Panic())
                compare(ctx, m, 'inplace_row_add', T + 'inplace_row_add', [a, i, j], Panic())
                compare(ctx, m, 'inplace_scaled_row_add', T + 'inplace_scaled_row_add', [a, i, j, F(7)], Panic())
        compare(ctx, m, 'subset', T + 'subset', [a, 0, 0, r, c - 1], Panic())
        compare(ctx, m, 'subset', T + 'subset', [a, 0, 0, r - 1, c], Panic())
        # the first corner after the second
        for r1 in range(r):
            for r2 in range(r1):
                compare(ctx, m, 'subset (reversed)', T + 'subset', [a, r1, 0, r2, c - 1], Panic())
        for c1 in range(c):
            for c2 in range(c1):
                compare(ctx, m, 'subset (reversed)', T + 'subset', [a, 0, c1, r - 1, c2], Panic())
    each(ctx, 'row operations', SHAPES, rows)
