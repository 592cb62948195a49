from matops import *

EXPLAIN = ('Value-numbering summaries of the element-moving operations, instantiated on every small shape with pairwise distinct free '
           'entries: each result entry must be the entry the operation specifies (position by position), operands unchanged.')


def check(ctx):
    m = Mats(ctx)
    pre(ctx, m, 'transpose', 'augment_with', 'subset', 'inplace_row_swap')
    ctx.rule('transpose, augment (and |), subset and inplace_row_swap put every element at its specified position and nowhere else')
    S = SHAPES + [(2, 4), (4, 2), (4, 4)]

    def tr(r, c):
        a = free(r, c, 't')
        compare(ctx, m, 'transpose', T + 'transpose', [a], M(c, r, [a[i, j] for j in range(c) for i in range(r)]), {0: a})
    each(ctx, 'transpose', S, tr)
    each(ctx, 'transpose', wide(ctx), tr)

    def aug(r, c, d):
        a, b = free(r, c, 'a'), free(r, d, 'b')
        want = M(r, c + d, [x for i in range(r) for x in [a[i, j] for j in range(c)] + [b[i, j] for j in range(d)]])
        compare(ctx, m, 'augment_with', T + 'augment_with', [a, b], ('Ok', want), {0: a, 1: b})
        compare(ctx, m, '|', BITOR, [a, b], want, {0: a, 1: b})
    each(ctx, 'augment', [(r, c, d) for r in (1, 2, 3) for c in (1, 2, 3) for d in (1, 2, 3)], aug)
    each(ctx, 'augment', [x for s in sizes(ctx) for x in ((1, s, 2), (2, 1, s), (s, 1, 1))], aug)

    def sub(r, c):
        a = free(r, c, 's')
        for r1 in range(r):
            for r2 in range(r1, r):
                for c1 in range(c):
                    for c2 in range(c1, c):
                        want = M(r2 - r1 + 1, c2 - c1 + 1, [a[i, j] for i in range(r1, r2 + 1) for j in range(c1, c2 + 1)])
                        compare(ctx, m, 'subset', T + 'subset', [a, r1, c1, r2, c2], want, {0: a})
    each(ctx, 'subset', SHAPES + ([(4, 4)] if ctx.tier == 'thorough' else []), sub)

    def part(r, c):
        a = free(r, c, 's')
        for r1, r2, c1, c2 in ((0, r - 1, 0, c - 1), (r - 1, r - 1, 0, c - 1), (0, r - 1, c - 1, c - 1)):
            want = M(r2 - r1 + 1, c2 - c1 + 1, [a[i, j] for i in range(r1, r2 + 1) for j in range(c1, c2 + 1)])
            compare(ctx, m, 'subset', T + 'subset', [a, r1, c1, r2, c2], want, {0: a})
    each(ctx, 'subset', wide(ctx), part)

    def swap(r, c):
        for i in range(r) if r < 6 else (0, r - 1):
            for j in range(r) if r < 6 else (0, 1, r - 2, r - 1):
                a = free(r, c, 'w')
                b = a.copy()
                for k in range(c):
                    b[i, k], b[j, k] = a[j, k], a[i, k]
                compare(ctx, m, 'inplace_row_swap', T + 'inplace_row_swap', [a, i, j], (), {0: b})
    each(ctx, 'inplace_row_swap', S, swap)
    each(ctx, 'inplace_row_swap', wide(ctx), swap)

    # entries that coincide or vanish
    for name in PATTERNS:
        with pattern(name):
            each(ctx, 'transpose ' + name, S, tr)
            each(ctx, 'augment ' + name, [(r, c, d) for r in (1, 2, 3) for c in (1, 2, 3) for d in (1, 2)], aug)
            each(ctx, 'subset ' + name, SHAPES, part)
            each(ctx, 'inplace_row_swap ' + name, S, swap)
