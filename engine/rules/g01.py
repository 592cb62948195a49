from matops import *

EXPLAIN = ('Value-numbering dataflow over the MIR of the Index/IndexMut implementations and of the constructors: path conditions '
           'and the element actually reached are extracted symbolically; entailment of the bounds is decided for every shape and '
           'index, and the extracted summary is also instantiated on every index pair around every shape up to 4x4.')


def check(ctx):
    m = Mats(ctx)
    pre(ctx, m, INDEX, INDEX_MUT)
    ctx.rule('m[(i,j)] (read and write) reaches element i*cols+j exactly when i<rows and j<cols, and panics otherwise')
    for key, path in (('index', INDEX), ('index_mut', INDEX_MUT)):
        with ctx.sub(key + ' symbolic'):
            symbolic(ctx, m, key, path)
        cases = []
        for r in range(0, 5):
            for c in range(0, 5):
                for i in range(0, r + 2):
                    for j in range(0, c + 3):
                        cases.append((r, c, i, j))
        for r, c in wide(ctx):
            cases += [(r, c, i, j) for i in {0, r - 1, r, r + 1} for j in {0, c // 2, c - 1, c, c + 1}]

        def one(r, c, i, j):
            a = free(r, c, key)
            want = a[i, j] if i < r and j < c else Panic()
            compare(ctx, m, key, path, [a, Agg('tuple', 0, [i, j])], want, {0: a} if key == 'index' else None)
        each(ctx, key, cases, one)
        # matrices of any size: their element i is the value i
        big = sorted({1000, 1 << 20, (1 << 33) + 7} | {x for x in ctx.ints(lo=5, hi=1 << 33)})
        cases = []
        for s in big:
            for r, c in ((s, 3), (3, s)) + (((s, s),) if s < 1 << 30 else ()):
                cases += [(r, c, i, j) for i in {0, r // 2, r - 1, r} for j in {0, c // 2, c - 1, c}]

        def large(r, c, i, j):
            a = M(0, 0, [])
            a.r, a.c, a.v = r, c, Tall(r * c)
            compare(ctx, m, key, path, [a, Agg('tuple', 0, [i, j])], F(i * c + j) if i < r and j < c else Panic(), note=' at (%d, %d) of %dx%d' % (i, j, r, c))
        each(ctx, key + ' of large matrices', cases, large)


def symbolic(ctx, m, key, path):
    """every returning path entails both bounds and reaches exactly element i*cols+j"""
    body, eng, outs = m.summary(path)
    me, ix = eng.sym_args(body)
    base = eng.initial(N('P', me))
    rows = eng.project(base, ('f', None, m.rf))
    cols = eng.project(base, ('f', None, m.cf))
    i = eng.project(ix, ('f', None, 0))
    j = eng.project(ix, ('f', None, 1))
    want = padd(pmul(i, cols), j)
    for kind, val, st in outs:
        if kind != 'ret':
            continue
        if st.f.ev(lt(i, rows)) is not True or st.f.ev(lt(j, cols)) is not True:
            raise Unk('bounds not entailed on a returning path')
        if not (isn(val, 'ref') and val[2] and val[2][-1][0] == 'ix'):
            raise Unk('result is not an element of the storage')
        if val[2][-1][1] is not want:
            raise Unk('element index %s' % show(val[2][-1][1]))
        ctx.ok('%s: bounds entailed and element i*cols+j reached for every shape' % key)
