import re

from matops import *
from nx import Summary

EXPLAIN = ('Value-numbering summary of Display for Matrix (the formatter is a text that grows, the loops are recurrences), instantiated on every small shape; the text must list the elements row by row.')
DISP = 'gmatlib::trait_impls::<impl core::fmt::Display for gmatlib::Matrix<T>>::fmt'
NUM = r'-?(?:[0-9]+(?:\.[0-9]+)?(?:e-?[0-9]+)?|inf|NaN)'


def check(ctx):
    m = Mats(ctx)
    ctx.rule('the text of a matrix lists every element of every row in order; rows and elements are told apart; nothing else looks like an element, nor like a missing one; printing does not panic')
    body = ctx.public(DISP)
    eng, outs = ctx.engine(body, panics=True)
    a = eng.sym_args(body)
    S = Summary(eng, outs, body)
    where = body['span']
    top = 5 if ctx.tier == 'quick' else 8

    def at(r, c, vals):
        env = {eng.initial(N('P', a[0])): m.agg(M(r, c, vals)), eng.initial(N('P', a[1])): ''}
        kind, v, st, ev = S.at(env, mode='R')
        if kind != 'ret':
            return None
        t = ev.ev(eng.deep(eng.load(st, N('P', a[1])), st))
        if not isinstance(t, str):
            raise Unk('text of the matrix: %s' % str(t)[:80])
        return t

    def one(r, c):
        vals = [(-1) ** k * (k * 7 % 11 + 1) + (0.5 if k % 3 == 0 else 0) for k in range(r * c)]
        if r * c > 3:
            vals[1], vals[3] = 0.0, vals[2]
        vals = [float(v) for v in vals]
        if r * c > 1:
            vals[-1] = 0.123456789
        t = at(r, c, vals)
        key = '%dx%d' % (r, c)
        if t is None:
            return ctx.violation(key, 'printing a %d x %d matrix panics' % (r, c), where)
        got = [float(x) for x in re.findall(NUM, t)]
        if got != vals:
            return ctx.violation(key, 'a %d x %d matrix of %s prints as %s' % (r, c, vals, t), where)
        seps = [x.strip() for x in re.split(NUM, t)[1:-1]]
        ins = {s for k, s in enumerate(seps) if (k + 1) % c}
        ends = {s for k, s in enumerate(seps) if not (k + 1) % c}
        if len(ins) > 1 or len(ends) > 1 or ins & ends:
            return ctx.violation(key, 'a %d x %d matrix prints as %s: its rows cannot be told from the text' % (r, c, t), where)
        for sep in ins:
            pieces = re.split(NUM, t)
            for name, piece, before, after in [('before the first element', pieces[0], False, True), ('after the last element', pieces[-1], True, False)] + [
                    ('between two rows', x, True, True) for x in pieces[1:-1] if x.strip() in ends]:
                cut = [x.strip() for x in piece.split(sep)] if sep else [piece]
                if len(cut) > 1 and ((before and not cut[0]) or (after and not cut[-1])):
                    return ctx.violation(key, 'a %d x %d matrix prints as %s: a separator %s reads as a further, empty element' % (r, c, t, name), where)
        ctx.ok(key)

    for r in range(1, top):
        for c in range(1, top):
            with ctx.sub('%dx%d' % (r, c)):
                one(r, c)
    for r, c in wide(ctx):
        with ctx.sub('%dx%d' % (r, c)):
            one(r, c)
    for r, c in ((0, 0), (0, 2), (2, 0), (1, 0), (0, 1)):
        with ctx.sub('%dx%d' % (r, c)):
            t = at(r, c, [])
            ctx.check('%dx%d' % (r, c), t is not None and not re.search(NUM, t), 'printing a %d x %d matrix %s' % (r, c, 'panics' if t is None else 'gives ' + t), where)
