import math
from expr import *

EXPLAIN = ('new_context is evaluated to its name table by value numbering; each built-in is applied through the evaluator summary (E01) and its analysed body, '
           'and the value term compared with the elementary function of its name; the conditional over every code and ordering of its operands.')
UN = {'sin': 'sin', 'cos': 'cos', 'tan': 'tan', 'arcsin': 'asin', 'arccos': 'acos', 'arctan': 'atan', 'sinh': 'sinh', 'cosh': 'cosh', 'tanh': 'tanh', 'ln': 'ln', 'log10': 'log10', 'abs': 'abs'}


def check(ctx):
    ctx.rule('each predefined name denotes the mathematical function or constant of that name, with its documented number of arguments, applied to its arguments in order')
    run = Evaluator(ctx)
    try:
        tab, body = run.builtins()
    except Varies as e:
        ctx.violation('every new_context predefines the same', str(e)[:200], e.body['span'])
        return
    w = body['span']
    vals = names('builtins')
    cx = dict(tab)
    base = context(ctx.db, vals, {})
    for n in vals:
        if n not in tab:
            cx[n] = base[n]
    a, b = vals['a'], vals['b']
    for name, fn in sorted(UN.items()):
        with ctx.sub('function ' + name):
            if not ctx.check('function %s is predefined' % name, name in tab, 'new_context does not define %s' % name, w):
                continue
            kind, v = run('%s(a)' % name, cx)
            alts = [uf(fn, a)]
            if fn == 'log10':
                alts.append(uf('log', a, F(10)))
            # another term may still be the same function: then the values at doubles, below, decide
            say = lambda key, good, msg, n: ctx.check(key, good, msg, w) if good or kind != 'ok' or name == 'abs' else ctx.undecided(key, msg)
            say('%s(a)' % name, kind == 'ok' and any(v == q for q in alts), '%s(a) does not denote %s of a' % (name, fn), name)
            kind, v = run('a*%s(a+b)' % name, cx)
            say('%s(a+b)' % name, kind == 'ok' and any(v == a * q for q in [uf(fn, a + b)] + ([uf('log', a + b, F(10))] if fn == 'log10' else [])), 'a*%s(a+b) does not denote a times %s of a+b' % (name, fn), name)
    with ctx.sub('function log'):
        if ctx.check('function log is predefined', 'log' in tab, 'new_context does not define log', w):
            kind, v = run('log(a,b)', cx)
            # the first argument is the base
            ctx.check('log(a,b)', kind == 'ok' and (v == uf('log', b, a) or v == uf('ln', b) / uf('ln', a)), 'log(a,b) does not denote the logarithm of b to base a', w)
    xs = [0.0, -0.0, 0.5, -0.5, 1.0, -1.0, 0.75, 1e-8, -1e-8, 1e-300, 5e-324, 1.5, 3.0, -3.0, 20.0, -20.0, 37.5, 300.0, 1e3, 12345.678, 1e6, -1e6, 1e9, 1e15, 1e22, 1e300, 1.7e308, -2.0, 1.5, -0.25, math.pi, math.pi / 2, -math.pi / 2, math.e, 0.999999999999, 1.0000000001, 100.0, 0.001, math.inf, -math.inf]
    for name, fn in sorted(UN.items()):
        with ctx.sub('function %s at doubles' % name):
            n = 0
            for x in xs + [y for y in ctx.floats() if y == y]:
                try:
                    want = abs(x) if fn == 'abs' else getattr(math, 'log' if fn == 'ln' else fn)(x)
                except ValueError:
                    want = None     # outside of the domain: no finite value
                except OverflowError:
                    continue
                rc = dict(tab, a=Agg(TOK, ctx.db.vi(TOK, 'Num'), [x]))
                kind, v = run('%s(a)' % name, rc, mode='R')
                n += 1
                if want is None:
                    if kind == 'ok' and type(v) is float and math.isfinite(v):
                        ctx.violation('function %s at doubles' % name, '%s(%r), outside of the domain of the function, is given the value %r' % (name, x, v), w)
                        break
                    if kind == 'panic':
                        ctx.violation('function %s at doubles' % name, '%s(%r) panics' % (name, x), w)
                        break
                    continue
                if kind != 'ok' or type(v) is float and not (v == want or abs(v - want) <= 1e-6 * abs(want)):
                    ctx.violation('function %s at doubles' % name, '%s(%r) is %s instead of %r' % (name, x, v if kind == 'ok' else kind, want), w)
                    break
                if type(v) is not float:
                    raise Unk('value %r' % (v,))
            else:
                ctx.ok('function %s at doubles (%d)' % (name, n))
    with ctx.sub('function log at doubles'):
        n = 0
        for p in [x for x in xs + ctx.floats() if x > 0 and x != 1 and x != math.inf]:
            for q in (0.5, 1e-300, 1.0, 2.0, 10.0, 8.0, 1e300, math.e):
                want = math.log(q) / math.log(p)
                rc = dict(tab, a=Agg(TOK, ctx.db.vi(TOK, 'Num'), [p]), b=Agg(TOK, ctx.db.vi(TOK, 'Num'), [q]))
                kind, v = run('log(a,b)', rc, mode='R')
                n += 1
                if kind != 'ok' or type(v) is float and not (v == want or abs(v - want) <= 1e-6 * abs(want)):
                    ctx.violation('function log at doubles', 'log(%r, %r) is %s instead of %r' % (p, q, v if kind == 'ok' else kind, want), w)
                    return
                if type(v) is not float:
                    raise Unk('value %r' % (v,))
        ctx.ok('function log at doubles (%d)' % n)
    for name, x in (('pi', math.pi), ('e', math.e)):
        with ctx.sub('constant ' + name):
            if ctx.check('constant %s is predefined' % name, name in tab, 'new_context does not define %s' % name, w):
                kind, v = run(name, tab)
                ctx.check('constant %s' % name, kind == 'ok' and v == fl(x), '%s is not %r' % (name, x), w)
    REL = {1: lambda p, q: p == q, 2: lambda p, q: p <= q, 3: lambda p, q: p >= q, 4: lambda p, q: p < q, 5: lambda p, q: p > q, 6: lambda p, q: p != q}
    SY = {1: '==', 2: '<=', 3: '>=', 4: '<', 5: '>', 6: '!='}
    for code, rel in REL.items():
        with ctx.sub('conditional %s' % SY[code]):
            if not ctx.check('function if is predefined', 'if' in tab, 'new_context does not define if', w):
                break
            PQ = [(1.0, 2.0), (2.0, 1.0), (2.0, 2.0), (-1.5, -1.25), (-3.0, 3.0), (1e-9, 2e-9), (1e9 + 1, 1e9), (0.0, -0.0), (0.0, 5e-324), (-5e-324, 0.0), (1e-310, 2e-310), (1e-310, 1e-310), (1.0, 1.0 + 2 ** -52),
                  (1e300, 1e300 * (1 + 2 ** -52)), (1.7e308, -1.7e308), (math.inf, math.inf), (-math.inf, -math.inf), (-math.inf, math.inf), (math.inf, 1.7e308), (3.0, -math.inf)]
            fl_ = [x for x in ctx.floats() if x == x]
            PQ += [(x, x) for x in fl_] + [(x, math.nextafter(x, math.inf)) for x in fl_] + [(x, 0.0) for x in fl_] + [(0.0, x) for x in fl_] + [(x, -x) for x in fl_]
            for p, q, op in [(p, q, float(code)) for p, q in PQ] + [(p, q, x) for p, q in PQ[:3] for x in (code - 1e-9, code + 1e-9, code - 0.25, code + 0.25)]:
                rc = dict(tab)
                for n, x in (('p', p), ('q', q), ('t', 11.0), ('s', 22.0), ('op', op)):
                    rc[n] = Agg(TOK, ctx.db.vi(TOK, 'Num'), [x])
                kind, v = run('if(p,%s,q,t,s)' % ('op' if op != code else code), rc, mode='R')
                want = 11.0 if rel(p, q) else 22.0
                if kind != 'ok' or v != want:
                    ctx.violation('conditional %s' % SY[code], 'if(%g, %r, %g, ..), the %s comparison, selects %s' % (p, op, q, SY[code], 'the other branch' if v in (11.0, 22.0) else repr(v)), w)
                    break
                if op != code:
                    continue
                for t, f in ((math.inf, 22.0), (11.0, math.inf), (1.7e308, -1.7e308), (5e-324, 1.0), (0.0, 5.0), (7.0, 7.0)):
                    for n, x in (('t', t), ('s', f)):
                        rc[n] = Agg(TOK, ctx.db.vi(TOK, 'Num'), [x])
                    kind, v = run('if(p,%s,q,t,s)' % code, rc, mode='R')
                    if kind != 'ok' or v != (t if rel(p, q) else f):
                        ctx.violation('conditional %s' % SY[code], 'if(%g, %r, %g, %g, %g), the %s comparison, gives %r' % (p, op, q, t, f, SY[code], v), w)
                        break
                else:
                    continue
                break
            else:
                ctx.ok('conditional %s' % SY[code])
    with ctx.sub('arities'):
        ar = dict({n: 1 for n in UN}, log=2)
        ar['if'] = 5
        tf = ctx.db.vi(TOK, 'Func')
        for n, k in ar.items():
            t = tab.get(n)
            if isinstance(t, Agg) and t.vi == tf:
                ctx.check('arity of ' + n, t.f[0] == k, '%s takes %r arguments instead of %d' % (n, t.f[0], k), w)
