import math
import random
from expr import *

EXPLAIN = ('The same evaluator summary as E01, every panic an explicit outcome, instantiated on malformed expressions: the selected outcome must be an error '
           '(for a zero divisor: DivisionByZero).')
BAD = {
    'unbalanced parentheses': ['(a', 'a)', 'f(a', 'f(a))', '((a)', ')a(', 'a+(b', '(a+b))*c', ')(', 'g(a,b', 'a)+(b', '(((a))', '((a)))', 'a+b)', '-(a', '-a)', 'f(a+(b)',
                               'f((a)+b', 'g((a,b)', 'a)b', ')', '(', '))', '((', '(a+b', 'a*(b-c', 'f(g(a,b)', 'f(g(a,b)))', '2)', '(2', '2+(3*4', '2+3)*4', 'a)-b', 'f(a)+b)', ')+a', 'a+)'],
    'unknown names and tokens': ['q', 'a+q', 'q+a', 'q(a)', 'f(q)', 'g(a,q)', 'a$b', '1.2.3', 'a+2x', '2x', 'a=b', 'a@b', '#', 'aa', 'A', 'a_', '-q', '(q)', 'a*-q', 'f(a)q', '1e', '..', 'a;b', 'a%b', '[a]'],
    'nothing': ['', ' ', '   ', '()', '(())'],
    'missing operands': ['a+', '*a', 'a*/b', 'a+*b', '^', 'a^', '+', '-', 'f', 'f()', 'a/', '(a+)', '(*a)', 'a+()', 'h(a,b)', 'g(a)', 'a**b', 'a^^b', '/', 'f(a)+', '*f(a)', 'f(+)', 'g(a,)+', 'a-', '--', '-*a', '+a', 'a*+b', 'f(a*)', 'g(a*,b)', ',', '-('],
    'operands taken from elsewhere': ['a+b+g(c)', 'a b +', 'x y -', 'a*g(b)', 'a+h(b,c)', 'a b c h()', 'a f()', 'f(a b)', 'a*(b,c)', 'a-(g(b))', 'a b*+c', 'a b+c', 'g(a)b', 'g(a)+b*c', 'a b - c +', 'c^g(a)', '(a b)+', 'f()a', 'a,b g()', 'g(a,b*)', 'g(,a)', 'f(,)', 'a+h(b)*c'],
    'operands left over': ['a b', '2 3', 'a(b)', '(a)(b)', 'a f(b)', 'f(a) b', 'f(a)f(b)', 'f(a,b)', 'g(a,b,c)', 'a,b', '(a,b)', 'a b c', '2(a)', 'a 2', 'a+b c', '(a+b)(c+d)', 'f(a)(b)'],
}
ARITY = ['p', 'p(a)', 'p(,)', 'p(),a', 'a p()', 'p()p()', 'p()()', 'p(p)', 'p()a', '2p()', 'g(p(),)', 'g(p())', 'f(p(),p())', 'v(a,b,c,d)', 'v(a,b,c,d,e,x)', 'v()', 'f(pq)', 'p(', 'p)', 'p()+', 'p()*+a', '*p()', 'g(,p())', 'p(())', 'p(-)', 'p(p(),)',
         'a b p()+', 'p() p()', 'f()', 'v(p(),p(),p(),p())', 'p()(a)', '(p()', 'p())', 'pp()', 'p()q()', 'f(p()a)', 'h(p(),a b)']
ZERO = ['1/0', 'a/0', 'a/(b-b)', 'f(a/(x-x))+1', '0/0', 'b/-(a-a)', 'a/0*b', 'a+b/0', 'g(a/0,b)', '(a/(b-b))^c', 'a/b/0', '1/(0)', 'a/-0', '1/0.0', '-1/0', 'a/(0*b)', 'a*b/(c-c)+d']


def broken(rnd, n):
    def whole(d):
        r = rnd.random()
        if r < 0.35 or not d:
            return [rnd.choice(('a', 'b', 'x', '2', 'p()'))]
        if r < 0.5:
            return ['('] + whole(d - 1) + [')']
        if r < 0.7:
            f = rnd.choice('fgh')
            out = [f, '(']
            for i in range(MORE[f]):
                out += ([','] if i else []) + whole(d - 1)
            return out + [')']
        return ([], ['-'])[rnd.random() < 0.2] + whole(d - 1) + [rnd.choice('+-*/^')] + whole(d - 1)
    for _ in range(n):
        t = [y for x in whole(3) for y in (['p', '(', ')'] if x == 'p()' else [x])]
        for _ in range(rnd.choice((1, 1, 1, 2, 3))):
            i = rnd.randrange(len(t) + 1)
            op = rnd.randrange(4)
            tok = rnd.choice(['a', '3', '(', ')', ',', '+', '-', '*', '/', '^', 'f', 'g', 'p', 'unknown'])
            if op == 0 and len(t) > 1:
                del t[i - 1]
            elif op == 1:
                t.insert(i, tok)
            elif op == 2 and t:
                t[i - 1] = tok
            elif len(t) > 1:
                j = rnd.randrange(len(t))
                t[i - 1], t[j] = t[j], t[i - 1]
        yield ' '.join(t)


def longer(ctx, run, k, rnd, w):
    """a malformed part among k operands, in k parentheses or calls, as one of k arguments; names of k letters"""
    fs = dict(MORE, **{'w': k, 'r' * k: 1})
    vals = dict(names(), **{'n' * k: F(5)})
    cx = context(ctx.db, vals, funcs=fs)
    parts = ['(a', 'a)', 'q', 'a+2x', '()', 'a*/b', 'f()', 'h(a,b)', 'g(a)', 'a b', 'a b +', 'a+h(b,c)', 'g(a,b,c)', 'a(b)', '2 3', 'a+']
    ab = [rnd.choice('abcdexyz') for _ in range(k)]
    ops = [rnd.choice('+-*') for _ in range(k)]
    head = ''.join(x for p in zip(ab, ops) for x in p)
    cases = [('among %d operands' % k, t) for p in parts for t in (head + p, p + head[1:] + 'c' if p != 'a+' else head + '*' + p, head + p + '*' + head + 'd')]
    cases += [('in %d parentheses' % k, '(' * k + p + ')' * k) for p in parts] + [('in %d calls' % k, 'g(a,' * k + p + ')' * k) for p in parts[2:]]
    cases += [('as one of %d arguments' % k, 'w(%s)' % ','.join(ab[:-1] + [p])) for p in parts[2:]] + [('as one of %d arguments' % k, 'w(%s)' % ','.join([p] + ab[1:])) for p in parts[2:]]
    cases += [('function of %d arguments' % k, t) for t in ('w(%s)' % ','.join(ab[1:]), 'w(%s,a)' % ','.join(ab), 'c+w(%s)' % ','.join(ab[1:]), 'w', 'w()')]
    cases += [('name of %d letters' % k, t) for t in ('n' * (k + 1), 'n' * (k - 1), 'a*' + 'n' * (k - 1), 'q' * k, 'r' * k, 'r' * k + '()', 'a+%s b' % ('n' * k))]
    cases += [('unbalanced, %d deep' % k, t) for t in ('(' * k + 'a' + ')' * (k - 1), '(' * k + 'a' + ')' * (k + 1), 'f(' * k + 'a' + ')' * (k - 1), 'a+(' * k + 'b' + ')' * (k + 1), '-' * k, ' ' * k, '()' * k, 'a' + ' ' * k + 'b', '(' * k, ')' * k, '(' * k + ')' * k)]
    for what, t in cases:
        if k > 100 and rnd.random() < 0.6:
            continue
        kind, v = run(t, cx)
        if kind != 'err':
            return ctx.violation('length', 'a malformed expression (%s, %s) %s' % (what, t if len(t) < 60 else t[:28] + '...' + t[-28:], 'panics' if kind == 'panic' else 'is given a value'), w)
    ctx.ok('malformed at length %d (%d)' % (k, len(cases)))


def check(ctx):
    ctx.rule('a malformed expression (unbalanced parentheses, unknown name, nothing to evaluate, missing or superfluous operands) and a division by zero are refused with an error')
    run = Evaluator(ctx)
    w = run.body['span']
    cx = context(ctx.db, names())
    rnd = random.Random(9)
    err = ctx.db.adts.get('geqslib::errors::ShuntingYardError')
    for g, xs in BAD.items():
        with ctx.sub(g):
            for s in xs:
                for text in (s, spaced(s, rnd)):
                    kind, v = run(text, cx)
                    if kind != 'err':
                        ctx.violation(g, 'the malformed expression "%s" %s' % (text, 'panics' if kind == 'panic' else 'is given a value'), w)
                        break
            ctx.ok('%s (%d expressions)' % (g, len(xs)))
    wide = context(ctx.db, names(), funcs=MORE)
    with ctx.sub('functions of no and many arguments'):
        for s in ARITY:
            for text in (s, spaced(s, rnd)):
                kind, v = run(text, wide)
                if kind != 'err':
                    ctx.violation('functions of no and many arguments', 'the malformed expression "%s" (p takes no, v five arguments) %s' % (text, 'panics' if kind == 'panic' else 'is given a value'), w)
                    break
        ctx.ok('functions of no and many arguments (%d expressions)' % len(ARITY))
    with ctx.sub('length'):
        for k in ctx.lengths(12, 40, 130, 280):
            longer(ctx, run, k, rnd, w)
    with ctx.sub('one context after another'):
        successive(ctx, run, rnd, 'err', 'one context after another', w)
    with ctx.sub('one token wrong'):
        # well formed expressions with tokens removed, added, replaced or exchanged, read by the reference grammar
        vals = names()
        ref = Ref(vals, MORE)
        k = 0
        for s in broken(rnd, 8000 if ctx.tier == 'thorough' else 1200):
            try:
                ref.value(s)
                continue
            except Div0:
                continue
            except Bad:
                pass
            t = s.split(' ')
            if any(x == 'f' and y not in '(),+*/^' for x, y in zip(t, t[1:])):
                continue        # an argument without parentheses
            k += 1
            kind, v = run(s, wide)
            if kind != 'err':
                ctx.violation('one token wrong', 'the malformed expression "%s" (p takes no, f one, g two, h three, v five arguments) %s' % (s, 'panics' if kind == 'panic' else 'is given a value'), w)
                break
        ctx.ok('one token wrong (%d expressions)' % k)
    dz = None
    with ctx.sub('division by zero'):
        dz = ctx.db.vi('geqslib::errors::ShuntingYardError', 'DivisionByZero')
        for s in ZERO:
            kind, v = run(s, cx)
            if kind != 'err':
                ctx.violation('division by zero', '"%s" %s instead of being refused' % (s, 'panics' if kind == 'panic' else 'is given a value'), w)
                break
            if not (isinstance(v, Agg) and v.vi == dz):
                ctx.violation('division by zero', '"%s" is refused with the wrong error' % s, w)
                break
        ctx.ok('division by zero (%d expressions)' % len(ZERO))
    with ctx.sub('division by zero, doubles'):
        vals = {'a': 0.0, 'b': -0.0, 'c': 1e308, 'd': 5e-324, 'x': math.inf, 'y': -math.inf, 'z': math.nan, 'e': -2.5}
        rx = context(ctx.db, vals)
        zs = ['%s/%s' % (p, q) for p in list(vals) + ['0', '3'] for q in ('a', 'b', '0', '(d*d)', '-a', '(c-c)', '(2-2)')] + ['a/b*c', 'c+x/a', '-z/b', '1/a/b']
        for s in zs:
            kind, v = run(s, rx, mode='R')
            good = kind == 'err' and (not isinstance(v, Agg) or v.vi == dz)
            if not good:
                at = ', '.join('%s = %r' % (q, vals[q]) for q in sorted(vals) if q in s)
                ctx.violation('division by zero', '"%s"%s %s' % (s, at and ' with ' + at, 'panics' if kind == 'panic' else 'is refused with the wrong error' if kind == 'err' else 'is given the value %r' % (v,)), w)
                break
        ctx.ok('division by zero, doubles (%d expressions)' % len(zs))
    with ctx.sub('operators never panic'):
        n = 0
        for kind, val, st in run.sm.outs:
            n += 1
            if kind != 'ret':
                ctx.undecided('path that unwinds', show(val)[:200])
        ctx.ok('no path of the evaluator unwinds (%d paths)' % n)
