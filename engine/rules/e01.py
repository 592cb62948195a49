import math
import random
from expr import *

EXPLAIN = ('Value-numbering summary of eval_str_with_context with tokenisation, postfix conversion and postfix evaluation inlined (paths, loop '
           'recurrences); instantiated on token sequences over free operand values and uninterpreted functions, the value term must be identical to that of the '
           'reference reading of the expression.')


def check(ctx):
    ctx.rule('every well formed expression denotes its conventional value: ^ (right associative) over * and / over + and - (left associative), unary minus below ^, parentheses and calls first')
    run = Evaluator(ctx)
    body = run.body
    vals = names()
    cx = context(ctx.db, vals)
    ref = Ref(vals, FUNCS)
    rnd = random.Random(5)
    thorough = ctx.tier == 'thorough'
    groups = [('single operand', ['a', 'x', '7', '2.5', '-a', '-x', '(a)', '-(a)', '((x))', '--a', '-(-a)', '(-a)']),
              ('one operator', flat(1)), ('two operators', flat(2, rnd, None if thorough else 200)), ('three operators', flat(3, rnd, 2000 if thorough else 250)),
              ('parentheses, two operators', paren(2, rnd, None if thorough else 150)), ('parentheses, three operators', paren(3, rnd, 2500 if thorough else 200)),
              ('function calls', templ(rnd, None if thorough else 450))]
    bad = 0
    for gname, xs in groups:
        with ctx.sub(gname):
            for s in xs:
                for text in ((s, spaced(s, rnd)) if thorough or len(s) < 6 else (s if rnd.randrange(3) else spaced(s, rnd),)):
                    try:
                        want = ref.value(text)
                    except Div0:
                        continue
                    kind, got = run(text, cx)
                    if kind != 'ok' or got != want:
                        bad += 1
                        what = 'panics' if kind == 'panic' else 'is refused with %r' % (got,) if kind == 'err' else 'does not denote its conventional value'
                        ctx.violation(gname, 'the well formed expression "%s" %s' % (text, what), body['span'])
                        break
            else:
                ctx.ok('%s (%d expressions)' % (gname, len(xs)))
        if bad > 3:
            break
    if not bad:
        with ctx.sub('functions of no and many arguments'):
            arities(ctx, run, body, rnd, 1500 if thorough else 250)
        with ctx.sub('one context after another'):
            successive(ctx, run, rnd, 'ok', 'one context after another', body['span'])
        with ctx.sub('operand names'):
            operand_names(ctx, run, body, rnd)
        for k in sorted({12, 40, 130, 280} | set(ctx.ints(lo=5, hi=400))):
            with ctx.sub('length %d' % k):
                longer(ctx, run, body, k, rnd)
        with ctx.sub('extreme operands'):
            extreme(ctx, run, body)


# identifiers of every shape, those that a number parser accepts among them
IDENT = ['inf', 'nan', 'NaN', 'INF', 'Infinity', 'infinity', 'e1', 'E', 'E10', 'x_', 'x__1', 'f64', 'sin', 'if', 'sum_of_all_forces_acting_on_the_body', 'A', 'a', 'aa', 'ab', 'Func', 'var', 'X9', 'info', 'nano']


def arities(ctx, run, body, rnd, k):
    """functions without arguments and with several as operands of everything"""
    vals = names()
    cx, ref = context(ctx.db, vals, funcs=MORE), Ref(vals, MORE)

    def operand(d):
        r = rnd.random()
        if r < 0.3:
            return rnd.choice(('p()', 'pq()'))
        if r < 0.5 or not d:
            return rnd.choice('abx') if r < 0.45 else rnd.choice(('2', '0.5'))
        if r < 0.7:
            return '(%s)' % whole(d - 1)
        f = rnd.choice('fghv')
        return '%s(%s)' % (f, ','.join(whole(d - 1) for _ in range(MORE[f])))

    def whole(d):
        s = rnd.choice(('', '', '-')) + operand(d)
        for _ in range(rnd.choice((0, 1, 1, 2))):
            s += rnd.choice('+-*/^') + rnd.choice(('', '', '', '-')) + operand(d)
        return s
    xs = ['p()', '-p()', 'p()-a', 'p()-p()', 'a-p()', 'p()+a', 'p()*a', 'p()^a', 'p()/p()', '(p())-a', '(p())', '-(p())', 'f(p())', 'f(p())-a', 'g(p(),pq())', 'g(p()-a,-pq())', 'p()^p()-p()', 'a-p()-b', 'v(a,b,c,x,y)', 'v(a,-b,c-x,f(x),p())-a',
          'v(g(a,b),h(a,b,c),p(),v(a,b,c,d,e),x)', 'p()--a', 'p( )', 'p ( ) - a', 'pq()-p()']
    xs += [whole(2) for _ in range(k)]
    n = 0
    for s in xs:
        for text in (s, spaced(s, rnd)):
            try:
                want = ref.value(text)
            except Div0:
                continue
            n += 1
            kind, got = run(text, cx)
            if kind != 'ok' or got != want:
                what = 'panics' if kind == 'panic' else 'is refused with %r' % (got,) if kind == 'err' else 'does not denote its conventional value'
                ctx.violation('functions of no and many arguments', 'the well formed expression "%s" %s' % (text, what), body['span'])
                return
    ctx.ok('functions of no and many arguments (%d expressions)' % n)


def operand_names(ctx, run, body, rnd):
    n = 0
    for variables in (IDENT, ()):
        vals = {x: F(rnd.randrange(1, P)) for x in IDENT}
        cx = context(ctx.db, vals, variables=variables)
        ref = Ref(vals, FUNCS)
        for i, x in enumerate(IDENT):
            y, z = IDENT[i - 1], IDENT[i - 5]
            for s in (x, '-' + x, '%s-%s' % (x, y), '%s - %s/%s' % (z, x, y), 'f(%s)' % x, '2*(%s+%s)*%s' % (y, x, z), 'g(%s,%s)' % (x, y), '%s*%s' % (x, x)):
                n += 1
                kind, got = run(s, cx)
                if kind != 'ok' or got != ref.value(s):
                    what = 'panics' if kind == 'panic' else 'is refused with %r' % (got,) if kind == 'err' else 'does not denote its conventional value'
                    ctx.violation('operand names', 'the well formed expression "%s" over known names %s' % (s, what), body['span'])
                    return
    ctx.ok('operand names (%d expressions)' % n)


def longer(ctx, run, body, k, rnd):
    """expressions, names, numbers, calls and nestings of length k"""
    vals = dict(names(), **{'n' * k: F(rnd.randrange(1, P)), 'm' + '_' * (k - 1): F(rnd.randrange(1, P))})
    fs = dict(FUNCS, **{'w': k, 'q' * k: 1})
    ref = Ref(vals, fs)
    ab = [rnd.choice('abcdexyz') for _ in range(k)]
    ops = [rnd.choice('+-*') for _ in range(k - 1)]
    cases = [('%d operands' % k, ''.join(q for x in zip(ab, ops + ['']) for q in x)), ('%d operands' % k, ' - '.join(ab)), ('%d operands' % k, '*'.join(ab)), ('%d operands' % k, '-'.join(q + '^2' for q in ab)),
             ('%d operands' % k, '^'.join(ab)), ('%d parentheses' % k, '(' * k + 'a' + ')' * k + '-b'), ('%d nested differences' % k, '-('.join(ab) + ')' * (k - 1)),
             ('%d nested products' % k, '*(b-'.join(ab) + ')' * (k - 1)), ('%d nested calls' % k, 'f(' * k + 'a' + ')' * k), ('%d nested calls' % k, 'g(a,-' * k + 'b' + ')' * k + '-c'),
             ('%d spaces' % k, 'a -' + ' ' * k + 'b'), ('%d spaces' % k, ' ' * k + 'a*(b' + ' ' * k + '-c)'), ('a name of %d letters' % k, 'a-%s*b' % ('n' * k)), ('a name of %d letters' % k, '-%s^2' % ('m' + '_' * (k - 1))),
             ('a function with a name of %d letters' % k, 'a-%s(b)' % ('q' * k)), ('%d digits' % k, 'a*%s7-b' % ('0' * (k - 1))), ('%d decimals' % k, 'a*2.5%s-b' % ('0' * (k - 1))),
             ('a function of %d arguments' % k, 'a-w(%s)' % ','.join(ab)), ('a function of %d arguments' % k, 'w(%s)' % ', '.join('-%s*b' % q for q in ab)), ('%d unary minuses' % k, '-' * k + 'a'), ('%d negated operands' % k, '*-'.join(ab))]
    for what, s in cases:
        kind, got = run(s, context(ctx.db, vals, funcs=fs))
        if kind != 'ok' or got != ref.value(s):
            ctx.violation('length', 'a well formed expression with %s %s' % (what, 'panics' if kind == 'panic' else 'is refused with %r' % (got,) if kind == 'err' else 'does not denote its conventional value'), body['span'])
            return
    ctx.ok('expressions of length %d (%d)' % (k, len(cases)))


EXTREME = {'a': 0.0, 'b': -0.0, 'c': 1e308, 'd': 5e-324, 'e': 1e-200, 'x': math.inf, 'y': -3.0, 'z': -1e250}
LITERALS = ['0.1', '.5', '5.', '007', '12345678901234567890', '1' + '0' * 320, '0.' + '0' * 330 + '1', '1.7976931348623157']


def extreme(ctx, run, body):
    """doubles at the edges of their range: the value up to rounding, never a refusal"""
    n = 0
    ops = sorted(EXTREME) + ['0', '2', '0.5']
    xs = ['%s%s%s' % (p, o, q) for o in '+-*/^' for p in ops for q in ops] + ['-%s' % p for p in ops] + LITERALS + ['-' + s for s in LITERALS]
    xs += ['%s/-%s' % (p, q) for p in ops for q in ops] + ['%s/(%s*%s)' % (p, q, r) for p in 'aey' for q in 'de' for r in 'ey']
    work = [(EXTREME, xs)]
    fl = ctx.floats()
    for j in range(0, len(fl), 5):
        # operands around the literals of the code
        vals = dict(zip('abcde', fl[j:j + 5]), x=3.0, y=1.0, z=-0.75)
        ops = sorted(vals)
        work.append((vals, ops + ['-' + p for p in ops] + ['%s%s%s' % (p, o, q) for o in '+-*/^' for p in ops for q in ops if p not in 'xyz' or q not in 'xyz']))
    for vals, xs in work:
        cx = context(ctx.db, vals)
        ref = RefR(vals, {})
        for s in xs:
            try:
                want = ref.value(s)
            except Div0:
                continue
            n += 1
            kind, got = run(s, cx, mode='R')
            if kind != 'ok' or not close(got, want):
                at = ', '.join('%s = %r' % (v, vals[v]) for v in sorted(vals) if v in s)
                what = 'panics' if kind == 'panic' else 'is refused' if kind == 'err' else 'is %r instead of %r' % (got, want)
                ctx.violation('extreme operands', 'the well formed expression "%s"%s %s' % (s, at and ' with ' + at, what), body['span'])
                return
    ctx.ok('extreme operands (%d expressions)' % n)
