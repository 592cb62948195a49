import random
from nx import *

EXPLAIN = ('Value-numbering summaries of conditionals and format_conditional (line splitting, replacement and match loops as recurrences), instantiated on if blocks; the equation produced must hold exactly when the '
           'equation of the selected branch holds, for every order of the two sides of the condition.')
COND = CD + 'conditionals'
CMPS = [('==', 1), ('<=', 2), ('>=', 3), ('<', 4), ('>', 5), ('!=', 6)]
NAMES = ['a', 'b', 'bend', 'else_1', 'xif', 'endpoint', 'pulse', 'q2']


class Block(object):
    """if l op r: t else: e end; branches are equations, expressions (= 0) or blocks"""

    def __init__(self, l, op, r, t, e, ind=0, pad=0):
        self.l, self.op, self.r, self.t, self.e, self.ind, self.pad = l, op, r, t, e, ind, pad

    def text(self, ind=None):
        i = ' ' * (self.ind if ind is None else ind)
        def br(b): return b.text(len(i) + 4) if isinstance(b, Block) else i + ' ' * (4 - self.pad % 3) + b
        sp = ['', ' '][self.pad % 2]
        return '%sif %s%s%s%s%s:\n%s\n%selse:\n%s\n%send' % (i, self.l, sp, self.op, sp, self.r, br(self.t), i, br(self.e), i)

    def value(self, env):
        """residual of the selected branch"""
        l, r = RefQ(env).value(self.l), RefQ(env).value(self.r)
        return resid(self.t if RefQ.CMP[dict(CMPS)[self.op]](l, r) else self.e, env)


def resid(b, env):
    if isinstance(b, Block):
        return b.value(env)
    if '=' in b:
        l, r = b.split('=')
        return RefQ(env).value(l) - RefQ(env).value(r)
    return RefQ(env).value(b)


def check(ctx):
    ctx.rule('an if block stands for one equation, which is that of its first branch where the condition holds and that of its second branch elsewhere; the rest of the text is untouched')
    n = Nx(ctx)
    w = ctx.public(COND)['span']
    ctx.public(NP + 'compile')
    rnd = random.Random(11)
    thorough = ctx.tier == 'thorough'

    def conv(t):
        kind, v, post = n.run(COND, (t,))
        if kind != 'ret':
            raise Panics()
        return result(v)

    def envs(b):
        """assignments that put the condition's sides in every order"""
        out = []
        for k in range(40):
            e = {v: Fraction(rnd.randrange(-6, 7), rnd.choice((1, 1, 2))) for v in NAMES}
            out.append(e)
            if k % 3 == 0:
                e = dict(e)
                e['b'] = e['a']
                out.append(e)
        return out

    def verify(items, sep='\n'):
        """items: plain lines and blocks"""
        t = sep.join(x.text() if isinstance(x, Block) else x for x in items)
        good, got = conv(t)
        if not good:
            return t, 'is refused'
        if not isinstance(got, str):
            raise Unk('text')
        rows = [x for x in got.split('\n') if x.strip()]
        want = [x for x in items if isinstance(x, Block) or x.strip()]
        if len(rows) != len(want):
            return t, 'gives %r' % got
        for r, x in zip(rows, want):
            if not isinstance(x, Block):
                if r.strip() != x.strip():
                    return t, 'changes the line %r to %r' % (x, r)
                continue
            for e in envs(x):
                try:
                    ref = x.value(e)
                except (Div0, ZeroDivisionError):
                    continue
                try:
                    v = resid(r, e)
                except (Bad, ValueError) as z:
                    return t, 'gives the malformed equation %r (%s)' % (r, z)
                except (Div0, ZeroDivisionError):
                    continue
                if v != ref and v != -ref:
                    return t, 'gives %r, which for %s is %s instead of %s' % (r, ', '.join('%s = %s' % i for i in sorted(e.items()) if i[0] in t), v, ref)
        return None

    def group(key, cases):
        with ctx.sub(key):
            k = 0
            for items in cases:
                k += 1
                try:
                    why = verify(items)
                except Panics:
                    why = (repr([x.text() if isinstance(x, Block) else x for x in items]), 'panics')
                if why:
                    ctx.violation(key, 'conditionals(%r) %s' % why, w)
                    return
            ctx.ok('%s (%d texts)' % (key, k))
            if stateful(n):
                seen.extend(cases[::max(1, len(cases) // 6)])

    def history():
        n.memo.clear()
        for items in seen[::2] + seen[1::2]:
            t = '\n'.join(x.text() if isinstance(x, Block) else x for x in items)
            for d in decoys(t):
                try:
                    n.memo.clear()
                    conv(d)
                except (Panics, Unk, OOB):
                    pass
                n.memo.clear()
                why = verify(items)
                if why:
                    ctx.violation('one text after another', 'after %r, conditionals(%r) %s' % ((d,) + why), w)
                    return
        ctx.ok('one text after another (%d texts)' % len(seen))
    seen = []

    SIDES = [('a', 'b'), ('a + 1', 'b'), ('2*a', 'b*2'), ('a', '3'), ('-a', '-2.5'), ('(a - b)', '0'), ('a^2', 'b^2')]
    EQS = ['a - b', 'a = 1', 'a = b', 'b - a = 0', 'a*b = 3 - a', 'a = -b', 'a = b - q2', 'a - q2 = b - 2*a', '0 = a - 3', 'a^2 = -b + 1', '(a + b)/2 = q2', '-a = -(b)', 'a = 0 - b', 'a = 10', 'a = 0.5']
    group('operators', [[Block(l, op, r, 'a = 1', 'b = 2', pad=i)] for op, _ in CMPS for i, (l, r) in enumerate(SIDES)])
    group('branches', [[Block('a', op, 'b', t, e, ind=2 * (i % 3), pad=i + j)] for i, t in enumerate(EQS) for j, e in enumerate(EQS) if thorough or i == j or (i + j) % 4 == 1 for op in (['<', '=='] if thorough else ['<='])])
    group('names', [[Block(x, '<', y, '%s - %s = 1' % (x, y), '%s = 2*%s' % (y, z))] for x in NAMES for y in NAMES if x != y for z in NAMES[::3]])
    group('surroundings', [[p, Block('a', op, 'b', 'a = 1', 'b = 1', ind=i), q] for op, _ in CMPS for i in (0, 3) for p in ('x + y = 3', '', '  q = a//b', 'bend = 3') for q in ('x = 2', '', 'endpoint = 3')])
    two = [Block('a', '<', 'b', 'a = 1', 'b = 1'), Block('a', '<', 'b', 'a = 1', 'b = 2'), Block('a', '>=', 'b', 'a = 1', 'b = 1', 4), Block('a', '<', 'b', 'a = 1', 'b = 1', 4), Block('q2', '!=', 'b', 'q2 - a', 'b')]
    group('several blocks', [[x, y] for x in two for y in two] + [['a + b = 2', x, 'pulse = 3', y, 'q2 = 4', z] for x in two[:3] for y in two[1:4] for z in two[3:]])
    inner = [Block('b', op, 'q2', 'a = 2', 'a - 3 = b') for op, _ in CMPS]
    nest = [[Block('a', '<', 'b', x, 'b = 1')] for x in inner] + [[Block('a', '>', 'b', 'b = 1', x)] for x in inner] + [[Block('a', '==', 'b', x, y)] for x in inner[::2] for y in inner[1::2]]
    deep = Block('a', '<=', '1', Block('b', '!=', '2', 'q2 = 1', inner[0]), Block('q2', '>', 'a', inner[3], 'a = b'))
    group('nested blocks', nest + [[deep], ['x = 1', deep, 'y = 2']])

    for k in ctx.lengths(4, 7, 25, hi=6000):
        m = min(k, 60)
        chain = 'b = 1'
        for i in range(min(k, 12)):
            chain = Block('a', CMPS[i % 6][0], str(i - 4), *((chain, 'b = %d' % i) if i % 3 else ('b = %d' % i, chain)))
        long = 'n' * min(k, 300)
        one = Block('a', '<', 'b', 'a = 1', 'b = 1')
        cases = [[Block('a', CMPS[i % 6][0], str(i % 5), 'b = %d' % i, 'b = a - %d' % i) for i in range(m)], ['x%d = %d' % (i, i) for i in range(m)] + [one] + ['y%d = 1' % i for i in range(m)],
                 ['x = ' + '-'.join(['1'] * (k // 2)), one], [one, 'y = ' + ' ' * k + '1'], [chain], [chain, 'x = 1', chain], [''] * m + [one],
                 [Block('a', '<', 'b', '-'.join(['a'] * m) + ' = b', 'b*' + '(' * m + 'a' + ')' * m)], [Block('-'.join(['a'] * m), '>=', '+'.join(['b'] * m), 'a = 1', 'b = 1')],
                 [Block('a', '!=', 'b', 'a = 1' + '0' * m, 'b = 0.' + '0' * m + '1')], [Block('a', '==', 'b', 'a = 1', 'b = 2', ind=m)]]
        if k <= 300:
            NAMES.append(long)
            cases += [[Block(long, '<', 'b', '%s - b = 1' % long, 'b = 2*%s' % long)]]
        group('length %d' % k, cases)
        if k <= 300:
            NAMES.pop()

    if seen:
        with ctx.sub('one text after another'):
            history()
    with ctx.sub('malformed'):
        k = 0
        for t in ['if a %s b:\n%s\nelse:\n%s\nend' % (op, x, y) for op, x, y in [('=', 'a = 1', 'b = 1'), ('=<', 'a = 1', 'b = 1'), ('=>', 'a = 1', 'b = 1')]] + \
                ['if a < b:\n%s\nelse:\n%s\nend' % p for x in ('= 1', 'a =', 'a = b = 1', ' = ', 'a = 1 =') for p in ((x, 'b = 1'), ('b = 1', x))]:
            for full in (t, 'x = 2\n' + t + '\ny = 1'):
                k += 1
                try:
                    good, got = conv(full)
                except Panics:
                    ctx.violation('malformed', 'conditionals(%r) panics' % full, w)
                    return
                if good:
                    ctx.violation('malformed', 'conditionals(%r) is accepted as %r' % (full, got), w)
                    return
        ctx.ok('malformed (%d texts)' % k)
