from nx import *

EXPLAIN = ('Value-numbering summaries of the preprocessing functions and of compile (regular expressions, string operations and maps as terms, match loops as recurrences), instantiated modularly on families of '
           'texts; output text and collected declarations are compared with the reading of the text line by line.')


def lines(s):
    """content of a text up to blank lines and surrounding blanks"""
    return [x.strip() for x in s.split('\n') if x.strip()]


EQN = ['x + y = 9', 'a*b = c^2', 'z = 3 - if(x, 4, y, 1, 2)']
NUMS = [('3', 3.0), ('12.5', 12.5), ('-4', -4.0), ('- 7.25', -7.25), ('0', 0.0), ('10.', 10.0), ('2.5e-3', 0.0025), ('1E4', 1e4)]
VARS = ['x', 'Yb', 'q_1', 'keeper', 'z9', 'guess2', 'constant', 'on1', 'for_x']


def texts(decls, k):
    """texts that hold the declarations between, before and after equations"""
    yield '\n'.join(decls)
    yield '\n'.join(EQN[:1] + decls + EQN[1:])
    yield '\n'.join(decls + [''] + EQN)
    yield '\n'.join(x for i, d in enumerate(decls) for x in (EQN[(i + k) % 3], '  ' + d))


def check(ctx):
    n = Nx(ctx)
    ctx.rule('comments, named constants and unit conversions are replaced where they stand, declarations are removed and collected, and nothing else of the text changes')
    where = {p: ctx.public(NP + p)['span'] for p in ('comments', 'consts', 'conversions', 'const_values', 'domains', 'guess_values', 'compile')}

    fac = {}

    def conv(a, b):
        if 'zz' in (a, b):
            return Er(Sym('unit'))
        # factors of every magnitude
        return Ok(fac.setdefault((a, b), (0.5 + 0.37 * len(fac), (1 + len(fac)) / 3, (2 + len(fac)) / 7e9, 1e13 * (1 + len(fac)) / 7)[len(fac) % 4]))
    nc = Nx(ctx, override={NU + 'convert': conv})

    def run(fn, *a):
        kind, v, post = n.run(NP + fn, a)
        if kind != 'ret':
            raise Panics(fn)
        return v

    def group(key, fn, cases, judge):
        with ctx.sub(key):
            k = 0
            cases = list(cases)
            for c in cases:
                try:
                    why = judge(*c)
                except Panics:
                    why = 'panics'
                k += 1
                if why:
                    ctx.violation(key, '%s(%r): %s' % (fn, c[0], why), where[fn])
                    return
            ctx.ok('%s (%d texts)' % (key, k))
            if not stateful(n, nc) or not all(isinstance(c[0], str) for c in cases):
                return
            who = nc if key in ('unit conversions', 'unknown units', 'many unit conversions') else n
            for c in cases[::max(1, len(cases) // 8)]:
                for d in decoys(c[0]):
                    who.memo.clear()
                    try:
                        who.run(NP + fn, (d,) + tuple(c[1:]) if fn == 'compile' else (d,))
                    except (Panics, Unk, OOB, TypeError):
                        pass
                    who.memo.clear()
                    try:
                        why = judge(*c)
                    except Panics:
                        why = 'panics'
                    if why:
                        ctx.violation(key, '%s(%r), after %r: %s' % (fn, c[0], d, why), where[fn])
                        return
            ctx.ok('%s, one text after another' % key)

    # ---- comments
    def com():
        for a in ('', 'x = 1 ', 'x + y = 9', 'a = b/c '):
            for b in ('//', '// note', '//x = 2', '// keep x on [0, 1] // again', '/// a // b', '// 1/2'):
                for c in ('', '\ny = 2', '\n', '\n\nz = x/y // end\nq = 1'):
                    yield (a + b + c,)

    def jcom(t):
        want = '\n'.join(l.split('//')[0] for l in t.split('\n'))
        got = run('comments', t)
        if got.count('\n') != want.count('\n') or [l.strip() for l in got.split('\n')] != [l.strip() for l in want.split('\n')]:
            return 'gives %r instead of %r' % (got, want)
    group('comments', 'comments', com(), jcom)
    group('no comments', 'comments', [(t,) for t in ('', 'x = 1', 'a = b/c\nd = e / f', 'x = 1\n\ny = 2\n')], jcom)

    # ---- named constants
    table = n.call(NU + 'const_data')
    if not isinstance(table, dict) or not all(isinstance(v, float) for v in table.values()):
        raise Undecided('constants')
    names_ = sorted(table)

    def num(s):
        v = rust_f64(s.strip())
        return v

    def splice(t, tok, val):
        """reference: tokens replaced where they stand -> list of literal parts and values"""
        out, i = [], 0
        for m in re.finditer(tok, t):
            out += [t[i:m.start()], val(m.group(0))]
            i = m.end()
        return out + [t[i:]]

    def same(got, parts):
        """got is the concatenation of the parts, each value written as some decimal"""
        if not isinstance(got, str):
            raise Unk('text %r' % (got,))
        i = 0
        for j, p in enumerate(parts):
            if isinstance(p, str):
                if not got.startswith(p, i):
                    return False
                i += len(p)
            else:
                # written out: e would be a name in an equation
                m = re.compile(r'\(?-?[0-9.]+(e-?[0-9]+)?\)?').match(got, i)
                if not m or m.group(1) or not close(num(m.group(0).strip('()')) if num(m.group(0).strip('()')) is not None else math.nan, p, 1e-9):
                    return False
                i = m.end()
        return i == len(got)

    CT = r'#[A-Za-z_][A-Za-z0-9_]*'
    pairs = [(a, b) for a in names_ for b in names_ if a != b and b.startswith(a)]

    def cons():
        for a in names_:
            yield ('x = %s' % a,)
            yield ('%s*2 + y = %s' % (a, a),)
        for a, b in pairs:
            yield ('x = %s + %s' % (a, b),)
            yield ('x = %s/%s\ny = %s - z' % (b, a, b),)
        for i in range(len(names_)):
            a, b, c = names_[i], names_[i - 7], names_[i - 3]
            yield ('f = %s*(%s-m)/%s\nconst k = %s\nkeep q on [0, %s]' % (a, b, c, a, b),)
        yield ('x = 1\ny = x',)
        yield ('',)

    def jcon(t):
        good, got = result(run('consts', t))
        if not good:
            return 'is refused'
        if not same(got, splice(t, CT, lambda s: table[s])):
            return 'gives %r' % got
    group('named constants', 'consts', cons(), jcon)
    many = lambda f: [('\n'.join(f(i) for i in range(m)),) for m in ctx.lengths(15, 70, hi=300)]
    group('many named constants', 'consts', many(lambda i: 'x%d = 2*%s' % (i, names_[i % len(names_)])), jcon)
    group('many comments', 'comments', many(lambda i: 'x%d = 2 // = %d' % (i, i)), jcom)
    bad = ['#nope', '#pie', '#g_', '#GC', '#_', '#T', '#pi_2']
    group('unknown constants', 'consts', [('x = %s%s' % (p, b),) for b in bad if b not in table for p in ('', '2*', '#pi + ', '#g - 1 = #')], lambda t: 'is accepted' if result(run('consts', t))[0] else None)

    # ---- unit conversions (factors abstract)

    def cv(t):
        kind, v, post = nc.run(NP + 'conversions', (t,))
        if kind != 'ret':
            raise Panics()
        return result(v)
    U = ['in', 'ft', 'm/s', 'ft^2', 'N-m', 'kg_f', 'Btu', 'lbf-ft', 'm^3/hr']
    ctexts = []
    for i, a in enumerate(U):
        for b in (U[i - 1], U[i - 4]):
            ctexts += ['x = 2*[%s->%s]' % (a, b), '[%s->%s]*y = [%s->%s] + z' % (a, b, b, a), 'x = [%s->%s]\ny = 3*[%s->%s]/[%s->%s]\nkeep x on [0, 3]' % (a, b, a, b, a, U[i - 2]),
                       'const k = [%s->%s]\n\nq = [%s->%s]*[%s->%s]' % (a, b, a, b, a, b)]
    ctexts += ['x = [%s->%s]' % p for p in (('i', 'nft'), ('inf', 't'), ('IN', 'ft'), ('in', 'FT'), ('ft', 'in'), ('mN', 'MN'), ('MN', 'mN'), ('in', 'in'))]
    ctexts += ['', 'keep x on [0, 100]', 'a - b > c', 'x = a->b', 'x[1] = 3']

    def jconv(t):
        good, got = cv(t)
        if not good:
            return 'is refused'
        if not same(got, splice(t, r'\[[^\[\]\n ]+->[^\[\]\n ]+\]', lambda s: conv(*s[1:-1].split('->')).f[0])):
            return 'gives %r' % got
    group('unit conversions', 'conversions', [(t,) for t in ctexts], jconv)
    cv(ctexts[0])
    group('many unit conversions', 'conversions', many(lambda i: 'x%d = 2*[%s->%s]' % (i, U[i % 9], U[i // 9 % 9])), jconv)
    group('unknown units', 'conversions', [(p + t + q,) for t in ('[in->zz]', '[zz->ft]', '[zz->zz]') for p in ('x = ', 'x = [in->ft]*') for q in ('', '\ny = [m->ft]')], lambda t: 'is accepted' if cv(t)[0] else None)

    # ---- declarations
    n.summary(NP + 'guess_values'), n.summary(NP + 'domains'), n.summary(NP + 'const_values'), n.summary(NP + 'compile')
    # numbers of every magnitude, as text
    FAR = []
    for x in ctx.probes():
        for s in (repr(x), '%.17f' % x if 1e-9 < abs(x) < 1e12 else repr(x)):
            s = re.sub(r'e([+-])0+', r'e\1', s)
            if re.fullmatch(r'-?[0-9]+\.?[0-9]*(?:e[+-]?[0-9]+)?', s) and (s, float(s)) not in FAR:
                FAR.append((s, float(s)))
    LONG = ['v' * k for k in [20, 70] + [x for x in ctx.ints(lo=8, hi=400)]]

    def decl(key, fn, mk, kws):
        def cases():
            k = 0
            for i in range(max(len(FAR), len(LONG))):
                v, a, b = (LONG + VARS)[i % len(LONG + VARS)], FAR[i % len(FAR)], FAR[(i * 7 + 3) % len(FAR)]
                d, val = mk(v, a, b, i, kws[0])
                yield EQN[0] + '\n' + d, [d], {v: val}
            for i, v in enumerate(VARS):
                for j in range(len(NUMS)):
                    k += 1
                    sets = [(v, NUMS[j], NUMS[(j + 2) % 8])]
                    if k % 2:
                        sets.append((VARS[i - 3], NUMS[j - 1], NUMS[j]))
                    if k % 3 == 0:
                        sets.append((VARS[i - 5], NUMS[j - 2], NUMS[j - 3]))
                    ds, want = [], {}
                    for q, (a, b, c) in enumerate(sets):
                        d, val = mk(a, b, c, k + q, kws[(k + q) % len(kws)])
                        ds.append(d)
                        want[a] = val
                    for t in texts(ds, k):
                        yield t, ds, want
            for m in ctx.lengths(15, 70, hi=300):
                ds, want = [], {}
                for i in range(m):
                    a, b, c = 'v%dq' % i, NUMS[i % 8], NUMS[(i * 3 + 1) % 8]
                    d, val = mk(a, b, c, i, kws[i % len(kws)])
                    ds.append(d)
                    want[a] = val
                yield '\n'.join(ds), ds, want
                yield '\n'.join(EQN[:1] * m + ds[:1] + EQN[1:]), ds[:1], {'v0q': want['v0q']}
            for t in ('', 'x + y = 9\nq = 3', 'guessx = 3 for 2', 'keepx on 3'):
                yield t, [], {}

        def judge(t, ds, want):
            v = run(fn, t)
            if fn == 'const_values':
                good, v = result(v)
                if not good:
                    return 'is refused'
            text, got = pair(v)
            if not isinstance(got, dict) or not isinstance(text, str):
                raise Unk('%s: %r' % (fn, v))
            left = t
            for d in ds:
                left = left.replace(d, '')
            if lines(text) != lines(left):
                return 'leaves the text %r' % text
            if got != want:
                return 'collects %r instead of %r' % (got, want)
        group(key, fn, cases(), judge)

    sp = [' ', '  ', '   ']
    decl('guess declarations', 'guess_values', lambda v, a, b, k, kw: ('%s%s%s%sfor%s%s' % (kw, sp[k % 3], a[0], sp[k // 2 % 3], sp[k // 3 % 2], v), a[1]), ['guess', 'guess', 'Guess', 'GUESS'])
    decl('domain declarations', 'domains', lambda v, a, b, k, kw: ('%s%s%s%son%s[%s%s,%s%s%s]' % (kw, sp[k % 3], v, sp[k // 2 % 2], sp[k // 3 % 2], ['', ' '][k % 2], a[0], ['', ' ', '  '][k % 3], b[0], ['', ' '][k // 2 % 2]), [a[1], b[1]]), ['keep', 'keep', 'Keep', 'KEEP'])
    decl('constant declarations', 'const_values', lambda v, a, b, k, kw: ('%s%s%s%s=%s%s' % (kw, sp[k % 3], v, ['', ' ', '  '][k % 3], ['', ' '][k // 2 % 2], a[0]), a[1]), ['const', 'const', 'Const', 'CONST'])

    group('constants that are not just a number', 'const_values', [(p + 'const %s = %s' % (v, x) + q,) for v in ('a', 'k_2') for x in ('3*b', '2^3', '3e', '4 + 1', '1 2') for p in ('', 'x = 1\n') for q in ('', '\nx = a')],
          lambda t: 'is accepted' if result(run('const_values', t))[0] else None)

    # ---- compile
    TK = ctx.db.vi(TOK, 'Num')
    inf = math.inf
    cases = [
        ('x + y = 9', {}, 'x + y = 9', {}, {}),
        ('const nine = 9\nkeep x on [0, 100]\nguess 3 for y\nx + y = nine\nx - y = 4', {}, 'x + y = nine\nx - y = 4', {'nine': 9.0}, {'x': [1.0, 0.0, 100.0], 'y': [3.0, -inf, inf]}),
        ('guess 3 for y\nkeep y on [-5, 8]\ny^2 = 4', {}, 'y^2 = 4', {}, {'y': [3.0, -5.0, 8.0]}),
        ('keep y on [-5, 8]\nguess 3 for y\ny^2 = 4', {}, 'y^2 = 4', {}, {'y': [3.0, -5.0, 8.0]}),
        ('keep y on [-5, 8]\ny^2 = 4', {'y': [2.5, -1.0, 1.0]}, 'y^2 = 4', {}, {'y': [2.5, -5.0, 8.0]}),
        ('guess 4 for y\ny^2 = 4', {'y': [2.5, -1.0, 1.0]}, 'y^2 = 4', {}, {'y': [4.0, -1.0, 1.0]}),
        ('y^2 = 4', {'y': [2.5, -1.0, 1.0], 'q': [0.0, 0.0, 1.0]}, 'y^2 = 4', {}, {'y': [2.5, -1.0, 1.0], 'q': [0.0, 0.0, 1.0]}),
        ('const p = #pi\nx = p // #nonsense', {}, 'x = p', {'p': table['#pi']}, {}),
        ('const k = [ft->in]\nx = k', {}, 'x = k', {'k': 12.0}, {}),
        ('keep x on [0, #pi]\nguess [ft->in] for x\nx^2 = 2', {}, 'x^2 = 2', {}, {'x': [12.0, 0.0, table['#pi']]}),
        ('// const a = 1\n// guess 3 for x\n// keep x on [0, 1]\nx = 2 // x = [nope->no]', {}, 'x = 2', {}, {}),
        ('const a = 1\nconst b = -2\nconst c = - 3.5\nx = a + b + c', {}, 'x = a + b + c', {'a': 1.0, 'b': -2.0, 'c': -3.5}, {}),
        ('guess 1 for a\nguess 2 for b\nkeep c on [1, 2]\nkeep b on [0, 5]\na + b = c', {}, 'a + b = c', {}, {'a': [1.0, -inf, inf], 'b': [2.0, 0.0, 5.0], 'c': [1.0, 1.0, 2.0]}),
    ]

    for i, (a, x) in enumerate(FAR):
        (b, y), (c, z) = sorted((FAR[(i + 1) % len(FAR)], FAR[(3 * i + 2) % len(FAR)]), key=lambda q: q[1])
        cases.append(('const k = %s\nkeep x on [%s, %s]\nguess %s for y\nx = k*y' % (a, b, c, a), {}, 'x = k*y', {'k': x}, {'x': [1.0, y, z], 'y': [x, -inf, inf]}))
        cases.append(('guess %s for x\nkeep x on [%s, %s]\nx = y' % (a, b, c), {'y': [x, y, z]}, 'x = y', {}, {'x': [x, y, z], 'y': [x, y, z]}))

    def jcomp(code, declared, text, consts, want):
        kind, v, post = n.run(NP + 'compile', (code, {'old': Agg(TOK, TK, [7.0])}, dict(declared)), muts=(1, 2))
        if kind != 'ret':
            return 'panics'
        good, got = result(v)
        if not good:
            return 'is refused'
        if not isinstance(got, str) or not isinstance(post[1], dict) or not isinstance(post[2], dict):
            raise Unk('compile')
        if lines(got) != lines(text):
            return 'gives the equations %r instead of %r' % (lines(got), lines(text))
        cs = {}
        for k, t in post[1].items():
            if isinstance(t, Agg) and t.p == TOK and t.vi == TK:
                cs[k] = t.f[0]
        if set(cs) != set(consts) | {'old'} or not all(close(cs[k], x) for k, x in consts.items()):
            return 'leaves the constants %r instead of %r' % ({k: x for k, x in cs.items() if k != 'old'}, consts)
        dd = post[2]
        if set(dd) != set(want) or not all(close(float(x), y) for k in want for x, y in zip(dd[k], want[k])) and not all(close(float(x), min(max(y, want[k][1]), want[k][2])) for k in want for x, y in zip(dd[k], want[k])):
            return 'declares %r instead of %r' % (dd, want)
    group('compile', 'compile', cases, jcomp)

    def jrefuse(code):
        kind, v, post = n.run(NP + 'compile', (code, {}, {}), muts=(1, 2))
        if kind == 'ret' and result(v)[0]:
            return 'is accepted'
    group('compile: failures are reported', 'compile', [('x = #nope',), ('x = [in->nope]',), ('const a = #nope\nx = 1',), ('x = [kg->ft]',)], jrefuse)
