import re

from ffi import *
from evalt import Agg, Unk, Sym
from evalx import Summary, rust_show, rust_debug

EXPLAIN = ('Path summaries of every exported C function of geqslib and nexsys with the library operations kept opaque and allowed to unwind '
           'when they can panic: the operation called, the role of each argument, the value returned per kind of operation result and the '
           'absence of unwinding exits are read off each path.')
ASSUME = ['allocation failure aborts; printing to stdout succeeds']

OKR, ERRR, SOMEV, NONEV = ('Result', 0), ('Result', 1), ('Option', 1), ('Option', 0)
# symbol -> (operation, [argument roles], {class: expected}, failure value)
#   roles: s<i> text of parameter i, h<i> object behind handle i, n<i> number i unchanged
OPS = {
    'solve_equation': ('geqslib::solve_equation_with_context', ['s0', 'h1', 'n2', 'n3', 'n4', 'n5', 'n6'], 'pair', 'null'),
    'new_system_builder': ('geqslib::system::SystemBuilder::new', ['s0', 'h1'], 'handle0', 'null'),
    'try_constrain_with': ('geqslib::system::SystemBuilder::try_constrain_with', ['h0', 's1'], 'constrain', -1),
    'is_fully_constrained': ('geqslib::system::SystemBuilder::is_fully_constrained', ['h0'], 'bool', -1),
    'build_system': ('geqslib::system::SystemBuilder::build_system', ['h0'], 'handle1', 'null'),
    'specify_variable': ('geqslib::system::System::specify_variable', ['h0', 's1', 'n2', 'n3', 'n4'], 'flag', -1),
    'solve_system': ('geqslib::system::System::solve', ['h0', 'n1', 'n2'], 'solution', 'null'),
    'new_default_context_hash_map': ('geqslib::context::new_context', [], 'same', None),
    'basic_solve': ('nexsys::basic_solve', ['s0', 'h1', 'h2', 'n3', 'n4'], 'log', 'null'),
    'solve_with_preprocessors': ('nexsys::solve_with_preprocessors', ['s0', 'n1', 'n2'], 'log', 'null'),
}
# handles whose object the operation changes
CHANGES = {'try_constrain_with': [0], 'specify_variable': [0], 'basic_solve': [1, 2]}
TEXT = ('CStr::from_ptr', '::to_string_lossy', 'CStr>::to_str', 'CStr::to_bytes', 'CStr::to_str', 'CStr::to_string_lossy', 'CStr::to_owned', 'CStr::count_bytes', 'CString::as_bytes', 'from_utf8_lossy',
        'from_utf8', 'into_owned', 'to_owned', 'to_string')


def check(ctx):
    ctx.rule('each path calls exactly the documented operation, with each C argument in its role and numbers unchanged')
    ctx.rule('the returned handle, status or text is the one documented for the operation result on that path; a failure or a panic inside gives the documented failure value')
    ctx.rule('no function in the table has an exit that unwinds into C')
    ex = exports(ctx.db)
    ctx.told = set()
    for sym in sorted(OPS):
        with ctx.sub(sym):
            if sym not in ex:
                ctx.violation('missing ' + sym, 'exported C function %s is gone' % sym)
                continue
            if OPS[sym][2] in ('pair', 'solution', 'log'):
                with ctx.sub(sym + ': text evaluated'):
                    if evaluated(ctx, sym, ex[sym]):
                        ctx.told.add(sym)
            one(ctx, sym, ex[sym])
    for sym, (mapi, namei, val) in {'add_const_to_ctx': (0, 1, 'num'), 'add_declared_variable': (0, 1, 'triple')}.items():
        with ctx.sub(sym):
            if sym not in ex:
                ctx.violation('missing ' + sym, 'exported C function %s is gone' % sym)
                continue
            insert(ctx, sym, ex[sym], val)
    for sym in ('new_context_hash_map', 'new_declared_hash_map'):
        with ctx.sub(sym):
            S = Sum(ctx, ex[sym])
            for kind, val, st in S.outs:
                v = S.eng.deep(val, st)
                good = isn(v, '&') and isn(v[1], 'mapnew')
                if not good and not isn(v, '&'):
                    raise Undecided(show(v)[:100])
                ctx.check(sym + ': empty', good, '%s does not create an empty map: %s' % (sym, show(v)[:100]), ex[sym]['span'])


# ---------------------------------------------------------------- the text of a solution, evaluated on solutions
VALUES = [0.0, -0.0, 1.0, -2.5, 0.1 + 0.2, 1.0 / 3.0, 1e-7, -4.25e-19, 1e16, 123456789.125, 1.7976931348623157e308, 5e-324, 2.0 ** 53, 1e21, -99999.99999999999]


def solutions(ctx):
    names = ['x', 'y', 'alpha', 'x1', 'x_2', 'T_hot', 'zz', 'Q', 'longer_name', 'v9']
    n = 0
    for size in (1, 2, 3, 4, 7, 10, 0):
        for k in range(1 if size == 0 else 3 if ctx.tier == 'quick' else 40):
            yield [(names[(k * 3 + i) % len(names)], VALUES[(n + 5 * i + k) % len(VALUES)]) for i in range(size)]
            n += 1


def evaluated(ctx, sym, body):
    """the text handed to C, for solutions of every size and values of every magnitude"""
    op, roles, mode, fail = OPS[sym]
    S = Sum(ctx, body)
    outs = [o for o in S.outs if not any(e[0] == 'unwind' for e in o[2].ev)]
    sm = Summary(S.eng, outs, body)
    now = {}

    def calls(ev, t, p, args):
        if p == op:
            return Agg('core::result::Result', 0, [now['r']])
        if p.endswith('CString::new'):
            x = ev.ev(args[0])
            if isinstance(x, bytes):
                x = x.decode()
            if not isinstance(x, str) or isinstance(x, Sym):
                raise Unk('text %r' % (x,))
            return Agg('core::result::Result', 1 if '\0' in x else 0, [x])
        if p.endswith('into_raw'):
            return ev.ev(args[0])
        if p.endswith(TEXT):
            return 'some text'
        return None
    n = 0
    for sol in solutions(ctx):
        log = ['step %d: x = "%d" \\ y' % (i, i) for i in range(len(sol))]
        if mode == 'pair':
            if len(sol) != 1:
                continue
            for v in VALUES:
                now['r'] = Agg('tuple', 0, [sol[0][0], v])
                got = sm.value({s: 1.0 for s in S.syms}, mode='R', calls=calls)
                want = '%s=%s' % (sol[0][0], rust_show(v))
                n += 1
                if got[0] != 'ret' or not isinstance(got[1], str):
                    raise Unk('result %r' % (got[:2],))
                if not same_pair(got[1], sol[0][0], v):
                    ctx.violation(sym + ': text', '%s reports the solution %s as %r' % (sym, want, got[1]), body['span'])
                    return
            continue
        now['r'] = dict(sol) if mode == 'solution' else Agg('tuple', 0, [log, dict(sol)])
        kind, v, _, _ = sm.value({s: 1.0 for s in S.syms}, mode='R', calls=calls)
        if kind != 'ret' or not isinstance(v, str) or isinstance(v, Sym):
            raise Unk('result %r' % (v,))
        n += 1
        if mode == 'solution':
            lines = v.split('\n') if v else []
            if len(lines) != len(sol) or not all(any(same_pair(l, k, x) for l in lines) for k, x in sol):
                ctx.violation(sym + ': text', '%s reports the solution %s as %r' % (sym, ', '.join('%s=%s' % (k, rust_show(x)) for k, x in sol), v), body['span'])
                return
        else:
            bad = [k for k, x in sol if not any(number(w) == x for w in re.findall(r'(?<![A-Za-z0-9_])%s\W*?(-?(?:inf|NaN|[0-9][0-9.]*(?:e-?[0-9]+)?))(?![0-9A-Za-z_.])' % k, v))]
            if bad:
                ctx.violation(sym + ': text solution', '%s does not report %s with its value: %r' % (sym, bad[0], v), body['span'])
                return
            at = 0
            for l in log:
                e = rust_debug(l)[1:-1]
                i = min([j for j in (v.find(l, at), v.find(e, at)) if j >= 0], default=-1)
                if i < 0:
                    ctx.violation(sym + ': text log', '%s does not report the step %r of the solution log: %r' % (sym, l, v), body['span'])
                    return
                at = i + 1
    ctx.ok(sym + ': text of %d solutions' % n)
    return True


def number(w):
    try:
        return float(w)
    except ValueError:
        return None


def same_pair(l, k, x):
    a, eq, b = l.partition('=')
    return eq == '=' and a == k and number(b) == x


def strip(v):
    while isn(v, '&', 'Box', 'tostr', '*') or (isn(v, 'fld') and False):
        v = v[1]
    return v


def params_in(v, syms):
    return [i for i, s in enumerate(syms) if contains(v, lambda t: t is s)]


def foreign(v):
    """calls in a text argument that are not plain C-string conversions"""
    bad = []

    def f(t):
        if isn(t, 'call') and not any(t[1].endswith(x) for x in TEXT):
            bad.append(t[1])
        if isn(t, 'phi', 'cat', 'fmt', 'replace'):
            bad.append(t[0])
        return False
    contains(v, f)
    return bad


def role(ctx, key, S, r, v, st, sym, w):
    i = int(r[1:])
    v = S.eng.deep(v, st)
    got = params_in(v, S.syms)
    if r[0] == 'n':
        s = S.syms[i]
        exact = v is s or (isn(v, 'cast') and v[2] is s)
        if exact:
            ctx.ok(key)
        elif got and got != [i]:
            ctx.violation(key, '%s passes %s where argument %d belongs' % (sym, show(v)[:120], i), w)
        else:
            ctx.violation(key, '%s passes %s instead of its argument %d' % (sym, show(v)[:120], i), w)
        return
    if got == [i]:
        bad = foreign(v) if r[0] == 's' else []
        if bad:
            raise Undecided('text conversion through %s' % bad[0])
        ctx.ok(key)
    elif got:
        ctx.violation(key, '%s passes something built from other arguments where argument %d belongs' % (sym, i), w)
    else:
        ctx.violation(key, '%s does not pass its argument %d on: %s' % (sym, i, show(v)[:120]), w)


def cls(r, st):
    """variant of the operation result on this path: set of possible variants"""
    known = {0, 1}
    for c, val in st.conds:
        if isn(c, 'isvar') and c[1] is r:
            if val:
                known &= {c[2]}
            else:
                known -= {c[2]}
    return known


def one(ctx, sym, body):
    op, roles, mode, fail = OPS[sym]
    S = Sum(ctx, body)
    w = body['span']
    others = {x[0] for x in OPS.values()}
    for kind, val, st in S.outs:
        if kind == 'panic':
            ctx.violation(sym + ': unwinds', '%s lets a panic escape into C' % sym, w)
            continue
        calls = [c for c in S.dcalls(st) if c[0] in others or c[0].split('::')[-1] == sym]
        mine = [c for c in calls if c[0] == op]
        for c in calls:
            if c[0] != op:
                ctx.violation(sym + ': operation', '%s performs %s instead of %s' % (sym, c[0], op), w)
        v = S.eng.deep(val, st)
        if not mine:
            if calls:
                continue
            if is_fail(v, fail) or S.dcalls(st):
                raise Undecided('a path that does not call %s' % op)
            ctx.violation(sym + ': operation', '%s returns %s without performing %s' % (sym, show(v)[:80], op), w)
            continue
        if len(mine) > 1:
            ctx.violation(sym + ': operation', '%s performs %s %d times' % (sym, op, len(mine)), w)
            continue
        path, args, r, unwound = mine[0]
        if len(args) != len(roles):
            raise Undecided('operation takes %d arguments' % len(args))
        for n, (rl, a) in enumerate(zip(roles, args)):
            role(ctx, '%s: argument %d of %s' % (sym, n, op.split('::')[-1]), S, rl, a, st, sym, w)
        for i in CHANGES.get(sym, ()):
            changed(ctx, sym, S, i, r, unwound, st, w)
        result(ctx, sym, S, mode, fail, r, unwound, v, val, st, w)


def changed(ctx, sym, S, i, r, unwound, st, w):
    """the caller's object is the one the operation works on"""
    if unwound:
        return
    loc = N('P', S.syms[i])
    x = S.eng.deep(S.eng.load(st, loc), st)
    key = '%s: the object behind argument %d' % (sym, i)
    if contains(x, lambda t: t is r):
        ctx.ok(key)
    elif x is S.eng.initial(loc):
        ctx.violation(key, '%s lets %s work on something else than the object behind its argument %d, which stays as it was' % (sym, OPS[sym][0], i), w)
    else:
        raise Undecided('%s: %s' % (key, show(x)[:100]))


def is_fail(v, fail):
    return isn(v, 'null') if fail == 'null' else v is ci(fail) if fail is not None else False


def cstring_failed(st):
    return any(isn(c, 'isvar') and isn(c[1], 'call') and c[1][1].endswith('CString::new') and val and c[2] == 1 for c, val in st.conds)


def result(ctx, sym, S, mode, fail, r, unwound, v, val, st, w):
    def want(key, cond, what):
        ctx.check('%s: %s' % (sym, key), cond, '%s returns %s %s' % (sym, show(v)[:100], what), w)
    if unwound:
        want('panic', is_fail(v, fail), 'when %s panics' % OPS[sym][0])
        return
    if mode == 'same':
        want('result', isn(v, '&') and v[1] is r, 'not the new object')
        return
    if mode in ('bool', 'flag'):
        t = [x for c, x in st.conds if c is r]
        no = ci(0) if mode == 'bool' else ci(fail)
        if t:
            want(str(t[0]).lower(), v is (ci(1) if t[0] else no), 'when the operation returns %s' % str(t[0]).lower())
        elif mode == 'bool' and isn(v, 'cast', 'b2i') and r in v.t:
            ctx.ok(sym + ': bool')
        elif isn(v, 'c'):
            want('result', False, 'whatever the operation returns')
        else:
            raise Undecided('result %s' % show(v)[:100])
        return
    k = cls(r, st)
    if mode == 'constrain':
        sub = None
        for c, x in st.conds:
            if isn(c, 'isvar') and x and isn(c[1], 'fld') and c[1][1] is r:
                sub = c[2]
        if 1 in k:
            want('error', is_fail(v, fail), 'on an error')
        if 0 in k:
            if sub is None:
                nots = {c[2] for c, x in st.conds if isn(c, 'isvar') and not x and isn(c[1], 'fld') and c[1][1] is r}
                rest = {0, 1, 2} - nots
            else:
                rest = {sub}
            vs = ctx.db.adts['geqslib::system::ConstrainResult']['variants']
            exp = {'WillConstrain': 1, 'WillNotConstrain': 0, 'WillOverConstrain': 2}
            for x in rest:
                if x < len(vs) and vs[x]['name'] in exp:
                    want(vs[x]['name'], v is ci(exp[vs[x]['name']]), 'for that outcome')
        return
    okv = 1 if mode == 'handle1' else 0
    if 1 - okv in k:
        want('failure', is_fail(v, fail), 'on a failed operation')
    if okv in k:
        if is_fail(v, fail):
            if cstring_failed(st):
                ctx.ok(sym + ': text with a nul byte')
            else:
                want('success', False, 'although the operation succeeded')
            return
        pay = lambda x: isn(x, 'fld') and x[1] is r and x[2] == okv and x[3] == 0
        if mode.startswith('handle'):
            want('success', isn(v, '&') and pay(v[1]), 'which is not the object the operation produced')
        else:
            try:
                text(ctx, sym, S, mode, pay, v, st, w)
            except Undecided:
                if sym not in ctx.told:
                    raise


def text(ctx, sym, S, mode, pay, v, st, w):
    t = v
    if isn(t, 'call') and t[1].endswith('into_raw'):
        t = t[2][0]
    new = find_first(t, lambda x: isn(x, 'call') and x[1].endswith('CString::new'))
    if new is None:
        raise Undecided('text result %s' % show(v)[:120])
    s = new[2][0]
    leaves = pieces(S, s)
    key = sym + ': text'
    cut = lossy(S, s, pay)
    ctx.check(key + ' digits', not cut, '%s formats %s with a precision that drops digits' % (sym, cut and show(cut)[:80]), w)
    if mode == 'pair':
        fields = [x for x in leaves if isinstance(x, Node)]
        if any(not is_field(x, pay) for x in fields):
            raise Undecided('text pieces %s' % ', '.join(show(x)[:60] for x in fields))
        got = [is_field(x, pay) - 1 if isinstance(x, Node) else x for x in leaves]
        ctx.check(key, got == [0, '=', 1], '%s reports the solution as %s, not as variable=value' % (sym, got), w)
        return
    if mode == 'solution':
        # every entry of the operation's map appears as key=value, newline separated
        lits = ''.join(x for x in leaves if isinstance(x, str))
        ks = [x for x in leaves if isinstance(x, Node)]
        key_ok = val_ok = False
        order = []
        for x in ks:
            m = strip(x)
            if isn(m, 'keyat') and pay(m[1]):
                order.append('k')
            elif isn(m, 'mapget') and pay(m[1]) and isn(m[2], 'keyat') and pay(m[2][1]):
                order.append('v')
            elif isn(m, 'valat') and pay(m[1]):
                order.append('v')
            else:
                raise Undecided('text piece %s' % show(x)[:100])
        ctx.check(key + ' entries', order == ['k', 'v'], '%s reports %s instead of each variable with its value' % (sym, order), w)
        ctx.check(key + ' layout', lits in ('=\n', '\n='), '%s separates with %r instead of = and newlines' % (sym, lits), w)
        return
    if mode == 'log':
        log, sol = fields2(S, pay, s)
        ctx.check(key + ' log', log, '%s does not report the solution log' % sym, w)
        ctx.check(key + ' solution', sol, '%s does not report the solved variables with their values' % sym, w)
        entries(ctx, sym, S, pay, s, w)


def lossy(S, s, pay):
    """a variable or value of the solution which is formatted with a fixed precision"""
    hit = []

    def f(x):
        if isn(x, 'shown') and ':' in x[1] and contains(x[2], pay):
            kind, opt = x[1].split(':', 1)
            flags, _, prec = [int(q) for q in opt.split(',')]
            if flags >> 28 & 1 and prec < (16 if kind.endswith('exp') else 340):
                hit.append(x[2])
        return bool(hit)
    for t in phis_of(S, s, set()):
        contains(t, f)
    return hit[0] if hit else None


def entries(ctx, sym, S, pay, s, w):
    """one entry of a solution text ends where the next begins"""
    f1 = lambda x: isn(x, 'fld') and pay(x[1]) and x[3] == 1
    for info in S.eng.loops.values():
        for p in info['phis']:
            for b in info['backs']:
                nx = b['next'][p]
                if not isn(nx, 'cat') or not contains(nx, lambda x: isn(x, 'keyat') and f1(x[1])):
                    continue
                ps = []
                for x in nx.t[1:]:
                    x = strip(x)
                    if isn(x, 'shown', 'dsp'):
                        x = strip(x[2])
                    ps.append('acc' if x is p else 'k' if isn(x, 'keyat') else 'v' if isn(x, 'mapget', 'valat') else x if isinstance(x, str) else str(x[2]) if isn(x, 'c') else None)
                if None in ps or 'k' not in ps or 'v' not in ps or ps.count('acc') != 1:
                    continue
                ps = ps[ps.index('acc') + 1:] + ps[:ps.index('acc')]
                i, j = ps.index('k'), ps.index('v')
                lo, hi = min(i, j), max(i, j)
                inner, outer = ''.join(ps[lo + 1:hi]), ''.join(ps[hi + 1:] + ps[:lo])
                ctx.check(sym + ': text layout', inner.strip(' ') != '' or inner == ' ' and outer.strip(' ') != '', '%s puts %r between a variable and its value' % (sym, inner), w)
                ctx.check(sym + ': text separation', outer != '' and outer != inner, '%s puts %r between one variable and the next' % (sym, outer), w)


def is_field(x, pay):
    """1 or 2 when x is field 0 or 1 of the pair"""
    x = strip(x)
    if isn(x, 'shown', 'dsp'):
        x = strip(x[2])
    if isn(x, 'fld') and pay(x[1]) and x[3] in (0, 1):
        return x[3] + 1
    return 0


def find_first(t, p):
    hit = []

    def f(x):
        if not hit and p(x):
            hit.append(x)
        return bool(hit)
    contains(t, f)
    return hit[0] if hit else None


def phis_of(S, t, seen):
    """terms a value can be built from, following loop-carried values"""
    out = [t]

    def f(x):
        if isn(x, 'phi') and x not in seen:
            seen.add(x)
            for info in S.eng.loops.values():
                if x in info['phis']:
                    out.extend(phis_of(S, info['phis'][x], seen))
                    for b in info['backs']:
                        out.extend(phis_of(S, b['next'][x], seen))
        return False
    contains(t, f)
    return out


def pieces(S, t):
    """literal and value pieces of a text, loop bodies flattened once"""
    seen = set()

    def go(x):
        if isinstance(x, str):
            return [x]
        x = strip(x)
        if isn(x, 'cat'):
            return [p for y in x.t[1:] for p in go(y)]
        if isn(x, 'shown', 'dsp'):
            return [x[2]]
        if isn(x, 'seq'):
            return [p for y in x.t[1:] for p in go(y)]
        if isn(x, 'push', 'append'):
            return go(x[1]) + go(x[2])
        if isn(x, 'call') and x[1].endswith('::join'):
            return [p for y in x[2] for p in go(y)]
        if isn(x, 'phi'):
            if x in seen:
                return []
            seen.add(x)
            r = []
            for info in S.eng.loops.values():
                if x in info['phis']:
                    r += go(info['phis'][x])
                    if len(info['backs']) != 1:
                        raise Undecided('text built by a branching loop')
                    r += go(info['backs'][0]['next'][x])
            return r
        if isn(x, 'c'):
            return [str(x[2])]
        return [x]
    return [p for p in go(t) if not (isinstance(p, str) and p == '')]


def fields2(S, pay, s):
    allt = phis_of(S, s, set())

    def has(p):
        return any(contains(t, p) for t in allt)
    f0 = lambda x: isn(x, 'fld') and pay(x[1]) and x[3] == 0
    f1 = lambda x: isn(x, 'fld') and pay(x[1]) and x[3] == 1
    log = has(f0)
    key = has(lambda x: isn(x, 'keyat') and f1(x[1]))
    val = has(lambda x: (isn(x, 'mapget') and f1(x[1])))
    whole = has(lambda x: isn(x, 'shown', 'dsp') and f1(strip(x[2])))
    return log, (key and val) or whole


def insert(ctx, sym, body, mode):
    S = Sum(ctx, body)
    w = body['span']
    for kind, val, st in S.outs:
        if kind == 'panic':
            ctx.violation(sym + ': unwinds', '%s lets a panic escape into C' % sym, w)
            continue
        ins = [e for e in st.ev if e[0] == 'mapinsert']
        v = S.eng.deep(val, st)
        if not ins:
            if mode == 'triple' and v is ci(0):
                continue
            if S.dcalls(st):
                raise Undecided('insertion through %s' % S.dcalls(st)[0][0])
            ctx.violation(sym + ': entry', '%s adds no entry' % sym, w)
            continue
        e = ins[-1]
        m, k, x = [S.eng.deep(y, st) if isinstance(y, Node) else y for y in e[1:4]]
        ctx.check(sym + ': map', params_in(m, S.syms) == [0] and len(ins) == 1, '%s adds to something else than its map' % sym, w)
        role(ctx, sym + ': name', S, 's1', k, st, sym, w)
        if mode == 'num':
            tok = isn(x, 'agg') and x[2] == ctx.db.vi('geqslib::context::Token', 'Num')
            ctx.check(sym + ': entry', tok and x.t[-1] is S.syms[2], '%s stores %s instead of the constant' % (sym, show(x)[:80]), w)
        else:
            ctx.check(sym + ': entry', isn(x, 'seq') and list(x.t[1:]) == S.syms[2:5],
                      '%s stores %s instead of [guess, min, max]' % (sym, show(x)[:80]), w)
            ctx.check(sym + ': status', v is ci(1), '%s returns %s on success' % (sym, show(v)[:80]), w)
