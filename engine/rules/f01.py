from ffi import *

EXPLAIN = ('Ownership dataflow over every exported C function (discovered by ABI): on every path, including the unwinding path of every '
           'library call that can panic, the abstract heap records re-boxing, drops, forgets and bitwise copies of each handle argument.')


def check(ctx):
    ctx.rule('a borrowed handle is never freed, bitwise duplicated or returned on any exit; a consumed handle is freed exactly once on every exit; '
             'a const handle is not modified; a returned handle is freshly allocated, of the right type and not freed before return')
    ex = exports(ctx.db)
    for sym in CONTRACT:
        if sym not in ex:
            ctx.violation('missing ' + sym, 'exported C function %s is gone' % sym)
    for sym, body in sorted(ex.items()):
        with ctx.sub(sym):
            one(ctx, sym, body)


def is_box(v, s):
    return isn(v, 'box') and v[1] is N('P', s)


def one(ctx, sym, body):
    if sym not in CONTRACT:
        ctx.undecided(sym, 'exported function without a contract')
        return
    crate, params, fresh = CONTRACT[sym]
    S = Sum(ctx, body)
    w = body['span']
    for kind, val, st in S.outs:
        for i, (mode, ty) in params.items():
            s = S.syms[i]
            handle(ctx, S, sym, i, s, mode, ty, kind, val, st, w)
        if kind == 'ret' and fresh:
            returned(ctx, S, sym, params, fresh, val, st, w)


def handle(ctx, S, sym, i, s, mode, ty, kind, val, st, w):
    exit_ = 'unwinding' if any(e[0] == 'unwind' for e in st.ev) or any(e[0] == 'catch_leave' and e[1] == 'panic' for e in st.ev) else 'normal'
    frees = 0
    copies = 0
    for e in st.ev:
        if e[0] in ('drop', 'boxfree') and (is_box(e[1], s) or (isn(e[1], 'agg') and any(is_box(x, s) for x in e[1].t[3:]))):
            frees += 1
        if e[0] == 'bitcopy' and (e[1] is s or (isn(e[1], 'ref') and e[1][1] is N('P', s))):
            copies += 1
        if e[0] == 'from_raw' and e[1] is s and e[2] and ty != STR and not same_ty(e[2], ty):
            ctx.violation('%s: handle %d retyped' % (sym, i), '%s re-boxes argument %d as %s, it holds a %s' % (sym, i, e[2], ty), w)
    if ty == STR:
        frees = 0
        for e in st.ev:
            if e[0] == 'call' and e[1].endswith('CString::from_raw') and e[2] and e[2][0] is s:
                frees += sum(1 for d in st.ev if d[0] == 'drop' and d[1] is e[3])
            elif e[0] == 'from_raw' and e[1] is s:
                frees += 1
    key = '%s: handle %d' % (sym, i)
    if mode == B:
        if frees:
            ctx.violation(key + ' freed', '%s frees its borrowed argument %d on a %s exit' % (sym, i, exit_), w)
        elif copies and not forgets(st, s):
            ctx.violation(key + ' duplicated', '%s bitwise-copies the object behind argument %d and drops the copy' % (sym, i), w)
        else:
            ctx.ok('%s borrowed, %s exit' % (key, exit_))
        pty = S.body['locals'][i + 1]
        if pty.startswith('*const') and ty != STR and kind == 'ret':
            loc = N('P', s)
            cur = st.mem.get(loc)
            if cur is not None and not unchanged(S.eng, cur, st, loc):
                ctx.violation(key + ' modified', '%s modifies the object behind its const argument %d' % (sym, i), w)
    else:
        if frees != 1:
            ctx.violation(key + ' not freed once', '%s frees its consumed argument %d %d times on a %s exit' % (sym, i, frees, exit_), w)
        else:
            ctx.ok('%s consumed once, %s exit' % (key, exit_))


def unchanged(eng, cur, st, loc):
    v = eng.deep(cur, st)
    return v is eng.initial(loc) or isn(cur, 'moved', 'uninit')


def forgets(st, s):
    n = sum(1 for e in st.ev if e[0] == 'forget' and contains(e[1], lambda t: t is s))
    return n > 0


def same_ty(a, b):
    a, b = a.replace(' ', ''), b.replace(' ', '')
    return a == b or a.startswith('core::ffi') is False and a.split('<')[0] == b.split('<')[0] and ('<' not in a or '<' not in b or a == b)


def returned(ctx, S, sym, params, fresh, val, st, w):
    key = sym + ': result'
    if isn(val, 'null'):
        ctx.ok(key + ' null')
        return
    if fresh == STR:
        bad = contains(val, lambda t: isn(t, 'call') and isinstance(t[1], str) and t[1].endswith('::as_ptr'))
        if bad:
            ctx.violation(key + ' dangling', '%s returns a pointer into a string it frees' % sym, w)
        elif isn(val, 'call') and val[1].endswith('CString::into_raw'):
            ctx.ok(key + ' owned C string')
        else:
            raise Undecided('string result %s' % show(val)[:120])
        return
    for i in params:
        if isn(val, 'ref') and val[1] is N('P', S.syms[i]):
            ctx.violation(key + ' aliases', '%s returns its own argument %d as the new handle' % (sym, i), w)
            return
    if val in S.syms:
        ctx.violation(key + ' aliases', '%s returns its own argument as the new handle' % sym, w)
        return
    if not (isn(val, 'ref') and val[1][0] == 'H'):
        raise Undecided('handle result %s' % show(val)[:120])
    rel = [e for e in st.ev if e[0] == 'into_raw' and isn(e[1], 'box') and e[1][1] is val[1]]
    freed = [e for e in st.ev if e[0] in ('drop', 'boxfree') and isn(e[1], 'box') and e[1][1] is val[1]]
    leak = [e for e in st.ev if e[0] == 'forget' and isn(e[1], 'box') and e[1][1] is val[1]]
    if freed:
        ctx.violation(key + ' freed', '%s frees the handle it returns' % sym, w)
    elif not rel and not leak:
        ctx.violation(key + ' not owned', '%s returns a pointer to an object it still owns' % sym, w) if not val[1][0] == 'H' else (_ for _ in ()).throw(Undecided('release of the returned handle'))
    else:
        if rel and rel[0][2] and not same_ty(rel[0][2], fresh):
            ctx.violation(key + ' type', '%s returns a handle to %s, not to %s' % (sym, rel[0][2], fresh), w)
        else:
            ctx.ok(key + ' fresh handle')
