import json
import os
import subprocess
from ffi import *
from db import REPO

EXPLAIN = ('The declarations of gmatlib.h and geqslib.h, read from clang\'s C syntax tree, compared with the signatures the Rust compiler gives '
           'the exported functions: every function declared and exported, same parameter count, kinds and order, same result kind; status '
           'enumerators compared with the values the functions return.')

STATUS = {
    'gmatlib/gmatlib.h': {'DeterminantWasZero': 0, 'SingularValueWasZero': 1, 'ZeroDuringInversion': 2, 'UnknownGmatlibError': 3, 'Ok': 4294967295},
    'geqslib/geqslib.h': {'ConstraintError': -1, 'NotConstrained': 0, 'Constrained': 1, 'OverConstrained': 2},
}
RUST = {'u32': 'u32', 'i32': 'i32', 'u8': 'u8', 'i8': 'i8', 'u16': 'u16', 'i16': 'i16', 'u64': 'u64', 'i64': 'i64', 'usize': 'u64', 'isize': 'i64',
        'f64': 'f64', 'f32': 'f32', '()': 'void', 'bool': 'bool'}
CT = {'unsigned int': 'u32', 'int': 'i32', 'unsigned char': 'u8', 'char': 'i8', 'signed char': 'i8', 'unsigned short': 'u16', 'short': 'i16',
      'unsigned long': 'u64', 'long': 'i64', 'unsigned long long': 'u64', 'long long': 'i64', 'double': 'f64', 'float': 'f32', 'void': 'void',
      '_Bool': 'bool', 'bool': 'bool'}


def rkind(t):
    if t.startswith('*') or t.startswith('&'):
        return 'text' if t.split()[-1] in ('i8', 'u8') else 'ptr'
    return RUST.get(t)


def ckind(t):
    t = t.replace('const ', '').strip()
    if t.endswith('*') or t.endswith('*restrict'):
        return 'text' if t.startswith('char') else 'ptr'
    return CT.get(t)


def header(path):
    r = subprocess.run(['clang', '-x', 'c', '-std=c11', '-fsyntax-only', '-w', '-Xclang', '-ast-dump=json', path], capture_output=True, text=True, timeout=120)
    if r.returncode:
        return None, None, r.stderr[:400]
    fns, consts = {}, {}

    def val(n):
        for c in n.get('inner', []):
            if 'value' in c:
                return int(c['value'])
            v = val(c)
            if v is not None:
                return v
        return None
    for n in json.loads(r.stdout)['inner']:
        if n.get('loc', {}).get('includedFrom'):
            continue
        if n['kind'] == 'FunctionDecl':
            ps = [(c.get('name', ''), c['type'].get('desugaredQualType', c['type']['qualType'])) for c in n.get('inner', []) if c['kind'] == 'ParmVarDecl']
            q = n['type'].get('desugaredQualType', n['type']['qualType'])
            fns[n['name']] = (q[:q.index('(')].strip(), ps)
        elif n['kind'] == 'EnumDecl':
            nxt = 0
            for c in n.get('inner', []):
                if c['kind'] == 'EnumConstantDecl':
                    v = val(c)
                    nxt = v if v is not None else nxt
                    consts[c['name']] = nxt
                    nxt += 1
    return fns, consts, ''


def argnames(b):
    names = {}
    for d in b.get('dbg') or []:
        pl = d[1] if isinstance(d, (list, tuple)) else d.get('place')
        nm = d[0] if isinstance(d, (list, tuple)) else d.get('name')
        if isinstance(pl, list) and len(pl) == 1 and isinstance(pl[0], int) and 1 <= pl[0] <= b['argc']:
            names.setdefault(pl[0], nm)
        elif isinstance(pl, int) and 1 <= pl <= b['argc']:
            names.setdefault(pl, nm)
    return [names.get(i + 1, '') for i in range(b['argc'])]


def check(ctx):
    ctx.rule('every exported C function of a library with a header is declared in it and every declaration is exported')
    ctx.rule('declaration and export agree on parameter count, kind and order and on the result; parameters of the same names stand in the same positions')
    ctx.rule('every status enumerator has the value the functions return')
    ex = exports(ctx.db)
    for crate in ('gmatlib', 'geqslib'):
        path = '%s/%s.h' % (crate, crate)
        with ctx.sub(path):
            fns, consts, err = header(os.path.join(REPO, path))
            if fns is None:
                ctx.violation(path + ': not valid C', '%s does not compile as C: %s' % (path, err), path)
                continue
            mine = {k: b for k, b in ex.items() if b['crate'] == crate}
            for k, b in sorted(mine.items()):
                ctx.check('%s: %s declared' % (path, k), k in fns, '%s does not declare the exported function %s' % (path, k), b['span'])
            for k, (ret, ps) in sorted(fns.items()):
                if k not in ex:
                    ctx.violation('%s: %s exported' % (path, k), '%s declares %s, which is not exported' % (path, k), path)
                    continue
                with ctx.sub(k):
                    pair(ctx, path, k, ret, ps, ex[k])
            for name, v in STATUS[path].items():
                if name in consts:
                    ctx.check('%s: %s' % (path, name), consts[name] == v, '%s gives %s the value %d, the functions return %d' % (path, name, consts[name], v), path)
                else:
                    ctx.undecided('%s: %s' % (path, name), 'enumerator not found')


def pair(ctx, path, k, ret, ps, b):
    rt = [b['locals'][i + 1] for i in range(b['argc'])]
    w = b['span']
    if len(rt) != len(ps):
        ctx.violation('%s: %s arity' % (path, k), '%s declares %d parameters of %s, it has %d' % (path, len(ps), k, len(rt)), w)
        return
    for i, (t, (n, c)) in enumerate(zip(rt, ps)):
        a, d = rkind(t), ckind(c)
        if a is None or d is None:
            ctx.undecided('%s: %s parameter %d' % (path, k, i), 'types %s / %s' % (t, c))
            continue
        ctx.check('%s: %s parameter %d' % (path, k, i), a == d, '%s declares parameter %d of %s as %s, it is %s' % (path, i, k, c, t), w)
    a, d = rkind(b['locals'][0]), ckind(ret)
    if a is None or d is None:
        ctx.undecided('%s: %s result' % (path, k), 'types')
    else:
        ctx.check('%s: %s result' % (path, k), a == d, '%s declares %s to return %s, it returns %s' % (path, k, ret, b['locals'][0]), w)
    names = argnames(b)
    cn = [n for n, _ in ps]
    common = [n for n in names if n and n in cn]
    if len(set(common)) == len(common):
        ctx.check('%s: %s order' % (path, k), all(names.index(n) == cn.index(n) for n in common),
                  '%s declares the parameters of %s as (%s), it takes (%s)' % (path, k, ', '.join(cn), ', '.join(names)), w)
