"""Shared knowledge about the C interface: contracts by exported symbol."""
from terms import *
from framework import Missing, Undecided

MATX = 'gmatlib::Matrix<f64>'
CTX = 'std::collections::hash::map::HashMap<alloc::string::String, geqslib::context::Token>'
BLD = 'geqslib::system::SystemBuilder'
SYS = 'geqslib::system::System'
DEC = 'std::collections::hash::map::HashMap<alloc::string::String, [f64; 3]>'
STR = 'cstring'

B, C = 'borrow', 'consume'
# symbol -> (crate, {param index: (mode, handle type)}, type of a fresh handle returned or None)
CONTRACT = {
    'new_double_matrix': ('gmatlib', {}, MATX), 'new_double_identity_matrix': ('gmatlib', {}, MATX),
    'inplace_row_swap': ('gmatlib', {0: (B, MATX)}, None), 'inplace_row_scale': ('gmatlib', {0: (B, MATX)}, None),
    'inplace_scale': ('gmatlib', {0: (B, MATX)}, None), 'inplace_row_add': ('gmatlib', {0: (B, MATX)}, None),
    'inplace_scaled_row_add': ('gmatlib', {0: (B, MATX)}, None),
    'multiply_matrix': ('gmatlib', {0: (B, MATX), 1: (B, MATX)}, MATX), 'augment_with': ('gmatlib', {0: (B, MATX), 1: (B, MATX)}, MATX),
    'subset': ('gmatlib', {0: (B, MATX)}, MATX), 'trace': ('gmatlib', {0: (B, MATX)}, None), 'transpose': ('gmatlib', {0: (B, MATX)}, MATX),
    'try_inplace_invert': ('gmatlib', {0: (B, MATX)}, None), 'index_mut_double_matrix': ('gmatlib', {0: (B, MATX)}, None),
    'index_double_matrix': ('gmatlib', {0: (B, MATX)}, None), 'clone_double_matrix': ('gmatlib', {0: (B, MATX)}, MATX),
    'free_double_matrix': ('gmatlib', {0: (C, MATX)}, None),
    'new_context_hash_map': ('geqslib', {}, CTX), 'new_default_context_hash_map': ('geqslib', {}, CTX),
    'add_const_to_ctx': ('geqslib', {0: (B, CTX), 1: (B, STR)}, None),
    'solve_equation': ('geqslib', {0: (B, STR), 1: (B, CTX)}, STR),
    'new_system_builder': ('geqslib', {0: (B, STR), 1: (B, CTX)}, BLD),
    'try_constrain_with': ('geqslib', {0: (B, BLD), 1: (B, STR)}, None),
    'is_fully_constrained': ('geqslib', {0: (B, BLD)}, None),
    'build_system': ('geqslib', {0: (C, BLD)}, SYS),
    'debug_system_builder': ('geqslib', {0: (B, BLD)}, None),
    'specify_variable': ('geqslib', {0: (B, SYS), 1: (B, STR)}, None),
    'solve_system': ('geqslib', {0: (C, SYS)}, STR),
    'free_context_hash_map': ('geqslib', {0: (C, CTX)}, None), 'free_system_builder': ('geqslib', {0: (C, BLD)}, None),
    'free_system': ('geqslib', {0: (C, SYS)}, None), 'free_solution_string': ('geqslib', {0: (C, STR)}, None),
    'new_declared_hash_map': ('nexsys', {}, DEC), 'add_declared_variable': ('nexsys', {0: (B, DEC), 1: (B, STR)}, None),
    'basic_solve': ('nexsys', {0: (B, STR), 1: (B, CTX), 2: (B, DEC)}, STR),
    'solve_with_preprocessors': ('nexsys', {0: (B, STR)}, STR),
    'free_declared_hash_map': ('nexsys', {0: (C, DEC)}, None),
}
CRATES = ('gmatlib', 'geqslib', 'nexsys', 'neapolitan')


def exports(db):
    return {k.rsplit('::', 1)[-1]: b for k, b in db.bodies.items() if b.get('nomangle') and b['abi'].startswith('C')}


def is_domain(db):
    def f(key, path):
        b = db.bodies.get(key)
        if not b or not b['local'] or b['closure'] or '::ffi::' in key:
            return False
        return bool(b['pub']) and b.get('impl') in (None, '', 'inherent') or False
    return f


class Sum(object):
    def __init__(self, ctx, body, opaque=True):
        db = ctx.db
        self.body = body
        self.cp = {}
        dom = domain(db)
        kw = {}
        if opaque:
            kw = dict(opaque=dom, may_panic=lambda c: can_panic(ctx, c))
        self.eng, self.outs = ctx.engine(body, panics=True, **kw)
        self.syms = self.eng.sym_args(body)
        self.dom = dom

    def dcalls(self, st):
        """domain calls on this path: (path, args, result, unwound)"""
        out = []
        for e in st.ev:
            if e[0] == 'call' and e[1].split('::')[0].lstrip('<&') in CRATES:
                out.append([e[1], e[2], e[3], False])
            elif e[0] == 'unwind' and out and out[-1][0] == e[1]:
                out[-1][3] = True
        return out


def domain(db):
    """public library functions outside the ffi modules (the operations the C interface exposes)"""
    keys = set()
    for k, b in db.bodies.items():
        if b['local'] and b['pub'] and not b['closure'] and '::ffi::' not in k and b['path'].split('::')[0] in CRATES:
            keys.add(k)
    return lambda key, path: key in keys


_cp = {}


def can_panic(ctx, c):
    key = (c or {}).get('fn')
    b = ctx.db.bodies.get(key)
    if b is None or not b['local']:
        return False
    if key not in _cp:
        from interp import Engine, Budget
        try:
            e = Engine(ctx.db, panics=True, max_steps=20000, max_paths=400, deadline=ctx.t0 + 600)
            _cp[key] = any(k == 'panic' for k, _, _ in e.run(b))
        except Exception:
            _cp[key] = True
    return _cp[key]
