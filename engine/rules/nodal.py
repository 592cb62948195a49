"""Node/element objects for the neapolitan rules: constructors and flux laws as summaries over shared node cells."""
from expr import *
from interp import Engine

NE = 'neapolitan::'
EL = NE + 'modelling::element::'
ND = NE + 'modelling::node::'
NODE, ELEM, MAT = ND + 'GenericNode', EL + 'GenericElement', 'gmatlib::Matrix'
GETFLUX = EL + 'GenericElement::get_flux'
DISC = ND + 'GenericNode::get_flux_discrepancy'
REG = NE + 'default_study_builder_config'
MODELS = {
    'dc_circuit': ['resistor', 'voltage_source', 'current_source'],
    'heat_transfer': ['conductor', 'convection_interface', 'temperature_delta', 'heat_flux'],
}


class Panics(Exception):
    pass


class Nodal(object):
    def __init__(self, ctx, mode='F'):
        self.ctx, self.db, self.mode = ctx, ctx.db, mode
        self.sums, self.opq, self.made = {}, (DISC,), {}
        self.flux = None          # element -> flux (for get_flux / get_flux_discrepancy kept opaque)
        self.disc = None
        for n in (NODE, ELEM):
            if n not in self.db.adts:
                raise Undecided('no type ' + n)

    def summary(self, path, opaque=(), alias=None):
        """alias: (i, j), argument j is the same object as argument i"""
        k = (path, tuple(opaque), alias)
        if k not in self.sums:
            bs = [self.db.bodies[path]] if path in self.db.bodies else self.db.find(path)
            if not bs:
                raise Undecided('no body of ' + path)
            args = None
            if alias:
                args = Engine(self.db).sym_args(bs[0])
                args[alias[1]] = args[alias[0]]
            eng, outs = self.ctx.engine(bs[0], args, panics=True, opaque=lambda key, p: p in opaque)
            self.sums[k] = (eng, Summary(eng, outs, bs[0]), args or eng.sym_args(bs[0]), bs[0])
        return self.sums[k]

    def mat(self, vals, cols=1):
        f = [None] * 3
        for n, x in (('rows', len(vals) // cols), ('cols', cols), ('vals', list(vals))):
            f[self.db.fi(MAT, n)] = x
        return Agg(MAT, 0, f)

    def vals(self, m):
        """(rows, cols, values) of a matrix"""
        if isinstance(m, Cell):
            m = m.v
        if not isinstance(m, Agg):
            raise Unk('matrix %r' % (m,))
        return tuple(m.f[self.db.fi(MAT, n)] for n in ('rows', 'cols', 'vals'))

    def node(self, pot, locked=False, inputs=(), outputs=()):
        v = self.db.adts[NODE]['variants'][0]['fields']
        f = self.template(NODE, ('potential', 'inputs', 'outputs', 'is_locked', '_metadata'))
        for n, x in (('potential', self.mat(pot)), ('is_locked', locked), ('inputs', list(inputs)), ('outputs', list(outputs))):
            f[self.db.fi(NODE, n)] = x
        return Cell(Agg(NODE, 0, f))

    def template(self, adt, known):
        """field values of a new node or element: what a constructor gives the fields this rule knows nothing of"""
        v = self.db.adts[adt]['variants'][0]['fields']
        if all(x in known for x in v):
            return [Nothing() for _ in v]
        if adt not in self.made:
            self.made[adt] = None
            if adt == NODE:
                r = self.run(ND + 'GenericNode::new', [])
                r = r[:1] + (r[1],)
            else:
                a, b = self.node([0.0]), self.node([0.0])
                r = self.run(EL + 'GenericElement::try_new', [[1.0], a, b, ('pfn', 'none'), False, True, True])
                r = (r[0], r[1].f[0] if r[0] == 'ret' and r[1].vi == 0 else None)
            x = r[1]
            x = x.v if isinstance(x, Cell) else x
            if r[0] == 'ret' and isinstance(x, Agg) and x.p == adt:
                self.made[adt] = x
        if self.made[adt] is None:
            raise Unk('new ' + adt)
        return list(self.made[adt].f)

    def get(self, c, name, adt=NODE):
        v = c.v if isinstance(c, Cell) else c
        if not isinstance(v, Agg):
            raise Unk('no %s of %r' % (name, v))
        x = v.f[self.db.fi(adt, name)]
        if isinstance(x, Sym):
            raise Unk('%s is %r' % (name, x))
        return x

    def pot(self, c): return self.vals(self.get(c, 'potential'))

    def hook(self, ev, t):
        if t.t[0] == 'alive':
            c = ev.ev(t[1])
            if isinstance(c, Cell):
                return True
            if c == 'dropped':
                return False
        if t.t[0] == 'call' and t[1] == 'upgrade':
            return ev.ev(t[2][0])
        return None

    def calls(self, ev, t, p, args):
        if p == GETFLUX and self.flux is not None:
            return self.flux(ev, ev.ev(args[0]))
        if p == DISC and self.disc is not None:
            return self.disc(ev, args)
        if p == 'value':
            f = ev.ev(args[0])
            if isinstance(f, tuple) and f[0] == 'rfn':
                kind, v, w = self.run(f[1], [ev.ev(a) for a in args[1:]], self.opq)
                if kind != 'ret':
                    raise Panics('%s panics' % f[1])
                self.effects.append(w)
                return v
            if callable(f):
                return f(*[ev.ev(a) for a in args[1:]])
        return None

    def law(self, elem):
        """(kind, flux values, writes to nodes) of an element through get_flux"""
        self.effects = []
        try:
            kind, v, w = self.run(GETFLUX, [elem.v if isinstance(elem, Cell) else elem], keep=True)
        except Panics as e:
            return 'panic', str(e), {}
        for x in self.effects:
            w.update(x)
        return kind, v, w

    def construct(self, path, a, b, gains):
        """(kind, element or error, {cell id: (cell, contents)}); the writes are applied to the node cells"""
        kind, v, w = self.run(path, [a, b, list(gains)])
        if kind != 'ret':
            return kind, v
        for c, x in w.values():
            c.v = x
        return ('ok' if v.vi == 0 else 'err'), v.f[0]

    def run(self, path, args, opaque=(), keep=False):
        """(kind, value, {id(cell): (cell, new contents)}); keep: what the call leaves in cells inside its arguments stays there"""
        alias = next(((i, j) for j, y in enumerate(args) for i, x in enumerate(args[:j]) if isinstance(x, Cell) and x is y), None)
        eng, sm, a, b = self.summary(path, opaque, alias)
        kind, v, st, ev = sm.value(dict(zip(a, args)), mode=self.mode, calls=self.calls, hook=self.hook)
        for q, x in zip(a, args) if keep else ():
            own = N('P', q)
            if own in st.mem and isinstance(x, Agg) and st.mem[own] is not eng.initial(own):
                new = ev.ev(eng.deep(st.mem[own], st))
                if not isinstance(new, Agg) or new.p != x.p:
                    raise Unk('state of %s' % x.p)
                x.f = list(new.f)
        if kind != 'ret':
            return kind, v, {}
        w = {}
        mem = N('mem', tuple(N('at', l, eng.deep(x, st)) for l, x in st.mem.items() if l[0] == 'P' and x is not eng.initial(l)))
        w = ev.written(mem)
        return kind, v, w

    def registry(self):
        """{model: (dimension, {element: constructor path})}"""
        eng, sm, a, b = self.summary(REG)
        kind, v, st, ev = sm.value({}, mode='R', calls=self.calls, hook=self.hook)
        if kind != 'ret' or not isinstance(v, dict):
            raise Unk('registry %r' % (v,))
        C = NE + 'NodalAnalysisStudyConfigurator'
        out = {}
        for k, c in v.items():
            d = c.f[self.db.fi(C, 'elements')]
            out[k] = (c.f[self.db.fi(C, 'dimension')], dict(d))
        return out, b

    def agg(self, adt, **kw):
        v = self.db.adts[adt]['variants'][0]['fields']
        f = [None] * len(v)
        for k, x in kw.items():
            f[self.db.fi(adt, k)] = x
        return Agg(adt, 0, f)

    def fields(self, a, adt, *names):
        if not (isinstance(a, Agg) and a.p == adt):
            raise Unk('%r is not a %s' % (a, adt))
        r = [a.f[self.db.fi(adt, x)] for x in names]
        for x in r:
            if isinstance(x, Sym):
                raise Unk('%r' % x)
        return r

    def clo_body(self, clo):
        if not isinstance(clo, Clo):
            raise Unk('closure %r' % (clo,))
        k = clo.k
        if k in self.db.bodies:
            return k
        raise Unk('body of %r' % (k,))
