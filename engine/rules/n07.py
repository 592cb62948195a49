from nodal import *
from n05 import RUN, SOLVER

EXPLAIN = ('Typestate of RefCell guards on the paths of the value-numbering summaries: every borrow, drop of a guard and flux-computing call is an event; guards live at an event are tracked along every '
           'path and into every loop body.')
FLUXMOD = NE + 'flux_formulas::'
READERS = [NE + 'is_locked', NE + 'get_node_potential', DISC, GETFLUX, FLUXMOD + 'normal_flux', FLUXMOD + 'constant_flux']


def guard(ty):
    return 'mut' if 'cell::RefMut<' in ty else 'shared' if 'cell::Ref<' in ty else None


class Walk(object):
    def __init__(self, ctx, name, eng):
        self.ctx, self.name, self.eng = ctx, name, eng
        self.starts = {}            # loop -> live guards when it is entered
        self.bad = {}
        self.nb = self.nc = 0

    def events(self, evs, live, flux):
        live = list(live)
        for e in evs:
            if e[0] == 'borrow':
                kind, ref, site = e[1], e[2], e[3]
                self.nb += 1
                for k, r, s in live:
                    if r is ref and 'mut' in (k, kind):
                        self.bad['conflict ' + self.name] = ('%s borrows a node %s while it still holds a %s borrow of the same node (%s): this always fails' % (
                            self.name, 'exclusively' if kind == 'mut' else '', 'shared' if k == 'shared' else 'exclusive', s), site)
                live.append((kind, ref, site))
            elif e[0] == 'drop' and isinstance(e[2], str) and guard(e[2]):
                k = guard(e[2])
                for i, g in enumerate(live):
                    if g[0] == k and g[1] is e[1]:
                        del live[i]
                        break
                else:
                    if isn(e[1], 'ref') or isn(e[1], 'P'):
                        raise Unk('guard dropped that was not seen: %s' % show(e[1])[:80])
            elif e[0] == 'call':
                self.nc += 1
                p = e[1]
                if p in (GETFLUX, DISC, 'value') or p.startswith(SOLVER):
                    for k, r, s in live:
                        if k == 'mut':
                            self.bad['flux ' + self.name] = ('%s computes fluxes while it holds an exclusive borrow of a node (%s)' % (self.name, s), e[4])
            elif e[0] == 'loop':
                self.starts.setdefault(e[1], []).append(tuple(live))
        return live


def walk(ctx, name, body):
    eng, outs = ctx.engine(body, panics=False, opaque=lambda key, p: p in (GETFLUX, DISC, SOLVER) and p != body['path'])
    w = Walk(ctx, name, eng)
    for kind, val, st in outs:
        if kind != 'ret':
            continue
        left = w.events(st.ev, (), True)
        if left:
            raise Unk('guards outlive ' + name)
    done = set()
    while True:
        todo = [(l, s) for l, ss in w.starts.items() for s in ss if (l, s) not in done]
        if not todo:
            break
        for l, s in todo:
            done.add((l, s))
            if l in eng.loops:
                for b in eng.loops[l]['backs']:
                    w.events(b['ev'], s, True)
    return w


def check(ctx):
    ctx.rule('reading a potential or a lock, balancing a node and the passive flux functions never borrow a node exclusively; no function computes fluxes while it holds an exclusive borrow; '
             'no function borrows a node that it still holds in a conflicting way')
    mods = ('neapolitan::',)
    names_ = []
    for p, b in sorted(ctx.db.bodies.items()):
        if (p.startswith(mods) or p.startswith('<neapolitan::')) and '::main' not in p and b.get('blocks') is not None:
            names_.append(p)
    for p in names_:
        body = ctx.db.bodies[p]
        with ctx.sub(p):
            w = walk(ctx, p.replace(NE, ''), body)
            for k, (m, s) in w.bad.items():
                ctx.violation(k, m, s)
            if not w.bad:
                ctx.ok(p, '%d borrows, %d calls' % (w.nb, w.nc))
    for p in READERS:
        with ctx.sub('reader ' + p):
            body = ctx.fn(p)
            eng, outs = ctx.engine(body, panics=False, opaque=lambda key, q: q in (GETFLUX, DISC) and q != p)
            evs = [e for kind, val, st in outs for e in st.ev] + [e for l in eng.loops.values() for b in l['backs'] for e in b['ev']]
            mut = [e for e in evs if e[0] == 'borrow' and e[1] == 'mut']
            ctx.check('reader ' + p, not mut, '%s only reads nodes but borrows one exclusively, which fails wherever the node is being read (as during every balance)' % p.replace(NE, ''), mut[0][3] if mut else '')
