from nodal import *
from n01 import constructors, where, elements_of

EXPLAIN = ('Value-numbering summaries of the constructors registered as voltage_source and temperature_delta and of the flux calculation they give their elements, '
           'instantiated for every combination of locked nodes and free potentials, differences and fluxes of the other elements of the nodes.')

SOURCES = {'voltage_source', 'temperature_delta'}


def source(ctx, n, name, path, v=None, note=''):
    w = where(ctx, path)
    v = v or [q for k, q in sorted(names('source').items())]

    def is_(got, want):
        return got[:2] == want[:2] and len(got[2]) == len(want[2]) and all(x == y or isinstance(y, float) and close(x, y) for x, y in zip(got[2], want[2]))
    n.opq = (GETFLUX,)
    flux = {'ai': v[3], 'ao': v[4], 'bi': v[5], 'bo': v[6]}
    n.flux = lambda ev, e: Ok(n.mat([flux[e]]))
    for li, lo in ((False, False), (True, False), (False, True), (True, True)):
        a, b = n.node([v[0]], li, ['ai'], ['ao']), n.node([v[1]], lo, ['bi'], ['bo'])
        kind, el = n.construct(path, a, b, [v[2]])
        lab = '%s between %s input and %s output%s' % (name, 'locked' if li else 'free', 'locked' if lo else 'free', note)
        if li and lo:
            ctx.check(lab + ' refused', kind == 'err', 'a %s between two nodes of fixed potential %s' % (name, 'panics' if kind == 'panic' else 'is accepted'), w)
            continue
        if not ctx.check(lab + ' accepted', kind == 'ok', 'a %s %s' % (lab, 'panics' if kind == 'panic' else 'is refused'), w):
            continue
        locks = (n.get(a, 'is_locked'), n.get(b, 'is_locked'))
        lk = tuple(bool(q) for q in locks)
        if not ctx.check(lab + ' lock', lk in ((True, False), (False, True)) if not (li or lo) else lk == (True, True),
                         'a %s leaves input and output locked as %r' % (lab, lk), w):
            continue
        out = lk[1] and not lo              # the node it drives
        if not (li or lo) and not out and not lk[0]:
            continue
        drv, dvn = (a, b) if out else (b, a)
        base = v[0] if out else v[1]
        want = base + v[2] if out else base - v[2]
        if not ctx.check(lab + ' potential', is_(n.pot(dvn), (1, 1, [want])) and is_(n.pot(drv), (1, 1, [base])),
                         'after adding a %s the potential of the output is not that of the input plus the difference, the driving node keeping its own' % lab, w):
            continue
        # registration: the driving node alone counts its flux
        got = [elements_of(n, q, f, el) for q in (a, b) for f in ('inputs', 'outputs')]
        want_reg = [0, 1, 0, 0] if out else [0, 0, 1, 0]
        if not ctx.check(lab + ' registration', got == want_reg,
                         'a %s is registered %r times as input/output of its input node and input/output of its output node; the driving node alone must count it' % (lab, got), w):
            continue
        # later: driver moved
        fi = n.db.fi(NODE, 'potential')
        for c, p in ((drv, v[7]), (dvn, v[0] + v[7])):
            f = list(c.v.f)
            f[fi] = n.mat([p])
            for fld in ('inputs', 'outputs'):
                i = n.db.fi(NODE, fld)
                f[i] = [q for q in f[i] if q is not el]
            c.v = Agg(NODE, 0, f)
        kind, r, wr = n.law(el)
        if kind != 'ret' or r.vi != 0:
            ctx.violation(lab + ' flux', 'the flux of a %s %s' % (lab, 'panics' if kind != 'ret' else 'is an error'), w)
            continue
        for c, x in wr.values():
            c.v = x
        want = v[7] + v[2] if out else v[7] - v[2]
        ctx.check(lab + ' follows', is_(n.pot(dvn), (1, 1, [want])) and is_(n.pot(drv), (1, 1, [v[7]])),
                  'when its flux is calculated, a %s does not set the driven node to the potential of the driving node %s the difference' % (lab, 'plus' if out else 'less'), w)
        bal = flux['bi'] - flux['bo'] if out else flux['ai'] - flux['ao']
        ctx.check(lab + ' flux', is_(n.vals(r.f[0]), (1, 1, [-bal if out else bal])),
                  'the flux of a %s from input to output is not the one that balances the driven node' % lab, w)
        same = all(n.get(c, f) == g for c, f, g in ((a, 'inputs', ['ai']), (a, 'outputs', ['ao']), (b, 'inputs', ['bi']), (b, 'outputs', ['bo'])))
        ctx.check(lab + ' leaves', same and tuple(bool(n.get(c, 'is_locked')) for c in (a, b)) == lk, 'calculating the flux of a %s changes the locks or elements of its nodes' % lab, w)
    # flux of the driven node unavailable
    for li in (False, True):
        a, b = n.node([v[0]], False, ['ai'], ['ao']), n.node([v[1]], li, ['bi'], ['bo'])
        kind, el = n.construct(path, a, b, [v[2]])
        n.flux = lambda ev, e: Er('flux')
        if kind == 'ok':
            f = list(a.v.f)
            for c in (a, b):
                f = list(c.v.f)
                for fld in ('inputs', 'outputs'):
                    i = n.db.fi(NODE, fld)
                    f[i] = [q for q in f[i] if q is not el]
                c.v = Agg(NODE, 0, f)
            kind, r, wr = n.law(el)
            ctx.check('%s flux error %s' % (name, li), kind == 'ret' and r.vi == 1, 'a %s %s when the fluxes of the driven node cannot be calculated' % (name, 'panics' if kind != 'ret' else 'gives a flux'), w)
        n.flux = lambda ev, e: Ok(n.mat([flux[e]]))


def check(ctx):
    ctx.rule('a source fixes exactly one node that was free (refused if there is none), whose potential stays that of the other node plus (output) or less (input) the difference, whatever '
             'the other node\'s potential becomes; its flux balances the driven node, and the driving node alone counts it')
    n = Nodal(ctx)
    with ctx.sub('registry'):
        for (m, e), path in sorted(constructors(ctx, n).items()):
            if e in SOURCES:
                with ctx.sub(e):
                    source(ctx, n, e, path)
        nr = Nodal(ctx, 'R')
        for (m, e), path in sorted(constructors(ctx, n).items()):
            if e in SOURCES:
                with ctx.sub(e + ', doubles'):
                    base = [2.5, -1.25, 3.0, 0.5, -0.75, 4.0, 1.5, -6.0]
                    sets = [(2, d) for d in (0.0, -3.0, 1e-15, -1e-15, 1e12, -1e300)] + [(i, d) for i in (0, 1, 3, 5, 7) for d in (0.0, 1e-15, -1e15)]
                    sets += [(i, d) for d in ctx.floats() for i in (0, 1, 2, 3, 5, 7)]
                    # the driven node is nearly where it belongs already; its balance nearly zero
                    more = [[base[2] + d] + base[1:] for d in [1e-15, 1e-9] + ctx.floats()] + [[base[0], base[2] + d] + base[2:] for d in ctx.floats()]
                    more += [[base[0] - base[2] + d if i == 1 else q for i, q in enumerate(base)] for d in ctx.floats()]
                    more += [base[:3] + [d, 0.0, d, 0.0, base[7]] for d in [1e-15] + ctx.floats()] + [base[:3] + [0.0, d, 0.0, d, base[7]] for d in [1e-15] + ctx.floats()]
                    # values that coincide
                    more += [[2.0] * 8, [1.0] * 8, [0.0] * 8, [2.0, -2.0] * 4, [2.0, 2.0, 0.0, 1.0, 1.0, 1.0, 1.0, 2.0], [2.0, 4.0, -2.0, 1.0, -1.0, 1.0, -1.0, 4.0], [3.0, 0.0, -3.0, 0.0, 0.0, 0.0, 0.0, 3.0]]
                    for vals in more:
                        source(ctx, nr, e, path, vals, ' (values %r)' % (vals,))
                    for i, d in sets:
                        source(ctx, nr, e, path, base[:i] + [d] + base[i + 1:], ' (%s %r)' % (['potential of the input', 'potential of the output', 'difference', 'flux', '', 'flux', '', 'later potential'][i], d))
