import math
from nodal import *

EXPLAIN = ('Value-numbering summaries of GenericNode::get_flux_discrepancy and GenericElement::get_flux. The discrepancy is instantiated for nodes with up to three inputs and outputs '
           'and potentials of one to three components, element fluxes being free; get_flux for a free flux function, gain, direction flag and node states.')


def elem(n, calc, gain, a, b, flag):
    v = n.db.adts[ELEM]['variants'][0]['fields']
    f = n.template(ELEM, ('gain', 'input_node', 'output_node', 'flux_calc', 'drives_output'))
    for k, x in (('gain', n.mat(gain)), ('input_node', a), ('output_node', b), ('flux_calc', calc), ('drives_output', flag)):
        f[n.db.fi(ELEM, k)] = x
    return Agg(ELEM, 0, f)


def balance(ctx, n):
    w = ctx.fn(DISC)['span']
    vals = [v for k, v in sorted(names('flux').items())]
    for dim, lock in ((1, False), (2, False), (3, False), (1, True), (2, True)):
        for ni, no in ((0, 0), (1, 0), (0, 1), (1, 1), (2, 1), (1, 2), (3, 3), (3, 0), (0, 4)):
            with ctx.sub('balance %d %d/%d%s' % (dim, ni, no, ' locked' if lock else '')):
                el = ['elem%d' % i for i in range(ni + no)]
                fx = {e: [vals[(3 * i + j) % len(vals)] * F(i + 2) + F(j) for j in range(dim)] for i, e in enumerate(el)}
                n.flux = lambda ev, e: Ok(n.mat(fx[e]))
                nd = n.node([vals[-1 - j] for j in range(dim)], lock, el[:ni], el[ni:])
                for _ in range(2 if ni + no < 6 else 1):
                    kind, v, wr = n.run(DISC, [nd.v], (GETFLUX,))
                if kind != 'ret' or v.vi != 0:
                    ctx.violation('node balance', 'the balance of a %snode with %d inputs and %d outputs of %d components %s' % ('locked ' if lock else '', ni, no, dim, 'panics' if kind != 'ret' else 'is an error'), w)
                    return
                want = [sum((fx[e][j] for e in el[:ni]), F(0)) - sum((fx[e][j] for e in el[ni:]), F(0)) for j in range(dim)]
                r, c, got = n.vals(v.f[0])
                if (r, c) != (dim, 1) or any(a != b for a, b in zip(got, want)):
                    ctx.violation('node balance', 'the balance of a %snode with %d inputs and %d outputs is not the flux of its inputs less the flux of its outputs' % ('locked ' if lock else '', ni, no), w)
                    return
                if not ctx.check('node balance leaves nodes', not wr, 'computing a balance changes a node', w):
                    return
        ctx.ok('node balance of %d components%s' % (dim, ', locked' if lock else ''))
    for k in ctx.lengths(17, 70, hi=1100):
        for ni, no in ((k, 2), (1, k)):
            with ctx.sub('balance %d/%d' % (ni, no)):
                el = ['elem%d' % i for i in range(ni + no)]
                at = {e: i for i, e in enumerate(el)}
                n.flux = lambda ev, e: Ok(n.mat([vals[at[e] % 7] * F(at[e] + 1)]))
                kind, v, wr = n.run(DISC, [n.node([vals[-1]], False, el[:ni], el[ni:]).v], (GETFLUX,))
                want = sum((vals[i % 7] * F(i + 1) * F(1 if i < ni else -1) for i in range(ni + no)), F(0))
                ctx.check('node balance', kind == 'ret' and v.vi == 0 and n.vals(v.f[0]) == (1, 1, [want]),
                          'the balance of a node with %d inputs and %d outputs is not the flux of its inputs less the flux of its outputs' % (ni, no), w)
    # fluxes that coincide, vanish, or are the potential of the node
    for what, fl in (('equal', lambda i: vals[0]), ('pairwise equal', lambda i: vals[i // 2]), ('equal across', lambda i: vals[i % 2]), ('opposite', lambda i: vals[0] * F(1 if i % 2 else -1)),
                     ('none', lambda i: F(0)), ('one each', lambda i: F(1)), ('none but one', lambda i: vals[1] if i == 2 else F(0)), ('the potential', lambda i: vals[-1])):
        for ni, no in ((1, 1), (2, 2), (2, 1), (1, 2), (3, 0), (0, 3)):
            for lock in (False, True):
                with ctx.sub('balance, fluxes %s %d/%d' % (what, ni, no)):
                    el = ['elem%d' % i for i in range(ni + no)]
                    n.flux = lambda ev, e: Ok(n.mat([fl(el.index(e))]))
                    kind, v, wr = n.run(DISC, [n.node([vals[-1]], lock, el[:ni], el[ni:]).v], (GETFLUX,))
                    want = sum((fl(i) for i in range(ni)), F(0)) - sum((fl(i) for i in range(ni, ni + no)), F(0))
                    ctx.check('node balance', kind == 'ret' and v.vi == 0 and n.vals(v.f[0]) == (1, 1, [want]),
                              'the balance of a node with %d inputs and %d outputs whose fluxes are %s is not the flux of its inputs less the flux of its outputs' % (ni, no, what), w)
    with ctx.sub('balance later'):
        el = ['elem%d' % i for i in range(3)]
        nd = n.node([vals[0]], False, el[:1], el[1:])
        for i in range(6):
            if i == 3:
                f = list(nd.v.f)
                f[n.db.fi(NODE, 'inputs')] = el[:1] + ['elem3']
                nd.v = Agg(NODE, 0, f)
            fx = {'elem%d' % j: vals[(i // 2 + j) % len(vals)] * F(i // 2 + j + 2) for j in range(4)}
            n.flux = lambda ev, e: Ok(n.mat([fx[e]]))
            kind, v, wr = n.run(DISC, [nd.v], (GETFLUX,), keep=True)
            want = sum((fx[e] for e in n.get(nd, 'inputs')), F(0)) - fx['elem1'] - fx['elem2']
            if not ctx.check('node balance later %d' % i, kind == 'ret' and v.vi == 0 and n.vals(v.f[0]) == (1, 1, [want]), 'a node asked for its balance again does not give the balance of the fluxes there are now', w):
                break
    nr = Nodal(ctx, 'R')
    with ctx.sub('balance, doubles'):
        base = [1.5, -0.25, 3.0, 8.0]
        sets = [base] + [base[:i] + [d] + base[i + 1:] for i in range(4) for d in [0.0, 1e-15, -1e-15, 1e15, -1e200] + ctx.floats()]
        sets += [[d, 0.0, 0.0, 0.0] for d in [1e-15, 1e15] + ctx.floats()] + [[0.0, 0.0, d, 0.0] for d in [1e-15, 1e15] + ctx.floats()]
        sets += [base[:i] + [d] + base[i + 1:] for i in range(4) for d in (math.inf, -math.inf, math.nan)]
        for fl in sets:
            el = ['elem%d' % i for i in range(4)]
            nr.flux = lambda ev, e: Ok(nr.mat([fl[el.index(e)]]))
            kind, v, wr = nr.run(DISC, [nr.node([2.0], False, el[:2], el[2:]).v], (GETFLUX,))
            want = fl[0] + fl[1] - (fl[2] + fl[3])
            if kind != 'ret' or v.vi != 0 or not (close(nr.vals(v.f[0])[2][0], want) if math.isfinite(want) else repr(nr.vals(v.f[0])[2][0]) == repr(want)):
                ctx.violation('node balance', 'the balance of a node whose inputs carry %r and outputs %r %s' % (fl[:2], fl[2:], 'panics' if kind != 'ret' else 'is an error' if v.vi else 'is %r' % nr.vals(v.f[0])[2]), w)
                break
        else:
            ctx.ok('balance, doubles (%d cases)' % len(sets))
    for bad in range(4):
        with ctx.sub('balance error %d' % bad):
            el = ['elem%d' % i for i in range(4)]
            n.flux = lambda ev, e: Er('flux') if e == el[bad] else Ok(n.mat([vals[0]]))
            kind, v, wr = n.run(DISC, [n.node([vals[1]], False, el[:2], el[2:]).v], (GETFLUX,))
            ctx.check('flux error %d' % bad, kind == 'ret' and v.vi == 1,
                      'a node %s when the flux of one of its %s cannot be calculated' % ('panics' if kind != 'ret' else 'reports a balance', 'outputs' if bad > 1 else 'inputs'), w)
    n.flux = None


def delegate(ctx, n):
    w = ctx.fn(GETFLUX)['span']
    vals = [v for k, v in sorted(names('flux').items())]
    for flag in (False, True):
        for err in (False, True):
            with ctx.sub('get_flux %s %s' % (flag, err)):
                a, b = n.node([vals[0]]), n.node([vals[1]])
                seen = []

                def calc(*args):
                    seen.append(args)
                    return Er('calc') if err else Ok(n.mat([vals[3]]))
                kind, v, wr = n.law(elem(n, calc, [vals[2]], a, b, flag))
                if err:
                    ctx.check('get_flux error', kind == 'ret' and v.vi == 1, 'get_flux %s when its flux function gives an error' % ('panics' if kind != 'ret' else 'gives a flux'), w)
                    continue
                if not ctx.check('get_flux result', kind == 'ret' and v.vi == 0 and n.vals(v.f[0]) == (1, 1, [vals[3]]), 'get_flux does not give the flux of the element\'s flux function', w):
                    return
                bad = [s for s in seen if not (len(s) == 4 and s[0] is a and s[1] is b and n.vals(s[2]) == (1, 1, [vals[2]]) and bool(s[3]) == flag)]
                ctx.check('get_flux arguments', not bad, 'the flux function of an element is not called with its input node, output node, gain and direction flag', w)
                ctx.check('get_flux leaves nodes', not wr, 'get_flux itself changes a node', w)
    with ctx.sub('get_flux later'):
        a, b = n.node([vals[0]]), n.node([vals[1]])
        now = [None]
        el = elem(n, lambda *q: Ok(n.mat([now[0]])), [vals[2]], a, b, False)
        for i, (p, q) in enumerate(((0, 1), (0, 1), (2, 1), (2, 3), (0, 3), (0, 1), (0, 1))):
            for c, k in ((a, p), (b, q)):
                f = list(c.v.f)
                f[n.db.fi(NODE, 'potential')] = n.mat([vals[k]])
                c.v = Agg(NODE, 0, f)
            # the nodes' own fluxes may change what a flux function gives although these two nodes stay as they are
            now[0] = vals[i % len(vals)] + F(i)
            kind, v, wr = n.law(el)
            if not ctx.check('get_flux later %d' % i, kind == 'ret' and v.vi == 0 and n.vals(v.f[0]) == (1, 1, [now[0]]),
                             'an element asked for its flux again does not give what its flux function gives now', w):
                break
    for dead in ((1, 0), (0, 1), (1, 1)):
        with ctx.sub('dropped %r' % (dead,)):
            a, b = ('dropped' if d else n.node([vals[0]]) for d in dead)
            kind, v, wr = n.law(elem(n, lambda *a: Ok(n.mat([vals[3]])), [vals[2]], a, b, False))
            ctx.check('get_flux of dropped nodes %d%d' % dead, kind == 'ret' and v.vi == 1, 'get_flux %s although a node of the element no longer exists' % ('panics' if kind != 'ret' else 'gives a flux'), w)


def check(ctx):
    ctx.rule('the balance of a node is, component by component, the sum of the fluxes of its inputs less the sum of the fluxes of its outputs; the flux of an element is what its flux function gives for '
             'its nodes, gain and direction; errors are passed on, dropped nodes are an error')
    n = Nodal(ctx)
    balance(ctx, n)
    delegate(ctx, n)
