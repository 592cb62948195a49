from nodal import *

EXPLAIN = ('Value-numbering summaries of the constructor registered under every element name and of its flux calculation (through get_flux), over free node potentials '
           'and gains: the flux term must equal the law of that element, and the element must be registered as an output of its input node and an input of its output node.')

LAW = {
    'resistor': [(1, lambda i, o, g: (i - o) / g[0])],
    'current_source': [(1, lambda i, o, g: g[0])],
    'heat_flux': [(1, lambda i, o, g: g[0])],
    'convection_interface': [(1, lambda i, o, g: (i - o) * g[0])],
    'conductor': [(1, lambda i, o, g: (i - o) * g[0]), (2, lambda i, o, g: (i - o) * g[1] / g[0])],
}
OTHER = {'voltage_source': [(1, None)], 'temperature_delta': [(1, None)]}


def constructors(ctx, n):
    """{(model, element): path}; what is not registered is reported"""
    reg, body = n.registry()
    out = {}
    for m, es in MODELS.items():
        for e in es:
            p = reg.get(m, (0, {}))[1].get(e)
            if isinstance(p, tuple) and p[0] == 'rfn':
                out[m, e] = p[1]
            elif p is None:
                ctx.violation('%s of %s' % (e, m), 'the default configuration of %s has no element type %s' % (m, e), body['span'])
            else:
                raise Unk('constructor %r' % (p,))
    return out


def where(ctx, path):
    b = ctx.db.find(path)
    return b[0]['span'] if b else ''


def elements_of(n, node, name, elem):
    return sum(1 for x in n.get(node, name) if x is elem)


def check(ctx):
    ctx.rule('an element carries the flux of its law from its input node to its output node: resistor (Vi-Vo)/R, conductor k(Ti-To) or (k/l)(Ti-To), convection h(Ti-To), '
             'current source and heat flux their gain; its input node loses it, its output node gains it')
    n = Nodal(ctx)
    x = [v for k, v in sorted(names('flux').items())]
    with ctx.sub('registry'):
        cs = constructors(ctx, n)
        for (m, e), path in sorted(cs.items()):
            for cnt, law in LAW.get(e, ()):
                with ctx.sub('%s with %d gains' % (e, cnt)):
                    w = where(ctx, path)
                    g = x[2:2 + cnt]
                    for li, lo in ((False, False), (True, False), (False, True), (True, True)):
                        a, b = n.node([x[0]], li), n.node([x[1]], lo)
                        kind, el = n.construct(path, a, b, g)
                        if not ctx.check('%s[%d] is created' % (e, cnt), kind == 'ok', '%s with %d gain values %s' % (e, cnt, 'panics' if kind == 'panic' else 'is refused'), w):
                            break
                        kind, v, wr = n.law(el)
                        if kind != 'ret' or v.vi != 0:
                            ctx.violation('%s[%d] flux' % (e, cnt), 'the flux of a %s %s' % (e, 'panics' if kind != 'ret' else 'is an error'), w)
                            break
                        r, c, vals = n.vals(v.f[0])
                        want = law(x[0], x[1], g)
                        if (r, c) != (1, 1) or vals[0] != want:
                            ctx.violation('%s[%d] flux' % (e, cnt), 'the flux of a %s with gains %s between nodes of potential Vi and Vo is not its law' % (e, ['g%d' % i for i in range(cnt)]), w)
                            break
                        ok = not wr and n.pot(a) == (1, 1, [x[0]]) and n.pot(b) == (1, 1, [x[1]]) and n.get(a, 'is_locked') == li and n.get(b, 'is_locked') == lo
                        if not ctx.check('%s[%d] leaves nodes' % (e, cnt), ok, 'a %s changes the potential or the lock of a node' % e, w):
                            break
                        reg = [elements_of(n, q, f, el) for q in (a, b) for f in ('inputs', 'outputs')]
                        if not ctx.check('%s[%d] registration' % (e, cnt), reg == [0, 1, 1, 0],
                                         'a %s is registered %r times as input/output of its input node and input/output of its output node, instead of [0, 1, 1, 0]' % (e, reg), w):
                            break
                    else:
                        ctx.ok('%s[%d] flux' % (e, cnt))
        for (m, e), path in sorted(cs.items()):
            for cnt, law in LAW.get(e, ()):
                with ctx.sub('%s with %d gains, alike' % (e, cnt)):
                    w = where(ctx, path)
                    g = x[2:2 + cnt]
                    a, b = n.node([x[0]]), n.node([x[1]], True)
                    els = []
                    # two of the same, one the other way round, one of another gain, one from a node to itself
                    for p, q, h in ((a, b, g), (a, b, g), (b, a, g), (a, b, x[4:4 + cnt]), (a, a, g), (b, b, g), (a, b, g), (b, a, g), (b, b, g)):
                        kind, el = n.construct(path, p, q, h)
                        els.append(el)
                        if not ctx.check('%s[%d] alike is created' % (e, cnt), kind == 'ok', 'a %s beside others between the same nodes, or from a node to itself, %s' % (e, 'panics' if kind == 'panic' else 'is refused'), w):
                            return
                        reg = [elements_of(n, r, f, el) for r in (a, b) for f in ('inputs', 'outputs')]
                        want = [int(q is a), int(p is a), int(q is b), int(p is b)]
                        if not ctx.check('%s[%d] alike registration' % (e, cnt), reg == want,
                                         'a %s beside others between the same nodes, or from a node to itself, is registered %r times as input/output of the two nodes instead of %r' % (e, reg, want), w):
                            return
                    for el, (p, q, h) in zip(els, ((0, 1, g), (0, 1, g), (1, 0, g), (0, 1, x[4:4 + cnt]), (0, 0, g), (1, 1, g), (0, 1, g), (1, 0, g), (1, 1, g))):
                        kind, v, wr = n.law(el)
                        ok = kind == 'ret' and v.vi == 0 and n.vals(v.f[0]) == (1, 1, [law(x[p], x[q], h)])
                        if not ctx.check('%s[%d] alike flux' % (e, cnt), ok, 'the flux of a %s beside others between the same nodes, or from a node to itself, is not its law' % e, w):
                            return
        nr = Nodal(ctx, 'R')
        base = [3.0, -2.0, 4.0, 0.5]
        for (m, e), path in sorted(cs.items()):
            for cnt, law in LAW.get(e, ()):
                with ctx.sub('%s with %d gains, doubles' % (e, cnt)):
                    sets = [base, [7.5] + base[1:], [-2.0] + base[1:]] + [base[:i] + [d] + base[i + 1:] for i in range(2 + cnt) for d in (0.0, 1e-15, -1e-15, -5.0, 1e12, -1e200) if d or i < 2]
                    sets += [[p, q] + base[2:] for p in (1e-14, 1e3) for q in (0.0, p, 3e-14)]
                    sets += [base[:i] + [d] + base[i + 1:] for i in range(2 + cnt) for d in ctx.floats()]
                    sets += [base[:2 + i] + [d] + base[3 + i:] for i in range(cnt) for d in (4.5e-309, 1.5e308)]
                    # values that coincide
                    sets += [[a, b] + [2.0 if k else c] * cnt for a in (2.0, -2.0, 0.0, 1.0) for b in (2.0, -2.0, 0.0, 1.0) for k in (0, 1) for c in (1.0, -2.0)]
                    sets += [[q + d, q] + base[2:] for q in (0.0, 8.0) for d in ctx.floats()]
                    for p in sets:
                        a, b = nr.node([p[0]]), nr.node([p[1]])
                        kind, el = nr.construct(path, a, b, p[2:2 + cnt])
                        lab = '%s with gain %s between potentials %r and %r' % (e, p[2:2 + cnt], p[0], p[1])
                        if kind != 'ok':
                            ctx.violation('%s[%d] is created' % (e, cnt), 'a %s %s' % (lab, 'panics' if kind == 'panic' else 'is refused'), where(ctx, path))
                            break
                        kind, v, wr = nr.law(el)
                        if kind != 'ret' or v.vi != 0:
                            ctx.violation('%s[%d] flux' % (e, cnt), 'the flux of a %s %s' % (lab, 'panics' if kind != 'ret' else 'is an error'), where(ctx, path))
                            break
                        want = law(p[0], p[1], p[2:2 + cnt])
                        r, c, vals = nr.vals(v.f[0])
                        if (r, c) != (1, 1) or not close(vals[0], want):
                            ctx.violation('%s[%d] flux' % (e, cnt), 'the flux of a %s is %r instead of %r' % (lab, vals[0] if vals else None, want), where(ctx, path))
                            break
                    else:
                        ctx.ok('%s[%d] flux, doubles (%d cases)' % (e, cnt, len(sets)))
        for (m, e), path in sorted(cs.items()):
            for cnt, law in LAW.get(e, ()):
                with ctx.sub('%s with %d gains, one flux after the other' % (e, cnt)):
                    w = where(ctx, path)
                    a, b = nr.node([3.0]), nr.node([-2.0])
                    els = []
                    for g in ([4.0, 0.5], [0.25, 8.0]):
                        kind, el = nr.construct(path, a, b, g[:cnt])
                        if kind != 'ok':
                            raise Unk('construction')
                        els.append((g[:cnt], el))
                    said, pa, pb = [], 3.0, -2.0
                    for i, (p, q) in enumerate(((None, None), (None, 1.0), (7.0, None), (7.0, None), (None, 7.0), (3.0, -2.0), (3.0000001, None), (None, -2.0000001), (0.0, 0.0), (None, 5.0), (1e6, None))):
                        pa, pb = pa if p is None else p, pb if q is None else q
                        for c, x in ((a, pa), (b, pb)):
                            f = list(c.v.f)
                            f[nr.db.fi(NODE, 'potential')] = nr.mat([x])
                            c.v = Agg(NODE, 0, f)
                        for g, el in els if i % 3 else els[::-1]:
                            said.append('gain %s at %r and %r' % (g, pa, pb))
                            kind, v, wr = nr.law(el)
                            want = law(pa, pb, g)
                            got = nr.vals(v.f[0])[2] if kind == 'ret' and v.vi == 0 else None
                            if got is None or len(got) != 1 or not abs(got[0] - want) <= 1e-9 * abs(want):
                                ctx.violation('%s[%d] flux later' % (e, cnt), 'the flux of a %s %s instead of %r, after: %s' % (
                                    e, 'is %r' % got if got else 'panics' if kind != 'ret' else 'is an error', want, '; '.join(said[-4:])), w)
                                return
                    ctx.ok('%s[%d] flux later (%d fluxes)' % (e, cnt, len(said)))
