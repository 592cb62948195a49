from nodal import *
from n01 import constructors, where
from n04 import SB
from n05 import Study, World, RUN
from evalx import hk

EXPLAIN = ('The value-numbering summaries of run_study, of every registered element constructor and of the node helper functions, instantiated for invalid models and nodes that no longer exist: '
           'the selected outcome must be an error value, not a panic and not a result.')
GAINS = {'conductor': (1, 2)}
HELP = ['is_locked', 'lock_node', 'get_node_potential', 'set_node_potential']


def bad_models(ctx, n, w):
    s = Study(ctx, n)
    ok = (1, 3, {0: ('k', True)}, [('p', 0, 1), ('p', 1, 2)])
    cases = [('unknown model type', ok, {'mtype': 'other'}), ('unknown element type', ok, {'types': 'sec'})]
    for i, o in ((3, 0), (0, 3), (7, 9), (1, 2 ** 40)):
        cases.append(('element from node %d to node %d of 3' % (i, o), (1, 3, ok[2], ok[3] + [('p', i, o)]), {}))
    for k in (3, 9):
        cases.append(('configuration of node %d of 3' % k, (1, 3, {0: ('k', True), k: ('k', True)}, ok[3]), {}))
    cases.append(('configuration of node 0 of 0', (1, 0, {0: ('k', False)}, []), {}))
    for k in ctx.lengths(30, 300, hi=1100):
        lk = {i: ('k', True) for i in range(k) if i != 1}
        cases += [('element from node %d to node 0 of %d' % (k, k), (1, k, lk, [('p', 0, 1), ('p', k, 0)]), {}),
                  ('element from node 1 to node %d of %d' % (k, k), (1, k, lk, [('p', 0, 1), ('p', 1, k)]), {}),
                  ('configuration of node %d of %d' % (k, k), (1, k, {**lk, k: ('k', True)}, [('p', 0, 1)]), {}),
                  ('%d elements of which the last has no node to end in' % k, (1, 3, ok[2], [('p', i % 3, (i + 1) % 3) for i in range(k - 1)] + [('p', 1, 3)]), {})]
    for what, m, kw in cases:
        with ctx.sub(what):
            one(ctx, n, s, w, what, m, kw, None)
    for dim, ln in ((1, 0), (1, 2), (2, 1), (2, 3)):
        for lk in (True, False):
            what = 'potential of %d components for a model of %d' % (ln, dim)
            with ctx.sub(what):
                one(ctx, n, s, w, what, (dim, 2, {0: ('k', lk)}, [('p', 0, 1)]), {}, ln)


def one(ctx, n, s, w, what, m, kw, ln):
    bd, pots, gains = s.build(*m, **kw)
    if ln is not None:
        from n04 import MODEL, META
        md, = n.fields(bd, SB, 'model')
        conf, = n.fields(md, MODEL, 'configuration')
        for k in conf:
            lk, mt = n.fields(conf[k], META, 'is_locked', 'metadata')
            conf[k] = n.agg(META, potential=[s.free() for _ in range(ln)], is_locked=lk, metadata=mt)
    wl = World(ctx, n, m[0])
    wl.at_solver = lambda fns, guess, margin, limit: Ok({k: s.free() for k in guess})
    try:
        kind, v = wl.run(bd)
    except OOB as e:
        raise Unk('oob %s' % e)
    ctx.check(what, kind == 'ret' and v.vi == 1, 'a study of a model with %s %s' % (what, 'panics' if kind != 'ret' else 'reports results'), w)


def bad_elements(ctx, n):
    x = [q for k, q in sorted(names('bad').items())]
    for (m, e), path in sorted(constructors(ctx, n).items()):
        w = where(ctx, path)
        for cnt in range(4):
            if cnt in GAINS.get(e, (1,)):
                continue
            with ctx.sub('%s with %d gains' % (e, cnt)):
                for li, lo in ((False, False), (True, False), (False, True)):
                    a, b = n.node([x[0]], li), n.node([x[1]], lo)
                    kind, v = n.construct(path, a, b, x[2:2 + cnt])
                    if not ctx.check('%s with %d gains' % (e, cnt), kind == 'err', 'a %s with %d gain values %s' % (e, cnt, 'panics' if kind == 'panic' else 'is accepted'), w):
                        break
        for da, db in ((1, 0), (0, 1), (1, 1)):
            with ctx.sub('%s dropped %d%d' % (e, da, db)):
                a = 'dropped' if da else n.node([x[0]])
                b = 'dropped' if db else n.node([x[1]])
                kind, v = n.construct(path, a, b, [x[2]])
                ctx.check('%s dropped %d%d' % (e, da, db), kind == 'err', 'a %s with a node that no longer exists %s' % (e, 'panics' if kind == 'panic' else 'is accepted'), w)


def helpers(ctx, n):
    x = [q for k, q in sorted(names('help').items())]
    for h in HELP:
        p = NE + h
        w = ctx.public(p)['span']
        ex = [[x[5]]] if h.startswith('set') else []
        with ctx.sub(h + ' dropped'):
            kind, v, wr = n.run(p, ['dropped'] + ex)
            ctx.check(h + ' dropped', kind == 'ret' and v.vi == 1, '%s of a node that no longer exists %s' % (h, 'panics' if kind != 'ret' else 'is not an error'), w)
        for lk in (True, False):
            with ctx.sub('%s %s' % (h, lk)):
                c = n.node([x[0]], lk, ['i'], ['o'])
                kind, v, wr = n.run(p, [Cell(c)] + ex)
                if not ctx.check(h + ' succeeds', kind == 'ret' and v.vi == 0, '%s of a node %s' % (h, 'panics' if kind != 'ret' else 'is an error'), w):
                    continue
                for q, y in wr.values():
                    q.v = y
                pot, lock = n.pot(c), n.get(c, 'is_locked')
                want = (1, 1, [x[5]]) if h == 'set_node_potential' else (1, 1, [x[0]])
                ok = pot == want and bool(lock) == (lk or h == 'lock_node') and n.get(c, 'inputs') == ['i'] and n.get(c, 'outputs') == ['o']
                ctx.check(h + ' effect', ok, '%s does not leave the node as documented (potential, lock and elements)' % h, w)
                r = v.f[0]
                if h == 'is_locked':
                    ctx.check(h + ' result', isinstance(r, (bool, int)) and bool(r) == lk, 'is_locked does not give the lock of the node', w)
                if h == 'get_node_potential':
                    ctx.check(h + ' result', n.vals(r) == (1, 1, [x[0]]), 'get_node_potential does not give the potential of the node', w)


def check(ctx):
    ctx.rule('a model of unknown type, with unknown element types, nodes that do not exist, potentials of the wrong dimension or the wrong number of gains is an error; operations on nodes that no longer '
             'exist are errors; on nodes that do, the helpers read and change exactly what they name')
    n = Nodal(ctx)
    w = ctx.public(RUN)['span']
    bad_models(ctx, n, w)
    with ctx.sub('elements'):
        bad_elements(ctx, n)
    with ctx.sub('helpers'):
        helpers(ctx, n)
