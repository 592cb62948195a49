from nodal import *
from n01 import constructors

EXPLAIN = ('Value-numbering summaries of the model registry and of the builder methods, instantiated for empty and non-empty builders: each method is compared with the change of the model it stands for.')
SB, SC = NE + 'NodalAnalysisStudyBuilder', NE + 'NodalAnalysisStudyConfigurator'
MODEL, MEL, META = NE + 'modelling::NodalAnalysisModel', NE + 'modelling::NodalAnalysisElement', NE + 'modelling::NodalMetadata'


def same(a, b):
    if isinstance(a, Agg) and isinstance(b, Agg):
        return a.p == b.p and a.vi == b.vi and len(a.f) == len(b.f) and all(same(x, y) for x, y in zip(a.f, b.f))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) == type(b) and a == b


class B(object):
    def __init__(self, n):
        self.n = n

    def meta(self, pot, lock, md): return self.n.agg(META, potential=pot, is_locked=lock, metadata=md)
    def elem(self, t, i, o, g): return self.n.agg(MEL, element_type=t, input=i, output=o, gain=g)

    def model(self, t, n, conf, els):
        return self.n.agg(MODEL, model_type=t, nodes=n, configuration=conf, elements=els)

    def builder(self, conf, model): return self.n.agg(SB, configurator=conf, model=model)
    def config(self, dim, els): return self.n.agg(SC, dimension=dim, elements=els)


def check(ctx):
    ctx.rule('each model offers the documented elements with scalar potentials; adding nodes, configurations and elements changes the model by exactly that, an element only between nodes that exist; '
             'a builder for a model unknown to its configuration and a second element type of one name are refused')
    n = Nodal(ctx, 'R')
    b = B(n)
    with ctx.sub('registry'):
        reg, body = n.registry()
        cs = constructors(ctx, n)
        for m, es in MODELS.items():
            ctx.check(m, m in reg, 'the default configuration has no model ' + m, body['span'])
            if m in reg:
                ctx.check(m + ' dimension', reg[m][0] == 1, 'potentials of %s have %r components instead of one' % (m, reg[m][0]), body['span'])
        ctx.check('distinct names', len(cs) == 7 or len(set(cs)) == len(cs), 'elements missing', body['span'])

    def w(m): return ctx.fn(m)['span']

    def run(path, *args):
        return n.run(path, list(args))[:2]
    conf = {'u': b.config(2, {'x': ('fn', 1)}), 't': b.config(1, {})}
    els = [b.elem('x', 0, 1, [1.5]), b.elem('y', 2, 0, [])]
    models = [('empty', b.model('t', 0, {}, [])), ('model', b.model('u', 3, {1: b.meta([2.0], True, Nothing())}, els))]
    # new
    p = SB + '::new'
    with ctx.sub('new'):
        for t in ('t', 'u', 'v', ''):
            kind, v = run(p, t, Some(conf))
            if t in conf:
                ctx.check('new ' + t, kind == 'ret' and v.vi == 0 and same(v.f[0], b.builder(conf, b.model(t, 0, {}, []))),
                          'a new builder for a model of its configuration is not that empty model with that configuration', w(p))
            else:
                ctx.check('new ' + t, kind == 'ret' and v.vi == 1, 'a builder for a model that is not in its configuration is not refused', w(p))
        for t in list(MODELS) + ['other']:
            kind, v = run(p, t, Nothing())
            ok = kind == 'ret' and v.vi == (0 if t in MODELS else 1)
            if ok and v.vi == 0:
                c, m = n.fields(v.f[0], SB, 'configurator', 'model')
                ok = same(m, b.model(t, 0, {}, [])) and set(c) == set(reg)
            ctx.check('new default ' + t, ok, 'a builder with the default configuration is wrong for model type "%s"' % t, w(p))
    p = SB + '::from_model_with_default_config'
    with ctx.sub('from model'):
        for lab, m in models:
            kind, v = run(p, m)
            ok = kind == 'ret'
            if ok:
                c, m2 = n.fields(v, SB, 'configurator', 'model')
                ok = same(m2, m) and set(c) == set(reg)
            ctx.check('from model ' + lab, ok, 'a builder made from a model does not hold that model and the default configuration', w(p))
    for lab, m in models:
        t, cnt, cf, el = n.fields(m, MODEL, 'model_type', 'nodes', 'configuration', 'elements')
        bd = b.builder(conf, m)
        p = SB + '::add_nodes'
        with ctx.sub('add_nodes ' + lab):
            for k in (0, 1, 4):
                kind, v = run(p, bd, k)
                ctx.check('add_nodes %s %d' % (lab, k), kind == 'ret' and same(v, b.builder(conf, b.model(t, cnt + k, cf, el))),
                          'adding %d nodes to a model of %d does not give that model with %d nodes' % (k, cnt, cnt + k), w(p))
        p = SB + '::configure_node'
        with ctx.sub('configure_node ' + lab):
            for i in (0, 1, 2):
                for lock in (True, False):
                    for md in (Nothing(), Some({'a': 1.0})):
                        kind, v = run(p, bd, i, [3.5], lock, md)
                        c2 = dict(cf)
                        c2[i] = b.meta([3.5], lock, md)
                        ctx.check('configure_node %s %d' % (lab, i), kind == 'ret' and same(v, b.builder(conf, b.model(t, cnt, c2, el))),
                                  'configuring a node does not give the model with that potential, lock and metadata for that node', w(p))
        p = SB + '::add_element'
        with ctx.sub('add_element ' + lab):
            for i in range(5):
                for o in range(5):
                    kind, v = run(p, bd, 'x', i, o, [2.5, 3.5])
                    if i < cnt and o < cnt:
                        ok = kind == 'ret' and v.vi == 0 and same(v.f[0], b.builder(conf, b.model(t, cnt, cf, list(el) + [b.elem('x', i, o, [2.5, 3.5])])))
                        ctx.check('add_element %s' % lab, ok, 'adding an element between existing nodes does not append that element, with its type, nodes and gain, to the model', w(p))
                    else:
                        ctx.check('add_element %s missing' % lab, kind == 'ret' and v.vi == 1,
                                  'an element with a node that does not exist (%d nodes, element from %d to %d) %s' % (cnt, i, o, 'panics' if kind != 'ret' else 'is accepted'), w(p))
    # numbers of nodes and elements, indices and values of every magnitude
    for q in ('add_nodes', 'configure_node', 'add_element'):
        with ctx.sub('summary of ' + q):
            n.summary(SB + '::' + q)
    many = [7, 40, 300, 5000, 70000, 10 ** 7] + ctx.ints(lo=5)
    p = SB + '::add_nodes'
    with ctx.sub('add_nodes many'):
        for k in many:
            for c in (0, 3, k - 1):
                kind, v = run(p, b.builder(conf, b.model('t', c, {}, [])), k)
                ctx.check('add_nodes many', kind == 'ret' and same(v, b.builder(conf, b.model('t', c + k, {}, []))), 'adding %d nodes to a model of %d does not give that model with %d nodes' % (k, c, c + k), w(p))
    p = SB + '::configure_node'
    with ctx.sub('configure_node values'):
        for i, x in enumerate(ctx.probes()):
            k, md = many[i % len(many)], Some({'a': x, 'b': -x})
            kind, v = run(p, b.builder(conf, b.model('t', k + 1, {}, [])), k, [x, 1.0, -x], i % 2 == 0, md)
            ctx.check('configure_node values', kind == 'ret' and same(v, b.builder(conf, b.model('t', k + 1, {k: b.meta([x, 1.0, -x], i % 2 == 0, md)}, []))),
                      'configuring node %d with the potential %r does not give the model with that potential, lock and metadata for that node' % (k, [x, 1.0, -x]), w(p))
    with ctx.sub('configure_node special'):
        for pot in ([0.0], [-0.0], [0.0, 0.0], [], [1.0, 1.0], [0.0, 1.0]):
            for lock in (True, False):
                for md in (Nothing(), Some({}), Some({'is_locked': 1.0, 'potential': 0.0})):
                    kind, v = run(p, b.builder(conf, b.model('t', 3, {}, [])), 1, pot, lock, md)
                    ctx.check('configure_node special', kind == 'ret' and same(v, b.builder(conf, b.model('t', 3, {1: b.meta(pot, lock, md)}, []))),
                              'configuring a node with the potential %r, %s, does not give the model with that potential, lock and metadata for that node' % (pot, 'locked' if lock else 'free'), w(p))
    # a node is configured again: the last configuration counts
    with ctx.sub('configure_node again'):
        for before in (True, False):
            for lock in (True, False):
                for md in (Nothing(), Some({'a': 1.0})):
                    kind, v = run(p, b.builder(conf, b.model('t', 3, {1: b.meta([4.0], before, Some({'z': 2.0})), 2: b.meta([6.0], before, Nothing())}, [])), 1, [5.0], lock, md)
                    ctx.check('configure_node again', kind == 'ret' and same(v, b.builder(conf, b.model('t', 3, {1: b.meta([5.0], lock, md), 2: b.meta([6.0], before, Nothing())}, []))),
                              'configuring a node that was configured before does not replace its potential, lock and metadata', w(p))
    p = SB + '::add_element'
    with ctx.sub('add_element values'):
        for i, x in enumerate(ctx.probes()):
            k = many[i % len(many)]
            kind, v = run(p, b.builder(conf, b.model('t', k, {}, [])), 'x', k - 1, i % 2, [x] * (i % 4))
            ctx.check('add_element values', kind == 'ret' and v.vi == 0 and same(v.f[0], b.builder(conf, b.model('t', k, {}, [b.elem('x', k - 1, i % 2, [x] * (i % 4))]))),
                      'adding an element with the gain %r between nodes %d and %d of %d does not append that element to the model' % ([x] * (i % 4), k - 1, i % 2, k), w(p))
            kind, v = run(p, b.builder(conf, b.model('t', k, {}, [])), 'x', k, 0, [x])
            ctx.check('add_element values missing', kind == 'ret' and v.vi == 1, 'an element at node %d of %d %s' % (k, k, 'panics' if kind != 'ret' else 'is accepted'), w(p))
    with ctx.sub('many elements'):
        for k in [9, 40, 300] + ctx.ints(lo=5, hi=3000):
            el = [b.elem('x', j % 3, (j + 1) % 3, [1.0 + j]) for j in range(k)]
            kind, v = run(p, b.builder(conf, b.model('t', 3, {}, el)), 'y', 2, 0, [0.5])
            ctx.check('many elements', kind == 'ret' and v.vi == 0 and same(v.f[0], b.builder(conf, b.model('t', 3, {}, el + [b.elem('y', 2, 0, [0.5])]))),
                      'adding an element to a model of %d elements does not append it' % k, w(p))
    p = SC + '::new'
    with ctx.sub('configurator new'):
        for d in (1, 3):
            kind, v = run(p, d)
            ctx.check('configurator new %d' % d, kind == 'ret' and same(v, b.config(d, {})), 'a new configuration is not empty with the given dimension', w(p))
    p = SC + '::add_element_type'
    with ctx.sub('add_element_type'):
        for have in ({}, {'x': ('fn', 1)}, {'x': ('fn', 1), 'y': ('fn', 2)}):
            for nm in ('x', 'y', 'z'):
                kind, v = run(p, b.config(2, have), nm, ('fn', 9))
                if nm in have:
                    ctx.check('add_element_type %d %s' % (len(have), nm), kind == 'ret' and v.vi == 1, 'a second element type of the same name is accepted', w(p))
                else:
                    h = dict(have)
                    h[nm] = ('fn', 9)
                    ctx.check('add_element_type %d %s' % (len(have), nm), kind == 'ret' and v.vi == 0 and same(v.f[0], b.config(2, h)),
                              'adding an element type does not give the configuration with that type under that name', w(p))
