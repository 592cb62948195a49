import json
import os

from nodal import *
from n04 import SB, MODEL, MEL, META, B, same

EXPLAIN = ('Value-numbering summaries of the (derived) serialisers and deserialisers of the model types, of save_model and of the parser of models: what a serialiser emits is fed, in several key orders, through the summary '
           'of the key reader and of the field reader of the same type, and must come back as the same value. Keys are compared with the published model format.')
SER = 'serde::ser::Serialize for %s>::serialize'
RES = NE + 'NodalAnalysisStudyResult'
SCHEMA = 'neapolitan/neapolitan_json/neapolitan_model_schema.json'
EXAMPLE = 'neapolitan/neapolitan_json/circuit.json'


class Serde(object):
    def __init__(self, ctx, adt):
        self.ctx, self.db, self.adt = ctx, ctx.db, adt
        self.sums = {}

    def get(self, *parts):
        if parts not in self.sums:
            ks = sorted(k for k in self.db.bodies if all(p in k for p in parts))
            if len(ks) != 1:
                raise Undecided('%d functions for %s' % (len(ks), ' '.join(parts)))
            b = self.db.bodies[ks[0]]
            eng, outs = self.ctx.engine(b, panics=True)
            self.sums[parts] = (eng, Summary(eng, outs, b), eng.sym_args(b), b)
        return self.sums[parts]

    def emit(self, value):
        """[(key, value)] the serialiser of the type emits"""
        eng, sm, a, b = self.get(SER % self.adt)
        self.where = b['span']

        def calls(ev, t, p, args):
            n = p.split('@')[0].split('::')[-1]
            if not p.startswith('serde::'):
                return None
            if n == 'serialize_struct':
                return Ok(('ser',))
            if n in ('serialize_field', 'skip_field'):
                return Ok(Agg('tuple', 0, []))
            if n == 'end':
                return Ok(ev.ev(args[0]))

        def hook(ev, t):
            if t.t[0] == 'mut' and isn(t[1], 'call') and t[1][1].startswith('serde::'):
                n = t[1][1].split('@')[0].split('::')[-1]
                s = ev.ev(t[1][2][0])
                if n == 'skip_field':
                    return s
                if n == 'serialize_field':
                    k, v = ev.ev(t[1][2][1]), ev.ev(t[1][2][2])
                    return s + ((k, v),)
        kind, v, st, ev = sm.at({eng.initial(N('P', a[0])): value}, mode='R', calls=calls, hook=hook)
        if kind != 'ret':
            return None
        v = ev.ev(eng.deep(v, st))
        if not (isinstance(v, Agg) and v.vi == 0 and isinstance(v.f[0], tuple) and v.f[0][:1] == ('ser',)):
            raise Unk('serialised %s' % str(v)[:80])
        out = list(v.f[0][1:])
        if not all(isinstance(k, str) for k, _ in out):
            raise Unk('keys')
        return out

    def key(self, k):
        """the field identifier a key is read as"""
        eng, sm, a, b = self.get('serde::de::Deserialize', ' for %s>' % self.adt, 'FieldVisitor', 'visit_str')
        kind, v, st, ev = sm.at({eng.initial(N('P', a[1])): k, a[1]: k}, mode='R', calls=lambda *x: None, hook=lambda *x: None)
        v = ev.ev(eng.deep(v, st))
        if kind != 'ret' or not isinstance(v, Agg):
            raise Unk('key reader')
        return v.f[0] if v.vi == 0 else None

    def read(self, entries):
        """('ok', value) | ('err',): the value the deserialiser makes of [(key, value)]"""
        eng, sm, a, b = self.get('serde::de::Deserialize', ' for %s>' % self.adt, '__Visitor', 'visit_map')
        self.where = b['span']
        ks = [(self.key(k), v) for k, v in entries]
        if any(k is None for k, v in ks):
            return ('err',)

        def calls(ev, t, p, args):
            n = p.split('@')[0].split('::')[-1]
            if n == 'next_key':
                m = ev.ev(args[0])
                return Ok(Some(ks[m[1]][0]) if m[1] < len(ks) else Nothing())
            if n == 'next_value':
                m = ev.ev(args[0])
                return Ok(ks[m[1]][1])
            if n == 'missing_field':
                return Ok(Nothing()) if 'core::option::Option<' in str(t[3])[:120] else Er('missing')
            if n == 'duplicate_field':
                return 'duplicate'

        def hook(ev, t):
            if t.t[0] == 'mut' and isn(t[1], 'call'):
                n = t[1][1].split('@')[0].split('::')[-1]
                if n == 'next_key':
                    return ev.ev(t[1][2][0])
                if n == 'next_value':
                    m = ev.ev(t[1][2][0])
                    return ('map', m[1] + 1)
        kind, v, st, ev = sm.at({a[1]: ('map', 0)}, mode='R', calls=calls, hook=hook)
        if kind != 'ret':
            return ('panic',)
        v = ev.ev(eng.deep(v, st))
        if not isinstance(v, Agg) or v.p != 'core::result::Result':
            raise Unk('read %s' % str(v)[:80])
        return ('ok', v.f[0]) if v.vi == 0 else ('err',)


class Store(Nodal):
    """builder operations with serde_json abstract"""
    fail = False
    texts = {}

    def summary(self, path, opaque=(), alias=None):
        k = (path, 'json')
        if k not in self.sums:
            bs = [self.db.bodies[path]] if path in self.db.bodies else self.db.find(path)
            if not bs:
                raise Undecided('no body of ' + path)
            eng, outs = self.ctx.engine(bs[0], panics=True, opaque=lambda key, p: p.startswith('serde_json::'))
            self.sums[k] = (eng, Summary(eng, outs, bs[0]), eng.sym_args(bs[0]), bs[0])
        return self.sums[k]

    def calls(self, ev, t, p, args):
        n = p.split('@')[0].split('::')[-1]
        if p.startswith('serde_json::'):
            if n in ('to_string', 'to_string_pretty'):
                if self.fail:
                    return Er('not serialisable')
                x = ev.ev(args[0])
                t = '{json %d}' % len(self.texts)
                self.texts[t] = x
                return Ok(t)
            if n == 'from_str':
                return Er('no model') if self.fail else Ok(('model of', ev.ev(args[0])))
        if 'StrDeserializer' in str(t) and n.startswith('deserialize_'):
            return Er('a text is not a struct')
        if n == 'custom' and p.startswith(('serde::', '<serde::')) or n in ('from', 'into') and len(args) == 1:
            return ('error', ev.ev(args[0]))
        return Nodal.calls(self, ev, t, p, args)


def check(ctx):
    ctx.rule('every field of a model, node configuration and element is emitted once, under the key of the published format, and read back into the same field, in any order of keys; unknown keys are ignored; '
             'save_model hands out the serialised model and leaves the builder alone; parsing a model reads that text; the shipped example is a model of the default configuration')
    n = Nodal(ctx)
    b = B(n)
    repo = os.environ.get('NG_REPO', '/repo')
    el = lambda *a: b.elem(*a)
    md = {'a': 1.5}
    cases = [
        ('element', MEL, [el('x', 0, 1, [1.5]), el('', 7, 7, []), el('y z', 2, 0, [0.0, -3.0])]),
        ('node configuration', META, [b.meta([2.5], l, m) for l in (True, False) for m in (Nothing(), Some(md), Some({}))] + [b.meta([], False, Nothing())]),
        ('model', MODEL, [b.model('t', 3, {1: b.meta([2.0], True, Nothing())}, [el('x', 0, 1, [1.5]), el('y', 1, 0, [])]), b.model('', 0, {}, []), b.model('u', 1, {}, [el('x', 0, 0, [1.0])]), b.model('v', 2, {0: b.meta([1.0], False, Nothing())}, [])]),
    ]
    fmt = {}
    with ctx.sub('format'):
        j = json.load(open(os.path.join(repo, SCHEMA)))
        fmt = {'model': set(j['properties']), 'element': set(j['properties']['elements']['items']['properties']), 'node configuration': set(j['definitions']['node_config']['properties'])}
    for lab, adt, vals in cases:
        s, seen = Serde(ctx, adt), set()
        for i, v in enumerate(vals):
            with ctx.sub('%s %d' % (lab, i)):
                out = s.emit(v)
                if out is None:
                    ctx.violation('%s emitted' % lab, 'serialising a %s panics' % lab, s.where)
                    continue
                ks = [k for k, _ in out]
                ctx.check('%s keys' % lab, len(set(ks)) == len(ks), 'a %s is serialised with the key "%s" twice' % (lab, next((k for k in ks if ks.count(k) > 1), '')), s.where)
                seen |= set(ks)
                orders = [out, out[::-1], out[1:] + out[:1], [('$schema', 'a text')] + out, out + [('a comment', 'text')]]
                for o in orders:
                    r = s.read(o)
                    if r[0] != 'ok':
                        ctx.violation('%s read' % lab, 'a saved %s (keys %s) %s' % (lab, ', '.join(k for k, _ in o), 'cannot be read back' if r[0] == 'err' else 'panics when it is read'), s.where)
                        break
                    bad = [f for f, x, y in zip(ctx.db.adts[adt]['variants'][0]['fields'], v.f, r[1].f) if not same(x, y)]
                    if bad:
                        ctx.violation('%s read' % lab, 'the field %s of a %s is not what it was after saving and reading it' % (bad[0], lab), s.where)
                        break
                else:
                    ctx.ok('%s %d' % (lab, i), '%d key orders' % len(orders))
        if lab in fmt and seen:
            ctx.check('%s format' % lab, seen == fmt[lab], 'a %s is serialised with the keys %s, the published format has %s' % (lab, ', '.join(sorted(seen)), ', '.join(sorted(fmt[lab]))), s.where)
    with ctx.sub('result'):
        s = Serde(ctx, RES)
        nodes, els = {0: [1.5], 3: [0.0, 2.0]}, {'r.0': [2.5]}
        out = s.emit(n.agg(RES, nodes=nodes, elements=els))
        vals = [v for _, v in out]
        ctx.check('result', len(out) == 2 and len({k for k, _ in out}) == 2 and any(same(v, nodes) for v in vals) and any(same(v, els) for v in vals),
                  'the serialised result of a study is %s: not the potentials of all nodes and the fluxes of all elements' % (out,), s.where)

    st = Store(ctx)
    conf = {'t': b.config(1, {})}
    models = [v for v in cases[2][2]]
    for k in ctx.lengths(40, 300, hi=1100):
        models.append(b.model('w', k, {i: b.meta([i / 4], i % 3 == 0, Nothing()) for i in range(k)}, [el('x%d' % i, i, (i + 1) % k, [float(i)] * (1 + i % 3)) for i in range(k)]))
    models.append(b.model('gains', 2, {1: b.meta([0.5] * 300, False, Some({'a' * 300: 1.0}))}, [el('x' * 300, 0, 1, [0.25] * 300)]))
    for i, m in enumerate(models):
        for fail in (False, True):
            with ctx.sub('save_model %d %s' % (i, fail)):
                st.fail = fail
                bd = b.builder(conf, m)
                rep = Cell('before')
                kind, v, w = st.run(SB + '::save_model', [bd, rep])
                where = ctx.fn(SB + '::save_model')['span']
                now = w[id(rep)][1] if id(rep) in w else 'before'
                if kind != 'ret':
                    ctx.violation('save_model', 'saving a model panics%s' % (' when it cannot be serialised' if fail else ''), where)
                elif fail:
                    ctx.check('save_model failure', v.vi == 1, 'a model that cannot be serialised is saved without an error', where)
                    ctx.check('save_model failure text', now == 'before', 'a model that cannot be serialised changes the text', where)
                else:
                    ok = v.vi == 0 and same(v.f[0], bd)
                    ctx.check('save_model builder', ok, 'saving a model does not hand back the same builder', where)
                    if isinstance(now, Sym):
                        raise Unk('saved text')
                    ctx.check('save_model text', now in st.texts and same(st.texts[now], m), 'save_model does not store the serialised model', where)
    with ctx.sub('parse'):
        ks = [k for k in ctx.db.bodies if 'core::str::traits::FromStr' in k and MODEL in k and k.endswith('::from_str')]
        if len(ks) != 1:
            raise Undecided('%d parsers of models' % len(ks))
        where = ctx.db.bodies[ks[0]]['span']
        for fail in (False, True):
            st.fail = fail
            kind, v, w = st.run(ks[0], ['the text'])
            if kind != 'ret':
                ctx.violation('parse', 'parsing a model panics', where)
            elif fail:
                ctx.check('parse failure', v.vi == 1, 'parsing a text that is no model does not fail', where)
            else:
                ctx.check('parse', v.vi == 0 and v.f[0] == ('model of', 'the text'), 'parsing the text of a saved model %s' % ('fails' if v.vi else 'does not give the model in the text'), where)
    with ctx.sub('example'):
        reg, body = n.registry()
        j = json.load(open(os.path.join(repo, EXAMPLE)))
        ctx.check('example model', j['model_type'] in reg, 'the example %s is of the unknown model type "%s"' % (EXAMPLE, j['model_type']), EXAMPLE)
        if j['model_type'] in reg:
            bad = sorted({e['element_type'] for e in j['elements']} - set(reg[j['model_type']][1]))
            ctx.check('example elements', not bad, 'the example %s has elements of unknown type %s' % (EXAMPLE, bad), EXAMPLE)
            ctx.check('example nodes', all(e[k] < j['nodes'] for e in j['elements'] for k in ('input', 'output')) and all(int(k) < j['nodes'] for k in j['configuration']), 'the example names a node it does not have', EXAMPLE)
