from nx import *
from models import fmt_expand

EXPLAIN = ('Value-numbering summaries of the two command line programs (arguments, file system and library functions abstract, argument loops as recurrences); every path is judged by its exit status, '
           'the file it writes and what reaches the solver.')
NX, NE = 'nxc::main', 'neapolitan::main'
SP = 'nexsys::solve_with_preprocessors'
RUN = 'neapolitan::NodalAnalysisStudyBuilder::run_study'
NEW = 'neapolitan::NodalAnalysisStudyBuilder::from_model_with_default_config'
FS = 'std::fs::'
SOLN = {'x': 6.5, 'y_2': -0.125, 'q': 3e10}
LOG = ['step one', 'step two']


class Prog(object):
    def __init__(self, ctx, path):
        self.ctx, self.db = ctx, ctx.db
        b = ctx.fn(path)
        self.where = b['span']
        crate = path.split('::')[0]
        mine = {k for k in ctx.db.bodies if k.startswith(crate + '::')} if crate == 'nxc' else {k for k, x in ctx.db.bodies.items() if x['span'].split(':')[0] == b['span'].split(':')[0]}
        op = lambda k, p: k not in mine and p.split('::')[0] in ('nexsys', 'neapolitan', 'geqslib', 'gmatlib', 'serde_json')
        self.eng, self.outs = ctx.engine(b, panics=True, opaque=op)
        self.sum = Summary(self.eng, self.outs, b)

    def run(self, args, files, fails=()):
        """what the program does: {'exit': status or 'panic', 'writes': [(path, text)], 'prints': [...], 'solver': [...]}"""
        solver = []

        def calls(ev, t, p, a):
            if p == 'std::env::args':
                return ['prog'] + list(args)
            if p == FS + 'read_to_string':
                f = ev.ev(a[0])
                return Ok(files[f]) if f in files else Er('no such file')
            if p == FS + 'write':
                return Er('disk full') if 'write' in fails else Ok(Agg('tuple', 0, []))
            if p == SP:
                x = [ev.ev(y) for y in a]
                if x not in solver:
                    solver.append(x)
                return Er('no solution') if 'solve' in fails else Ok(Agg('tuple', 0, [list(LOG), dict(SOLN)]))
            if p == NEW:
                return ('builder', ev.ev(a[0]))
            if p == RUN:
                x = [ev.ev(y) for y in a]
                if x not in solver:
                    solver.append(x)
                return Er('no solution') if 'solve' in fails else Ok(('solution', x[0]))
            if p.startswith('serde_json'):
                n = p.split('::')[-1]
                x = ev.ev(a[0])
                if n == 'from_str':
                    return Er('bad model') if 'model' in fails else Ok(('model', x))
                if n in ('to_string_pretty', 'to_string'):
                    return Er('bad json') if 'format' in fails else Ok('json of %r' % (x,))
            if p == 'nexsys::parsing::compile':
                return Er('cannot compile') if 'compile' in fails else Ok('compiled %s' % ev.ev(a[0]))
            if p.startswith('nexsys::parsing::'):
                return Er('cannot compile') if 'compile' in fails else Ok('compiled')
            if p.startswith('geqslib::'):
                return {}
            if p.endswith('::join') and len(a) == 2:
                x, s = ev.ev(a[0]), ev.ev(a[1])
                if isinstance(x, list) and isinstance(s, str) and all(isinstance(y, str) for y in x):
                    return s.join(x)
            return None
        try:
            kind, v, st, ev = self.sum.at({}, mode='R', calls=calls, hook=lambda ev, t: None)
        except OOB as e:
            if not str(e).startswith('index -'):
                raise
            # an index below zero overflows before it is used
            return {'writes': [], 'prints': [], 'solver': solver, 'site': self.where, 'exit': 'panic'}
        out = {'writes': [], 'prints': [], 'solver': solver, 'site': self.where}
        for e in st.ev:
            if e[0] == 'call' and e[1].startswith(FS):
                n = e[1][len(FS):]
                if n == 'write':
                    out['writes'].append(tuple(ev.ev(self.eng.deep(x, st)) for x in e[2][:2]))
                elif n not in ('read_to_string', 'read', 'metadata', 'exists'):
                    raise Unk('file operation ' + n)
            elif e[0] == 'call' and ('fs::File' in e[1] or 'OpenOptions' in e[1] or 'process::Command' in e[1]):
                raise Unk('file operation ' + e[1])
            elif e[0] == 'print':
                x = e[1]
                try:
                    if x.t[0] == 'fmtlit':
                        s = ev.ev(x[1])
                    else:
                        y = fmt_expand(x)
                        s = ev.ev(self.eng.deep(y, st)) if y is not None else None
                except (Unk, OOB):
                    s = None
                out['prints'].append(s)
        if kind == 'exit':
            c = ev.ev(self.eng.deep(v, st)) if type(v) is Node else v
            out['exit'] = c
        elif kind == 'ret':
            r = ev.ev(self.eng.deep(v, st)) if type(v) is Node else v
            out['exit'] = 0 if not (isinstance(r, Agg) and r.p.endswith('Result') and r.vi == 1) else 1
        else:
            out['exit'] = 'panic'
        if out['exit'] != 'panic' and not isinstance(out['exit'], int):
            raise Unk('exit status %r' % (out['exit'],))
        return out


def strip(f, ext): return f[:-len(ext)] if f.endswith(ext) else f


def shows(text, name, v):
    """the text has name, then its value, on one line"""
    if not isinstance(text, str):
        return None
    for l in text.split('\n'):
        m = re.fullmatch(r'.*?(?<![A-Za-z0-9_])%s[ "]*[=:] *(-?[0-9.]+(?:e-?[0-9]+)?).*' % re.escape(name), l)
        if m and near(float(m.group(1)), v):
            return True
    return False


def check(ctx):
    ctx.rule('exit status 0 exactly on success, the input file is never written, the results go where the options say, and file, margin and limit reach the solver')
    files = {'a.nxs': 'text a', 'dir/b': 'text b', 'c.txt': 'text c', 'x.nxs.nxs': 'text x', 'noext.nx': 'text n', '.nxs': 'text d', 'old.nxs/c': 'text o', 'm.json': 'model m', 'sub/m': 'model s', 'm.soln.json': 'model q',
             'json': 'model j', 'a.json.bak': 'model k', 'b.soln': 'model l', '.json': 'model d', 'x.json.json': 'model xx'}

    def group(key, prog, cases, judge):
        with ctx.sub(key):
            k = 0
            for c in cases:
                args, fails = c[0], c[1] if len(c) > 1 else ()
                r = prog.run(args, files, fails)
                k += 1
                why = judge(r, *c)
                if why:
                    ctx.violation(key, '%s %s%s: %s' % (prog.name, ' '.join(args), ' (where %s fails)' % ', '.join(fails) if fails else '', why), prog.where)
                    return
            ctx.ok('%s (%d invocations)' % (key, k))

    def refused(r, args, fails=()):
        if r['exit'] == 0:
            return 'exits with status 0'
        if r['writes'] and 'write' not in fails:
            return 'writes %r' % r['writes'][0][0]

    def says(r, args, fails=(), status=None):
        if r['exit'] == 'panic':
            return 'panics'
        if status is None and r['exit'] == 0 or status is not None and r['exit'] != status:
            return 'exits with status %r' % r['exit']
        if r['writes']:
            return 'writes %r' % r['writes'][0][0]
        if r['solver']:
            return 'solves something'
        if not r['prints']:
            return 'says nothing'

    def prog(path, name):
        p = Prog(ctx, path)
        p.name = name
        return p

    # ---- nxc
    with ctx.sub('nxc'):
        P1 = prog(NX, 'nxc')
        nin = ['a.nxs', 'dir/b', 'c.txt', 'x.nxs.nxs', 'noext.nx', '.nxs', 'old.nxs/c']
        mopts = [[o, v] for o in ('--margin', '-tol') for v in ('0.5', '1e-7', '3')]
        lopts = [[o, v] for o in ('--max-iterations', '-max') for v in ('7', '1000')]
        oopts = [['--output-file'], ['-o'], ['--to-file']]

        def solved(r, args, fails=(), margin=None, limit=None, to=False):
            if r['exit'] != 0:
                return 'ends with %s' % ('a panic' if r['exit'] == 'panic' else 'status %r' % r['exit'])
            for s in r['solver']:
                if s[0] != files[args[0]]:
                    return 'solves %r instead of the contents of the file' % (s[0],)
                if margin is not None and not close(float(s[1]), margin) or limit is not None and s[2] != limit:
                    return 'solves with margin %r and limit %r instead of %r and %r' % (s[1], s[2], margin, limit)
            if len(r['solver']) != 1:
                return 'solves %d times' % len(r['solver'])
            if to:
                if len(r['writes']) != 1:
                    return 'writes %d files' % len(r['writes'])
                f, text = r['writes'][0]
                if f == args[0]:
                    return 'writes its results over the file %r' % f
                if f != strip(args[0], '.nxs') + '.txt':
                    return 'writes its results to %r instead of the text file beside the input' % f
                texts = [text]
            else:
                if r['writes']:
                    return 'writes %r without being asked to' % r['writes'][0][0]
                texts = r['prints']
                if None in texts:
                    raise Unk('printed text')
            for n, v in SOLN.items():
                if not any(shows(t, n, v) for t in texts):
                    return 'does not report %s = %r' % (n, v)
            for l in LOG:
                if not any(isinstance(t, str) and l in t for t in texts):
                    return 'does not report the steps'

        big = [0, 1, 2, 50, 99, 250, 1001, 65537, 10 ** 6, 2 ** 33] + ctx.ints()
        perm = lambda f, a, b: [[f] + a + b, [f] + b + a]
        group('nxc: results on the terminal', P1, [([f], ()) for f in nin[:3]], solved)
        group('nxc: margin and limit', P1, [(x, (), float(m[1]), int(l[1])) for m in mopts for l in lopts for x in perm('a.nxs', m, l)] + [([f] + m, (), float(m[1])) for f in nin[:2] for m in mopts] + [([f] + l, (), None, int(l[1])) for f in nin[:2] for l in lopts], solved)
        group('nxc: margins and limits of every magnitude', P1, [(['a.nxs', '-tol', repr(x)], (), float(repr(x))) for x in ctx.probes()] + [(['a.nxs', '-max', str(x)], (), None, x) for x in big], solved)
        group('nxc: results in a file', P1, [([f] + o, (), None, None, True) for f in nin for o in oopts] + [(x, (), float(m[1]), None, True) for m in mopts[::2] for o in oopts for x in perm('a.nxs', o, m)], solved)
        group('nxc: verbose', P1, [([f] + x, e) for f in nin[:2] for e in ((), ('compile',)) for x in (['-v'], ['--verbose'])] + [(['a.nxs', '-v', '-tol', '0.5'], (), 0.5), (['a.nxs', '-o', '--verbose', '-max', '9'], (), None, 9, True)], solved)
        group('nxc: failures', P1, [(['missing.nxs'],), (['missing'] + oopts[0],)] + [([f] + o, ('solve',)) for f in nin[:3] for o in oopts + [[]]] + [([f] + o, ('write',)) for f in nin for o in oopts] +
              [(['a.nxs', o, v] + x,) for o in ('--margin', '-tol', '--max-iterations', '-max') for v in ('abc', '', '--') for x in ([], ['-o'])] + [(['a.nxs', o, v],) for o in ('--max-iterations', '-max') for v in ('-3', '1.5', '1e3')], refused)
        group('nxc: help', P1, [(x, (), 0) for x in ([], ['help'], ['-h'])], says)
        group('nxc: missing option values', P1, [(['a.nxs'] + x + [o],) for o in ('--margin', '-tol', '--max-iterations', '-max') for x in ([], ['-o'], ['-tol', '0.5'])] + [(['missing.nxs'],)], says)

    # ---- neapolitan
    with ctx.sub('neapolitan'):
        P2 = prog(NE, 'neapolitan')
        nin2 = ['m.json', 'sub/m', 'm.soln.json', 'json', 'a.json.bak', 'b.soln', '.json', 'x.json.json']
        po = [[o, v] for o in ('--precision', '-p') for v in ('0.5', '1e-7', '3')]
        io = [[o, v] for o in ('--iterations', '-i') for v in ('7', '1000')]

        def studied(r, args, fails=(), margin=None, limit=None):
            if r['exit'] != 0:
                return 'ends with %s' % ('a panic' if r['exit'] == 'panic' else 'status %r' % r['exit'])
            if len(r['solver']) != 1:
                return 'solves %d times' % len(r['solver'])
            b, m, l = r['solver'][0]
            if b != ('builder', ('model', files[args[0]])):
                return 'solves %r instead of the model in the file' % (b,)
            if margin is not None and not close(float(m), margin) or limit is not None and l != limit:
                return 'solves with precision %r and limit %r instead of %r and %r' % (m, l, margin, limit)
            if len(r['writes']) != 1:
                return 'writes %d files' % len(r['writes'])
            f, text = r['writes'][0]
            if f == args[0]:
                return 'writes its results over the model'
            if f != strip(args[0], '.json') + '.soln.json':
                return 'writes its results to %r instead of the solution file beside the model' % f
            if text != 'json of %r' % (('solution', b),):
                return 'writes %r instead of the solution' % (text,)

        group('neapolitan: results', P2, [([f],) for f in nin2], studied)
        group('neapolitan: precision and iterations', P2, [(x, (), float(m[1]), int(l[1])) for m in po for l in io for x in perm('m.json', m, l)] + [([f] + m, (), float(m[1])) for f in nin2[:2] for m in po] + [([f] + l, (), None, int(l[1])) for f in nin2[:2] for l in io], studied)
        big = [0, 1, 2, 50, 99, 250, 1001, 65537, 10 ** 6, 2 ** 33] + ctx.ints()
        group('neapolitan: precision and iterations of every magnitude', P2, [(['m.json', '-p', repr(x)], (), float(repr(x))) for x in ctx.probes()] + [(['m.json', '-i', str(x)], (), None, x) for x in big], studied)
        group('neapolitan: failures', P2, [([],), (['missing.json'],)] + [([f], (x,)) for f in nin2[:3] for x in ('model', 'solve', 'format', 'write')] + [(['m.json', o, v],) for o in ('--precision', '-p', '--iterations', '-i') for v in ('abc', '', '--')] +
              [(['m.json', o, v],) for o in ('--iterations', '-i') for v in ('-3', '1.5', '1e3')], refused)
        group('neapolitan: missing input and option values', P2, [([],), (['missing.json'],)] + [(['m.json'] + x,) for x in (['-p'], ['-i'], ['--precision'], ['--iterations'], ['-p', '0.5', '-i'], ['--iterations', '5', '--precision'])], says)
