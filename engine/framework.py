"""Common driver of all checks: context, obligations, known findings, evidence."""
import contextlib
import importlib
import json
import os
import sys
import time
import traceback

from db import DB, BuildError, VERIF
from interp import Budget, Engine
from evalt import Unk, OOB
from evalx import Diverges

EVID = os.path.join(VERIF, 'evidence')
DEADLINE = 780


class Undecided(Exception):
    """raised by a rule which cannot decide an obligation on this source"""


class Missing(Undecided):
    pass


class Ctx(object):
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.t0 = time.time()
        self.db = DB()
        self.viol = []          # (key, message, where)
        self.und = []
        self.done = []          # discharged obligations
        self.rules = []
        self.fns = set()
        self.paths = 0
        self.lits = set()
        self.loops = 0
        self.samples = []
        self.assumptions = []

    # -- reporting
    def rule(self, text): self.rules.append(text)

    def violation(self, key, msg, where=''):
        if not any(k == key for k, _, _ in self.viol):
            self.viol.append((key, msg, where))

    def ok(self, key, detail=''):
        self.done.append(key)
        if len(self.samples) < 12:
            self.samples.append(('%s: %s' % (key, detail)) if detail else key)

    def undecided(self, key, why):
        self.und.append((key, str(why)[:400]))

    def check(self, key, cond, msg, where='', detail=''):
        if cond:
            self.ok(key, detail)
        else:
            self.violation(key, msg, where)
        return cond

    @contextlib.contextmanager
    def sub(self, key):
        """one group of obligations; inability to decide it never raises an alarm"""
        if time.time() - self.t0 > DEADLINE:
            self.undecided(key, 'time')
            yield
            return
        try:
            yield
        except (Unk, OOB, Budget, Undecided) as e:
            self.undecided(key, '%s: %s' % (type(e).__name__, e))
        except Diverges as e:
            self.violation(key, 'does not terminate: %s' % e)
        except RecursionError as e:
            self.undecided(key, 'recursion')
        except Exception as e:
            tb = traceback.extract_tb(sys.exc_info()[2])[-1]
            self.undecided(key, 'internal %s: %s (%s:%s)' % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno))
            if os.environ.get('NG_DEBUG'):
                traceback.print_exc()

    # -- engine access
    def engine(self, body, args=None, st=None, **kw):
        """run the dataflow engine over a body and account for what was analysed"""
        kw.setdefault('deadline', self.t0 + DEADLINE)
        eng = Engine(self.db, **kw)
        outs = eng.run(body, args, st)
        self.fns |= set(eng.analysed)
        self.paths += len(outs)
        self.loops += len(eng.loops)
        self.lits |= eng.lits
        return eng, outs

    def floats(self, most=12):
        """doubles around the floating point literals of the code analysed so far: where its behaviour may change"""
        cs = sorted({abs(x) for x in self.lits if type(x) is float and x == x and x not in (0.0, 1.0, float('inf'))})[:most]
        out = set()
        for c in cs:
            for y in (c, c * 0.5, c * 2, c * 0.999, c * 1.001):
                out |= {y, -y}
        return sorted(out)

    EXTREME = (0.0, -0.0, 1e-300, 1e-160, 1e-30, 1e-17, 1e-13, 1e-9, 1e-5, 0.3, 7.0, 1e3, 1e6, 1e10, 1e16, 1e30, 1e150, 1e300)

    def probes(self, neg=True):
        """doubles of every magnitude, and those around the literals of the code"""
        xs = list(self.EXTREME) + ([-x for x in self.EXTREME if x] if neg else [])
        return xs + [x for x in self.floats() if neg or x > 0]

    def ints(self, lo=2, hi=1 << 40, most=12):
        cs = sorted({x for x in self.lits if type(x) is int and lo <= x <= hi})[:most]
        return sorted({y for c in cs for y in (c - 1, c, c + 1)})

    def lengths(self, *std, hi=600, most=12):
        """sizes to try: the given ones and those around the integers of the code analysed so far"""
        return sorted(set(std) | set(self.ints(5, hi, most)))

    def public(self, path):
        """body of a public function (its absence breaks every caller)"""
        bs = self.db.find(path)
        if not bs:
            self.violation('missing ' + path, 'public function %s is gone' % path)
            raise Missing(path)
        return bs[0]

    def fn(self, path):
        bs = self.db.find(path)
        if not bs:
            raise Missing('no function %s' % path)
        return bs[0]


def known():
    try:
        return json.load(open(os.path.join(VERIF, 'known_findings.json')))['findings']
    except (OSError, ValueError, KeyError):
        return []


def run(pid, tier):
    os.makedirs(EVID, exist_ok=True)
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    try:
        ctx = Ctx(pid, tier)
    except BuildError as e:
        print('ERROR: %s' % e)
        return 2
    mod = importlib.import_module(pid.lower())
    with ctx.sub('rule module'):
        mod.check(ctx)
    kf = [k for k in known() if k['property'] == pid]
    new = []
    for key, msg, where in ctx.viol:
        hit = [k for k in kf if k['key'] == key]
        if hit:
            print('KNOWN-FINDING: property=%s %s' % (pid, hit[0]['what']))
        else:
            new.append((key, msg, where))
    level = getattr(mod, 'LEVEL', 'other')
    cov = {
        'explanation': getattr(mod, 'EXPLAIN', '') or 'static analysis of the MIR of the current tree',
        'rules': ctx.rules,
        'functions_analysed': sorted(ctx.fns)[:400],
        'functions_count': len(ctx.fns),
        'paths': ctx.paths,
        'loops_summarised': ctx.loops,
        'obligations': len(ctx.done) + len(ctx.viol) + len(ctx.und),
        'discharged': len(ctx.done),
        'undecided': [list(u) for u in ctx.und][:200],
        'violations': [{'construct': k, 'message': m, 'where': w} for k, m, w in ctx.viol][:200],
        'known_findings': [k for k, _, _ in ctx.viol if any(f['key'] == k for f in kf)],
        'samples': ctx.samples,
    }
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': getattr(mod, 'ASSUME', []) + ctx.assumptions,
          'wall_s': round(time.time() - t0, 3), 'violations': len(new)}
    tmp = os.path.join(EVID, pid + '.json.tmp%d' % os.getpid())
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(EVID, pid + '.json'))
    print('%s: %d obligations, %d discharged, %d undecided, %d violations (%d known), %d functions, %d paths, %.1fs' % (
        pid, cov['obligations'], len(ctx.done), len(ctx.und), len(ctx.viol), len(ctx.viol) - len(new), len(ctx.fns), ctx.paths, time.time() - t0))
    if os.environ.get('NG_DEBUG') or os.environ.get('NG_SHOW'):
        for u in ctx.und:
            print('  UNDECIDED', u)
        for d in ctx.done if os.environ.get('NG_SHOW') else []:
            print('  ok', d)
    if new:
        rp = os.path.join(EVID, pid + '.violation.txt')
        with open(rp, 'w') as f:
            for k, m, w in new:
                f.write('construct: %s\n  where: %s\n  %s\n\n' % (k, w, m))
            f.write('re-run: cd %s && python3 bin/check.py %s\n' % (VERIF, pid))
        for k, m, w in new[:20]:
            print('  %s [%s]: %s' % (k, w, m))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    return 0
