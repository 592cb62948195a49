"""Builds (incrementally) the MIR dump of /repo's working tree and loads it."""
import fcntl
import hashlib
import json
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('NG_REPO', '/repo')
CACHE = os.environ.get('NG_CACHE') or os.path.join(VERIF, '.cache')
MEMBERS = ['gmatlib', 'geqslib', 'nexsys', 'neapolitan', 'ngineer_js_bindings']


class BuildError(Exception):
    pass


def _env():
    e = dict(os.environ)
    for k in ('RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER', 'RUSTFLAGS', 'RUSTUP_TOOLCHAIN', 'CARGO_ENCODED_RUSTFLAGS', 'CARGO_TARGET_DIR', 'CARGO_BUILD_TARGET_DIR'):
        e.pop(k, None)
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_TERM_COLOR'] = 'never'
    e['CARGO_INCREMENTAL'] = '0'
    return e


def _run(cmd, cwd, env, what):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError('%s failed:\n%s' % (what, p.stdout[-4000:]))
    return p.stdout


def _hash_files(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b'\0')
        try:
            with open(p, 'rb') as f:
                h.update(hashlib.sha256(f.read()).digest())
        except OSError:
            h.update(b'-')
    return h.hexdigest()


def repo_sources():
    out = []
    for root, dirs, files in os.walk(REPO):
        dirs[:] = [d for d in dirs if d not in ('target', '.git', 'node_modules', 'tests')]
        for f in files:
            if f.endswith(('.rs', '.toml', '.h', '.json', '.lock')):
                out.append(os.path.join(root, f))
    return out


def build_driver():
    tgt = os.path.join(CACHE, 'driver')
    drv = os.path.join(VERIF, 'driver')
    env = _env()
    env['CARGO_TARGET_DIR'] = tgt
    _run(['cargo', '+nightly', 'build', '--offline'], drv, env, 'driver build')
    return os.path.join(tgt, 'debug', 'mirdump')


def dump_dir():
    """returns a directory with the dump of the current /repo tree"""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        key = _hash_files(repo_sources() + [os.path.join(VERIF, 'driver', 'src', 'main.rs'), os.path.join(VERIF, 'driver', 'Cargo.toml')])[:24]
        out = os.path.join(CACHE, 'dump-' + key)
        if os.path.exists(os.path.join(out, 'DONE')):
            return out
        wrapper = build_driver()
        for d in os.listdir(CACHE):
            if d.startswith('dump-'):
                shutil.rmtree(os.path.join(CACHE, d), ignore_errors=True)
        os.makedirs(out)
        chk = os.path.join(CACHE, 'check')
        env = _env()
        sysroot = _run(['rustc', '+nightly', '--print', 'sysroot'], VERIF, env, 'rustc').strip()
        env['LD_LIBRARY_PATH'] = os.path.join(sysroot, 'lib')
        env['MIRDUMP_OUT'] = out
        env['RUSTC_WORKSPACE_WRAPPER'] = wrapper
        env['CARGO_TARGET_DIR'] = chk
        for sub in ('debug/build', 'debug/.fingerprint'):
            b = os.path.join(chk, sub)
            if os.path.isdir(b):
                for d in os.listdir(b):
                    if any(d == m or d.startswith(m + '-') for m in MEMBERS):
                        shutil.rmtree(os.path.join(b, d), ignore_errors=True)
        lock = os.path.join(REPO, 'Cargo.lock')
        before = open(lock, 'rb').read() if os.path.exists(lock) else None
        try:
            _run(['cargo', '+nightly', 'check', '--workspace', '--lib', '--bins', '--offline'], REPO, env, 'cargo check of /repo')
        finally:
            if before is not None:
                try:
                    if open(lock, 'rb').read() != before:
                        open(lock, 'wb').write(before)
                except OSError:
                    open(lock, 'wb').write(before)
        need = ['gmatlib.json', 'geqslib.json', 'nexsys.json', 'neapolitan.json']
        for n in need:
            if not os.path.exists(os.path.join(out, n)):
                raise BuildError('driver produced no %s' % n)
        open(os.path.join(out, 'DONE'), 'w').write('ok')
        return out


class DB(object):
    def __init__(self, d=None):
        self.dir = d or dump_dir()
        self.bodies = {}
        self.types = {}
        self.adts = {}
        files = sorted(f for f in os.listdir(self.dir) if f.endswith('.json'))
        # library crates first, in dependency order, so that a type/body is taken from its own crate
        order = ['gmatlib.json', 'geqslib.json', 'nexsys.json', 'neapolitan.json']
        files = [f for f in order if f in files] + [f for f in files if f not in order]
        for f in files:
            j = json.load(open(os.path.join(self.dir, f)))
            for b in j['bodies']:
                o = self.bodies.get(b['key'])
                if o is None or (b.get('local') and not o.get('local')):
                    self.bodies[b['key']] = b
            for k, v in j['types'].items():
                o = self.types.get(k)
                if o is None or (v and v.get('k') == 'adt' and 'ftys' in v and 'ftys' not in o):
                    self.types[k] = v
            for k, v in j['adts'].items():
                self.adts.setdefault(k, v)
        self.by_path = {}
        for k, b in self.bodies.items():
            self.by_path.setdefault(b['path'], []).append(k)

    # -------- lookups
    def find(self, path):
        """bodies whose generic path is `path`"""
        return [self.bodies[k] for k in self.by_path.get(path, [])]

    def one(self, path):
        r = self.find(path)
        return r[0] if r else None

    def ty(self, t):
        return self.types.get(t) or {}

    def deref_ty(self, t):
        d = self.ty(t)
        if d.get('k') in ('ref', 'ptr'):
            return d['to']
        if d.get('k') == 'adt' and d['adt'] in ('alloc::boxed::Box', 'alloc::rcs::rc::Rc', 'alloc::rc::Rc') and d.get('args'):
            return d['args'][0]
        return None

    def field_ty(self, t, vi, idx):
        d = self.ty(t)
        k = d.get('k')
        if k == 'tuple':
            return d['of'][idx] if idx < len(d['of']) else None
        if k == 'adt':
            ft = d.get('ftys')
            if ft:
                row = ft[vi or 0] if (vi or 0) < len(ft) else []
                return row[idx] if idx < len(row) else None
            return None
        if k == 'closure':
            up = d.get('up') or []
            return up[idx] if idx < len(up) else None
        return None

    def elem_ty(self, t):
        d = self.ty(t)
        if d.get('k') in ('slice', 'array'):
            return d['to']
        if d.get('k') == 'adt' and d['adt'] == 'alloc::vec::Vec':
            return d['args'][0]
        return None

    def place_ty(self, body, place):
        t = body['locals'][place[0]]
        vi = None
        for p in place[1:]:
            if t is None:
                return None
            if p == '*':
                t = self.deref_ty(t)
            elif isinstance(p, int):
                t = self.field_ty(t, vi, p)
                vi = None
            elif p[0] == 'as':
                vi = p[1]
            elif p[0] in ('ix', 'cix'):
                t = self.elem_ty(t)
            elif p[0] == 'sub':
                pass
        return t

    def nfields(self, t, vi=0):
        d = self.ty(t)
        if d.get('k') == 'tuple':
            return len(d['of'])
        if d.get('k') == 'adt' and d.get('ftys'):
            return len(d['ftys'][vi]) if vi < len(d['ftys']) else None
        return None

    def vi(self, adt, name):
        """variant index by name (None when the type has no such variant)"""
        for i, v in enumerate((self.adts.get(adt) or {}).get('variants', [])):
            if v['name'] == name:
                return i
        return None

    def fi(self, adt, field, vi=0):
        """field index by name"""
        vs = (self.adts.get(adt) or {}).get('variants', [])
        if vi < len(vs) and field in vs[vi]['fields']:
            return vs[vi]['fields'].index(field)
        return None

    def adt_of(self, t):
        d = self.ty(t)
        return d['adt'] if d.get('k') == 'adt' else None
