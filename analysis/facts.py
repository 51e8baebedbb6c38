"""Extraction and loading of the resolved program (MIR facts) of /repo."""
import hashlib, json, os, shutil, subprocess, sys, tempfile, glob, re, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = os.path.join(VERIF, '.cache')
UNITS = ['atsc-lib', 'atsc-bin', 'csv_compressor-bin', 'vsri-lib', 'wavbrro-lib', 'wav2wbro-bin']


def _env():
    e = dict(os.environ)
    e['HOME'] = '/root'
    e['PATH'] = '/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin'
    for k in ('RUSTC_WRAPPER', 'RUSTFLAGS', 'RUSTC', 'RUSTUP_TOOLCHAIN', 'CARGO_ENCODED_RUSTFLAGS'):
        e.pop(k, None)
    return e


def _run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode != 0:
        raise RuntimeError('command failed: %s\n%s' % (' '.join(cmd), p.stdout[-4000:]))
    return p.stdout


def nightly():
    return _run(['rustc', '+nightly', '--print', 'sysroot'], env=_env()).strip()


def build_driver():
    src = os.path.join(VERIF, 'driver', 'main.rs')
    sysroot = nightly()
    h = hashlib.sha256(open(src, 'rb').read() + sysroot.encode()).hexdigest()[:16]
    out = os.path.join(CACHE, 'mirfacts-' + h)
    if not os.path.exists(out):
        os.makedirs(CACHE, exist_ok=True)
        tmp = out + '.tmp%d' % os.getpid()
        _run(['rustc', '+nightly', '--edition', '2021', '-O', src, '-o', tmp], env=_env())
        os.rename(tmp, out)
    return out, sysroot


def repo_sources():
    out = []
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ('target', '.git', 'node_modules'))
        for f in sorted(files):
            if f.endswith('.rs') or f in ('Cargo.toml', 'Cargo.lock', 'rust-toolchain', 'rust-toolchain.toml'):
                out.append(os.path.join(root, f))
    return out


def source_hash(driver):
    h = hashlib.sha256(driver.encode() + open(os.path.abspath(__file__), 'rb').read())
    for p in repo_sources():
        h.update(p.encode() + b'\0')
        h.update(open(p, 'rb').read() + b'\0')
    return h.hexdigest()[:24]


def extract():
    """Type-check the workspace of REPO with the MIR fact driver; returns the directory with the JSON facts."""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        driver, sysroot = build_driver()
        out = os.path.join(CACHE, 'facts-' + source_hash(driver))
        if all(os.path.exists(os.path.join(out, u + '.json')) for u in UNITS):
            os.utime(out)
            return out
        old = sorted(glob.glob(os.path.join(CACHE, 'facts-*')), key=os.path.getmtime)
        for d in old[:-20]:
            shutil.rmtree(d, ignore_errors=True)
        tmp = tempfile.mkdtemp(prefix='facts.tmp', dir=CACHE)
        tgt = os.path.join(CACHE, 'target')
        env = _env()
        env.update(LD_LIBRARY_PATH=sysroot + '/lib', RUSTC=sysroot + '/bin/rustc', CARGO_NET_OFFLINE='true',
                   CARGO_INCREMENTAL='0', RUSTC_WORKSPACE_WRAPPER=driver, MIRFACTS_OUT=tmp,
                   CARGO_TERM_COLOR='never',
                   RUSTFLAGS='-Zmir-opt-level=0 -Zalways-encode-mir -Zmir-enable-passes=-CheckAlignment,-CheckNull --cap-lints=allow -C overflow-checks=off')
        for pat in ('atsc', 'wavbrro', 'vsri', 'csv-compressor', 'csv_compressor', 'tools'):
            for d in glob.glob(os.path.join(tgt, 'debug', '.fingerprint', pat + '-*')):
                shutil.rmtree(d, ignore_errors=True)
        _run(['cargo', '+1.81', 'check', '--workspace', '--offline', '--locked', '--target-dir', tgt],
             env=env, cwd=REPO)
        missing = [u for u in UNITS if not os.path.exists(os.path.join(tmp, u + '.json'))]
        if missing:
            raise RuntimeError('no facts for units %s' % missing)
        shutil.rmtree(out, ignore_errors=True)
        os.rename(tmp, out)
        return out


def strip_generics(pp):
    """'std::vec::Vec::<T, A>::push' -> 'std::vec::Vec::push'; '<A as B>::f' is kept balanced."""
    out, depth, i = [], 0, 0
    while i < len(pp):
        c = pp[i]
        if c == '<':
            # '<impl T for U>::x' or '<T as Trait>::x' at the start of a segment: keep a marker
            depth += 1
        elif c == '>' and not (i > 0 and pp[i - 1] == '-'):
            depth -= 1
        elif depth == 0:
            out.append(c)
        i += 1
    s = ''.join(out)
    while '::::' in s:
        s = s.replace('::::', '::')
    return s.strip(':')


class Body:
    pass


class Program:
    def __init__(self, d):
        self.dir = d
        self.bodies = {}
        self.adts = {}
        self.impls = []        # (unit, selfty, trait, body map by method name)
        self.units = {}
        self.statics = []
        self.unsafe_blocks = []
        self._tycache = {}
        for u in UNITS:
            self._load(u)
        self.method_index = {}
        for k, b in self.bodies.items():
            if b.trait is not None:
                self.method_index.setdefault((b.trait, b.name), []).append(b)
        self.children = {}
        for k, b in self.bodies.items():
            if b.kind == 'Closure':
                self.children.setdefault(b.parent, []).append(k)

    def norm(self, unit, key, local=True):
        if unit.endswith('-bin') and local:
            return 'bin:' + key
        return key

    def _load(self, unit):
        j = json.load(open(os.path.join(self.dir, unit + '.json')))
        self.units[unit] = j
        isbin = unit.endswith('-bin')
        crate = j['crate']
        # a key belongs to this unit iff it starts with crate:: and (for bins) is defined here
        own = set(b['key'] for b in j['bodies'])
        ownadts = set()
        for p, a in j['adts'].items():
            # local adts have types on their fields (or no fields but appear as crate path)
            if p.startswith(crate + '::'):
                ownadts.add(p)
        libcrate_same = isbin and crate == 'atsc'

        def adtkey(p):
            if isbin and p.startswith(crate + '::'):
                if libcrate_same and p in self.adts:
                    return p
                return 'bin:' + p
            return p

        types = j['types']
        memo = {}

        def ty(i):
            if i in memo:
                return memo[i]
            t = types[i]
            k = t['k']
            memo[i] = ('rec',)
            if k in ('int', 'uint', 'float'):
                r = (k, t['n'])
            elif k == 'adt':
                r = ('adt', adtkey(t['p']), tuple(ty(x) for x in t['a']))
            elif k == 'array':
                r = ('array', ty(t['e']), t['len'])
            elif k == 'slice':
                r = ('slice', ty(t['e']))
            elif k in ('ref', 'ptr'):
                r = (k, ty(t['e']), t['mut'])
            elif k == 'tuple':
                r = ('tuple', tuple(ty(x) for x in t['es']))
            elif k == 'closure':
                r = ('closure', self.norm(unit, t['p'], t['p'].startswith(crate + '::') and (not libcrate_same or t['p'] in own)))
            elif k == 'fndef':
                r = ('fndef', t['p'], tuple(ty(x) for x in t['a']))
            elif k == 'param':
                r = ('param', t['n'])
            elif k == 'dyn':
                r = ('dyn', t['s'])
            else:
                r = (k,) if k != 'other' else ('other', t['s'])
            memo[i] = r
            return r
        j['_ty'] = ty
        for p, a in j['adts'].items():
            kk = adtkey(p)
            info = {'kind': a['kind'], 'variants': []}
            for v in a['variants']:
                info['variants'].append({'n': v['n'], 'd': int(v['d']),
                                         'f': [{'n': f['n'], 't': ty(f['t']) if 't' in f else None, 'vis': f['vis']} for f in v['f']]})
            prev = self.adts.get(kk)
            if prev is None or any(f['t'] for v in info['variants'] for f in v['f']):
                self.adts[kk] = info
        for b in j['bodies']:
            o = Body()
            o.unit = unit
            o.raw = b
            o.key = self.norm(unit, b['key'])
            o.pp = b['pp']
            o.kind = b['kind']
            o.parent = self.norm(unit, b['parent'])
            o.nargs = b['nargs']
            o.blocks = b['blocks']
            o.locals = b['locals']
            o.lty = [ty(l['t']) for l in b['locals']]
            o.lname = [l.get('n') for l in b['locals']]
            o.up = b['up']
            o.derived = b['derived']
            o.vis = b['vis']
            o.at = b['at']
            o.unsafe_fn = b['unsafe_fn']
            o.generics = b['generics']
            o.selfty = ty(b['self']) if 'self' in b else None
            o.trait = b.get('trait')
            o.trargs = [ty(x) for x in b.get('trargs', [])]
            o.name = o.key.split('::')[-1]
            o.ty = ty
            o.adtkey = adtkey
            o.own = own
            o.crate = crate
            o.isbin = isbin
            self.bodies[o.key] = o
        for s in j['statics']:
            self.statics.append(dict(s, unit=unit, ty=ty(s['t'])))
        for s in j['impls']:
            self.impls.append(dict(s, unit=unit, ty=ty(s['self'])))
        for s in j['unsafe_blocks']:
            self.unsafe_blocks.append(dict(s, unit=unit))

    def callee_key(self, body, path, rlocal):
        if rlocal and body.isbin:
            return 'bin:' + path
        return path

    def find(self, suffix):
        """Bodies whose pretty path (generics stripped) ends with the given path, e.g. 'CompressedStream::to_bytes'."""
        r = []
        for b in self.bodies.values():
            p = pretty(b)
            if p == suffix or p.endswith('::' + suffix):
                r.append(b)
        return r

    def get(self, path, unit=None):
        r = [b for b in self.find(path) if unit is None or b.unit == unit]
        if len(r) != 1:
            raise Anchor('anchor %s: %d definitions found' % (path, len(r)))
        return r[0]


class Anchor(Exception):
    pass


def pretty(b):
    if not hasattr(b, '_pretty'):
        pp = b.pp
        m = re.match(r'^<(.*) as (.*)>::([A-Za-z0-9_]+)$', pp)
        b._pretty = strip_generics(pp)
        if m:
            b._pretty = strip_generics(m.group(1)) + '::' + m.group(3)
    return b._pretty


_prog = {}


def load():
    d = extract()
    if d not in _prog:
        _prog[d] = Program(d)
    return _prog[d]


if __name__ == '__main__':
    p = load()
    print(p.dir, len(p.bodies))
    for b in p.bodies.values():
        if not b.derived:
            print(b.key, '|', pretty(b), '|', b.generics)
