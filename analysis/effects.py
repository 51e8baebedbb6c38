"""Traces of file system effects: what a program does to files, in which order, along each path."""
import interp
import judge
import models
import term as t
from judge import *

# classes of effects by the name the evaluator records them under
CREATE = {'create': 0, 'fs_write': 0, 'openw': 0}
DESTROY = {'remove', 'rename', 'copy', 'link', 'set_len', 'mkdir'}
WRITE = {'write_all_at', 'write_at', 'write_all', 'write', 'write_fmt', 'csv_serialize', 'csv_flush', 'flush', 'sync'}
READ = re_read = ('std::fs::File::open', 'std::fs::read', 'std::fs::read_to_string', 'std::io::Read::', 'std::io::BufRead::', 'std::io::Seek::',
                  'csv::Reader::', 'hound::WavReader::', 'rkyv::from_bytes', 'std::fs::OpenOptions::open', 'bincode::')
WRITING = ('std::fs::OpenOptions::write', 'std::fs::OpenOptions::append', 'std::fs::OpenOptions::create', 'std::fs::OpenOptions::truncate',
           'std::fs::OpenOptions::create_new')


def opens_writing(args):
    """True / False / None (unknown) for an OpenOptions value"""
    for s in subterms(args):
        if s.op == 'call' and s.a[0] in WRITING:
            v = s.a[3] if len(s.a) > 3 else None
            if v is not FALSE:
                return True
    return False


def barrier(pick=None):
    """an opaque function whose call is recorded in the trace; pick: body, args -> arguments to record"""
    def f(ev, st, args, c):
        xs = [ev.deep(st, models.V(ev, st, x)) for x in args]
        models.eff(st, '~' + judge.pretty(c['body']), *(pick(c['body'], xs) if pick else xs))
        return ev.opaque_call(st, '~' + judge.pretty(c['body']), c, args)
    return f


def evaluator(P, barriers):
    ev = judge.Ev(P, {k: (v or barrier()) for k, v in barriers.items()})

    def hook(st, c, a):
        n = c['name']
        if n == 'std::fs::OpenOptions::open':
            xs = [ev.deep(st, models.V(ev, st, x)) for x in a]
            if opens_writing(xs[0]):
                models.eff(st, 'openw', xs[1])
                return
        if n.startswith(READ):
            models.eff(st, 'read', sym(n))
    ev.anyhook = hook
    return ev


def items(w, ctx):
    """effects of a trace in order: (effect term, in a loop)"""
    out = []

    def go(x, loop):
        x = restrict(x, ctx)
        if x.op == 'sym' and x.a[0] == 'W0':
            return
        if x.op == 'cat':
            for y in x.a:
                go(y, loop)
        elif x.op == 'one':
            go(x.a[0], loop)
        elif x.op == 'eff':
            if x.a[0] == 'opaque':
                raise interp.Unsupported('closure handed to ' + str(x.a[1]))
            out.append((x, loop))
        elif x.op in ('gen', 'flat'):
            lam = x.a[1]
            vs = [fresh('k') for _ in range(lam.a[1])]
            for v in vs:
                v.nn = True
            go(open_(lam, *vs), True)
        elif x.op == 'sw':
            for c in x.a[1:]:
                if c is not BOT:
                    go(c, loop)
        else:
            raise interp.Unsupported('effect trace: ' + show(x)[:120])
    go(w, False)
    return out


def normal(st, r=None, cap=20000):
    """paths that end normally: (trace, result, path knowledge)"""
    out = []
    for ok, c in judge.paths(st.r[judge.OKR]):
        if ok is FALSE:
            continue
        if ok is not TRUE:
            c = c.assume(ok)
            if c is None:
                continue
        for w, c2 in judge.paths(restrict(st.r[judge.WORLD], c), c):
            if r is None:
                out.append((w, None, c2))
                continue
            for v, c3 in judge.paths(restrict(r, c2), c2):
                out.append((w, v, c3))
        if len(out) > cap:
            raise Blowup('too many paths')
    return out


def file_position(h):
    """(path, offset) of an open file handle, or None"""
    if h.op == 'fld' and h.a[0].op == 'call' and h.a[0].a[0] in ('std::fs::File::open', 'std::fs::OpenOptions::open'):
        return h.a[0].a[-1], I(0)
    if h.op == 'call' and h.a[0] in ('std::io::BufReader::new', 'std::io::BufReader::with_capacity'):
        return file_position(h.a[-1])
    if h.op == 'out':
        n, idx = h.a[0], h.a[2]
        args = h.a[3:]
        if idx != 0:
            return None
        p = file_position(args[0])
        if p is None:
            return None
        if n.endswith('::read_exact'):
            return p[0], add(p[1], length(args[1]))
        if n.endswith('::seek') and args[1].op == 'adt' and args[1].a[1] == 0:
            return p[0], args[1].a[2]
    return None


def file_bytes(x):
    """(path, first offset, length or None for up to the end) of file content, or None"""
    if x.op == 'out' and x.a[2] == 1:
        n, args = x.a[0], x.a[3:]
        p = file_position(args[0])
        if p is None:
            return None
        if n.endswith('::read_exact'):
            return p[0], p[1], length(args[1])
        if n.endswith('::read_to_end') and length(args[1]) is I(0):
            return p[0], p[1], None
    if x.op == 'fld' and x.a[0].op == 'call' and x.a[0].a[0] == 'std::fs::read':
        return x.a[0].a[2], I(0), None
    if x.op == 'slice':
        b = file_bytes(x.a[0])
        if b is not None:
            lo, hi = x.a[1], x.a[2]
            if b[2] is None and hi is length(x.a[0]):
                return b[0], add(b[1], lo), None
            return b[0], add(b[1], lo), sub(hi, lo)
    return None


def file_byte(x):
    """(path, offset) of a single byte of a file"""
    if x.op == 'elem':
        b = file_bytes(x.a[0])
        if b is not None:
            return b[0], add(b[1], x.a[1])
    return None


def known_bytes(c):
    """what the path knowledge says about single bytes of files: {(path, offset): (value, equal)}"""
    out = {}
    for s, lab in c.d.items():
        if s.op == 'eq0':
            c0, m = t._lin(s.a[0])
            if len(m) == 1:
                (x, v), = m.items()
                f = file_byte(x)
                if f is not None and abs(v) == 1 and f[1].op == 'i':
                    out[(f[0], f[1].a[0])] = (-c0 * v, bool(lab))
    return out


def written(tr, path):
    """segments [(offset, content)] of the file at path after a trace; None if not understood"""
    segs = None
    pos = I(0)
    for x, loop in tr:
        n = x.a[0]
        if n in ('create', 'openw', 'fs_write'):
            if x.a[1] is not path:
                continue
            if loop or segs is not None:
                return None
            segs = []
            if n == 'fs_write':
                segs.append((I(0), x.a[2]))
        elif n in ('write_all_at',):
            if segs is None or loop:
                return None
            segs.append((x.a[3], x.a[2]))
        elif n == 'write_all':
            if segs is None or loop:
                return None
            segs.append((pos, x.a[2]))
            pos = add(pos, length(x.a[2]))
        elif n in ('flush', 'sync'):
            pass
        elif n in WRITE:
            return None
    return segs


def layout(segs):
    """contiguous content of a file written in one pass over increasing offsets, or None"""
    if not segs:
        return None
    out = []
    at = I(0)
    for off, x in sorted(segs, key=lambda s: s[0].a[0] if s[0].op == 'i' else 1 << 60):
        if off is not at:
            return None
        out.append(x)
        at = add(at, length(x))
    return cat(*out)
