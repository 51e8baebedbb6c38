"""S06: layout of the stream header and the checks that precede decoding."""
import judge
from judge import *

MAGIC = [66, 82, 82, 79]      # BRRO
CS = 'atsc::data::CompressedStream'
HD = 'atsc::header::CompressorHeader'


def stream(P):
    h = judge.struct(P, HD, 'header')
    fs = P.adts[CS]['variants'][0]['f']
    return adt(CS, 0, *[h if f['t'] == ('adt', HD, ()) else judge.tysym('frames', f['t']) for f in fs])


def parts(P, s):
    """header fields of a stream value: version, frame count, frames"""
    hi = judge.field_index(P, CS, 'header')
    fi = [i for i, f in enumerate(P.adts[CS]['variants'][0]['f']) if i != hi][0]
    h = fld(s, 0, hi)
    vi = judge.field_index(P, HD, 'version')
    ci = [i for i, f in enumerate(P.adts[HD]['variants'][0]['f']) if i != vi][0]
    return fld(h, 0, vi), fld(h, 0, ci), fld(s, 0, fi)


def layout(P, R):
    ev = judge.Ev(P)
    s = stream(P)
    version, count, frames = parts(P, s)
    out, st = ev.ecall('data::CompressedStream::to_bytes', s)
    for k in ev.inlined:
        R.saw(pretty(P.bodies[k]))
    for i in range(4):
        R.count('header bytes')
        judge.same(R, 'writer byte %d' % i, elem(out, I(i)), I(MAGIC[i]), 'magic byte')
    for i in range(4):
        R.count('header bytes')
        judge.same(R, 'writer byte %d' % (4 + i), elem(out, I(4 + i)), mk('byte', version, i), 'version byte')
    R.count('header bytes')
    judge.same(R, 'writer byte 8', elem(out, I(8)), count, 'number of frames')
    # reader on the very bytes
    n, st0 = judge.Ev(P).ecall('data::CompressedStream::new')
    cur, zero, none = parts(P, n)
    judge.same(R, 'new stream count', zero, I(0), 'a new stream has no frames')
    judge.same(R, 'new stream frames', length(none), I(0), 'a new stream has no frames')
    ev = judge.Ev(P)
    back, st2 = ev.ecall('data::CompressedStream::from_bytes', out, st=st)
    for k in ev.inlined:
        R.saw(pretty(P.bodies[k]))
    ctx = t.EMPTY.assume(le(version, cur))
    judge.holds(R, 'reader accepts writer', st2.r[OKR], 'what the writer produced is accepted', ctx)
    v2, c2, f2 = parts(P, back)
    judge.same(R, 'reader version', v2, version, 'version is read back', ctx)
    judge.same(R, 'reader count', c2, count, 'frame count is read back', ctx)
    judge.same(R, 'reader frames', f2, frames, 'frames are read back', ctx)
    return cur


def refuse(P, R, cur):
    """nothing of the frames is decoded before magic and version were checked"""
    ev = judge.Ev(P)
    data = judge.tysym('input', ('slice', ('uint', 'u8')))
    seen = []
    for nm in ('bincode::decode_from_slice', 'bincode::decode_from_std_read', 'bincode::decode_from_reader', 'bincode::borrow_decode_from_slice'):
        ev.hooks[nm] = lambda st, c, a: seen.append((st.ctx, c))
    r, st = ev.ecall('data::CompressedStream::from_bytes', data)
    if not seen:
        R.undecided('decode site', 'no decoding call found in from_bytes')
        return
    ver = le32(data)
    for ctx, c in seen:
        R.count('decode sites')
        for i in range(4):
            key = 'magic byte %d checked first' % i
            judge.decide(R, key, judge.implied(ctx, eqi(elem(data, I(i)), I(MAGIC[i]))),
                         'frames are decoded although byte %d may differ from the magic (%s)' % (i, judge.cshow(ctx)))
        judge.decide(R, 'version checked first', judge.implied(ctx, le(ver, cur)),
                     'frames are decoded although the version may be above %s (%s)' % (show(cur), judge.cshow(ctx)))
    v, c, f = parts(P, r)
    judge.same(R, 'reader version bytes', v, ver, 'version is bytes 4..8, little endian')
    judge.same(R, 'reader count byte', c, elem(data, I(8)), 'frame count is byte 8')


def le32(d):
    return mk('le', 'u32', *[elem(d, I(4 + i)) for i in range(4)])


def frames_counted(P, R):
    B = {'compressor::Compressor::compress', 'compressor::Compressor::compress_bounded', 'compressor::Compressor::get_compress_bounded_results'}
    for fn in ('compress_chunk', 'compress_chunk_with', 'compress_chunk_bounded_with'):
        def one_(fn=fn):
            ev = judge.Ev(P, B)
            b = ev.fnbody('data::CompressedStream::' + fn)
            s = stream(P)
            st = interp.new_state()
            p = ev.cell(st, s, 'stream')
            args = [judge.tysym('a%d' % i, judge.strip_ref(b.lty[i + 1])) for i in range(1, b.nargs)]
            r, st = ev.run(b, [p] + args, {}, st)
            for k in ev.inlined:
                R.saw(pretty(P.bodies[k]))
            v0, c0, f0 = parts(P, s)
            v1, c1, f1 = parts(P, ev.read(st, p))
            R.count('chunk functions')
            judge.same(R, fn + ' count', c1, imin(add(c0, I(1)), I(255)), 'one frame more, at most 255', allow=('~',))
            judge.same(R, fn + ' version', v1, v0, 'version unchanged', allow=('~',))
            judge.same(R, fn + ' frames', length(f1), add(length(f0), I(1)), 'one frame is added', allow=('~',))
        judge.attempt(R, fn, one_)


def recognise(P, R):
    """Ok(Some) exactly when the four bytes at the start of the file are the magic"""
    ev = judge.Ev(P)
    b = ev.fnbody('utils::readers::bro_reader::read_file')
    path = judge.tysym('path', judge.strip_ref(b.lty[1]))
    r, st = ev.run(b, [path], {}, interp.new_state())
    for k in ev.inlined:
        R.saw(pretty(P.bodies[k]))
    bufs = set()
    for x in subterms(r):
        if x.op == 'eq0':
            for y in t._lin(x.a[0])[1]:
                if y.op == 'elem' and y.a[0].op == 'out':
                    bufs.add(y.a[0])
    if len(bufs) != 1:
        R.undecided('recognise', 'header buffer not recognised (%d candidates)' % len(bufs))
        return
    buf = bufs.pop()
    ok_src = 'read' in str(buf.a[0]) and any(s.op == 'call' and s.a[0].startswith('std::fs::File::open') and path in s.a for s in subterms(buf))
    if ok_src:
        R.proved('recognise source', 'the bytes are the first ones of the opened file')
    else:
        R.undecided('recognise source', show(buf)[:300])
    for l, ctx in judge.paths(r):
        if l.op != 'adt' or l.a[1] != 0:
            continue
        R.count('recognition paths')
        val = l.a[2]
        for v, c2 in judge.paths(val, ctx):
            eqs = [eqi(elem(buf, I(i)), I(MAGIC[i])) for i in range(4)]
            if v.op != 'adt':
                R.undecided('recognise', 'result ' + show(v)[:200])
            elif v.a[1] == 1:
                judge.decide(R, 'recognised only with magic', all(judge.implied(c2, e) for e in eqs),
                             'a file is taken as compressed although its first four bytes may differ from the magic (%s)' % judge.cshow(c2))
            else:
                judge.decide(R, 'refused only without magic', judge.implied(c2, Not(And(*eqs))) or judge.implied(c2, lt(length(buf), I(4))),
                             'a file is not recognised although its first four bytes may be the magic (%s)' % judge.cshow(c2))


def run(P, R):
    R.rule('Rule: the bytes written by CompressedStream::to_bytes for an arbitrary stream are, by value numbering, magic, little endian version, '
           'count, frames; from_bytes on these bytes returns the stream; at every decoding call in from_bytes the path knowledge implies magic and '
           'version; read_file returns Some exactly on paths that imply the four magic bytes.')
    P.get('data::CompressedStream::to_bytes')
    P.get('data::CompressedStream::from_bytes')
    cur = judge.attempt(R, 'layout', lambda: layout(P, R))
    judge.attempt(R, 'refuse', lambda: refuse(P, R, cur if cur is not None else I(1)))
    judge.attempt(R, 'frames', lambda: frames_counted(P, R))
    judge.attempt(R, 'recognise', lambda: recognise(P, R))
