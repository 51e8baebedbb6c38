"""S20: every decoder returns as many values as samples were compressed."""
import codec
import frames
import judge
import term as t
from judge import *
from codec import Codecs
from frames import FR
from rules import s04, s06

OPEN = ('fold', 'psum', 'recn', 'trip', 'flat', 'mn', 'mapseq', 'maphas', 'sorted', 'any', 'phi')
MODES = ('compress', 'compress_bounded', 'get_compress_bounded_results')


def decoded(P, R, C, nm, di):
    """payloads of all ways of encoding; equal payload terms are decoded once"""
    pays = {}
    for mode in MODES:
        pay = C.results(nm, di)[0] if mode.startswith('get') else C.payload(nm, di, mode.endswith('bounded'))
        if all(l is BOT for l in leaves(pay)):
            R.count('codec entries that always stop')
            continue
        pays.setdefault(pay, mode)
    for pay, mode in pays.items():
        rec = C.decode(nm, pay, di)
        key = '%s at %s by %s' % (nm, C.depths[di], mode)
        if all(l is BOT for l in leaves(rec)):
            R.violated(key, 'the decoder never returns for what the encoder writes')
            continue
        w, loops = codec.free_loops(length(rec))
        R.count('decoded lengths')
        d = judge.split_diff(w, C.n, C.some)
        if d is None:
            R.proved(key, 'one value per sample')
            continue
        x, y, c = d
        w = small(P, nm, di, R) if mode == 'compress' else None
        if w:
            R.violated(key, w)
            continue
        odd = [s for z in (x, y, *c.d) for s in subterms(z) if s.op in OPEN]
        if odd:
            R.undecided(key, 'number of values not recognised: %s' % show(x)[:300])
            continue
        judge.decide(R, key, False, '%s values are decompressed for %s samples (%s)' % (show(x)[:300], show(y)[:100], judge.cshow(c)), x, y, *c.d, allow=('~next', 'core::num::', '~' + codec.STATS))


def small(P, nm, di, R):
    """the same for arbitrary samples of a few fixed lengths, where every loop is closed; -> what is wrong"""
    for n in (1, 2, 3, 7):
        C = Codecs(P, R, opaque=())
        C.data = cat(*[one(judge.tysym('x%d' % i, ('float', 'f64'))) for i in range(n)])
        C.n, C.some = I(n), t.EMPTY
        got = length(judge.unroll(C.decode(nm, C.payload(nm, di, False), di), 20))
        for l, ctx in judge.paths(got):
            if l.op == 'i' and l.a[0] != n and not any(s.op in OPEN for z in ctx.d for s in subterms(z)):
                return '%d values are decompressed for %d samples (%s)' % (l.a[0], n, judge.cshow(ctx))
    return None


def recorded(P, R):
    """the frame remembers how many samples it was given and asks its decoder for that many"""
    ix = frames.fields(P)
    some = {v: i for i, v in enumerate(judge.variants(P, frames.CP))}
    for fn in ('compress', 'compress_bounded', 'compress_best'):
        def one_(fn=fn):
            comp = adt(frames.CP, some['Auto']) if fn == 'compress_best' else judge.tysym('codec', ('adt', frames.CP, ()))
            f, data, st, _ = frames.build(P, R, fn, s04.Some(comp))
            R.count('frame builders')
            judge.same(R, fn + ' recorded', fld(f, 0, ix['sample_count']), length(data), 'the frame records the number of samples', allow=('~',))
            for x, ctx in judge.paths(fld(f, 0, ix['data'])):
                R.count('payload paths')
                o = s04.payload_origin(P, x)
                if o is None:
                    judge.decide(R, fn + ' compressed', False, 'the payload does not come from a codec: %s' % show(x)[:200], x)
                    continue
                judge.same(R, fn + ' compressed', length(o[1]), length(data), 'the codec gets as many samples as are recorded', ctx, allow=('~',))
        judge.attempt(R, fn, one_)
    ev = judge.Ev(P, {frames.CALLS['decompress']})
    f = judge.struct(P, FR, 'frame')
    r, st = ev.ecall('frame::CompressorFrame::decompress', f)
    if r.op == 'call' and r.a[0] == frames.OPAQUE['decompress']:
        judge.same(R, 'requested', r.a[3], fld(f, 0, ix['sample_count']), 'the decoder is asked for the recorded number of samples')
    else:
        judge.decide(R, 'requested', False, 'a frame is decompressed by ' + show(r)[:200], r)


def stream(P, R):
    ev = judge.Ev(P, {'frame::CompressorFrame::decompress'})
    s = s06.stream(P)
    _, _, fs = s06.parts(P, s)
    r, st = ev.ecall('data::CompressedStream::decompress', s)
    k = fresh('k')
    k.nn = True
    want = t.flat(length(fs), close([k], mk('call', '~frame::CompressorFrame::decompress', 'alloc::vec::Vec<f64,alloc::alloc::Global>', elem(fs, k))))
    judge.same(R, 'stream', length(r), length(want), 'a stream has the values of all its frames', allow=('~',))


def run(P, R):
    R.rule('Rule: for each codec, storage width and way of compressing, the payload of arbitrary samples is evaluated to a value graph, decoded '
           'with the number of samples, and the length of the result, normalised on every feasible path with arbitrary loop counts, must be that '
           'number; the frame builders record the length of the samples they compress and ask the decoder for it.')
    R.assume += ['chunks are not empty: S05', 'a decoder that returns; the transform and interpolation libraries keep the length of what they are given or asked for']
    for p in s04.CALLS_PUBLIC:
        P.get(p)
    judge.attempt(R, 'frames', lambda: recorded(P, R))
    judge.attempt(R, 'stream', lambda: stream(P, R))
    C = judge.attempt(R, 'codecs', lambda: Codecs(P, R))
    if C is None:
        return
    for nm in C.names:
        if nm == 'Auto':
            continue        # never recorded in a frame: S04
        for di in range(len(C.depths)):
            judge.attempt(R, '%s at %s' % (nm, C.depths[di]), lambda: decoded(P, R, C, nm, di))
    R.floor('decoded lengths', 24)
    R.floor('frame builders', 3)
