"""S04: the codec recorded in a frame produced its payload, and its decoder reads it."""
import judge
import frames
from judge import *
from frames import CP, FR, CR

CODECS = ['constant::Constant', 'fft::FFT', 'noop::Noop', 'polynomial::Polynomial', 'rle::IndexRLE']


def payload_origin(P, x):
    """(codec, samples) of the codec call that produced the payload x"""
    if x.op == 'fld' and x.a[0].op == 'call' and x.a[0].a[0] == frames.OPAQUE['results'] and x.a[2] == judge.field_index(P, CR, 'compressed_data'):
        x = x.a[0]
    elif not (x.op == 'call' and x.a[0] in (frames.OPAQUE['compress'], frames.OPAQUE['bounded'])):
        return None
    return x.a[2], x.a[3]


def builders(P, R):
    ix = frames.fields(P)
    n = len(judge.variants(P, CP))
    some = {v: i for i, v in enumerate(judge.variants(P, CP))}
    fns = [('compress', judge.tysym('codec', ('adt', CP, ()))), ('compress_bounded', judge.tysym('codec', ('adt', CP, ()))),
           ('compress_best', adt(CP, some['Auto']))]
    for fn, comp in fns:
        def one_(fn=fn, comp=comp):
            f, data, st, _ = frames.build(P, R, fn, Some(comp))
            R.count('frame builders')
            rec, pay = fld(f, 0, ix['compressor']), fld(f, 0, ix['data'])
            judge.same(R, fn + ' sample count', fld(f, 0, ix['sample_count']), length(data), 'the frame records the number of samples', allow=('~',))
            ok = 0
            for x, ctx in judge.paths(pay):
                R.count('payload paths')
                o = payload_origin(P, x)
                key = fn + ' payload'
                if o is None:
                    judge.decide(R, key, False, 'the payload does not come from a codec: %s (%s)' % (show(x)[:200], judge.cshow(ctx)), x)
                    continue
                judge.same(R, key + ' codec', restrict(rec, ctx), o[0], 'recorded codec and the codec of the payload', ctx, allow=('~',))
                judge.same(R, key + ' samples', o[1], data, 'the payload is that of the whole chunk', ctx, allow=('~',))
        judge.attempt(R, fn, one_)


def Some(x):
    return adt('core::option::Option', 1, x)


def dispatch(P, R):
    """every codec: the payload type of its encoders is the one its decoder reads"""
    names = judge.variants(P, CP)
    enc = {'~compressor::%s::to_bytes' % c: c for c in CODECS}
    dec = {'~compressor::%s::decompress' % c: c for c in CODECS}
    B = {k[1:] for k in list(enc) + list(dec)} | {'utils::error::calculate_error'}
    u = ('uint', 'usize')
    ident = {}
    for i, nm in enumerate(names):
        comp = adt(CP, i)
        readers = set()

        def decode(i=i, nm=nm, comp=comp, readers=readers):
            ev = judge.Ev(P, B)
            by, cnt = judge.tysym('payload', ('slice', ('uint', 'u8'))), judge.tysym('count', u)
            r, st = ev.ecall('compressor::Compressor::decompress', comp, cnt, by)
            if st.r[OKR] is FALSE:
                R.count('codecs without decoder')
                return False
            for k in ev.inlined:
                R.saw(pretty(P.bodies[k]))
            for s in subterms(r):
                if s.op == 'call' and s.a[0] in dec:
                    readers.add(dec[s.a[0]])
                    judge.same(R, nm + ' decoder input', s.a[2], by, 'the decoder gets the payload', allow=('~',))
            return True
        has = judge.attempt(R, nm + ' decode', decode)
        for fn in ('compress', 'compress_bounded', 'get_compress_bounded_results'):
            def encode(i=i, nm=nm, comp=comp, fn=fn, has=has):
                ev = judge.Ev(P, B)
                b = ev.fnbody('compressor::Compressor::' + fn)
                args = [judge.tysym('a%d' % j, judge.strip_ref(b.lty[j + 1])) for j in range(1, b.nargs)]
                r, st = ev.run(b, [comp] + args, {}, interp.new_state())
                if st.r[OKR] is FALSE:
                    return
                for k in ev.inlined:
                    R.saw(pretty(P.bodies[k]))
                pay = fld(r, 0, judge.field_index(P, CR, 'compressed_data')) if fn.startswith('get') else r
                R.count('codec entries')
                key = '%s %s' % (nm, fn)
                if has is False:
                    R.violated(key, 'a payload can be produced by a codec that cannot be decompressed')
                for x, ctx in judge.paths(pay):
                    if not (x.op == 'call' and x.a[0] in enc):
                        judge.decide(R, key, False, 'payload is not the serialised form of a codec: %s' % show(x)[:200], x)
                        continue
                    c = enc[x.a[0]]
                    me = x.a[2]
                    idt = fld(me, 0, 0)
                    sig = (c, idt)
                    judge.same(R, key + ' samples', judge.TRUE, TRUE, 'a payload of ' + c)
                    if idt.op not in ('i', 'adt'):
                        R.undecided(key + ' id', 'identifier ' + show(idt)[:100])
                    elif ident.setdefault(sig, nm) != nm:
                        R.violated(key + ' id', '%s and %s write the same identifier %s of %s' % (nm, ident[sig], show(idt), c))
                    else:
                        R.proved(key + ' id', 'own identifier')
                    if idt.op == 'adt' and idt.a[0].endswith('PolynomialType'):
                        vn = judge.variants(P, idt.a[0])[idt.a[1]]
                        R.expect(key + ' kind', vn == nm, 'codec %s writes a payload of kind %s' % (nm, vn))
                    elif c.split('::')[1].replace('Index', '') != nm:
                        R.violated(key + ' kind', 'codec %s writes a payload of %s' % (nm, c))
                    if has:
                        if not readers:
                            R.undecided(key + ' decoder', 'decoder not recognised')
                        else:
                            R.expect(key + ' decoder', readers == {c}, 'payload of %s is read as %s' % (c, sorted(readers)))
            judge.attempt(R, '%s %s' % (nm, fn), encode)


def stream(P, R):
    from rules import s06
    ix = frames.fields(P)
    # a frame is decompressed by its own codec, count and payload
    ev = judge.Ev(P, {frames.CALLS['decompress']})
    f = judge.struct(P, FR, 'frame')
    r, st = ev.ecall('frame::CompressorFrame::decompress', f)
    judge.decide(R, 'frame decompress', r.op == 'call' and r.a[0] == frames.OPAQUE['decompress'], 'frame is decompressed by ' + show(r)[:200], r)
    if r.op == 'call':
        for i, nm in ((0, 'compressor'), (1, 'sample_count'), (2, 'data')):
            judge.same(R, 'frame decompress ' + nm, r.a[2 + i], fld(f, 0, ix[nm]), 'decompression uses what the frame records')
    # a stream is the concatenation of its frames
    ev = judge.Ev(P, {'frame::CompressorFrame::decompress'})
    s = s06.stream(P)
    _, _, fs = s06.parts(P, s)
    r, st = ev.ecall('data::CompressedStream::decompress', s)
    for k in ev.inlined:
        R.saw(pretty(P.bodies[k]))
    k = fresh('k')
    k.nn = True
    want = t.flat(length(fs), close([k], mk('call', '~frame::CompressorFrame::decompress', 'alloc::vec::Vec<f64,alloc::alloc::Global>', elem(fs, k))))
    judge.same(R, 'stream decompress', r, want, 'a stream decompresses to its frames in order', allow=('~',))
    # a chunk becomes the last frame
    B = set(frames.CALLS.values())
    for fn in ('compress_chunk', 'compress_chunk_with', 'compress_chunk_bounded_with'):
        def one_(fn=fn):
            ev = judge.Ev(P, B)
            b = ev.fnbody('data::CompressedStream::' + fn)
            st = interp.new_state()
            p = ev.cell(st, s, 'stream')
            args = [judge.tysym('a%d' % i, judge.strip_ref(b.lty[i + 1])) for i in range(1, b.nargs)]
            r, st = ev.run(b, [p] + args, {}, st)
            for k in ev.inlined:
                R.saw(pretty(P.bodies[k]))
            _, _, f1 = s06.parts(P, ev.read(st, p))
            R.count('chunk functions')
            q = fresh('k')
            q.nn = True
            c = t.EMPTY.assume(lt(q, length(fs)))
            judge.same(R, fn + ' keeps frames', restrict(elem(f1, q), c), elem(fs, q), 'earlier frames stay', c, allow=('~',))
            last = elem(f1, length(fs))
            rec, pay = fld(last, 0, ix['compressor']), fld(last, 0, ix['data'])
            judge.same(R, fn + ' count', fld(last, 0, ix['sample_count']), length(args[0]), 'the frame records the number of samples', allow=('~',))
            for x, ctx in judge.paths(pay):
                R.count('payload paths')
                o = payload_origin(P, x)
                if o is None:
                    judge.decide(R, fn + ' payload', False, 'the payload does not come from a codec: %s' % show(x)[:200], x)
                    continue
                judge.same(R, fn + ' codec', restrict(rec, ctx), o[0], 'recorded codec and the codec of the payload', ctx, allow=('~',))
                judge.same(R, fn + ' samples', o[1], args[0], 'the payload is that of the chunk', ctx, allow=('~',))
        judge.attempt(R, fn, one_)


def run(P, R):
    R.rule('Rule: on every path of every frame builder the recorded codec is the receiver of the codec call whose payload is stored, the samples '
           'of that call are the whole chunk and the count is its length; per codec, the payload type and identifier written are its own and the '
           'type its decompressor reads; decompression passes exactly the recorded codec, count and payload; streams append and concatenate in order.')
    for p in CALLS_PUBLIC:
        P.get(p)
    judge.attempt(R, 'builders', lambda: builders(P, R))
    judge.attempt(R, 'dispatch', lambda: dispatch(P, R))
    judge.attempt(R, 'stream', lambda: stream(P, R))


CALLS_PUBLIC = list(frames.CALLS.values()) + ['data::CompressedStream::decompress', 'data::CompressedStream::compress_chunk_bounded_with']
