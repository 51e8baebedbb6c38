"""Evaluation of the frame builders with the codecs kept opaque."""
import judge
from judge import *

FR = 'atsc::frame::CompressorFrame'
CP = 'atsc::compressor::Compressor'
CR = 'atsc::compressor::CompressorResult'
CALLS = {'compress': 'compressor::Compressor::compress', 'bounded': 'compressor::Compressor::compress_bounded',
         'results': 'compressor::Compressor::get_compress_bounded_results', 'decompress': 'compressor::Compressor::decompress'}
OPAQUE = {k: '~' + v for k, v in CALLS.items()}


def fields(P):
    """indices of compressor, sample count and payload; -> dict"""
    r = {'frame_size': None}
    for i, f in enumerate(P.adts[FR]['variants'][0]['f']):
        r[f['n']] = i
        if f['t'] == ('adt', CP, ()):
            r['compressor'] = i
        elif f['t'][0] == 'adt' and f['t'][1].endswith('::Vec'):
            r['data'] = i
    if 'sample_count' not in r:
        raise Anchor('sample count of the frame')
    return r


def build(P, R, fn, comp, *extra, given=None):
    """the frame after CompressorFrame::new(Some(comp)).fn(data, ...); -> (frame, data, OK, args)"""
    ev = judge.Ev(P, set(CALLS.values()))
    b = ev.fnbody('frame::CompressorFrame::' + fn)
    st = interp.new_state()
    f, st = ev.run(ev.fnbody('frame::CompressorFrame::new'), [comp], {}, st)
    p = ev.cell(st, f, 'frame')
    data = judge.tysym('data', judge.strip_ref(b.lty[2]))
    args = [judge.tysym(('max_error', 'speed', 'x3', 'x4')[i - 3], judge.strip_ref(b.lty[i])) for i in range(3, b.nargs + 1)]
    if given is not None:
        st.ctx = given(st.ctx, data, args)
    r, st = ev.run(b, [p, data] + args, {}, st)
    for k in ev.inlined:
        R.saw(pretty(P.bodies[k]))
    return ev.read(st, p), data, st, args


def calls(x, kind):
    nm = OPAQUE[kind]
    return [s for s in subterms(x) if s.op == 'call' and s.a[0] == nm]
