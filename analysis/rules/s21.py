"""S21: positions, steps and counts fit the integer types they are stored in."""
import codec
import frames
import judge
import ranges
import term as t
from judge import *
from codec import Codecs
from rules import s04

MOST = 131072         # samples of the largest frame
WBRO = 2 ** 32 - 1    # samples of the largest wbro file
EXACT = {'f32': 2 ** 24, 'f64': 2 ** 53}


def growth(P, C):
    """next_size on numbers, when it is the next member of a fixed set of numbers (and so never decreases)"""
    if codec.NEXT not in C.sum:
        return None
    r, x = C.next_form
    x1 = add(x, I(1))
    y = sub(r, x1)
    if y.op != 'trip':
        return None
    k = fresh('k')
    k.nn = True
    c = open_(y.a[0], k)
    if subst(c, {x: I(0), k: add(k, x)}) is not c:
        return None
    # powers of two are members, so the next member of n is at most the next power of two
    for i in range(1, 25):
        if judge.ground(subst(c, {x: I(0), k: I(2 ** i - 1)})) is not t.FALSE:
            return None
    memo = {}

    def f(n, exact):
        if not exact:
            return n + 1, 2 ** n.bit_length()
        if n not in memo:
            v = judge.ground(subst(r, {x: I(n)}), 300)
            memo[n] = (v.a[0],) * 2 if v.op == 'i' else (n + 1, ranges.INF)
        return memo[n]
    return f


def conversions(P, R, key, v, n, least, most, grow, done):
    for w in ranges.narrowings(v, n, codec.BODY):
        k = (w.kind, w.to, w.x, w.ctx)
        if w.bounds:
            # bound variables are named anew each time
            names = sorted({s for z in (w.x, *[c for c, _ in w.ctx]) for s in subterms(z) if s in w.bounds}, key=lambda s: s.id)
            m = {s: t.sym('pos%d' % i) for i, s in enumerate(names)}
            for s in m.values():
                s.nn = True
            k = (w.kind, w.to, subst(w.x, m), tuple((subst(c, m), i) for c, i in w.ctx),
                 tuple(None if w.bounds[s] is None else subst(w.bounds[s], m) for s in names))
        if k in done:
            continue
        done.add(k)
        if w.kind == 'i2f':
            lo, hi = -EXACT[w.to], EXACT[w.to]
        else:
            lo, hi = ranges.limits(w.to)
        R.count('conversions')
        r = ranges.fits(w, n, least, most, lo, hi, grow)
        what = '%s stored as %s' % (show(w.x)[:200], w.to)
        if r is True:
            R.proved(key, what)
            continue
        size, val, exact = r
        what = '%s: %s in a frame of %d samples' % (what, 'can be %s' % val if val is not None else 'not bounded', size)
        if exact and val is not None:
            R.violated(key, what)
        else:
            R.undecided(key, what)


def payloads(P, R, C, nm, depths, grow):
    done = set()
    for di in depths:
        for mode in ('compress', 'bounded', 'results'):
            def one_():
                pay = C.results(nm, di)[0] if mode == 'results' else C.payload(nm, di, mode == 'bounded')
                R.count('payloads')
                conversions(P, R, '%s by %s' % (nm, mode), pay, C.n, 1, MOST, grow, done)
            judge.attempt(R, '%s at %s by %s' % (nm, C.depths[di], mode), one_)


def recorded(P, R, grow):
    some = {v: i for i, v in enumerate(judge.variants(P, frames.CP))}
    for fn in ('compress', 'compress_bounded', 'compress_best'):
        def one_(fn=fn):
            comp = adt(frames.CP, some['Auto']) if fn == 'compress_best' else judge.tysym('codec', ('adt', frames.CP, ()))
            f, data, st, _ = frames.build(P, R, fn, s04.Some(comp))
            R.count('frame builders')
            conversions(P, R, 'frame by ' + fn, f, length(data), 1, MOST, grow, set())
            ix = frames.fields(P)
            judge.same(R, fn + ' count', fld(f, 0, ix['sample_count']), length(data), 'the number of samples is recorded in full', allow=('~',))
        judge.attempt(R, 'frame by ' + fn, one_)


def run(P, R):
    R.rule('Rule: every integer that becomes part of a payload or frame and is converted on the way (to a smaller integer type, or through a float) is bounded '
           'by interval analysis over its value graph, the number of samples partitioned over 1..131072 until all of it is within the target type.')
    R.assume += ['arithmetic in usize does not overflow (the code would stop)', 'frames have at most 131072 samples: S05']
    P.get('compressor::Compressor::compress')
    C = judge.attempt(R, 'codecs', lambda: Codecs(P, R))
    D = judge.attempt(R, 'open codecs', lambda: Codecs(P, R, opaque=()))
    if C is None or D is None:
        return
    grow = judge.attempt(R, 'next size', lambda: growth(P, C))
    for nm in C.names:
        judge.attempt(R, nm, lambda: payloads(P, R, D if nm == 'FFT' else C, nm, range(1) if nm == 'FFT' else range(len(C.depths)), grow))
    judge.attempt(R, 'hinted', lambda: hinted(P, R, D, grow))
    judge.attempt(R, 'frames', lambda: recorded(P, R, grow))
    judge.attempt(R, 'wbro', lambda: wbro(P, R))
    for what, least in (('payloads', 60), ('conversions', 120), ('frame builders', 3), ('wbro counts', 1)):
        R.floor(what, least)


WB = 'wavbrro::WavBrro'


def wbro(P, R):
    """the number of samples of a wbro file"""
    b = P.get(WB + '::from_slice')
    ev = judge.Ev(P)
    data = judge.tysym('data', judge.strip_ref(b.lty[1]))
    r, st = ev.run(b, [data], {}, interp.new_state())
    for k in ev.inlined:
        R.saw(pretty(P.bodies[k]))
    conversions(P, R, 'wbro from a slice', r, length(data), 0, WBRO, None, set())
    for l, ctx in judge.paths(fld(r, 0, judge.field_index(P, r.a[0], 'sample_count'))):
        R.count('wbro counts')
        ok = (l.op in ('icast', 'len') and (l.a[1] if l.op == 'icast' else l) is length(data))
        judge.decide(R, 'wbro count', ok, 'the number of samples recorded is %s' % show(l)[:200], l)


def hinted(P, R, D, grow):
    from rules import s22
    conversions(P, R, 'FFT by hinted', s22.frequency_payload(P, D, 'hinted'), D.n, 1, MOST, grow, set())
