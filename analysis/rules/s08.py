"""S08: the reported error is that of what decompression delivers."""
import struct as _pk

import judge
import codec
import runs
from judge import *
from codec import Codecs, CMP

BOUNDED = ('FFT', 'Polynomial', 'Idw')


def bounds():
    """error bounds the programs accept: whole percents, computed in single precision (S09)"""
    f = lambda v: _pk.unpack('<f', _pk.pack('<f', v))[0]
    return [F(f(k / 100)) for k in range(0, 51)]


def feasible_bounds(ctx, loops, b):
    """accepted bounds for which the path is possible"""
    out = []
    for v in bounds():
        m = {b: v}
        c = t.EMPTY
        for k, x in loops.items():
            if ctx.look(eq0(k)) == 1:       # did not run: its condition was false at once
                c = c and c.assume(Not(subst(open_(x.a[0], I(0)), m)))
        if c is None:
            continue
        for s, lab in sorted(ctx.d.items(), key=lambda x: x[0].op != 'eq0'):
            s2 = judge.prune(subst(s, m), c)
            if s2.b or s2 in (TRUE, FALSE):
                c = c.assume(s2 if lab else Not(s2))
            if c is None:
                break
        if c is not None and judge.zone_feasible(c):
            out.append(v)
    return out


def measure(P, R):
    """the documented measure: mean over all samples of |generated - original| / |original|, 0 where both are equal"""
    o, g = (judge.tysym(x, ('slice', ('float', 'f64'))) for x in ('original', 'generated'))
    ev = judge.Ev(P)
    r, st = ev.ecall('utils::error::calculate_error', o, g)
    for k in ev.inlined:
        R.saw(pretty(P.bodies[k]))
    n = length(o)
    c0 = t.EMPTY.assume(st.r[OKR]) or t.EMPTY
    r = judge.prune(r, c0)
    num, den = (r.a[0], r.a[1]) if r.op == 'fdiv' else (None, None)
    if num is None or num.op != 'fold' or num.a[2].a[1] != 2:
        R.undecided('measure', 'not a sum divided by a count: ' + show(r)[:300])
        return
    same_n = (n, length(g))
    fuzz = tup(num, den)
    judge.decide(R, 'measure count', den.op == 'i2f' and den.a[1] in same_n, 'the sum is divided by %s' % show(den)[:200], fuzz)
    judge.decide(R, 'measure range', num.a[1] in same_n, 'the sum has %s terms' % show(num.a[1])[:200], fuzz)
    judge.decide(R, 'measure start', num.a[0].op == 'f' and fval(num.a[0]) == 0, 'the sum starts at %s' % show(num.a[0])[:200], fuzz)
    k, p = fresh('k'), fresh('p')
    k.nn = True
    x, y = elem(o, k), elem(g, k)
    for l, ctx in judge.paths(open_(num.a[2], k, p)):
        R.count('measure paths')
        if l.op == 'fadd' and p in l.a:
            term = l.a[1] if l.a[0] is p else l.a[0]
        elif l is p:
            term = F(0.0)
        else:
            judge.decide(R, 'measure term', False, 'the sum is continued with %s' % show(l)[:200], l)
            continue
        if judge.implied(ctx, t.fcmp('eq', x, y)) or judge.implied(ctx, t.fcmp('eq', y, x)):
            judge.decide(R, 'measure of equal samples', is_zero(term) or is_ape(term, x, y), 'equal samples count %s' % show(term)[:200], term)
        else:
            judge.decide(R, 'measure term', is_ape(term, x, y), 'a sample counts %s (%s)' % (show(term)[:200], judge.cshow(ctx)), term)


def is_zero(x):
    return x.op == 'f' and fval(x) == 0


def is_ape(x, o, g):
    """|g - o| / |o|"""
    outer = x.op == 'fabs'
    if outer:
        x = x.a[0]
    if x.op != 'fdiv':
        return False
    a, b = x.a
    ia, ib = a.op == 'fabs', b.op == 'fabs'
    a, b = (a.a[0] if ia else a), (b.a[0] if ib else b)
    return (outer or ia and ib) and b is o and a.op == 'fsub' and set(a.a) == {o, g}


def describe(nm, depth):
    return '%s at %s' % (nm, depth)


def bounded(P, R, C, nm, di):
    """the loop summarised, which covers any number of rounds, then round by round, which leaves no part of the loop opaque"""
    ext, odd = C.extremes()
    late = []
    bounded_run(P, R, C, nm, di, *C.results(nm, di), ext, odd, late)
    try:
        for n, pay, err, guard in C.bounded_runs(nm, di):
            if n is None:
                break
            bounded_run(P, R, C, nm, di, pay, ite(guard, err, UNIT), ext, odd)
        else:
            late = []
    except (interp.Unsupported, t.Blowup):
        R.count('codecs whose rounds were not followed')
    for k, why in late:
        R.undecided(k, why)


def bounded_run(P, R, C, nm, di, pay, err, ext, odd, late=None):
    depth = C.depths[di]
    rec = C.decode(nm, pay, di)
    w, loops = codec.free_loops(tup(err, rec))
    err, rec = fld(w, -1, 0), fld(w, -1, 1)
    for e, ctx in judge.paths(err, C.some):
        if e is UNIT:
            continue
        c = codec.never_ran(ctx, loops)
        if c is None or not judge.zone_feasible(c):
            continue
        R.count('error paths')
        e, got = judge.prune(e, c), judge.prune(rec, c)
        key = describe(nm, depth)
        if e.op == 'call' and e.a[0] == '~' + codec.ERROR:
            judge.decide(R, key + ' original', e.a[2] is C.data, 'the error is measured against %s instead of the samples' % show(e.a[2])[:200], e.a[2], allow=('~',))
            d = judge.split_diff(e.a[3], got, c)
            if d is None:
                R.proved(key + ' reconstruction')
                continue
            x, y, c2 = d
            lx, ly = ({s for s in subterms(v) if s in loops} for v in (x, y))
            if lx != ly:
                why = 'loop not summarised: %s / %s' % (show(x)[:200], show(y)[:200])
                if late is None:
                    R.undecided(key + ' reconstruction', why)
                else:
                    late.append((key + ' reconstruction', why))
                continue
            part = opaque_part(x, y)
            if part is not None:
                w = confirmed(C, part, c2)
                if w is not None:
                    R.violated(key + ' reconstruction', 'the error is measured with %s but decompression works with %s, for instance for %d samples' % (
                        show(part[0])[:200], show(part[1])[:200], w[0]))
                    continue
                R.undecided(key + ' reconstruction', 'not compared: %s / %s' % (show(part[0])[:200], show(part[1])[:200]))
                continue
            judge.decide(R, key + ' reconstruction', False,
                         'the error is measured on %s but decompression gives %s (%s)' % (show(x)[:400], show(y)[:400], judge.cshow(c2)), x, y, *c2.d, allow=('~',))
            continue
        if is_zero(e):
            exact(R, C, key, got, c, ext, odd)
            continue
        bs = feasible_bounds(ctx, loops, C.bound)
        if not bs:
            R.proved(key + ' reported')
            continue
        judge.decide(R, key + ' reported', False, 'the reported error is %s and not a measured one, for instance with the bound %g (%s)' % (
            show(e)[:200], fval(bs[0]), judge.cshow(ctx)), e, *[s for s in ctx.d if s in loops or s.b], allow=('~',))


def opaque_part(x, y):
    """the difference lies between an unexpanded part of a summarised result and a plain value (the same result expanded on one side only)"""
    while x.op == y.op == 'call' and x.a[:2] == y.a[:2] and len(x.a) == len(y.a):
        ds = [(a, b) for a, b in zip(x.a[2:], y.a[2:]) if a is not b]
        if len(ds) != 1:
            return None
        x, y = ds[0]
        for a, b in ((x, y), (y, x)):
            if a.op == 'call' and '?' in str(a.a[0]) and not any(s.op == 'call' and str(s.a[0]).startswith('~') for s in subterms(b)):
                return x, y
    return None


SIZES = [(n,) for n in list(range(1, 700)) + [1000, 1024, 1300, 4096, 10000, 65536, 65537, 100000, 131072]]


def expanded(v):
    """parts of summarised results replaced by what they are"""
    for _ in range(6):
        m = {}
        for s in subterms(v):
            if s.op == 'call' and s.a[0] in codec.BODY and '?' in s.a[0]:
                deps, b = codec.BODY[s.a[0]]
                m[s] = subst(b, dict(zip(deps, s.a[2:])))
        if not m:
            break
        v = subst(v, m)
    return v


def confirmed(C, parts, ctx):
    """a number of samples for which the two integers differ on this path, or None"""
    x, y = (counts(expanded(v)) for v in parts)
    cs = [(counts(expanded(s)), lab) for s, lab in ctx.d.items() if s.op in ('ge0', 'eq0')]
    return judge.witness(cs, [C.n], SIZES, [x, y], lambda a, b: a.op == 'i' and b.op == 'i' and a is not b)


def counts(x):
    """whole numbers: i2f(v) - 1.0 is i2f(v - 1), exactly (v < 2^53)"""
    m = {}
    for s in subterms(x):
        if s.op == 'fsub' and s.a[0].op == 'i2f' and s.a[1].op == 'f' and fval(s.a[1]) in range(1, 1000):
            m[s] = i2f(sub(s.a[0].a[1], I(int(fval(s.a[1])))), None, s.a[0].a[0])
    return judge.prune(subst(x, m), t.EMPTY) if m else x


def exact(R, C, key, got, c, ext, odd):
    """error 0 without measuring: everything is one value, the maximum and the minimum of the samples"""
    i = fresh('i')
    i.nn = True
    c2 = c.assume(lt(i, C.n))
    x = judge.prune(elem(got, i), c2)
    for a, term, kind in odd.values():
        if a is x or any(a in s.a for s in c.d if s.op == 'feq'):
            if kind == 'part':
                R.violated(key + ' limits', 'constant storage with error 0 although the limits are not those of all samples: %s' % show(term)[:300])
            else:
                R.undecided(key + ' limits', 'limits of the samples not recognised: %s' % show(term)[:300])
            return
    mx = [a for a, k in ext.items() if k == 'max']
    mn = [a for a, k in ext.items() if k == 'min']
    eq = mx and mn and (judge.implied(c, t.fcmp('eq', mx[0], mn[0])) or judge.implied(c, t.fcmp('eq', mn[0], mx[0])) or judge.implied(c, t.fcmp('le', mx[0], mn[0])))
    judge.decide(R, key + ' exact', bool(eq) and x in ext, 'error 0 is reported without measuring although %s is decompressed to (%s)' % (show(x)[:200], judge.cshow(c)), x, *c.d, allow=('~',))


def constant(P, R, C, di):
    """selected only when all samples are equal (S07)"""
    ext, odd = C.extremes()
    mx = [a for a, k in ext.items() if k == 'max']
    mn = [a for a, k in ext.items() if k == 'min']
    pay, err = C.results('Constant', di)
    rec = C.decode('Constant', pay, di)
    if not mx or not mn:
        for a, term, kind in odd.values():
            if kind == 'part':
                R.violated('Constant limits', 'the limits are not those of all samples: %s' % show(term)[:300])
            else:
                R.undecided('Constant limits', 'limits of the samples not recognised: %s' % show(term)[:300])
        return
    c = C.some.assume(t.fcmp('eq', mx[0], mn[0]))
    for e, ctx in judge.paths(err, c):
        R.count('error paths')
        got = judge.prune(rec, ctx)
        i = fresh('i')
        i.nn = True
        x = judge.prune(elem(got, i), ctx.assume(lt(i, C.n)))
        if x.op == 'i2f' and x.a[1].op == 'f2i':
            x = x.a[1].a[1]      # S03
        judge.decide(R, describe('Constant', C.depths[di]), is_zero(e) and x in ext, 'equal samples are decompressed to %s with the error %s' % (show(x)[:200], show(e)[:100]), x, e, allow=('~',))


def runlength(P, R, C, di):
    pay, err = C.results('RLE', di)
    rec = C.decode('RLE', pay, di)
    key = describe('RLE', C.depths[di])
    for e, ctx in judge.paths(err, C.some):
        R.count('error paths')
        if not is_zero(e):
            R.undecided(key, 'error %s' % show(e)[:200])
            continue
        runs.restores(R, key, rec, C.data, ctx)


def run(P, R):
    R.rule('Rule: for each codec and width, payload and error of a bounded run on arbitrary samples and the decoding of that payload are evaluated to '
           'value graphs (helpers summarised from their own bodies, loop counts arbitrary); on every feasible path the error must be the measure '
           'applied to the samples and to exactly the sequence that the decoder returns on that path, or 0 for a path on which the decoder returns the '
           'single value that is both maximum and minimum, or for the run-length payload, whose decoding is shown to restore every sample. The measure '
           'is compared with its definition.')
    R.assume += ['narrow integers restore the samples written to them: S03', 'Constant is selected only when maximum and minimum are equal: S07',
                 'bounds are those the programs accept, 0 to 50 percent: S09', 'finite samples: S05',
                 'the FFT, spline and distance weighting libraries are functions of their arguments']
    P.get('compressor::Compressor::get_compress_bounded_results')
    P.get('compressor::Compressor::decompress')
    judge.attempt(R, 'measure', lambda: measure(P, R))
    C = judge.attempt(R, 'codecs', lambda: Codecs(P, R))
    if C is None:
        return
    for nm in BOUNDED:
        for di in range(len(C.depths)):
            judge.attempt(R, describe(nm, C.depths[di]), lambda: bounded(P, R, C, nm, di))
    for di in range(len(C.depths)):
        judge.attempt(R, describe('Constant', C.depths[di]), lambda: constant(P, R, C, di))
        judge.attempt(R, describe('RLE', C.depths[di]), lambda: runlength(P, R, C, di))
    R.floor('error paths', 100)
    R.floor('decoded samples inside of a run', 2)
    R.floor('decoded samples outside of a run', 3)
    R.floor('run starts', 3)
