"""S22: encoder and decoder use the same grid: positions of stored points, transform length, padding and mirrored frequencies."""
import os
import codec
import judge
import term as t
from judge import *
from codec import Codecs, POLY, FFT
from term import fval

FP = 'atsc::compressor::fft::FrequencyPoint'
IDWNEW, KEYNEW, SPLINE = 'inverse_distance_weight::IDW::new', 'splines::Key::new', 'splines::Spline::from_vec'
DRAW = {'compressor::polynomial::Polynomial::idw_to_data': 'inverse_distance_weight::IDW::evaluate',
        'compressor::polynomial::Polynomial::polynomial_to_data': 'splines::Spline::clamped_sample'}


# numbers of samples and of requested points on which differences are confirmed
SIZES = (1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 20, 29, 40, 100, 101, 128, 255, 300, 301, 999, 1000, 1001)
COUNTS = (1, 2, 3, 4, 5, 7, 10, 30, 99, 100, 127, 500, 1000)

OPEN = ('any', 'first', 'fold', 'psum', 'recn', 'trip', 'flat', 'sorted', 'phi')


def decide(R, key, ok, what, *terms, allow=()):
    if not ok:
        for x in terms:
            for s in subterms(x):
                if s.op in OPEN:
                    R.undecided(key, 'not reduced: %s' % what)
                    return
    judge.decide(R, key, ok, what, *terms, allow=allow)


def whole(s):
    return s.op == 'f' and fval(s) == int(fval(s))


def exactly(v):
    """positions below 2^53 survive the way through a float, and (S21) through the integer types they are stored in"""
    for _ in range(10):
        m = {}
        for s in subterms(v):
            if s.op == 'f2i' and s.a[1].op == 'i2f':
                m[s] = s.a[1].a[1]
            elif s.op in ('fsub', 'fadd') and s.a[0].op == 'i2f' and whole(s.a[1]):
                k = int(fval(s.a[1]))
                m[s] = mk('i2f', s.a[0].a[0], add(s.a[0].a[1], I(k if s.op == 'fadd' else -k)))
            elif s.op == 'feq' and s.a[0].op == 'i2f' and s.a[1].op == 'i2f':
                m[s] = t.eqi(s.a[0].a[1], s.a[1].a[1])
            elif s.op in ('flt', 'fle') and s.a[0].op == 'i2f' and s.a[1].op == 'i2f':
                m[s] = (lt if s.op == 'flt' else le)(s.a[0].a[1], s.a[1].a[1])
            elif s.op == 'icast':
                m[s] = s.a[1]
            elif s.op == 'feq' and (s.a[0].op == 'i2f' and whole(s.a[1]) or s.a[1].op == 'i2f' and whole(s.a[0])):
                x, f = (s.a[0], s.a[1]) if s.a[0].op == 'i2f' else (s.a[1], s.a[0])
                m[s] = t.eqi(x.a[1], I(int(fval(f))))
        m = {a: b for a, b in m.items() if a is not b}
        if not m:
            return v
        v = subst(v, m)
    return v


# ------------------------------------------------------------------ interpolating codecs
def sampled(P, R):
    """a codec after keeping an arbitrary number of points -> (codec, samples, what is known)"""
    ev = judge.Ev(P)
    b = ev.fnbody(POLY + '::compress_hinted')
    st = interp.new_state()
    data = judge.tysym('data', ('slice', ('float', 'f64')))
    pts = judge.tysym('points', ('uint', 'usize'))
    pts.nn = True
    me = judge.struct(P, 'atsc::' + POLY, 'self')
    st.ctx = t.EMPTY.assume(le(I(1), length(data))).assume(le(I(1), pts))
    lo, hi = (judge.field_index(P, 'atsc::' + POLY, x) for x in ('min', 'max'))
    for a in (t.fcmp('eq', fld(me, 0, lo), fld(me, 0, hi)), t.fcmp('eq', fld(me, 0, hi), fld(me, 0, lo))):
        st.ctx = st.ctx.assume(Not(a)) or st.ctx
    p = ev.cell(st, me, 'self')
    ctx = st.ctx
    r, st = ev.run(b, [p, data, pts], {}, st)
    for k in ev.inlined:
        R.saw(pretty(P.bodies[k]))
    return restrict(ev.read(st, p), ctx), data, ctx


def interpolation(P, R, fn):
    me, data, ctx = sampled(P, R)
    n = length(data)
    ev = judge.Ev(P)
    st = interp.new_state()
    st.ctx = ctx
    q = ev.cell(st, me, 'decoder')
    r, st = ev.run(ev.fnbody(fn), [q, n], {}, st)
    for k in ev.inlined:
        R.saw(pretty(P.bodies[k]))
    key = fn.split('::')[-1]
    r = exactly(restrict(r, ctx))
    # every value is drawn at its own position
    i = fresh('i')
    i.nn = True
    c = ctx.assume(lt(i, n))
    x = exactly(judge.prune(elem(r, i), c))
    draws = [s for s in subterms(x) if s.op == 'call' and s.a[0] == DRAW[fn] and not s.bm]
    at = {s.a[3] for s in draws if not any(w.op == 'fold' and s in subterms(w.a[2]) for w in subterms(x))}
    own = mk('i2f', 'f64', i)
    if not at:
        R.undecided(key + ' drawn at', 'no value of the interpolation recognised: %s' % show(x)[:200])
    else:
        decide(R, key + ' drawn at', own in at, 'sample %s is drawn at %s' % (show(i), ' or '.join(show(a)[:100] for a in at)), *at)
    # the points
    pairs = []
    for s in subterms(r):
        if s.op == 'call' and s.a[0] == IDWNEW and not s.bm:
            pairs.append((s.a[2], s.a[3], lambda p, v, k: (elem(p, k), elem(v, k))))
        elif s.op == 'call' and s.a[0] == SPLINE and not s.bm:
            pairs.append((s.a[2], s.a[2], keys))
    if len(pairs) != 1:
        R.undecided(key + ' points', '%d interpolations recognised' % len(pairs))
        return
    ps, vs, get = pairs[0]
    vals = fld(me, 0, judge.field_index(P, 'atsc::' + POLY, 'data_points'))
    pts = next((x for x in subterms(me) if x.op == 'sym' and x.a[0] == 'points'), None) or fresh('points')

    def refute(key, what, names, vals, c, a, b, differ, *terms):
        """a difference between expressions counts where numbers show it"""
        w = judge.witness(c, names, vals, (a, b), differ)
        if w is None:
            R.undecided(key, 'not the same expressions: ' + what)
        else:
            decide(R, key, False, '%s: %s' % (', '.join('%s = %d' % (show(x)[:40], y) for x, y in zip(names, w)), what), *terms)

    def differ(a, b):
        return a.op == 'i' and b.op == 'i' and a is not b

    for (a, b), c in judge.joint((exactly(length(ps)), exactly(length(vals))), ctx):
        R.count('point counts')
        d = judge.split_diff(exactly(judge.prune(a, c)), exactly(judge.prune(b, c)), c)
        if d is None:
            R.proved(key + ' count')
        else:
            refute(key + ' count', '%s points are stored but placed at %s positions (%s)' % (show(b)[:200], show(a)[:200], judge.cshow(c)), (n, pts),
                   [(x, y) for x in SIZES for y in COUNTS], c, a, b, differ, a, b, *c.d)
    k = fresh('k')
    k.nn = True
    c0 = ctx.assume(lt(k, exactly(length(ps))))
    p, v = get(ps, vs, k)
    if p is None:
        R.undecided(key + ' positions', 'points of the interpolation not recognised')
        return
    for w, c in judge.joint((exactly(p), exactly(v)), c0):
        if not judge.zone_feasible(c):
            continue
        p1, v1 = (exactly(judge.prune(x, c)) for x in w)
        R.count('point positions')
        tried = [(x, y, z) for x in SIZES for y in COUNTS for z in {0, 1, 2, y // 2, y - 1, y, x // 2, x - 1} if 0 <= z < x]
        if p1.op != 'i2f' or v1.op != 'elem' or v1.a[0] is not data:
            refute(key + ' positions', 'a stored point is %s, placed at %s (%s)' % (show(v1)[:200], show(p1)[:200], judge.cshow(c)),
                   (n, pts, k), tried, c, p1, v1, lambda a, b: True, p1, v1, *c.d)
            continue
        d = judge.split_diff(p1.a[1], v1.a[1], c)
        if d is None:
            R.proved(key + ' positions')
        else:
            refute(key + ' positions', 'the sample of position %s is placed at %s (%s)' % (show(v1.a[1])[:200], show(p1.a[1])[:200], judge.cshow(c)),
                   (n, pts, k), tried, c, p1.a[1], v1.a[1], differ, p1, v1, *c.d)


def keys(ks, _, k):
    x = elem(ks, k)
    ls = [l for l in leaves(x) if l is not BOT]
    if not all(l.op == 'call' and l.a[0] == KEYNEW for l in ls):
        return None, None
    return t.lift1(lambda l: l if l is BOT else l.a[2], x), t.lift1(lambda l: l if l is BOT else l.a[3], x)


def modes(P, R, C, nm, di, mode):
    """the stored points and the stored step are those of one and the same sampling of the whole frame"""
    pay = C.results(nm, di)[0] if mode == 'results' else C.payload(nm, di, mode == 'bounded')
    rec = C.decode(nm, pay, di)
    key = '%s at %s by %s' % (nm, C.depths[di], mode)
    nd, ns = ('~%s::compress_hinted!0.%d' % (POLY, judge.field_index(P, 'atsc::' + POLY, f)) for f in ('data_points', 'point_step'))
    outs = {'~' + f for f in DRAW}
    rec, loops = codec.free_loops(rec)
    found = 0
    for l, ctx in judge.paths(rec, C.some):
        l = judge.prune(l, ctx)
        for s in subterms(l):
            if s.op != 'call' or s.a[0] not in outs or s.bm:
                continue
            for w, c in judge.joint(s.a[2:], ctx):
                w = tup(*[judge.prune(x, c) for x in w])
                dd = {x for x in subterms(w) if x.op == 'call' and str(x.a[0]).split('?')[0] == nd}
                ss = {x for x in subterms(w) if x.op == 'call' and str(x.a[0]).split('?')[0] == ns}
                if not dd and not ss:
                    continue
                found += 1
                R.count('stored samplings')
                da, sa = {x.a[2:] for x in dd}, {x.a[2:] for x in ss}
                if len(da) > 1 or len(sa) > 1:
                    R.undecided(key, 'several samplings take part')
                    continue
                if not da or not sa:
                    # a step of 1 or no points are plain values on paths that sampled nothing
                    const = [x for x in w.a if x.op == 'i']
                    R.count('samplings with constant step')
                    continue
                a, b = da.pop(), sa.pop()
                decide(R, key, a == b, 'the stored points come from sampling %s and the stored step from sampling %s' % (
                    ', '.join(show(x)[:100] for x in a), ', '.join(show(x)[:100] for x in b)), *a, *b, allow=('~',))
                decide(R, key + ' frame', s.a[-1] is C.n and C.data in a, 'the decoder places the points on a frame of %s' % show(s.a[-1])[:100], s.a[-1], *a, allow=('~',))
    if not found:
        R.undecided(key, 'no sampling recognised')


# ------------------------------------------------------------------ frequencies
def transforms(v, direction):
    """transforms planned in v -> {(length, input)}"""
    return {s for s in subterms(v) if s.op == 'fftp' and not s.bm and s.a[0].op == 'plan' and s.a[0].a[0] == direction}


def regimes(C, *vs):
    """the conditions on the number of samples alone, decided in all consistent ways"""
    ok = {C.n}
    conds = []
    for v in vs:
        for s in subterms(v):
            if s.op == 'sw' and not s.a[0].bm and s.a[0] not in conds and s.a[0].op in ('ge0', 'eq0') and \
                    {x for x in subterms(s.a[0]) if x.op in ('sym', 'var', 'fresh') or x.op == 'len' and x is not C.n} <= {C.data}:
                conds.append(s.a[0])
    out = [C.some]
    for c in conds:
        nxt = []
        for x in out:
            for i in (0, 1):
                y = x.assume(c if i else Not(c)) if x.look(c) is None else (x if x.look(c) == i else None)
                if y is not None and judge.zone_feasible(y) and y not in nxt:
                    nxt.append(y)
        out = nxt
        if len(out) > 64:
            break
    return out


def frequency_payload(P, C, mode):
    if mode == 'hinted':
        fr = judge.tysym('freqs', ('uint', 'usize'))
        fr.nn = True
        C2 = C
        e = C2.ev(0)
        st = interp.new_state()
        st.ctx = C.some
        r, st = e.run(e.fnbody('compressor::fft::fft_set'), [C.data, fr], {}, st)
        for k in e.inlined:
            C.R.saw(pretty(P.bodies[k]))
        return r
    return C.results('FFT', 0)[0] if mode == 'results' else C.payload('FFT', 0, mode == 'bounded')


FIXED = (1, 2, 100, 127, 128, 129, 130, 143, 144, 200, 255, 256, 257, 511, 512, 1000, 1024)


class Kept:
    """obligations kept back until they are confirmed"""

    def __init__(self, R):
        self.R, self.bad, self.lost, self.good = R, [], [], 0

    def violated(self, key, what):
        self.bad.append((key, what))

    def undecided(self, key, what):
        self.lost.append((key, what))

    def proved(self, key):
        self.R.proved(key)

    def saw(self, x):
        self.R.saw(x)

    def count(self, *a):
        self.R.count(*a)


class Quiet(Kept):
    def count(self, *a):
        pass

    proved = count


class Fixed:
    """arbitrary frames of one fixed length"""

    def __init__(self, C, n):
        self.data, self.n, self.some = C.data, I(n), t.EMPTY


def at_length(P, C, v, n):
    b = P.get(codec.NEXT)
    v = restrict(subst(v, {C.n: I(n)}), t.EMPTY)
    for _ in range(4):
        m = {}
        for s in subterms(v):
            if s.op == 'call' and s.a[0] == '~next' and s.a[2].op == 'i':
                m[s] = sub(judge.ground(subst(C.next_form[0], {C.next_form[1]: s.a[2]})), add(s.a[2], I(1)))
        if not m:
            break
        v = subst(v, m)
    return judge.unroll(judge.ground(v))


def frequencies(P, R, C, mode):
    pay = frequency_payload(P, C, mode)
    key = 'FFT by ' + mode
    me = judge.struct(P, 'atsc::' + FFT, 'self')
    dec, _ = decoder(P, R, C, me, C.n)
    k = Kept(R)
    judged(P, k, C, key, pay, dec)
    if k.bad or k.lost or os.environ.get('ATSC_FIXED'):
        # what is not equal as an expression is looked at again where all sizes are numbers
        found = False
        for n in FIXED:
            q = Quiet(R)
            judged(P, q, Fixed(C, n), key, at_length(P, C, pay, n), at_length(P, C, dec, n))
            for key1, what in q.bad:
                found = True
                R.violated(key1, 'a frame of %d samples: %s' % (n, what))
        for key1, what in k.bad + k.lost:
            if not found:
                R.undecided(key1, 'not the same expressions: ' + what)
    points(P, R, key, pay)


def sizes(c):
    """the conditions on lengths and positions (those on reconstructed values decide about rounding only)"""
    return [x for x in c.d if x.op in ('ge0', 'eq0')]


def judged(P, R, C, key, pay, dec):
    i = fresh('i')
    i.nn = True
    seen = 0
    for ctx in regimes(C, dec):
        inv = transforms(judge.prune(dec, ctx), 'inverse')
        c = ctx.assume(lt(i, C.n))
        x = judge.prune(elem(dec, i), c)
        for l, c in judge.paths(x, c):
            reads = {s for s in subterms(l) if s.op == 'elem' and s.a[0].op == 'fftp' and s.a[0].a[0].op == 'plan' and s.a[0].a[0].a[0] == 'inverse'}
            if not reads:
                continue
            if len(reads) > 1:
                R.undecided(key + ' read', 'several values of the transform make one sample')
                continue
            rd = reads.pop()
            L, pos = rd.a[0].a[0].a[1], rd.a[1]
            fwd = transforms(judge.prune(pay, c), 'forward')
            # transforms deeper inside, under conditions on the length
            fwd = {judge.prune(f, c) for f in fwd}
            lens = {f.a[0].a[1] for f in fwd}
            if not fwd:
                R.undecided(key + ' transform', 'no forward transform recognised')
                continue
            for f in fwd:
                seen += 1
                R.count('transform pairs')
                lf = f.a[0].a[1]
                d = judge.split_diff(lf, L, c)
                decide(R, key + ' length', d is None, 'the transform has %s points when compressing and %s when decompressing (%s)' % (show(lf)[:200], show(L)[:200], judge.cshow(c)),
                             lf, L, *sizes(c), allow=('~next',))
                if d is not None:
                    continue
                decide(R, key + ' buffer', judge.split_diff(length(f.a[1]), lf, c) is None, 'a transform of %s points is run on %s values' % (show(lf)[:100], show(length(f.a[1]))[:100]),
                             f.a[1], lf, allow=('~next',))
                for w, c2 in judge.paths(judge.prune(elem(f.a[1], pos), c), c):
                    if not judge.zone_feasible(c2):
                        continue
                    for re, c3 in judge.paths(w.a[2], c2) if w.op == 'adt' else [(w, c2)]:
                        R.count('padded positions')
                        decide(R, key + ' padding', same_sample(strip(re), C.data, i, c3), 'sample %s is read at position %s, where the compressor put %s (%s)' % (
                            show(i), show(pos)[:100], show(re)[:200], judge.cshow(c3)), re, pos, *sizes(c3), allow=('~next',))
    if not seen and C.n.op != 'i':
        R.undecided(key, 'no pair of transforms recognised')


def same_sample(x, data, i, c):
    if x.op != 'elem' or x.a[0] is not data:
        return False
    if judge.split_diff(x.a[1], i, c) is None:
        return True
    return all(y is None or not judge.zone_feasible(y) for y in (c.assume(lt(x.a[1], i)), c.assume(lt(i, x.a[1]))))


def strip(x):
    return x.a[1] if x.op == 'f2f' else x


def points(P, R, key, pay):
    """each stored point carries the index of the frequency it holds"""
    ip_, ir, ii = (judge.field_index(P, FP, f) for f in ('pos', 'freq_real', 'freq_img'))
    n = 0
    for s in subterms(pay):
        if s.op != 'adt' or s.a[0] != FP:
            continue
        n += 1
        R.count('stored points')
        pos, re, im = exactly(s.a[2 + ip_]), s.a[2 + ir], s.a[2 + ii]
        for (re, im), c in judge.joint((re, im)):
            ok = True
            src = None
            for x, j in ((re, 0), (im, 1)):
                if x.op != 'fld' or x.a[2] != j or x.a[0].op != 'elem' or src is not None and x.a[0] is not src:
                    ok = False
                    break
                src = x.a[0]
            if not ok or src.a[0].op != 'fftp':
                R.undecided(key + ' point', 'stored point not recognised: %s' % show(s)[:200])
                continue
            decide(R, key + ' point', judge.split_diff(exactly(src.a[1]), pos, c) is None, 'frequency %s is stored with the position %s' % (show(src.a[1])[:100], show(pos)[:100]),
                         src.a[1], pos)
    if not n:
        R.undecided(key + ' point', 'no stored points recognised')


def decoder(P, R, C, me, n):
    """reconstruction of an arbitrary payload"""
    ev = judge.Ev(P)
    if codec.NEXT in C.sum:
        ev.barriers[codec.NEXT] = C.next_size
    st = interp.new_state()
    st.ctx = C.some
    hi, lo = (judge.field_index(P, 'atsc::' + FFT, f) for f in ('max_value', 'min_value'))
    for a in (t.fcmp('eq', fld(me, 0, hi), fld(me, 0, lo)), t.fcmp('eq', fld(me, 0, lo), fld(me, 0, hi))):
        st.ctx = st.ctx.assume(Not(a)) or st.ctx
    q = ev.cell(st, me, 'fft')
    ctx = st.ctx
    r, st = ev.run(ev.fnbody(FFT + '::to_data'), [q, n], {}, st)
    for k in ev.inlined:
        R.saw(pretty(P.bodies[k]))
    return restrict(r, ctx), ctx


def mirrored(P, R, C):
    """every stored point sets its own position and the conjugate at the mirrored one"""
    me = judge.struct(P, 'atsc::' + FFT, 'self')
    fi = judge.field_index(P, 'atsc::' + FFT, 'frequencies')
    fs = fld(me, 0, fi)
    ip_, ir, ii = (judge.field_index(P, FP, f) for f in ('pos', 'freq_real', 'freq_img'))
    dec, ctx = decoder(P, R, C, me, C.n)
    q, j, acc = fresh('q'), fresh('j'), sym('buffer', ('slice', ('adt', 'num_complex::Complex', ())))
    q.nn = j.nn = True
    pos = exactly(fld(elem(fs, j), 0, ip_))
    re, im = fld(elem(fs, j), 0, ir), fld(elem(fs, j), 0, ii)
    done = 0
    for c0 in regimes(C, dec):
        for f in transforms(judge.prune(dec, c0), 'inverse'):
            buf, L = f.a[1], f.a[0].a[1]
            for b, c in judge.paths(buf, c0):
                done += 1
                if b.op != 'fold' or b.a[2].a[1] != 2 or b.a[1] is not length(fs):
                    R.undecided('mirrored', 'frequencies of the inverse transform: %s' % show(b)[:200])
                    continue
                init, _, lam = b.a
                decide(R, 'mirrored size', judge.split_diff(length(init), L, c) is None, 'an inverse transform of %s points is run on %s values' % (show(L)[:100], show(length(init))[:100]),
                             length(init), L, allow=('~next',))
                z = judge.prune(elem(init, q), c.assume(lt(q, L)))
                decide(R, 'mirrored rest', z.op == 'adt' and all(x.op == 'f' and fval(x) == 0 for x in z.a[2:]), 'frequencies that are not stored are %s' % show(z)[:200], z)
                step = exactly(open_(lam, j, acc))
                step = subst(step, {length(acc): L})
                for what, at, want in (('own position', pos, ((re, False), (im, False))), ('mirrored position', sub(L, pos), ((re, False), (im, True)))):
                    c1 = c.assume(lt(at, L))
                    c1 = c1 and c1.assume(lt(I(0), pos))
                    if what == 'own position':
                        # away from the middle both positions differ
                        c1 = c1 and (c1.assume(Not(t.eqi(pos, sub(L, pos)))) or c1)
                    check(R, 'mirrored ' + what, step, at, want, c1)
                c1 = c.assume(lt(I(0), L))
                check(R, 'mirrored constant part', subst(step, {pos: I(0)}), I(0), ((re, False), (im, False)), c1)
                other = elem(acc, q)
                c1 = c.assume(lt(q, L))
                for a in (t.eqi(q, pos), t.eqi(q, sub(L, pos))):
                    c1 = c1 and c1.assume(Not(a))
                for x, c2 in judge.paths(restrict(elem(step, q), c1), c1):
                    if not judge.zone_feasible(c2):
                        continue
                    R.count('mirrored writes')
                    decide(R, 'mirrored others', x is other, 'a stored point changes position %s to %s (%s)' % (show(q), show(x)[:200], judge.cshow(c2)), x, *c2.d, allow=('~next',))
    if not done:
        R.undecided('mirrored', 'no inverse transform recognised')


def check(R, key, step, at, want, c):
    if c is None:
        return
    for x, c2 in judge.paths(restrict(elem(step, at), c), c):
        if not judge.zone_feasible(c2):
            continue
        for w, c3 in judge.joint(x.a[2:], c2) if x.op == 'adt' else [((x,), c2)]:
            R.count('mirrored writes')
            ok = x.op == 'adt' and all(same_number(a, v, neg) for a, (v, neg) in zip(w, want))
            decide(R, key, ok, 'a stored point sets %s to %s (%s)' % (show(at)[:100], ', '.join(show(a)[:100] for a in w), judge.cshow(c3)), *w, *c3.d, allow=('~next',))


def same_number(a, v, neg):
    if not neg:
        return a is v
    if a.op == 'fneg':
        return a.a[0] is v
    if a.op == 'fmul':
        return v in a.a and any(x.op == 'f' and fval(x) == -1 for x in a.a)
    return a.op == 'fsub' and a.a[1] is v and a.a[0].op == 'f' and fval(a.a[0]) == 0


def run(P, R):
    R.rule('Rule: positions are compared as value graphs. For a sampling with an arbitrary number of points, point j must be the sample of exactly the '
           'position where the decoder places point j, for the same count, with points and step of one sampling in every way of compressing. For each '
           'frame length regime, forward and inverse transforms have equal length, the decoder reads sample i where the encoder put it, every stored '
           'frequency carries its index, and the decoder sets exactly that index and its mirror image.')
    R.assume += ['positions are below 2^53 and are not truncated when stored: S21', 'the payload is read back as written: S02', 'chunks are not empty: S05']
    P.get('compressor::Compressor::compress')
    P.get('compressor::Compressor::decompress')
    for fn in DRAW:
        judge.attempt(R, fn.split('::')[-1], lambda: interpolation(P, R, fn))
    C = judge.attempt(R, 'codecs', lambda: Codecs(P, R))
    if C is None:
        return
    for nm in ('Polynomial', 'Idw'):
        for di in range(len(C.depths)):
            for mode in ('compress', 'bounded', 'results'):
                judge.attempt(R, '%s at %s by %s' % (nm, C.depths[di], mode), lambda: modes(P, R, C, nm, di, mode))
    D = judge.attempt(R, 'frequency codec', lambda: Codecs(P, R, opaque=()))
    if D is None:
        return
    for mode in ('compress', 'bounded', 'results', 'hinted'):
        judge.attempt(R, 'FFT by ' + mode, lambda: frequencies(P, R, D, mode))
    judge.attempt(R, 'mirrored', lambda: mirrored(P, R, D))
    for what, least in (('point counts', 4), ('point positions', 6), ('stored samplings', 200), ('transform pairs', 6), ('padded positions', 6),
                        ('stored points', 6), ('mirrored writes', 4)):
        R.floor(what, least)
