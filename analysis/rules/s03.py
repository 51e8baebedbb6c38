"""S03: a narrow integer width is only written when every sample is whole and inside the width.

Every payload a codec can write for arbitrary samples is taken as its list of written items; each integer item that is narrowed from a float
must (1) be one of the samples, on a path on which (2) the maximum and minimum of these very samples are inside the integer type and (3) no
sample has a fractional part."""
import judge
import shapes
from judge import *

RANGES = t.RANGES


class Walk:
    def __init__(self, R, key, data):
        self.R, self.key, self.data = R, key, data
        self.memo = set()
        self.rel = {}
        self.narrow = []
        self.n = 0
        self.steps = 0

    def relevant(self, s):
        r = self.rel.get(s)
        if r is None:
            r = (s.op == 'any' and s.a[0] is length(self.data) and not any(x.op in ('fold', 'any', 'call', 'recn') for x in subterms(s.a[1]))
                 or s.op in ('ge0', 'eq0') and all(x.op == 'f2i' and shapes.extreme(shapes.untrunc(x.a[1]), self.data) for x in t._lin(s.a[0])[1])
                 or s.op in ('flt', 'fle') and all(x.op == 'f' or shapes.extreme(x, self.data) for x in s.a[:2]))
            self.rel[s] = r
        return r

    def go(self, x, ctx, facts):
        self.steps += 1
        if self.steps > 400000:
            raise Blowup('payload too large')
        if type(x) is not T:
            return
        key = (x, facts)
        if key in self.memo:
            return
        self.memo.add(key)
        if x.op == 'sw':
            s = x.a[0]
            k = ctx.look(s)
            for i, c in enumerate(x.a[1:]):
                if c is BOT or (k is not None and k != i):
                    continue
                c2 = ctx.add(s, i)
                if c2 is None:
                    continue
                self.go(c, c2, facts | {(s, i)} if self.relevant(s) else facts)
            return
        if x.op == 'lam':
            vs = [fresh('k') for _ in range(x.a[1])]
            for v in vs:
                v.nn = True
            self.go(open_(x, *vs), ctx, facts)
            return
        if x.op == 'w':
            self.n += 1
            self.R.count('written items')
            self.item(x.a[0], x.a[1], ctx, facts)
            return
        if x.op in ('bytes', 'cat', 'one', 'wseq', 'warr', 'gen', 'flat', 'adt', 'tup'):
            for y in x.a:
                if type(y) is T:
                    self.go(y, ctx, facts)

    def item(self, ty, v, ctx, facts):
        if v.op == 'sw':
            s = v.a[0]
            for i, c in enumerate(v.a[1:]):
                c2 = None if c is BOT else ctx.add(s, i)
                if c2 is not None:
                    self.item(ty, c, c2, facts | {(s, i)} if self.relevant(s) else facts)
            return
        if v.op != 'f2i':
            return
        self.narrow.append((ty, v, ctx, facts))


def unread(s, data):
    """a number drawn from all samples that a condition compares with constants, when it is neither recognised as an extreme nor as one of only part of them"""
    if s.op in ('ge0', 'eq0'):
        xs = [x.a[1] for x in t._lin(s.a[0])[1] if x.op == 'f2i']
    elif s.op in ('flt', 'fle', 'feq') and 'f' in (s.a[0].op, s.a[1].op):
        xs = list(s.a[:2])
    else:
        return None
    for x in xs:
        x = shapes.untrunc(x)
        while x.op in ('fld', 'fabs', 'fneg', 'fround', 'ftrunc'):
            x = x.a[0]
        if x.op in ('fold', 'call', 'fmax', 'fmin', 'sorted') or x.op == 'elem' and any(w.op in ('fold', 'call', 'sorted') for w in subterms(x)):
            if data in subterms(x) and not shapes.extreme(x, data) and not shapes.partial(x, data):
                return x
    return None


def check_item(R, key, data, ty, v, ctx, facts, seen):
    to, x = v.a
    if x.op == 'fround' and to == 'i64':
        return      # Noop: rounds by definition
    sig = (ty, to, shapes.is_sample(x, data), facts)
    if sig in seen:
        return
    seen.add(sig)
    R.count('narrowed items')
    k = '%s:%s' % (key, to)
    where = cshow(ctx, 4)
    opaque = next((f for f in (fuzzy(s) for s, _ in facts) if f is not None), None)

    if opaque is None:
        opaque = next((g for g in (unread(s, data) for s in ctx.d) if g is not None), None)

    def fail(kk, msg):
        if opaque is not None:
            R.undecided(kk, '%s; not interpreted: %s' % (msg, show(opaque)[:100]))
        else:
            R.violated(kk, msg)
    if shapes.is_sample(x, data):
        R.proved(k + ' value')
    elif fuzzy(x) is not None or x.op not in ('elem', 'fold', 'fadd', 'fmul', 'fsub', 'fdiv', 'fround'):
        R.undecided(k + ' value', 'stored value not recognised as a sample: %s' % show(x)[:200])
    else:
        fail(k + ' value', 'the number narrowed to %s is not one of the samples: %s (%s)' % (to, show(x)[:200], where))
    lo, hi = RANGES[to]
    ext = {}
    up = dn = whole = False
    near = []
    for s, lab in ctx.d.items():
        if s.op == 'any':
            n, lam = s.a
            if lab == 0 and n is length(data):
                q = fresh('k')
                q.nn = True
                if shapes.splits_fraction(open_(lam, q), elem(data, q)):
                    whole = True
            continue
        for e in subterms(s):
            if e.op == 'fold' and e not in ext:
                ext[e] = shapes.extreme(e, data)
    for e, kind in ext.items():
        if kind is None:
            continue
        near.append(show(e)[:40])
        cands = set()
        for s in ctx.d:
            for y in subterms(s):
                if y.op == 'f2i' and shapes.untrunc(y.a[1]) is e:
                    cands.add(y)
        for y in cands:
            rlo, rhi = RANGES[y.a[0]]
            if kind == 'max':
                up = up or (rhi >= hi and judge.known(ctx, le(y, I(hi))))
            else:
                dn = dn or (rlo <= lo and judge.known(ctx, le(I(lo), y)))
        for s, lab in ctx.d.items():
            if s.op in ('flt', 'fle'):
                a, b = s.a[:2]
                if kind == 'max' and lab == 1 and a is e and b.op == 'f' and fval(b) <= hi:
                    up = True
                if kind == 'max' and lab == 0 and b is e and a.op == 'f' and fval(a) <= hi:
                    up = True
                if kind == 'min' and lab == 1 and b is e and a.op == 'f' and fval(a) >= lo:
                    dn = True
                if kind == 'min' and lab == 0 and a is e and b.op == 'f' and fval(b) >= lo:
                    dn = True
    (R.proved(k + ' upper') if up else fail(k + ' upper', 'written as %s although the maximum is not known to be at most %d (%s)' % (to, hi, where)))
    (R.proved(k + ' lower') if dn else fail(k + ' lower', 'written as %s although the minimum is not known to be at least %d (%s)' % (to, lo, where)))
    (R.proved(k + ' whole') if whole else fail(k + ' whole', 'written as %s although samples may have a fractional part (%s)' % (to, where)))


def run(P, R):
    R.rule('Rule: for every codec, bounded and unbounded, the payload written for arbitrary finite samples is computed as a gated value graph; '
           'every item narrowed from a float to an integer type must be a sample (or an extreme of the samples) and its gate must bound the '
           'maximum and minimum of the same samples inside the type and exclude fractional samples.')
    R.assume.append('the samples are finite (S05)')
    variants = None
    for fn in ('compressor::Compressor::compress', 'compressor::Compressor::get_compress_bounded_results'):
        b = P.get(fn)
        ty = judge.strip_ref(b.lty[1])
        variants = P.adts[ty[1]]['variants']
        for i, v in enumerate(variants):
            name = v['n']
            if name == 'Auto':
                continue

            def go():
                ev = Ev(P, barriers={'utils::error::calculate_error', 'compressor::fft::FFT::fft_trim', 'compressor::fft::FFT::get_mirrored_freqs',
                                     'compressor::polynomial::Polynomial::to_data', 'compressor::polynomial::Polynomial::polynomial_to_data',
                                     'compressor::polynomial::Polynomial::idw_to_data'})
                st = interp.new_state()
                data = sym('data', b.lty[2])
                args = [adt(ty[1], i), data] + [sym('a%d' % j, b.lty[j + 1]) for j in range(2, b.nargs)]
                r, st = ev.run(b, args, {}, st)
                for kk in ev.inlined:
                    R.saw(pretty(P.bodies[kk]))
                key = '%s(%s)' % (fn.split('::')[-1], name)
                if r.op == 'adt' and r.a[0].endswith('CompressorResult'):
                    r = r.a[2]
                w = Walk(R, key, data)
                w.go(r, t.EMPTY, frozenset())
                if not w.n:
                    R.undecided(key, 'no written items found: %s' % show(r)[:200])
                seen = set()
                for it in w.narrow:
                    check_item(R, key, data, *it, seen)
                R.proved(key + ' %d narrow items' % len(w.narrow))
                R.count('payload diagrams')
            judge.attempt(R, '%s(%s)' % (fn.split('::')[-1], name), go)
