"""S19: reconstructed values of the approximating codecs lie between the extremes of the samples they were made from."""
import codec
import judge
import shapes
import term as t
from judge import *
from codec import Codecs, STATS
from term import fval

KEPT = tuple(h for h in codec.HELPERS if not h.endswith('_to_data') and not h.endswith('::round'))
RAW = ('inverse_distance_weight::IDW::evaluate', 'splines::Spline::clamped_sample', 'splines::Spline::sample')
LINEAR = {'fround', 'fneg', 'fabs', 'ffloor', 'fceil', 'ftrunc', 'f2f'}


def narrow(x):
    """x without the exact widening of a single precision value"""
    while x.op == 'f2f' and x.a[0] == 'f64' and x.a[1].op == 'f2f':
        x = x.a[1]
    return x


def kinds(P, C):
    """opaque field of the statistics -> 'max' / 'min' / 'part' / 'other' (not an extreme) / None (not recognised)"""
    (_, d), = C.stat.inputs
    ab = C.stat.abstract('', C.stat.ret, {d: C.data})
    out = {}
    for i, f in enumerate(P.adts['atsc::' + STATS]['variants'][0]['f']):
        x, a = fld(C.stat.ret, 0, i), fld(ab, 0, i)
        k = shapes.extreme(x, d) or shapes.partial(x, d)
        if k is None and f['n'] == 'mean':
            k = 'other'
        out[a] = k
    return out


class Order:
    """what a term is, relative to the extremes of the samples, and which orders the path conditions leave open"""

    def __init__(self, C, stats):
        self.C, self.stats = C, stats

    def kind(self, x):
        """'max', 'min', 'part', 'other', 'sample', 'const' or None; rounding a limit to single precision keeps its kind"""
        x = narrow(x)
        if x in self.stats:
            return self.stats[x]
        if x.op == 'f2f' and x.a[0] == 'f32':
            return self.kind(x.a[1])
        if x.op == 'f':
            return 'const'
        if x.op == 'elem' and x.a[0] is self.C.data:
            return 'sample'
        if x.op == 'fold':
            return shapes.extreme(x, self.C.data) or shapes.partial(x, self.C.data)
        return None

    def rounded(self, x):
        x = narrow(x)
        return x.op == 'f2f' and x.a[0] == 'f32'

    def raw(self, y):
        """y is arithmetic over an interpolated value, a limit or a constant"""
        for _ in range(40):
            if self.kind(y) is not None:
                return True
            if y.op in LINEAR:
                y = y.a[1] if y.op == 'f2f' else y.a[0]
            elif y.op in ('fmul', 'fdiv', 'fadd', 'fsub') and 'f' in (y.a[0].op, y.a[1].op):
                y = y.a[1] if y.a[0].op == 'f' else y.a[0]
            elif y.op == 'fdiv' and y.a[1].op == 'i2f':
                y = y.a[0]
            elif y.op == 'fld' and y.a[0].op in ('elem', 'call'):
                y = y.a[0]
            elif y.op == 'elem' and y.a[0].op == 'fftp':
                return True
            elif y.op == 'call':
                return y.a[0] in RAW
            elif y.op == 'fold':            # the value carried from an earlier position
                k, p = fresh('k'), fresh('p')
                return all(l is p or self.raw1(l) for l in leaves(open_(y.a[2], k, p)))
            else:
                return False
        return False

    def raw1(self, l):
        return l.op != 'fold' and self.raw(l)

    def clamp(self, y):
        """fmin / fmax chains become comparisons"""
        lt = lambda a, b: t.fcmp('lt', a, b)
        for _ in range(6):
            m = {}
            for s in subterms(y):
                if s.bm or any(not w.bm and (w.op in ('fmin', 'fmax') or w.op == 'call' and w.a[0].endswith('::clamp')) for a in s.a if isinstance(a, t.T) for w in subterms(a)):
                    continue
                if s.op == 'fmax':
                    m[s] = ite(lt(s.a[0], s.a[1]), s.a[1], s.a[0])
                elif s.op == 'fmin':
                    m[s] = ite(lt(s.a[1], s.a[0]), s.a[1], s.a[0])
                elif s.op == 'call' and s.a[0] in ('core::f64::clamp', 'std::f64::clamp', 'core::f32::clamp', 'std::f32::clamp') and len(s.a) == 5:
                    x, lo, hi = s.a[2:]
                    m[s] = ite(lt(x, lo), lo, ite(lt(hi, x), hi, x))
            if not m:
                break
            y = subst(y, m)
        return y

    def open_orders(self, y, ctx):
        """orders of y against (min, max) that the path conditions leave possible: a set of 'below', 'inside', 'above'; and the limits not recognised among the conditions"""
        y = narrow(y)
        conds, odd = [], []
        for s, lab in ctx.d.items():
            if s.op not in ('flt', 'fle', 'feq'):
                continue
            a, b = narrow(s.a[0]), narrow(s.a[1])
            pa, pb = self.place(a, y), self.place(b, y)
            if y in (a, b) and None in (pa, pb):
                w = b if a is y else a
                if self.kind(w) is None and not self.raw(w):
                    odd.append(w)
            elif None not in (pa, pb):
                conds.append((s.op, pa, pb, lab))
        out = set()
        for lo in range(3):
            for hi in range(lo, 3):
                for v in range(3):
                    at = {'y': v, 'min': lo, 'max': hi}
                    if all({'flt': at[a] < at[b], 'fle': at[a] <= at[b], 'feq': at[a] == at[b]}[op] == bool(lab) for op, a, b, lab in conds):
                        out.add('below' if v < lo else 'above' if v > hi else 'inside')
        return out, odd

    def place(self, x, y):
        if x is y:
            return 'y'
        k = self.kind(x)
        return k if k in ('max', 'min') else None


def value(P, R, C, O, name, depth, mode):
    key = 'limits %s %s %s' % (name, C.depths[depth].lower(), mode)
    pay = C.results(name, depth)[0] if mode == 'results' else C.payload(name, depth, mode == 'bounded')
    rec, loops = codec.free_loops(C.decode(name, pay, depth))
    i = fresh('i')
    i.nn = True
    ctx = C.some.assume(lt(i, C.n))
    x = O.clamp(judge.prune(elem(rec, i), ctx))
    n = 0
    worst = {}
    for y, c in judge.paths(x, ctx):
        if codec.never_ran(c, loops) is None:
            continue
        n += 1
        k = O.kind(y)
        if k in ('max', 'min', 'sample'):
            continue
        if k == 'part':
            R.violated(key, 'a limit that is the extreme of only part of the samples is given back: %s' % show(y)[:300])
            return n
        left, odd = O.open_orders(y, c)
        if odd:
            R.undecided(key, 'compared with an unrecognised limit %s' % show(odd[0])[:200])
            return n
        if left <= {'inside'}:
            continue
        if not (k in ('const', 'other') or O.raw(y)):
            R.undecided(key, 'value not recognised: %s' % show(y)[:300])
            return n
        worst[y] = (left - {'inside'}, c)
    if worst:
        y, (left, c) = next(iter(worst.items()))
        R.violated(key, 'a sample is given back as %s, which may be %s the samples of the frame when %s' % (show(y)[:200], ' and '.join(sorted(left)), cshow(c)[:600]))
    elif n:
        R.proved(key)
    return n


def run(P, R):
    R.rule('For the frequency codec and both interpolating codecs, in every way of compressing (fixed, bounded, automatic), the value an arbitrary position is reconstructed to is expressed over the original samples '
           'by value numbering through encoder and decoder. Every leaf of that value must be the minimum or the maximum of all samples (a fold over every sample; rounded to single precision where the payload stores it so) '
           'or a value whose path conditions exclude being below the minimum and above the maximum: all weak orders of value, minimum and maximum consistent with the comparisons taken are enumerated.')
    R.assume.append('samples are finite; a NaN out of the interpolation is neither below nor above a limit; the extremes rounded to single precision stand for the extremes in the frequency codec')
    C = Codecs(P, R, opaque=KEPT)
    stats = kinds(P, C)
    O = Order(C, stats)
    for want in ('max', 'min'):
        i = judge.field_index(P, 'atsc::' + STATS, want)
        (_, d), = C.stat.inputs
        a = fld(C.stat.abstract('', C.stat.ret, {d: C.data}), 0, i)
        k = stats[a]
        if k is None:
            R.undecided('statistics ' + want, 'form not recognised: %s' % show(fld(C.stat.ret, 0, i))[:300])
        else:
            R.expect('statistics ' + want, k == want, 'the recorded %s of the samples is %s' % (want, 'an extreme of only part of them' if k == 'part' else 'their ' + k))
    n = 0
    for name in ('FFT', 'Idw', 'Polynomial'):
        for depth in range(len(C.depths)) if name != 'FFT' else (0,):
            for mode in ('compress', 'bounded', 'results'):
                def one():
                    nonlocal n
                    n += value(P, R, C, O, name, depth, mode)
                attempt(R, 'limits %s %s %s' % (name, C.depths[depth].lower(), mode), one)
    R.count('leaves', n)
    R.floor('leaves', 90)
