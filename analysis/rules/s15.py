"""S15: index queries answer according to the segments."""
import itertools

import index
import judge
import pieces
import term as t
from index import *
from judge import *

ZERO, ONE_ = I(0), I(1)


class Scene:
    """segments A ++ [s] ++ B; every case of A and B being empty, of the position inside s being first, last or between"""

    def __init__(self, before, s, after, mn, mx, ctx, name):
        self.ctx = ctx
        self.name = name
        self.offs = [ZERO]
        parts = []
        for p in (before, s, after):
            if p is None:
                continue
            parts.append(p)
            self.offs.append(add(self.offs[-1], length(p)))
        self.segs = cat(*parts) if parts else NIL
        self.mn, self.mx = mn, mx

    def index(self, P):
        return index.vsri(P, self.segs, self.mn, self.mx)


FINITE = [False]


def nonempty(name):
    if FINITE[0]:
        return ONE_     # a single segment: every loop can be followed to its end, so a difference is a difference
    return add(nonneg(sym('more %s' % name)), ONE_)


def ask(P, R, key, sc, fn, args, want, what, barriers=(), static=False):
    def go():
        r, w2, ok = index.call(P, fn, sc.index(P), *args, barriers=barriers, static=static, R=R)
        R.count('query scenarios')
        k = '%s: %s' % (fn, key)
        settle(R, k + ' (no panic)', ok, TRUE, 'the query does not panic (%s)' % sc.name, sc.ctx, sc.offs)
        settle(R, k, r, want, '%s (%s)' % (what, sc.name), sc.ctx, sc.offs)
        settle(R, k + ' (index unchanged)', w2, sc.index(P), 'the query leaves the index as it is', sc.ctx)
    judge.attempt(R, '%s: %s' % (fn, key), go)


def inside_scenes():
    """s = [m,x0,y0,n] and the j-th point of s: position x0+j, time y0+m*j"""
    m, x0, y0, j, r = nat('m'), nat('x0'), nat('y0'), nat('j'), nat('r')
    for noA, noB, j0, r0 in itertools.product((True, False), repeat=4):
        ctx = t.EMPTY.assume(lt(ZERO, m))
        jj = ZERO if j0 else add(j, ONE_)
        rr = ZERO if r0 else add(r, ONE_)
        n = add(add(jj, rr), ONE_)
        xs = ZERO if noA else add(x0, ONE_)
        s = one(seg(m, xs, y0, n))
        end = add(y0, mul(m, sub(n, ONE_)))
        yield (Scene(None if noA else before(y0, xs), s, None if noB else after(end, add(xs, n)),
                     y0 if noA else sub(y0, add(nat('dmin'), ONE_)), add(end, nat('late')) if noB else add(end, add(nat('dmax'), ONE_)), ctx,
                     'the %s of %s' % (('only point' if r0 else 'first point') if j0 else 'last point' if r0 else 'point in the middle', place(noA, noB))),
               add(xs, jj), add(y0, mul(m, jj)), noA and j0)


def place(noA, noB):
    return 'the only segment' if noA and noB else 'the first segment' if noA else 'the last segment' if noB else 'a middle segment'


def gapx(col):
    return ZERO if FINITE[0] else col('dx')


def before(y, x=None):
    """segments that end before time y (and, when given, whose positions end at or before x)"""
    def f(col):
        n1 = col('n')
        m = col('m')
        x0 = sub(sub(x, gapx(col)), add(n1, ONE_)) if x is not None else col('x0')
        return seg(m, x0, sub(sub(y, add(col('dy'), ONE_)), mul(m, n1)), add(n1, ONE_))
    return block(None, 'A', f, nonempty('A'))[0]


def after(y, x=None):
    """segments that start after time y (and whose positions start at or after x)"""
    def f(col):
        x0 = add(x, gapx(col)) if x is not None else col('x0')
        return seg(col('m'), x0, add(add(y, ONE_), col('dy')), add(col('n'), ONE_))
    return block(None, 'B', f, nonempty('B'))[0]


def gap_scenes():
    """time y with g+1 < y0 of s, after the end of A"""
    y, g, m, n, x0 = nat('y'), nat('g'), nat('m'), nat('n'), nat('x0')
    for noA, noB in itertools.product((True, False), repeat=2):
        ys = add(y, add(g, ONE_))
        n1 = add(n, ONE_)
        xs = ZERO if noA else add(x0, ONE_)
        s = one(seg(m, xs, ys, n1))
        end = add(ys, mul(m, n))
        yield (Scene(None if noA else before(y, xs), s, None if noB else after(end, add(xs, n1)),
                     ys if noA else sub(y, add(nat('dmin'), ONE_)), end if noB else add(end, add(nat('dmax'), ONE_)), t.EMPTY,
                     ('a time before the first segment' if noA else 'a time in the gap before a segment') + (' that is the last' if noB else '')),
               y, xs, noA)


def run(P, R):
    R.rule('Every query of the sparse time index is evaluated symbolically (value graph over MIR) on indexes with an arbitrary number of segments before '
           'and after the one the question is about; loops over the segments are split at that segment and must select it.')
    R.assume.append('Segments are in increasing order of time and position and have at least one sample, as updates create them (S16). '
                    'The answers at the maximum itself and for the position after the last one are not part of the property.')
    for fin in (False, True):
        FINITE[0] = fin
        scenes(P, R)


def scenes(P, R):
    lst = list(inside_scenes())
    for sc, x, y, first in lst:
        ask(P, R, 'a sample', sc, 'get_time', [x], some(y), 'time of the position')
        ask(P, R, 'a sample', sc, 'get_sample', [y], some(x), 'position of the time')
        ask(P, R, 'a sample', sc, 'get_this_or_next', [y], some(x), 'position of the time')
        ask(P, R, 'a sample', sc, 'get_this_or_previous', [y], some(x), 'position of the time')
    # several samples at the same time
    y0, x0, n = nat('y0'), nat('x0'), nat('n')
    for noA, noB in itertools.product((True, False), repeat=2):
        xs = ZERO if noA else add(x0, ONE_)
        sc = Scene(None if noA else before(y0, xs), one(seg(ZERO, xs, y0, add(n, ONE_))), None if noB else after(y0, add(xs, add(n, ONE_))),
                   y0 if noA else sub(y0, add(nat('dmin'), ONE_)), y0 if noB else add(y0, add(nat('dmax'), ONE_)), t.EMPTY, 'samples at the same time, ' + place(noA, noB))
        ask(P, R, 'same time', sc, 'get_sample', [y0], some(xs), 'position of the time')
        i, r = nat('i'), nat('r')
        sc2 = Scene(None if noA else before(y0, xs), one(seg(ZERO, xs, y0, add(add(i, r), ONE_))), None if noB else after(y0, add(xs, add(add(i, r), ONE_))),
                    sc.mn, sc.mx, t.EMPTY, sc.name)
        ask(P, R, 'same time', sc2, 'get_time', [add(xs, i)], some(y0), 'time of the position')
    # gaps
    for sc, y, xs, first in gap_scenes():
        ask(P, R, 'a gap', sc, 'get_sample', [y], NONE, 'position of a time in a gap')
        ask(P, R, 'a gap', sc, 'get_this_or_next', [y], some(xs), 'position after the gap')
        ask(P, R, 'a gap', sc, 'get_next_sample', [y], some(xs), 'position after the gap')
        prev = NONE if first else some(sub(xs, ONE_))
        ask(P, R, 'a gap', sc, 'get_previous_sample', [y], prev, 'position before the gap')
        ask(P, R, 'a gap', sc, 'get_this_or_previous', [y], prev, 'position before the gap')
    # inside a segment, between or on its points: the next and previous lookups go by segments
    y, g = nat('y'), nat('g')
    for noB in (True, False):
        ys = add(y, g)
        for g0 in (True, False):
            ys = y if g0 else add(y, add(g, ONE_))
            for noA in (True, False):
                xs = ZERO if noA else add(x0, ONE_)
                end = add(ys, nat('len'))
                for q in ('next', 'previous'):
                    if q == 'previous' and g0:
                        continue
                    A = None if noA else starts_before(y, xs, q == 'previous')
                    sc = Scene(A, one(seg(nat('m'), xs, ys, add(n, ONE_))), None if noB else after(end, add(xs, add(n, ONE_))),
                               ys if noA else sub(y, add(nat('dmin'), ONE_) if q == 'next' else nat('dmin')), add(add(end, nat('dmax')), ONE_), t.EMPTY,
                               'a time %s the start of %s' % ('at' if g0 else 'before', place(noA, noB)))
                    if q == 'next':
                        ask(P, R, 'by segment', sc, 'get_next_sample', [y], some(xs), 'first position at or after')
                    else:
                        ask(P, R, 'by segment', sc, 'get_previous_sample', [y], NONE if noA else some(sub(xs, ONE_)), 'last position before the next segment')
    # beyond the end
    A = before(y)
    sc = Scene(A, None, None, sub(y, add(nat('dmin'), I(2))), sub(y, ONE_), t.EMPTY, 'a time after the last segment')
    ask(P, R, 'after the end', sc, 'get_sample', [y], NONE, 'position of a time after the end')
    ask(P, R, 'after the end', sc, 'get_next_sample', [y], NONE, 'next position of a time after the end')
    ask(P, R, 'after the end', sc, 'get_this_or_next', [y], NONE, 'next position of a time after the end')
    # positions after the last sample
    m = nat('m')
    for noA in (True, False):
        xs = ZERO if noA else add(x0, ONE_)
        sc = Scene(None if noA else before(y0, xs), one(seg(m, xs, y0, add(n, ONE_))), None, y0 if noA else sub(y0, add(nat('dmin'), ONE_)), add(y0, mul(m, n)), t.EMPTY,
                   'an index whose last segment is ' + place(noA, True))
        ask(P, R, 'beyond the last position', sc, 'get_time', [add(add(xs, add(n, I(2))), nat('far'))], NONE, 'time of a position that does not exist')
        ask(P, R, 'number of samples', sc, 'get_sample_count', [], add(xs, add(n, ONE_)), 'number of samples')
    # overlap
    a, span = nat('a'), nat('span')
    for early, late in itertools.product((True, False), repeat=2):
        # segment [y0, y0 + m*n] and interval [a, b] with a <= end and b >= y0
        if early:
            lo, ys = a, add(a, nat('in'))                        # the interval starts first
            hi = add(ys, nat('over'))
            n1, m1 = n, m
            end = add(ys, mul(m, n))
        else:
            ys = a
            n1 = add(nat('i'), nat('r'))
            end = add(ys, mul(m, n1))
            lo = add(ys, mul(m, nat('i')))                       # starts inside the segment, at one of its points
            hi = add(lo, nat('over'))
            m1 = m
        if late:
            continue
        A = block(None, 'any A', anyseg, ONE_ if FINITE[0] else None)[0]
        B = block(None, 'any B', anyseg, ONE_ if FINITE[0] else None)[0]
        sc = Scene(A, one(seg(m1, x0, ys, add(n1, ONE_))), B, sub(ys, nat('dmin')), add(end, nat('dmax')), t.EMPTY,
                   'an interval that %s a segment' % ('begins before' if early else 'begins in'))
        ask(P, R, 'overlap', sc, 'is_empty', [cat(one(lo), one(hi))], FALSE, 'no overlap reported')
    lo, hi = a, add(a, span)
    for noA, noB in itertools.product((True, False), repeat=2):
        sc = Scene(None if noA else before(lo), None, None if noB else after(hi), sub(lo, add(nat('dmin'), ONE_)) if not noA else add(hi, add(nat('dmin'), ONE_)),
                   add(hi, add(nat('dmax'), ONE_)) if not noB else sub(lo, ONE_), t.EMPTY,
                   'an interval %s' % ('over an empty index' if noA and noB else 'before all segments' if noA else 'after all segments' if noB else 'between two segments'))
        ask(P, R, 'no overlap', sc, 'is_empty', [cat(one(lo), one(hi))], TRUE, 'overlap reported')
    # listing all times
    s1 = seg(nat('m1'), ZERO, nat('y1'), add(nat('n1'), ONE_))
    s2 = seg(nat('m2'), add(nat('n1'), ONE_), nat('y2'), add(nat('n2'), ONE_))
    for nm, ss in (('no', []), ('one', [s1]), ('two', [s1, s2])):
        sc = Scene(None, cat(*[one(s) for s in ss]) if ss else None, None, nat('y1'), nat('y2'), t.EMPTY, 'an index with %s segments' % nm)
        sc.offs = [I(i) for i in range(len(ss) + 1)]
        want = cat(*[genf(add(elem(s, I(3)), ZERO), lambda k: add(elem(s, I(2)), mul(elem(s, I(0)), k))) for s in ss])
        ask(P, R, 'all', sc, 'get_all_timestamps', [], want, 'list of all times')
    # the lookup by file name
    for name, scenes, res in (('a sample', lst, True), ('a gap', list(gap_scenes()), False)):
        for sc in scenes:
            s, a, b = sc[0], sc[1], sc[2]
            yy, want = (b, some(a)) if res else (a, NONE)
            w = s.index(P)
            ask(P, R, 'by file, ' + name, s, 'get_sample_location', [sym('file', ('ref', ('str',))), yy], want, 'position of the time in the index of a file',
                barriers={'Vsri::load': lambda ev, st, args, c, w=w: adt('core::result::Result', 0, w)}, static=True)


def starts_before(y, x, incl):
    """segments that start before (or at) time y, wherever they end"""
    def f(col):
        n1 = col('n')
        return seg(col('m'), sub(sub(x, gapx(col)), add(n1, ONE_)), sub(y, add(col('dy'), ZERO if incl else ONE_)), add(n1, ONE_))
    return block(None, 'A', f, nonempty('A'))[0]
