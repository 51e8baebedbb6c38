"""S16: every accepted time adds exactly one sample position to the index."""
import index
import judge
import term as t
from index import *
from judge import *

OK_ = adt('core::result::Result', 0, tup())


def accepted(P, R, key, w, y, want, ctx=t.EMPTY, mn=None):
    """the update of w by y succeeds and leaves the segments want"""
    r, w2, ok = index.call(P, 'update_for_point', w, y, R=R)
    R.count('update scenarios')
    settle(R, key + ': no panic', ok, TRUE, 'the update does not panic', ctx)
    settle(R, key + ': accepted', r, OK_, 'result of the update', ctx)
    settle(R, key + ': maximum', field(P, w2, 'max_ts'), y, 'maximum afterwards', ctx)
    settle(R, key + ': minimum', field(P, w2, 'min_ts'), field(P, w, 'min_ts') if mn is None else mn, 'minimum afterwards', ctx)
    got = field(P, w2, 'vsri_segments')
    settle(R, key + ': number of segments', length(got), length(want), 'number of segments afterwards', ctx)
    n = length(want)
    last = sub(n, I(1))
    for i, what in enumerate(('rate', 'first position', 'first time', 'number of samples')):
        settle(R, key + ': ' + what, elem(elem(got, last), I(i)), elem(elem(want, last), I(i)), what + ' of the last segment', ctx)
    k = fresh('k')
    k.nn = True
    c = ctx.assume(lt(k, last))
    if c is not None and last is not I(0):
        for i in range(4):
            settle(R, key + ': earlier segments', restrict(elem(restrict(elem(got, k), c), I(i)), c), restrict(elem(restrict(elem(want, k), c), I(i)), c), 'an earlier segment', c)


def last_of(pre, s):
    return cat(pre, one(s))


def run(P, R):
    R.rule('Vsri::update_for_point is evaluated symbolically (value graph over MIR) on an index with arbitrary earlier segments and each form of last '
           'segment; the resulting state is compared with the extended, completed or newly opened segment.')
    R.assume.append('Overflow of 32 bit positions and times is outside the property; a time between two points of a line is only required to be recorded once.')
    m, x0, y0, k = nat('m'), nat('x0'), nat('y0'), nat('k')
    d, q, j = nat('d'), nat('q'), nat('j')
    i32 = ('int', 'i32')
    mn = tysym('min', i32)
    y = nat('y')
    pre, _ = block(P, 'pre', anyseg)
    m1 = t.EMPTY.assume(lt(I(0), m))

    def go():
        # first point
        w = index.vsri(P, NIL, I(0), I(0))
        accepted(P, R, 'first', w, y, cat(one(seg(I(0), I(0), y, I(1)))), mn=y)
        # second point of a segment
        s = seg(I(0), x0, y0, I(1))
        accepted(P, R, 'second', index.vsri(P, last_of(pre, s), mn, y0), add(y0, d), last_of(pre, seg(d, x0, y0, I(2))))
        # next point of the line
        k2 = add(k, I(2))
        s = seg(m, x0, y0, k2)
        end = add(y0, mul(m, add(k, I(1))))
        nxt = add(end, m)
        accepted(P, R, 'on the line', index.vsri(P, last_of(pre, s), mn, end), nxt, last_of(pre, seg(m, x0, y0, add(k, I(3)))), m1)
        accepted(P, R, 'on the line after a late one', index.vsri(P, last_of(pre, s), mn, sub(nxt, add(q, I(1)))), nxt,
                 last_of(pre, seg(m, x0, y0, add(k, I(3)))), m1)
        # later than the next point
        late = add(nxt, mul(m, add(j, I(1))))
        for nm, mx in (('', end), (' after a late one', sub(nxt, add(q, I(1))))):
            accepted(P, R, 'beyond the line' + nm, index.vsri(P, last_of(pre, s), mn, mx), late,
                     last_of(last_of(pre, s), seg(I(0), add(x0, k2), late, I(1))), m1)
        # the last time again
        accepted(P, R, 'repeated time', index.vsri(P, last_of(pre, s), mn, end), end,
                 last_of(last_of(pre, s), seg(I(0), add(x0, k2), end, I(1))), m1)
        # several samples at the same time
        s = seg(I(0), x0, y0, k2)
        accepted(P, R, 'same time', index.vsri(P, last_of(pre, s), mn, y0), y0, last_of(pre, seg(I(0), x0, y0, add(k, I(3)))))
        late = add(y0, add(d, I(1)))
        accepted(P, R, 'after same times', index.vsri(P, last_of(pre, s), mn, y0), late,
                 last_of(last_of(pre, s), seg(I(0), add(x0, k2), late, I(1))))
    judge.attempt(R, 'update', go)

    def anything():
        # whatever the segment: one more sample, nothing else touched
        s = seg(m, x0, y0, add(k, I(1)))
        n1 = add(length(pre), I(1))
        w = index.vsri(P, last_of(pre, s), mn, add(y0, q))
        y = add(add(y0, q), d)
        r, w2, ok = index.call(P, 'update_for_point', w, y, R=R)
        settle(R, 'any: no panic', ok, TRUE, 'the update does not panic')
        settle(R, 'any: accepted', r, OK_, 'result of the update')
        settle(R, 'any: maximum', field(P, w2, 'max_ts'), y, 'maximum afterwards')
        settle(R, 'any: minimum', field(P, w2, 'min_ts'), mn, 'minimum afterwards')
        for g, c in judge.paths(field(P, w2, 'vsri_segments')):
            R.count('ways of recording a time')
            n = restrict(length(g), c)
            grown = implied(c, eqi(n, add(n1, I(1))))
            if not grown and not implied(c, eqi(n, n1)):
                decide(R, 'any: number of segments', False, 'number of segments afterwards is %s, when %s' % (show(n), cshow(c)), n)
                continue
            tot = restrict(elem(restrict(elem(g, sub(n, I(1))), c), I(3)), c)
            settle(R, 'any: one more', add(tot, restrict(elem(restrict(elem(g, sub(n, I(1))), c), I(1)), c)), add(x0, add(k, I(2))), 'number of indexed samples afterwards', c)
            if grown:
                settle(R, 'any: keeps the segment', restrict(elem(g, length(pre)), c), s, 'the segment before a new one', c)
            else:
                l = restrict(elem(g, length(pre)), c)
                settle(R, 'any: keeps the start', restrict(elem(l, I(2)), c), y0, 'first time of the extended segment', c)
                settle(R, 'any: keeps the start', restrict(elem(l, I(1)), c), x0, 'first position of the extended segment', c)
            kk = fresh('k')
            kk.nn = True
            c2 = c.assume(lt(kk, length(pre)))
            if c2 is not None:
                settle(R, 'any: keeps earlier segments', restrict(elem(g, kk), c2), elem(pre, kk), 'an earlier segment', c2)
    judge.attempt(R, 'any', anything)

    def refused():
        segs = tysym('segs', P.adts[index.V]['variants'][0]['f'][judge.field_index(P, index.V, 'vsri_segments')]['t'])
        mx = tysym('max', i32)
        w = index.vsri(P, segs, mn, mx)
        r, w2, ok = index.call(P, 'update_for_point', w, sub(mx, add(q, I(1))), R=R)
        settle(R, 'past: refused', disc_of(r), I(1), 'result for a time below the maximum')
        settle(R, 'past: unchanged', w2, w, 'index after a refused time')
        settle(R, 'past: no panic', ok, TRUE, 'a refused time does not panic')
    judge.attempt(R, 'past', refused)
    R.floor('update scenarios', 0)


def disc_of(r):
    return case(r, 2, lambda i: I(i))
