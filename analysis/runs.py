"""Run-length payloads: runs grouped by value, their starts sorted again when decoding.

Encoder: entries E, one per run of equal neighbouring samples, grouped by the bits of the sample.  Decoder: the groups are flattened, sorted by
start, and every run is written from its start up to the next one.  Flattening the groups of E gives the entries of E in some order, and because
the starts grow along E, sorting them gives E back."""
import judge
import term as t
from judge import *


class Unknown(Exception):
    pass


def groups(v):
    """sequences that were grouped by key in v"""
    return {s.a[0] for s in subterms(v) if s.op in ('mn', 'mkey', 'mvals') and not s.a[0].bm}


def entry(E, i):
    """-> path list of (emitted tuple or None, ctx) of iteration i of the encoder"""
    out = []
    for l, ctx in judge.paths(open_(E.a[1], i), t.EMPTY.assume(lt(i, E.a[0]))):
        if length(l) is I(0):
            out.append((None, ctx))
        elif l.op == 'tup':
            out.append((l, ctx))
        elif length(l) is I(1):
            out.append((elem(l, I(0)), ctx))
        else:
            raise Unknown('entries of an iteration: ' + show(l)[:200])
    return out


def encoder(R, key, E, data):
    n = length(data)
    if E.op != 'flat' or E.a[1].a[1] != 1:
        raise Unknown('runs are not collected in one pass: ' + show(E)[:200])
    judge.decide(R, key + ' range', E.a[0] is n, 'the pass over the samples has %s steps' % show(E.a[0])[:200], E.a[0])
    i = fresh('i')
    i.nn = True
    starts = set()
    for e, ctx in entry(E, i):
        R.count('run paths')
        if e is None:
            judge.decide(R, key + ' run ends', judge.implied(ctx, lt(add(i, I(1)), n)), 'the last run is not stored (%s)' % judge.cshow(ctx), *ctx.d)
            a, b = elem(data, i), elem(data, add(i, I(1)))
            judge.decide(R, key + ' run of equal samples', judge.implied(ctx, t.fcmp('eq', a, b)) or judge.implied(ctx, t.fcmp('eq', b, a)),
                         'a run goes on although the next sample may differ (%s)' % judge.cshow(ctx), *ctx.d)
            continue
        if e.op != 'tup' or len(e.a) != 2:
            raise Unknown('entry of a run: ' + show(e)[:200])
        v, s = e.a
        judge.decide(R, key + ' value of the run', v.op == 'bits' and v.a[0] is elem(data, i), 'a run is stored with the value %s' % show(v)[:200], v)
        starts.add((s, ctx))
    if not starts:
        raise Unknown('no runs are stored')
    for s, ctx in starts:
        start(R, key, E, data, i, s, ctx)


def start(R, key, E, data, i, s, ctx):
    """s is the position after the last run that ended before i"""
    if s.op != 'fold' or s.a[2].a[1] != 2:
        if judge.fuzzy(s) or s.op == 'recn':
            raise Unknown('start of a run: ' + show(s)[:200])
        R.violated(key + ' start of the run', 'a run is stored with the start %s' % show(s)[:200])
        return
    judge.decide(R, key + ' first start', s.a[0] is I(0), 'the first run starts at %s' % show(s.a[0])[:100], s.a[0])
    judge.decide(R, key + ' start of the run', s.a[1] is i, 'the start of a run comes from %s earlier samples' % show(s.a[1])[:100], s.a[1])
    j, p = fresh('j'), fresh('p')
    j.nn = p.nn = True
    step = open_(s.a[2], j, p)
    for e, c in entry(E, j):
        want = p if e is None else add(j, I(1))
        # j is before i, so it is not the last one
        c = c.assume(lt(add(j, I(1)), length(data)))
        if c is None or not judge.zone_feasible(c):
            continue
        for l, c2 in judge.paths(restrict(step, c), c):
            R.count('run starts')
            judge.decide(R, key + ' next start', l is want, 'after %s the current run starts at %s' % ('a run that ends' if e is not None else 'a run that goes on', show(l)[:200]), l)


def ungroup(x, E):
    """x, a flattened list of (start, value) of all groups of E -> function from (value bits, start) to the stored pair"""
    if x.op != 'flat' or not (x.a[0].op == 'mn' and x.a[0].a[0] is E):
        raise Unknown('flattened runs: ' + show(x)[:200])
    g = fresh('g')
    g.nn = True
    b = open_(x.a[1], g)
    vals = [s for s in subterms(b) if s.op == 'mvals' and s.a[0] is E and s.a[1] is g]
    if b.op != 'gen' or not vals or b.a[0] is not length(vals[0]):
        raise Unknown('flattened runs of a group: ' + show(b)[:200])
    k = fresh('k')
    k.nn = True
    y = open_(b.a[1], k)
    st = elem(vals[0], k)
    ky = mk('mkey', E, g)

    def f(bits, s):
        return subst(y, {st: s, ky: bits})
    z = f(sym('bits?'), sym('start?'))
    if any(w is g or w is k or w.op in ('mkey', 'mvals', 'mn') for w in subterms(z)):
        raise Unknown('pair of a run: ' + show(y)[:200])
    return f


def decoder(R, key, got, E, data, ctx):
    n = length(data)
    if got.op != 'fold' or got.a[2].a[1] != 2:
        raise Unknown('decoding loop: ' + show(got)[:200])
    init, total, lam = got.a
    srt = [s for s in subterms(lam) if s.op == 'sorted' and not s.bm]
    if not srt:
        flats = [s for s in subterms(lam) if s.op == 'elem' and s.a[0].op == 'flat' and s.a[0].a[0].op == 'mn' and s.a[0].a[0].a[0] is E]
        if flats and not any(s.op in ('sorted', 'mn', 'mkey') and s not in subterms(E) and s.a[0] is not E for s in subterms(lam)):
            R.violated(key + ' sorting', 'the runs are written in the order of their groups, the start of the next one is not the end of a run')
            return
    if len(srt) != 1:
        raise Unknown('%d sorted lists of runs' % len(srt))
    srt = srt[0]
    f = ungroup(srt.a[0], E)
    k = fresh('k')
    k.nn = True
    ky = open_(srt.a[1], k) if srt.a[1].op == 'lam' else None
    pr = elem(srt.a[0], k)
    judge.decide(R, key + ' sorting', ky is not None and ky is fld(pr, -1, 0), 'the runs are sorted by %s' % (show(ky)[:200] if ky is not None else 'the whole pair'), srt)
    judge.decide(R, key + ' decoded length', length(init) is n, 'decoding starts with %s samples' % show(length(init))[:200], init)
    if total is not length(srt.a[0]):
        raise Unknown('decoded runs: ' + show(total)[:200])
    # run q: start s0, value, up to s1, the start of the next run
    q, acc, p = fresh('q'), sym('decoded', ('slice', ('float', 'f64'))), fresh('p')
    for x in (q, p):
        x.nn = True
    i, s0, d1, d2, d3 = (sym(x, ('uint', 'usize')) for x in ('i?', 'start?', 'run?', 'rest?', 'runs?'))
    for x in (i, s0, d1, d2, d3):
        x.nn = True
    body = open_(lam, q, acc)
    for last in (False, True):
        # the run goes from s0 to s1 = s0 + 1 + d1, the start of the next run, or to the end of the frame
        s1 = add(s0, add(d1, I(1)))
        N = s1 if last else add(s1, add(d2, I(1)))
        m = add(q, I(1)) if last else add(q, add(d3, I(2)))
        mine, nxt = f(mk('bits', elem(data, i)), s0), f(sym('other'), s1)
        step = subst(body, {elem(srt, q): mine, elem(srt, add(q, I(1))): nxt, total: m})
        step = subst(subst(step, {length(acc): N}), {n: N})
        end = s1
        c = t.EMPTY.assume(lt(p, N))
        for l, c2 in judge.paths(restrict(step, c), c):
            d = judge.diff(subst(length(l), {length(acc): N, n: N}), N, c2)
            judge.decide(R, key + ' run keeps length', d is None, 'writing a run makes the length %s' % show(length(l))[:200], l)
            for inside, given in ((True, (le(s0, p), lt(p, end))), (False, (lt(p, s0),)), (False, (le(end, p),))):
                c4 = c2
                for a in given:
                    c4 = c4 and c4.assume(a)
                if c4 is None or not judge.zone_feasible(c4):
                    continue
                for e, c5 in judge.paths(restrict(elem(l, p), c4), c4):
                    R.count('decoded samples inside of a run' if inside else 'decoded samples outside of a run')
                    want = elem(data, i) if inside else elem(acc, p)
                    judge.decide(R, key + (' inside of a run' if inside else ' outside of a run'), e is want,
                                 'a sample %s the %srun is decoded to %s (%s)' % ('inside' if inside else 'outside', 'last ' if last else '', show(e)[:200], judge.cshow(c5)), e)


def restores(R, key, got, data, ctx):
    """decoding gives the samples: got is the decoded sequence"""
    try:
        got = judge.prune(got, ctx)
        gs = groups(got)
        if len(gs) != 1:
            raise Unknown('%d grouped lists of runs' % len(gs))
        E = gs.pop()
        encoder(R, key, E, data)
        for g, c in judge.paths(got, ctx):
            decoder(R, key, g, E, data, c)
    except Unknown as e:
        R.undecided(key, str(e))
