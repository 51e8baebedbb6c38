"""S25: a bounded interpolation ends within the bound or with every sample stored."""
import codec
import judge
from judge import *
from codec import Codecs
from rules.s08 import bounds, counts, expanded, is_zero, describe, SIZES

CODECS = ('Polynomial', 'Idw')
SLACK = 0.001       # the search compares rounded errors: a tenth of a percent


def rounded(x):
    """(inner value, steps per unit) of a value rounded to a number of decimals; steps None when it is not rounded"""
    if x.op == 'fdiv' and x.a[1].op == 'f' and x.a[0].op == 'fround':
        k, y = x.a[1], x.a[0].a[0]
        if y.op == 'fmul' and k in y.a:
            return (y.a[1] if y.a[0] is k else y.a[0]), fval(k)
    return x, None


def within(a, lab, e, bound, c):
    """does the comparison a = lab establish that the error is within the bound (up to SLACK)? None: it says nothing about both"""
    if a.op not in ('flt', 'fle', 'feq'):
        us = {judge.prune(s, c) for s in subterms(a)}
        return 'other' if e in us and bound in us else None
    x, y = (judge.prune(v, c) for v in a.a)
    (rx, kx), (ry, ky) = rounded(x), rounded(y)
    if rx is e and bound in set(subterms(ry)):
        err_first, k, lim = True, kx, y
    elif ry is e and bound in set(subterms(rx)):
        err_first, k, lim = False, ky, x
    else:
        us = set(subterms(x)) | set(subterms(y))
        return 'other' if e in us and bound in us else None
    # error <= limit follows from these
    ok = {('flt', True, 1), ('fle', True, 1), ('feq', True, 1), ('feq', False, 1), ('flt', False, 0), ('fle', False, 0)}
    if (a.op, err_first, lab) not in ok:
        return False
    for v in bounds():
        w = judge.prune(subst(lim, {bound: v}), t.EMPTY)
        if w.op != 'f':
            return 'other'
        if fval(w) + (0.5 / k if k else 0) > fval(v) + SLACK:
            return False
    return True


def stored(pay):
    """the numbers of list elements written in the payload"""
    return {s.a[0] for s in subterms(pay) if s.op == 'wseq'}


def bounded(P, R, C, nm, di, ext):
    depth = C.depths[di]
    mx = [a for a, k in ext.items() if k == 'max']
    mn = [a for a, k in ext.items() if k == 'min']
    for n, pay, err, guard in C.bounded_runs(nm, di):
        if n is None:
            R.undecided(describe(nm, depth), 'the search is not a loop around the error measure')
            return
        for e, c in judge.paths(ite(guard, err, UNIT), C.some):
            if e is UNIT or not judge.zone_feasible(c):
                continue
            R.count('ways the search ends')
            e = judge.prune(e, c)
            key = describe(nm, depth) + ' end of the search'
            if is_zero(e):
                # S08: only for constant data
                R.proved(key)
                continue
            says = [within(a, lab, e, C.bound, c) for a, lab in c.d.items()]
            if True in says:
                R.proved(key)
                continue
            ls = stored(judge.prune(pay, c))
            if len(ls) == 1:
                l, = ls
                full = c.look(eq0(sub(C.n, l))) == 1 or restrict(l, c) is C.n
                if not full:
                    x = counts(expanded(sub(C.n, l)))
                    ctx = C.some
                    for s, lab in c.d.items():
                        if s.op in ('ge0', 'eq0'):
                            w = expanded(s)
                            ctx = ctx and ctx.assume(w if lab else Not(w))
                    full = ctx is None or all(judge.prune(v, q) is I(0) for v, q in judge.paths(x, ctx))
                    cs = [(counts(expanded(s)), lab) for s, lab in c.d.items() if s.op in ('ge0', 'eq0')]
                    few = None if full else judge.witness(cs, [C.n], SIZES, [x], lambda v: v.op == 'i' and v is not I(0))
                if full:
                    R.proved(key)
                    continue
            else:
                R.undecided(key, 'the stored samples are not one list')
                continue
            if not (e.op == 'call' and e.a[0] == '~' + codec.ERROR):
                # not a measured error: S08
                if feasible(c, C.bound):
                    R.undecided(key, 'the error is not a measured one: ' + show(e)[:200])
                else:
                    R.proved(key)
                continue
            if 'other' in says:
                R.undecided(key, 'a comparison with the bound that is not understood')
                continue
            if few is None or not feasible(c, C.bound):
                R.undecided(key, 'not established that every sample is stored, in round %d' % (n + 1))
                continue
            R.violated(key, 'for %d samples the search ends in round %d although the error was not found within the bound and not every sample is stored (%s)' % (
                few[0], n + 1, judge.cshow(c, 12)[:600]))


def feasible(c, bound):
    """some accepted bound satisfies what the path says about the bound alone"""
    for v in bounds():
        k = t.EMPTY
        for s, lab in c.d.items():
            w = judge.prune(subst(s, {bound: v}), t.EMPTY) if bound in set(subterms(s)) else s
            if w in (TRUE, FALSE):
                k = k and k.assume(w if lab else Not(w))
        if k is not None:
            return True
    return False


def run(P, R):
    R.rule('Rule: for the interpolating codecs and each width, the bounded run on arbitrary samples is followed round by round (each set of executions that '
           'leaves the search in the same round is one value graph; the search has a fixed greatest number of rounds, all are followed). On every path '
           'that ends the search, the path condition contains a comparison that puts the reported error within the bound (for each of the accepted '
           'bounds, up to a tenth of a percent), or the list written in the payload has one element per sample.')
    R.assume += ['a tenth of a percent is the precision of the bound that the search works with', 'bounds are those the programs accept: S09',
                 'the reported error is the one measured: S08']
    P.get('compressor::Compressor::get_compress_bounded_results')
    C = judge.attempt(R, 'codecs', lambda: Codecs(P, R))
    if C is None:
        return
    ext, odd = C.extremes()
    for nm in CODECS:
        for di in range(len(C.depths)):
            judge.attempt(R, describe(nm, C.depths[di]), lambda: bounded(P, R, C, nm, di, ext))
    R.floor('ways the search ends', 200)
