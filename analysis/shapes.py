"""Recognisers on normal forms."""
import term as t
from term import *

NINF = F(float('-inf'))
PINF = F(float('inf'))
FMAX = F(1.7976931348623157e308)
FMIN = F(-1.7976931348623157e308)


def _order_leaf(v, p, e, o, other=None):
    """the leaf of v when e compared to p is o (-1: e<p, 0: equal, 1: e>p); None when another condition matters"""
    while v.op == 'sw':
        s = v.a[0]
        r = _truth(s, p, e, o)
        if r is None and other is not None:
            r = other(s, o)
        if r is None:
            ls = {_order_leaf(c, p, e, o, other) for c in v.a[1:]}
            return ls.pop() if len(ls) == 1 else None
        v = v.a[1 + r]
    if v.op in ('fmax', 'fmin') and set(v.a) == {p, e}:
        big = e if o > 0 else p
        small = p if o > 0 else e
        return big if v.op == 'fmax' else small
    return v


def _truth(s, p, e, o):
    if s.op in ('flt', 'fle', 'feq') and set(s.a[:2]) == {p, e}:
        a, b = s.a[:2]
        c = o if a is e else -o      # a compared to b
        if s.op == 'flt':
            return int(c < 0)
        if s.op == 'fle':
            return int(c <= 0)
        return int(c == 0)
    return None


def extreme(x, data, upto=None, depth=0):
    """'max' / 'min' when x is the maximum / minimum of all elements of data (or of the first `upto` and the very first one)"""
    if x.op != 'fold':
        return None
    init, n, lam = x.a
    if lam.a[1] != 2:
        return None
    k, p = fresh('k'), fresh('p')
    k.nn = True
    body = open_(lam, k, p)
    if n is (length(data) if upto is None else upto):
        e = elem(data, k)
        ok_init = {'max': (elem(data, I(0)), NINF, FMIN), 'min': (elem(data, I(0)), PINF, FMAX)}
        if upto is not None:
            ok_init = {'max': (elem(data, I(0)),), 'min': (elem(data, I(0)),)}
    elif upto is None and (add(n, I(1)) is length(data) or n is sub(length(data), I(1)) or n is max0(sub(length(data), I(1)))):
        e = elem(data, add(k, I(1)))
        ok_init = {'max': (elem(data, I(0)),), 'min': (elem(data, I(0)),)}
    else:
        return None
    if init is elem(data, I(0)) and (n is length(data) or n is upto):
        body = restrict(body, EMPTY.assume(le(I(1), k)))        # the first round compares the first sample with itself

    def running(want):
        """a comparison with the other running extreme: minimum <= maximum of the samples so far"""
        def f(s, o):
            if s.op not in ('flt', 'fle') or depth or init is not elem(data, I(0)):
                return None
            a, b = s.a[:2]
            w = b if a is e else a if b is e else None
            if w is None or w.op != 'fold' or extreme(w, data, k, depth + 1) != {'max': 'min', 'min': 'max'}[want]:
                return None
            # want min: p <= w, so e < p means e < w; want max: w <= p, so e > p means e > w
            if want == 'min' and o < 0 or want == 'max' and o > 0:
                below = want == 'min'           # e < w
                return int((a is e) == below)
            if o == 0 and s.op == 'flt':        # e = p <= w (or >= w): never strictly beyond w on the other side
                return 0 if (a is w) == (want == 'min') else None
            return None
        return f
    for want, first in (('max', 1), ('min', -1)):
        at = {o: _order_leaf(body, p, e, o, running(want)) for o in (-1, 0, 1)}
        if at[first] is e and at[-first] is p and at[0] in (p, e) and init in ok_init[want]:
            return want
    return None


def partial(x, data):
    """'part' when x is an extreme of elements of data, but not of all of them"""
    if x.op != 'fold' or x.a[2].a[1] != 2:
        return None
    init, n, lam = x.a
    k, p = fresh('k'), fresh('p')
    k.nn = True
    body = open_(lam, k, p)
    es = {s for s in subterms(body) if s.op == 'elem' and s.a[0] is data}
    if len(es) != 1:
        return None
    e = es.pop()
    lo, hi, eq = (_order_leaf(body, p, e, o) for o in (-1, 1, 0))
    if not ({lo, hi, eq} <= {p, e}):
        return 'part' if _skips(body, k, p, e, n) else None
    return 'part'


def _skips(body, k, p, e, n):
    """the update of an extreme passes over a new extreme because of the position it is at"""
    import judge
    wrong = {-1: set(), 1: set()}       # order of e against p -> (position dependent?) leaves
    for o in (-1, 1):
        ctx = EMPTY.assume(le(I(1), k)).assume(lt(k, n))
        todo = [(body, ctx)]
        while todo:
            v, c = todo.pop()
            if v.op == 'sw':
                s = v.a[0]
                r = _truth(s, p, e, o)
                if r is not None:
                    todo.append((v.a[1 + r], c))
                    continue
                if s.op not in ('ge0', 'eq0') or p in subterms(s) or e in subterms(s):
                    return False
                for i, w in enumerate(v.a[1:]):
                    c2 = c.add(s, i)
                    if c2 is not None and judge.zone_feasible(c2):
                        todo.append((w, c2))
                continue
            if v not in (p, e):
                return False
            wrong[o].add(v)
    # a maximum takes e when it is above and keeps p when it is below; both leaves under one order means that some are passed over
    return len(wrong[1]) == 2 or len(wrong[-1]) == 2


def extremes_in(x, data):
    r = {}
    for s in subterms(x):
        if s.op == 'fold' and s not in r:
            m = extreme(s, data)
            if m:
                r[s] = m
    return r


def is_sample(v, data):
    """v is one of the elements of data"""
    if v.op == 'elem' and v.a[0] is data:
        return True
    if v.op == 'fbits' and v.a[0].op == 'bits':
        return is_sample(v.a[0].a[0], data)
    if v.op == 'fbits' and v.a[0].op == 'mkey':
        es = entries(v.a[0].a[0])
        return bool(es) and all(is_sample(mk('fbits', e.a[0]), data) for e in es)
    return extreme(v, data) is not None


def untrunc(x):
    """f2i truncates, so an inner trunc does not matter"""
    while x.op == 'ftrunc':
        x = x.a[0]
    return x


def splits_fraction(cond, x):
    """cond (a bool value about the float x) is true for every finite x with a fractional part"""
    c = Not(cond)
    # c must imply: x is whole
    return implies_whole(c, x)


def implies_whole(c, x):
    if c is FALSE:
        return True
    if c.op == 'feq':
        a, b = c.a[:2]
        for u, v in ((a, b), (b, a)):
            # x == trunc x, x - trunc x == 0
            if u is x and v.op in ('ftrunc', 'fround', 'ffloor', 'fceil') and v.a[0] is x:
                return True
            if u.op == 'f' and fval(u) == 0.0 and v.op == 'fsub' and x in v.a and any(
                    w.op in ('ftrunc', 'fround', 'ffloor', 'fceil') and w.a[0] is x for w in v.a):
                return True
            if u.op == 'f' and fval(u) == 0.0 and v.op == 'ffract' and v.a[0] is x:
                return True
        return False
    if c.op == 'sw':
        s = c.a[0]
        for i, b in enumerate(c.a[1:]):
            if b is FALSE or b is BOT:
                continue
            if i == 1 and implies_whole(s, x):
                continue
            if implies_whole(b, x):
                continue
            return False
        return True
    return False


def entries(s):
    """all items that a sequence of pairs can contain, None when not known"""
    out = []

    def go(x):
        if x.op == 'sw':
            return all(go(c) for c in x.a[1:] if c is not BOT)
        if x.op == 'cat':
            return all(go(c) for c in x.a)
        if x.op == 'one':
            for l in leaves(x.a[0]):
                if l.op != 'tup':
                    return False
                out.append(l)
            return True
        if x.op in ('flat', 'gen'):
            k = fresh('k')
            k.nn = True
            b = open_(x.a[1], k)
            return go(b if x.op == 'flat' else one(b))
        return False
    return out if go(s) else None
