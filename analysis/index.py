"""Scenarios over the sparse time index: an arbitrary index that contains the situation a rule speaks about."""
import judge
import pieces
import term as t
from judge import *

V = 'vsri::Vsri'
ROOT = ('C', 990001)


def nat(name):
    return nonneg(tysym(name, ("uint", "u32")))


def seg(m, x0, y0, n):
    return cat(one(m), one(x0), one(y0), one(n))


def block(P, name, f, n=None):
    """an arbitrary number of segments; f(column(name) -> non-negative value of this segment) -> segment"""
    n = n if n is not None else nonneg(sym('number of %s' % name))
    k = fresh('k')
    k.nn = True

    def col(c):
        return elem(sym("%s.%s" % (name, c), ("slice", ("uint", "u32"))), k)
    return gen(n, close([k], f(col))), n


def anyseg(col):
    """a segment about which nothing is known"""
    return seg(col('m'), col('x0'), col('y0'), col('n'))


def vsri(P, segs, mn, mx):
    d = P.adts[V]['variants'][0]['f']
    out = []
    for f in d:
        if f['n'] == 'min_ts':
            out.append(mn)
        elif f['n'] == 'max_ts':
            out.append(mx)
        elif f['n'] == 'vsri_segments':
            out.append(segs)
        else:
            out.append(tysym('v.' + f['n'], f['t']))
    return adt(V, 0, *out)


def field(P, w, name):
    return fld(w, 0, judge.field_index(P, V, name))


def call(P, name, w, *args, barriers=(), static=False, R=None):
    """-> (result, index afterwards, does not panic)"""
    ev = judge.Ev(P, barriers)
    st = interp.new_state()
    st.r[ROOT] = w
    b = ev.fnbody('Vsri::' + name)
    r, st = ev.run(b, ([] if static else [mk('ptr', ROOT)]) + list(args), {}, st)
    if R is not None:
        for k in ev.inlined:
            R.saw(pretty(P.bodies[k]))
    return r, st.r[ROOT], st.r[judge.OKR]


def some(x):
    return adt('core::option::Option', 1, x)


NONE = adt('core::option::Option', 0)


def settle(R, key, got, want, what, ctx=t.EMPTY, offs=None, depth=6):
    """obligation: got is want; refuted only when no loop and no division is left in what was computed"""
    try:
        if offs is not None:
            got = pieces.peel(got, offs, ctx)
        e = equalities(ctx)
        if e:
            got, want = subst(restrict(got, ctx), e), subst(restrict(want, ctx), e)
        d = diff(got, want, ctx)
    except (interp.Unsupported, Blowup) as e:
        R.undecided(key, '%s: %s' % (what, e))
        return None
    if d is None:
        R.proved(key, what)
        return True
    x, y, c = d
    for s0, lab in c.d.items():
        if s0.op == 'eq0' and lab and depth > 0 and s0 not in ctx.d:
            e = equalities(t.EMPTY.add(s0, 1))
            if not e:
                continue
            # the difference shows where a quantity has a fixed value: judge both cases
            res = []
            c1, c0 = ctx.add(s0, 1), ctx.add(s0, 0)
            if c1 is not None:
                res.append(settle(R, key, subst(got, e), subst(want, e), what, c1, None, depth - 1))
            if c0 is not None:
                res.append(settle(R, key, got, want, what, c0, None, depth - 1))
            return False if False in res else None if None in res else True
    txt = '%s: got %s, expected %s, when %s' % (what, show(x)[:300], show(y)[:300], cshow(c))
    f = None
    if not (x.op == y.op == 'adt' and x.a[:2] != y.a[:2]):
        f = pieces.open_loops(x) or fuzzy(x) or fuzzy(y)
    for s in c.d:
        f = f or pieces.open_loops(s) or fuzzy(s)
    if f is not None:
        R.undecided(key, 'not resolved %s: %s' % (show(f)[:100], txt))
        return None
    if not zone_feasible(c):
        R.proved(key, what)
        return True
    R.violated(key, txt)
    return False


def equalities(c):
    """values the path knowledge fixes"""
    m = {}
    for s, lab in c.d.items():
        if s.op == 'eq0' and lab:
            k, ms = t._lin(s.a[0])
            if len(ms) == 1:
                (x, v), = ms.items()
                if abs(v) == 1 and x.op in ('sym', 'fld', 'elem', 'var'):
                    m[x] = I(-k * v)
    return m
