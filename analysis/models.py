"""Meaning of the library functions the workspace calls, as value-graph transformers.  Anything not listed here is an
uninterpreted function of its arguments."""
import term as t
from term import *
import interp as ip

OPT = 'core::option::Option'
RES = 'core::result::Result'
CF = 'core::ops::control_flow::ControlFlow'
ORD = 'core::cmp::Ordering'
RANGE = 'core::ops::range::Range'
RANGEI = 'core::ops::range::RangeInclusive'
RANGEF = 'core::ops::range::RangeFrom'
RANGET = 'core::ops::range::RangeTo'
RANGETI = 'core::ops::range::RangeToInclusive'
RANGEFULL = 'core::ops::range::RangeFull'

NONE = adt(OPT, 0)


def Some(x):
    return adt(OPT, 1, x)


def Ok(x):
    return adt(RES, 0, x)


def Err(x):
    return adt(RES, 1, x)


M = {}
# exact table: name -> f(ev, st, args, c)


def model(*names):
    def d(f):
        for n in names:
            M[n] = f
        return f
    return d


def V(ev, st, x):
    return ev.read(st, x)


def require(ev, st, cond):
    """the code panics unless cond holds"""
    cond = t.restrict(cond, st.ctx)
    if cond is TRUE:
        ev.met += 1
        return True
    ev.demand(st, cond, 'required')
    st.r[ip.OKR] = And(st.r[ip.OKR], cond)
    c = st.ctx.assume(cond)
    if c is None:
        return False
    st.ctx = c
    return True


def assume(ev, st, cond):
    if cond is not BOT:
        ev.demand(st, cond, 'bounds')
    c = st.ctx.assume(t.restrict(cond, st.ctx)) if cond is not BOT else None
    if c is not None:
        st.ctx = c


RV = ('RV',)


def split(ev, st, dd, fn):
    """dd: diagram over mk('leaf', i); evaluates fn(state, i) on each alternative and joins"""
    dd = t.restrict(dd, st.ctx)
    subs = {}
    for i in ip._used(dd):
        cond = ip.ddmap(dd, lambda j: BOT if j is None else B(j == i))
        cx = st.ctx.assume(cond)
        if cx is None:
            continue
        s = st.copy()
        s.ctx = cx
        v = fn(s, i)
        if v is None or v is BOT:
            subs[i] = ip.DEAD
            continue
        s.r[RV] = v
        subs[i] = ip.leaf_tree(('ret',), s)
    tree = ip.compose(dd, subs)
    ms = ip.merge(tree, {('ret',)}, st.ctx)
    if ms is None:
        st.r[ip.OKR] = FALSE
        return BOT
    v = ms.r.pop(RV)
    st.r = ms.r
    st.ctx = ms.ctx
    return v


@model('core::ops::function::Fn::call', 'core::ops::function::FnMut::call_mut', 'core::ops::function::FnOnce::call_once',
       'std::ops::Fn::call', 'std::ops::FnMut::call_mut', 'std::ops::FnOnce::call_once')
def direct_call(ev, st, args, c):
    f = args[0]
    a = args[1] if len(args) > 1 else tup()
    xs = list(a.a) if a.op == 'tup' else None
    if xs is None:
        ty = c.get('argtys') or [None, None]
        ty = ty[1]
        if ty and ty[0] == 'tuple':
            xs = [fld(a, 0, i) for i in range(len(ty[1]))]
        else:
            raise ip.Unsupported('arguments of a direct call')
    v = f
    while v.op == 'ptr':
        v = ev.read(st, v)
        if v.op == 'clo':
            break
        f = v
    if v.op == 'clo':
        return ev.apply_clo(st, v, f, xs)
    return ev.apply(st, v, xs)


def cases(ev, st, x, n, fn):
    return split(ev, st, case(x, n, lambda i: mk('leaf', i)), fn)


def eff(st, name, *args):
    st.r[ip.WORLD] = cat(st.r[ip.WORLD], one(mk('eff', name, *args)))


def is_some(x):
    return variant_is(x, 2, 1)


# ------------------------------------------------------------------ sequences and iterators
def toseq(ev, st, x):
    x = V(ev, st, x)

    def f(x):
        if x.op == 'endless':
            raise ip.Unsupported('an endless sequence')
        if x.op == 'iter':
            s, p = x.a
            if p.op == 'i' and p.a[0] == 0:
                return s
            return slice_(s, p, length(s))
        if x.op == 'adt':
            if x.a[0] == RANGE:
                a, b = x.a[2], x.a[3]
                return genf(max0(sub(b, a)), lambda k: add(a, k))
            if x.a[0] == RANGEI:
                a, b = x.a[2], x.a[3]
                return genf(max0(add(sub(b, a), I(1))), lambda k: add(a, k))
            if x.a[0] == OPT:
                return NIL if x.a[1] == 0 else cat(one(x.a[2]))
            if x.a[0] == RANGEF:
                raise ip.Unsupported('unbounded range')
            raise ip.Unsupported('sequence of ' + x.a[0])
        return x
    return lift1(f, x)


def mkiter(s):
    return lift1(lambda s: mk('iter', s, I(0)), s)


def ptr_elems(ev, st, p):
    """sequence of pointers to the elements behind p"""
    def f(p):
        if p.op != 'ptr':
            raise ip.Unsupported('mutable iteration through a value')
        n = length(ev.read(st, p))
        return genf(n, lambda k: mk('ptr', *(p.a + (ip.pi(k),))))
    return lift1(f, p)


ITERCTORS = {'core::slice::iter', 'std::vec::Vec::iter', 'core::array::iter'}


@model('core::slice::iter', 'std::vec::Vec::iter')
def _(ev, st, a, c):
    return mkiter(V(ev, st, a[0]))


@model('core::slice::iter_mut', 'std::vec::Vec::iter_mut')
def _(ev, st, a, c):
    return mkiter(ptr_elems(ev, st, a[0]))


@model('std::vec::Vec::drain')
def _(ev, st, a, c):
    s = V(ev, st, a[0])
    r = V(ev, st, a[1])
    lo, hi = rng(r, length(s))
    ev.write(st, a[0], cat(slice_(s, I(0), lo), slice_(s, hi, length(s))))
    return mkiter(slice_(s, lo, hi))


@model('std::iter::IntoIterator::into_iter')
def _(ev, st, a, c):
    ty = c['types'][0]
    if ty[0] == 'ref' and ty[2]:
        return mkiter(ptr_elems(ev, st, a[0]))
    x = V(ev, st, a[0])

    def f(x):
        if x.op == 'iter' or (x.op == 'adt' and x.a[0] in (RANGE, RANGEF)):
            return x
        if x.op == 'adt' and x.a[0] in t.STRUCTS and x.a[0] not in (OPT, RANGEI):
            return x
        return mk('iter', toseq(ev, st, x), I(0))
    if ty[0] == 'adt' and ty[1].startswith('alloc::collections'):
        return mkiter(lift1(mapseq, x))
    return lift1(f, x)


def mapseq(m):
    if m.op == 'adt' and m.a[0] == t.MM:
        s = m.a[2]
        if s is NIL:
            return NIL
        return genf(nonneg(mk('mn', s)), lambda k: tup(mk('mkey', s, k), mk('mvals', s, k)))
    return mk('mapseq', m)


MAPS = ('std::collections::BTreeMap::', 'alloc::collections::btree::map::BTreeMap::')


@model('std::collections::BTreeMap::new')
def _(ev, st, a, c):
    return mk('adt', t.MM, 0, NIL)


@model('std::collections::BTreeMap::get')
def _(ev, st, a, c):
    m, k = V(ev, st, a[0]), V(ev, st, a[1])
    return ite(lift(t.mhas, m, k), Some(lift(t.mget, m, k)), NONE)


@model('std::collections::BTreeMap::get_mut')
def _(ev, st, a, c):
    m, k = V(ev, st, a[0]), V(ev, st, a[1])
    if a[0].op != 'ptr':
        return ev.opaque(st, c, a)
    return ite(lift(t.mhas, m, k), lift1(lambda k: Some(mk('ptr', *a[0].a, mk('pk', k))), k), NONE)


@model('std::collections::BTreeMap::contains_key')
def _(ev, st, a, c):
    return lift(t.mhas, V(ev, st, a[0]), V(ev, st, a[1]))


@model('std::collections::BTreeMap::len')
def _(ev, st, a, c):
    return lift1(lambda m: length(mapseq(m)), V(ev, st, a[0]))


@model('std::collections::BTreeMap::insert')
def _(ev, st, a, c):
    m, k, v = V(ev, st, a[0]), a[1], a[2]
    old = ite(lift(t.mhas, m, k), Some(lift(t.mget, m, k)), NONE)

    def put(m, k, v):
        h = t.mhas(m, k)
        if h is FALSE or st.ctx.look(h) == 0:
            if m.op == 'adt' and m.a[0] == t.MM:
                o = t.mget(m, k)
                return t.mset(m, k, v if o is NIL else cat(o, v))
        return t.mset(m, k, v)
    ev.write(st, a[0], lift(put, m, k, v))
    return old


@model('std::collections::BTreeMap::entry')
def _(ev, st, a, c):
    if a[0].op != 'ptr':
        return ev.opaque(st, c, a)
    return mk('tup', S('entry'), a[0], a[1])


@model('std::collections::btree_map::Entry::or_default', 'std::collections::btree_map::Entry::or_insert_with', 'std::collections::btree_map::Entry::or_insert')
def _(ev, st, a, c):
    e = a[0]
    if e.op != 'tup' or e.a[0] is not S('entry'):
        return ev.opaque(st, c, a)
    nm = c['name'].split('::')[-1]
    if nm == 'or_insert_with':
        d = ev.apply(st, a[1], [])
    elif nm == 'or_insert':
        d = a[1]
    else:
        d = NIL
    if d is not NIL:
        raise ip.Unsupported('map default')
    return lift1(lambda k: mk('ptr', *e.a[1].a, mk('pk', k)), e.a[2])


@model('std::iter::Iterator::next')
def _(ev, st, a, c):
    p = a[0]
    x = V(ev, st, p)
    x = t.restrict(x, st.ctx)
    ls = leaves(x)
    if not ls:
        return BOT

    def nx(x):
        """-> (option, new iterator)"""
        if x.op == 'adt' and x.a[0] == RANGE:
            s, e = x.a[2], x.a[3]
            g = lt(s, e)
            return ite(g, Some(s), NONE), adt(RANGE, 0, ite(g, add(s, I(1)), s), e)
        if x.op == 'adt' and x.a[0] == RANGEF:
            return Some(x.a[2]), adt(RANGEF, 0, add(x.a[2], I(1)))
        if x.op == 'iter':
            s, pos = x.a
            n = length(s)
            g = lt(pos, n)
            return ite(g, Some(elem(s, pos)), NONE), mk('iter', s, ite(g, add(pos, I(1)), pos)) if False else ite(g, mk('iter', s, add(pos, I(1))), x)
        if x.op in ('adt', 'tup'):
            raise ip.Unsupported('next on %s' % (x.a[0],))
        # an opaque iterator is the sequence of its items
        return None
    res = {}
    for l in ls:
        r = nx(l)
        if r is None:
            # opaque iterator
            r = nx(mk('iter', l, I(0)))
        res[l] = r
    out = lift1(lambda l: res[l][0], x)
    ev.write(st, p, lift1(lambda l: res[l][1], x))
    return out


def pmap(ev, st, s, f, argf=None):
    """sequence of f(x) for x in s (pure closure)"""
    if argf is None:
        argf = lambda x: [x]

    def go(s):
        if s.op == 'cat':
            return cat(*[go(p) for p in s.a])
        if s.op == 'one':
            r, ok = ev.pure_apply(st, f, argf(s.a[0]))
            req(ok)
            return one(r)
        if s.op == 'flat':
            n, lam = s.a
            k = fresh('k')
            k.nn = True
            inner = open_(lam, k)
            return flat(n, close([k], lift1(go_in, inner)))
        n = length(s)
        return gen(n, ev.lam(st, f, lambda k: argf(elem(s, k)), n))

    def go_in(s):
        if s.op == 'cat':
            return cat(*[go_in(p) for p in s.a])
        if s.op == 'one':
            r, ok = ev.pure_apply(st, f, argf(s.a[0]))
            if ok is not TRUE and t.restrict(ok, st.ctx) is not st.r[ip.OKR]:
                ev.notes.append('panic inside a filtered map is not tracked')
            return one(r)
        n = length(s)
        return gen(n, ev.lam(st, f, lambda k: argf(elem(s, k)), None))

    def req(ok):
        st.r[ip.OKR] = And(st.r[ip.OKR], ok)
    return lift1(go, s)


@model('std::iter::Iterator::map')
def _(ev, st, a, c):
    s = toseq(ev, st, a[0])
    try:
        return mkiter(pmap(ev, st, s, a[1]))
    except ip.Unsupported as e:
        if 'side effects' in str(e):
            # delay: the effects happen when the iterator is consumed
            return mk('lazymap', s, a[1])
        raise


@model('std::iter::Iterator::enumerate')
def _(ev, st, a, c):
    s = toseq(ev, st, a[0])
    return mkiter(lift1(lambda s: genf(length(s), lambda k: tup(k, elem(s, k))), s))


@model('std::iter::Iterator::zip')
def _(ev, st, a, c):
    x, y = toseq(ev, st, a[0]), toseq(ev, st, a[1])
    return mkiter(lift(lambda x, y: genf(imin(length(x), length(y)), lambda k: tup(elem(x, k), elem(y, k))), x, y))


@model('std::iter::Iterator::chain')
def _(ev, st, a, c):
    return mkiter(cat(toseq(ev, st, a[0]), toseq(ev, st, a[1])))


@model('std::iter::Iterator::rev')
def _(ev, st, a, c):
    return mkiter(lift1(rev, toseq(ev, st, a[0])))


@model('std::iter::repeat')
def _(ev, st, a, c):
    return lift1(lambda x: mk('endless', x), ev.deep(st, a[0]))


@model('std::iter::repeat_n')
def _(ev, st, a, c):
    x = ev.deep(st, a[0])
    return mkiter(lift1(lambda n: genf(n, lambda k: x), a[1]))


@model('chrono::Timelike::num_seconds_from_midnight')
def _(ev, st, a, c):
    h, m, s = [lift1(lambda x, n=n: mk('call', 'chrono::Timelike::' + n, 'u32', x), ev.deep(st, a[0])) for n in ('hour', 'minute', 'second')]
    return add(add(mul(h, I(3600)), mul(m, I(60))), s)


@model('std::iter::Iterator::take')
def _(ev, st, a, c):
    x = V(ev, st, a[0])
    if x.op == 'endless':
        return mkiter(lift1(lambda n: genf(n, lambda k: x.a[0]), a[1]))
    s = toseq(ev, st, a[0])
    return mkiter(lift1(lambda s: slice_(s, I(0), imin(a[1], length(s))), s))


@model('std::iter::Iterator::skip')
def _(ev, st, a, c):
    s = toseq(ev, st, a[0])
    return mkiter(lift1(lambda s: slice_(s, imin(a[1], length(s)), length(s)), s))


@model('std::iter::Iterator::step_by')
def _(ev, st, a, c):
    s = toseq(ev, st, a[0])
    if not require(ev, st, lt(I(0), a[1])):
        return BOT
    return mkiter(lift(lambda s, k: genf(cdiv(length(s), k), lambda i: elem(s, mul(i, k))), s, a[1]))


@model('std::iter::Iterator::copied', 'std::iter::Iterator::cloned', 'std::iter::Iterator::by_ref', 'std::iter::Iterator::peekable',
       'std::iter::Iterator::fuse')
def _(ev, st, a, c):
    if c['name'].endswith('by_ref'):
        return a[0]
    return mkiter(toseq(ev, st, a[0]))


def pfilter(ev, st, s, f, argf=None, how='filter'):
    def one_(x):
        r, ok = ev.pure_apply(st, f, [x])
        if how == 'filter':
            return ite(ev.asbool(r), cat(one(x)), NIL)
        return case(r, 2, lambda i: NIL if i == 0 else cat(one(fld(r, 1, 0))))

    def go(s):
        if s.op == 'cat':
            return cat(*[go(p) for p in s.a])
        if s.op == 'one':
            return one_(s.a[0])
        if s.op == 'flat':
            n, lam = s.a
            k = fresh('k')
            k.nn = True
            return flat(n, close([k], lift1(go, open_(lam, k))))
        n = length(s)
        k = fresh('k')
        k.nn = True
        return flat(n, close([k], one_(elem(s, k))))
    return lift1(go, s)


@model('std::iter::Iterator::filter')
def _(ev, st, a, c):
    return mkiter(pfilter(ev, st, toseq(ev, st, a[0]), a[1]))


@model('std::iter::Iterator::filter_map')
def _(ev, st, a, c):
    return mkiter(pfilter(ev, st, toseq(ev, st, a[0]), a[1], how='fm'))


def pflat(ev, st, s, conv):
    def go(s):
        if s.op == 'cat':
            return cat(*[go(p) for p in s.a])
        if s.op == 'one':
            return conv(s.a[0])
        if s.op == 'flat':
            n, lam = s.a
            k = fresh('k')
            k.nn = True
            return flat(n, close([k], lift1(go, open_(lam, k))))
        n = length(s)
        k = fresh('k')
        k.nn = True
        return flat(n, close([k], conv(elem(s, k))))
    return lift1(go, s)


@model('std::iter::Iterator::flat_map')
def _(ev, st, a, c):
    def conv(x):
        r, ok = ev.pure_apply(st, a[1], [x])
        if ok is not TRUE:
            ev.notes.append('panic inside flat_map is not tracked')
        return toseq(ev, st, r)
    return mkiter(pflat(ev, st, toseq(ev, st, a[0]), conv))


@model('std::iter::Iterator::flatten', 'core::slice::concat')
def _(ev, st, a, c):
    s = pflat(ev, st, toseq(ev, st, a[0]), lambda x: toseq(ev, st, x))
    return mkiter(s) if 'flatten' in c['name'] else s


def each(ev, st, s, fn, stop=None):
    """for x in s: fn(state, x)  (fn mutates the state); stop(state): bool term, looked at after each element: no further one is visited"""
    def unless_stopped(st, f):
        b = FALSE if stop is None else restrict(stop(st), st.ctx)
        if b is FALSE:
            f(st)
        elif b is not TRUE:
            def g(s2, i):
                if i == 0:
                    f(s2)
                return UNIT
            split(ev, st, ite(b, mk('leaf', 1), mk('leaf', 0)), g)

    def run_(st, s):
        if s.op == 'cat':
            for j, p in enumerate(s.a):
                if j == 0:
                    run_(st, p)
                else:
                    unless_stopped(st, lambda s2, p=p: run_(s2, p))
            return
        if s.op == 'one':
            fn(st, s.a[0])
            return
        if s.op == 'flat':
            n, lam = s.a
            loop(st, n, lambda s2, k: sel(s2, open_(lam, k)))
            return
        loop(st, length(s), lambda s2, k: fn(s2, elem(s, k)))

    def sel(st, s):
        if s.op == 'sw':
            idx = {}
            dd = lift1(lambda l: mk('leaf', idx.setdefault(l, len(idx))), s)
            inv = {v: k for k, v in idx.items()}

            def g(s2, i):
                run_(s2, inv[i])
                return UNIT
            split(ev, st, dd, g)
        else:
            run_(st, s)

    def loop(st, n, body):
        ev.fid += 1
        IX = ('IX', ev.fid)
        st.r[IX] = I(0)

        def step(template):
            s = ip.State(dict(template), st.ctx)
            i = s.r[IX]
            g = lt(i, n)
            sb = s.copy()
            cx = st.ctx.assume(g)
            if cx is None:
                return ip.leaf_tree(('exit',), s)
            sb.ctx = cx
            body(sb, i)
            b = FALSE if stop is None else restrict(stop(sb), sb.ctx)
            leaves_ = [(('back',), sb), (('exit',), s)]
            if b is FALSE:
                dd = mk('leaf', 0)
            elif b is TRUE:
                leaves_[0] = (('exit',), sb)
                dd = mk('leaf', 0)
            else:
                ss = sb.copy()
                ss.ctx = sb.ctx.assume(b) or sb.ctx
                ss.r = {k: restrict(v, ss.ctx) if k != ip.OKR else v for k, v in ss.r.items()}
                go = sb.copy()
                go.ctx = sb.ctx.assume(Not(b)) or sb.ctx
                go.r = {k: restrict(v, go.ctx) if k != ip.OKR else v for k, v in go.r.items()}
                leaves_ = [(('back',), go), (('exit',), s), (('exit',), ss)]
                dd = ite(b, mk('leaf', 2), mk('leaf', 0))
                sb = go
            sb.r[IX] = add(i, I(1))
            return ip.Tree(ite(g, dd, mk('leaf', 1)), leaves_)
        tree = ev.solve(dict(st.r), step, lambda leaf: leaf[0] == ('back',), st.ctx,
                        lambda r: ('uint', 'usize') if r == IX else ev.rootty.get(r))
        ms = ip.merge(tree, {('exit',)}, st.ctx)
        if ms is None:
            raise ip.Unsupported('iteration never ends')
        st.r = {k: v for k, v in ms.r.items() if k != IX}
        st.ctx = ms.ctx
    sel(st, s)


def foldseq(ev, st, s, init, fn, stop=None):
    ev.fid += 1
    ACC = ('ACC', ev.fid)
    st.r[ACC] = init

    def f(s2, x):
        s2.r[ACC] = fn(s2, s2.r[ACC], x)
    each(ev, st, s, f, None if stop is None else lambda s2: stop(s2.r[ACC]))
    return st.r.pop(ACC)


@model('std::iter::Iterator::for_each')
def _(ev, st, a, c):
    x = V(ev, st, a[0])
    s = toseq(ev, st, a[0])
    each(ev, st, s, lambda s2, x: ev.apply(s2, a[1], [x]))
    return UNIT


def failed(r, adt):
    """the failing value itself, as a value known to be of that variant"""
    return Err(fld(r, 1, 0)) if adt == RES else NONE


@model('std::iter::Iterator::try_for_each')
def _(ev, st, a, c):
    # a loop that stops at the first error: only the form over Result<(), E> and Option<()>
    ty = c['retty']
    if ty is None or ty[0] != 'adt' or ty[1] not in (RES, OPT):
        raise ip.Unsupported('try_for_each')
    good = 0 if ty[1] == RES else 1
    init = Ok(UNIT) if good == 0 else Some(UNIT)

    def step(s2, acc, x):
        r = ev.apply(s2, a[1], [x])
        return case(r, 2, lambda i: init if i == good else failed(r, ty[1]))
    return foldseq(ev, st, toseq(ev, st, a[0]), init, step, lambda acc: case(acc, 2, lambda i: B(i != good)))


@model('std::iter::Iterator::try_fold')
def _(ev, st, a, c):
    ty = c['retty']
    if ty is None or ty[0] != 'adt' or ty[1] not in (RES, OPT):
        raise ip.Unsupported('try_fold')
    good = 0 if ty[1] == RES else 1
    init = Ok(a[1]) if good == 0 else Some(a[1])

    def step(s2, acc, x):
        r = ev.apply(s2, a[2], [fld(acc, good, 0), x])
        return case(r, 2, lambda i: (Ok if good == 0 else Some)(fld(r, good, 0)) if i == good else failed(r, ty[1]))
    return foldseq(ev, st, toseq(ev, st, a[0]), init, step, lambda acc: case(acc, 2, lambda i: B(i != good)))


@model('std::iter::Iterator::fold')
def _(ev, st, a, c):
    return foldseq(ev, st, toseq(ev, st, a[0]), a[1], lambda s2, acc, x: ev.apply(s2, a[2], [acc, x]))


@model('std::iter::Iterator::sum')
def _(ev, st, a, c):
    ty = c['retty']
    s = toseq(ev, st, a[0])
    if ty is not None and ty[0] == 'float':
        z = F(0.0, 64 if ty[1] == 'f64' else 32)
        return foldseq(ev, st, s, z, lambda s2, acc, x: fbin('fadd', acc, x))
    return foldseq(ev, st, s, I(0), lambda s2, acc, x: add(acc, x))


@model('std::iter::Iterator::count')
def _(ev, st, a, c):
    return length(toseq(ev, st, a[0]))


@model('std::iter::ExactSizeIterator::len')
def _(ev, st, a, c):
    return length(toseq(ev, st, a[0]))


def anyseq(ev, st, s, pred):
    """pred(x) -> bool term"""
    def go(s):
        if s.op == 'cat':
            return Or(*[go(p) for p in s.a])
        if s.op == 'one':
            return pred(s.a[0])
        if s.op == 'flat':
            n, lam = s.a
            k = fresh('k')
            k.nn = True
            return anyf(n, close([k], lift1(go, open_(lam, k))))
        k = fresh('k')
        k.nn = True
        return anyf(length(s), close([k], pred(elem(s, k))))
    return lift1(go, s)


def clo_pred(ev, st, f):
    def p(x):
        r, ok = ev.pure_apply(st, f, [x])
        return ev.asbool(r)
    return p


def consume(ev, st, p, rest=None):
    """the iterator behind p has been advanced"""
    if p.op == 'ptr':
        ev.write(st, p, rest if rest is not None else mk('unknown', 'partly consumed iterator'))


@model('std::iter::Iterator::any')
def _(ev, st, a, c):
    s = toseq(ev, st, a[0])
    consume(ev, st, a[0])
    return anyseq(ev, st, s, clo_pred(ev, st, a[1]))


@model('std::iter::Iterator::all')
def _(ev, st, a, c):
    p = clo_pred(ev, st, a[1])
    s = toseq(ev, st, a[0])
    consume(ev, st, a[0])
    return Not(anyseq(ev, st, s, lambda x: Not(p(x))))


@model('std::iter::Iterator::position', 'std::iter::Iterator::find', 'std::iter::Iterator::rfind', 'std::iter::Iterator::rposition', 'std::iter::DoubleEndedIterator::rfind')
def _(ev, st, a, c):
    s = toseq(ev, st, a[0])
    p = clo_pred(ev, st, a[1])
    pos = c['name'].endswith('position')
    back = c['name'].endswith(('rfind', 'rposition'))

    def f(s):
        k = fresh('k')
        k.nn = True
        n = length(s)
        at = (lambda i: sub(add(n, I(-1)), i)) if back else (lambda i: i)
        lam = close([k], p(elem(s, at(k))))
        i = firstf(n, lam)
        return ite(anyf(n, lam), Some(at(i) if pos else elem(s, at(i))), NONE)
    r = lift1(f, s)
    if back:
        consume(ev, st, a[0])
    else:
        def g(s):
            k = fresh('k')
            k.nn = True
            n = length(s)
            lam = close([k], p(elem(s, k)))
            return ite(anyf(n, lam), mk('iter', slice_(s, add(firstf(n, lam), I(1)), n), I(0)), mk('iter', NIL, I(0)))
        if a[0].op == 'ptr':
            consume(ev, st, a[0], lift1(g, s))
    return r


@model('std::iter::Iterator::find_map')
def _(ev, st, a, c):
    s = toseq(ev, st, a[0])

    def g(x):
        r, ok = ev.pure_apply(st, a[1], [x])
        return r

    def f(s):
        k = fresh('k')
        k.nn = True
        n = length(s)
        lam = close([k], variant_is(g(elem(s, k)), 2, 1))
        return ite(anyf(n, lam), g(elem(s, firstf(n, lam))), NONE)
    consume(ev, st, a[0])
    return lift1(f, s)


def prefix(s, p):
    """number of leading elements for which p holds"""
    k = fresh('k')
    k.nn = True
    n = length(s)
    lam = close([k], Not(p(elem(s, k))))
    return ite(anyf(n, lam), firstf(n, lam), n)


@model('std::iter::Iterator::take_while', 'std::iter::Iterator::skip_while')
def _(ev, st, a, c):
    s = toseq(ev, st, a[0])
    p = clo_pred(ev, st, a[1])
    take = c['name'].endswith('take_while')
    return mkiter(lift1(lambda s: lift1(lambda i: slice_(s, I(0), i) if take else slice_(s, i, length(s)), prefix(s, p)), s))


@model('core::slice::partition_point')
def _(ev, st, a, c):
    # the elements for which the predicate holds come first (what the function requires)
    return lift1(lambda s: prefix(s, clo_pred(ev, st, a[1])), V(ev, st, a[0]))


@model('std::iter::Iterator::last', 'core::slice::last', 'std::vec::Vec::last')
def _(ev, st, a, c):
    s = toseq(ev, st, a[0]) if 'Iterator' in c['name'] else V(ev, st, a[0])
    return lift1(lambda s: ite(lt(I(0), length(s)), Some(elem(s, sub(length(s), I(1)))), NONE), s)


@model('core::slice::first', 'std::vec::Vec::first')
def _(ev, st, a, c):
    s = V(ev, st, a[0])
    return lift1(lambda s: ite(lt(I(0), length(s)), Some(elem(s, I(0))), NONE), s)


@model('std::iter::Iterator::nth')
def _(ev, st, a, c):
    s = toseq(ev, st, a[0])
    n = a[1]
    ev.write(st, a[0], lift1(lambda s: mk('iter', slice_(s, imin(add(n, I(1)), length(s)), length(s)), I(0)), s))
    return lift1(lambda s: ite(lt(n, length(s)), Some(elem(s, n)), NONE), s)


@model('core::slice::last_mut', 'core::slice::first_mut')
def _(ev, st, a, c):
    last = c['name'].endswith('last_mut')

    def f(p):
        if p.op != 'ptr':
            raise ip.Unsupported('last_mut through a value')
        n = length(ev.read(st, p))
        return lift1(lambda n: ite(lt(I(0), n), Some(mk('ptr', *(p.a + (ip.pi(sub(n, I(1)) if last else I(0)),)))), NONE), n)
    return lift1(f, a[0])


@model('core::slice::get', 'std::vec::Vec::get')
def _(ev, st, a, c):
    s = V(ev, st, a[0])
    i = V(ev, st, a[1])
    n = length(s)
    if i.op == 'adt':
        lo, hi = rng(i, n)
        return lift(lambda lo, hi: ite(And(le(lo, hi), le(hi, n)), Some(slice_(s, lo, hi)), NONE), lo, hi)
    return ite(lt(i, n), Some(elem(s, i)), NONE)


@model('core::slice::get_mut')
def _(ev, st, a, c):
    p = a[0]
    if p.op != 'ptr':
        raise ip.Unsupported('get_mut through a value')
    n = length(ev.read(st, p))
    return ite(lt(a[1], n), Some(mk('ptr', *(p.a + (ip.pi(a[1]),)))), NONE)


def minmax(ev, st, s, key, better, other):
    def items(s):
        if s.op == 'one':
            return [s.a[0]]
        if s.op == 'cat':
            out = []
            for p in s.a:
                x = items(p)
                if x is None:
                    return None
                out += x
            return out
        n = length(s)
        return [elem(s, I(i)) for i in range(n.a[0])] if n.op == 'i' and n.a[0] <= 8 else None

    def go(s):
        if s.op == 'cat' and any(p.op == 'sw' for p in s.a) and len(s.a) <= 8:
            return lift(lambda *ps: lift1(go, cat(*ps)), *s.a)
        xs = items(s)
        if xs is None:
            return other(s)
        r = None
        for x in xs:
            kx = key(x)
            r = (x, kx) if r is None else (ite(better(kx, r[1]), x, r[0]), ite(better(kx, r[1]), kx, r[1]))
        return NONE if r is None else Some(r[0])
    return lift1(go, s)


def minmax_model(kind):
    def m(ev, st, a, c):
        s = toseq(ev, st, a[0])
        ty = c['argtys'][0] if c.get('argtys') else None

        def key(x):
            if kind.endswith('by_key'):
                r, ok = ev.pure_apply(st, a[1], [x])
                return r
            return x

        def better(n, o):
            for v in leaves(n):
                if v.op in ('adt', 'tup', 'cat', 'str', 'f'):
                    raise ip.Unsupported('ordering of %s' % v.op)
            return lt(n, o) if kind.startswith('min') else le(o, n)
        def other(s):
            k = fresh('k')
            k.nn = True
            n = length(s)
            ks = close([k], key(elem(s, k)))
            i = mk('arg' + kind[:3], n, ks)
            i.nn = True
            return ite(lt(I(0), n), Some(elem(s, i)), NONE)
        return minmax(ev, st, s, key, better, other)
    return m


for _k in ('min_by_key', 'max_by_key', 'min', 'max'):
    M['std::iter::Iterator::' + _k] = minmax_model(_k)


@model('std::iter::Iterator::collect', 'std::iter::FromIterator::from_iter')
def _(ev, st, a, c):
    ty = c['retty']
    s0 = V(ev, st, a[0])
    if s0.op == 'lazymap':
        out = foldseq(ev, st, s0.a[0], NIL, lambda s2, acc, x: cat(acc, one(ev.apply(s2, s0.a[1], [x]))))
        s = out
    else:
        s = toseq(ev, st, a[0])
    if ty is None:
        return s
    if ty[0] == 'adt' and ty[1] == RES:
        bad = anyseq(ev, st, s, lambda x: variant_is(x, 2, 1))

        def fin(s):
            k = fresh('k')
            k.nn = True
            e = mk('firsterr', s)
            return ite(bad, Err(e), Ok(mapv(s, lambda x: fld(x, 0, 0))))
        return lift1(fin, s)
    if ty[0] == 'adt' and ty[1] == OPT:
        bad = anyseq(ev, st, s, lambda x: variant_is(x, 2, 0))
        return lift1(lambda s: ite(bad, NONE, Some(mapv(s, lambda x: fld(x, 1, 0)))), s)
    if ty[0] == 'adt' and (ty[1].endswith('::Vec') or ty[1].endswith('VecDeque')) or ty[0] == 'adt' and ty[1].endswith('Box'):
        return s
    return lift1(lambda s: mk('collect', ip.tystr(ty), s), s)


def mapv(s, f):
    def go(s):
        if s.op == 'cat':
            return cat(*[go(p) for p in s.a])
        if s.op == 'one':
            return one(f(s.a[0]))
        if s.op == 'flat':
            n, lam = s.a
            k = fresh('k')
            k.nn = True
            return flat(n, close([k], lift1(go, open_(lam, k))))
        n = length(s)
        k = fresh('k')
        k.nn = True
        return gen(n, close([k], f(elem(s, k))))
    return lift1(go, s)


# ------------------------------------------------------------------ vectors and slices
@model('std::vec::Vec::new', 'std::vec::Vec::with_capacity', 'std::string::String::new')
def _(ev, st, a, c):
    return NIL if 'Vec' in c['name'] else S('')


@model('std::vec::Vec::len', 'core::slice::len', 'std::collections::VecDeque::len', 'core::array::len')
def _(ev, st, a, c):
    return length(V(ev, st, a[0]))


@model('std::vec::Vec::is_empty', 'core::slice::is_empty')
def _(ev, st, a, c):
    return eqi(length(V(ev, st, a[0])), I(0))


@model('std::vec::Vec::capacity')
def _(ev, st, a, c):
    return mk('capacity', V(ev, st, a[0]))


@model('std::vec::Vec::reserve', 'std::vec::Vec::shrink_to_fit', 'std::vec::Vec::reserve_exact')
def _(ev, st, a, c):
    return UNIT


@model('std::vec::Vec::push', 'std::vec::Vec::push_back')
def _(ev, st, a, c):
    ev.write(st, a[0], cat(V(ev, st, a[0]), one(a[1])))
    return UNIT


@model('std::vec::Vec::extend_from_slice', 'std::iter::Extend::extend', 'std::vec::Vec::append')
def _(ev, st, a, c):
    s = toseq(ev, st, a[1])
    if c['name'].endswith('append'):
        ev.write(st, a[1], NIL)
    ev.write(st, a[0], cat(V(ev, st, a[0]), s))
    return UNIT


@model('std::vec::Vec::clear')
def _(ev, st, a, c):
    ev.write(st, a[0], NIL)
    return UNIT


@model('std::vec::Vec::pop')
def _(ev, st, a, c):
    s = V(ev, st, a[0])
    n = length(s)
    g = lt(I(0), n)
    m = sub(n, I(1))
    ev.write(st, a[0], ite(g, slice_(s, I(0), m), NIL))
    return lift1(lambda s: ite(g, Some(elem(s, m)), NONE), s)


@model('std::vec::Vec::insert')
def _(ev, st, a, c):
    s = V(ev, st, a[0])
    ev.write(st, a[0], cat(slice_(s, I(0), a[1]), one(a[2]), slice_(s, a[1], length(s))))
    return UNIT


@model('std::vec::Vec::remove')
def _(ev, st, a, c):
    s = V(ev, st, a[0])
    ev.write(st, a[0], cat(slice_(s, I(0), a[1]), slice_(s, add(a[1], I(1)), length(s))))
    return elem(s, a[1])


@model('std::vec::Vec::truncate')
def _(ev, st, a, c):
    s = V(ev, st, a[0])
    ev.write(st, a[0], lift1(lambda s: slice_(s, I(0), imin(a[1], length(s))), s))
    return UNIT


@model('std::vec::Vec::retain', 'std::vec::Vec::retain_mut')
def _(ev, st, a, c):
    ev.write(st, a[0], pfilter(ev, st, V(ev, st, a[0]), a[1]))
    return UNIT


@model('std::vec::Vec::dedup')
def _(ev, st, a, c):
    ev.write(st, a[0], lift1(lambda s: mk('dedup', s), V(ev, st, a[0])))
    return UNIT


@model('std::vec::Vec::resize')
def _(ev, st, a, c):
    s = V(ev, st, a[0])
    n = length(s)
    ev.write(st, a[0], ite(le(a[1], n), slice_(s, I(0), a[1]), cat(s, genf(sub(a[1], n), lambda k: a[2]))))
    return UNIT


@model('std::vec::from_elem')
def _(ev, st, a, c):
    return genf(a[1], lambda k: a[0])


@model('core::slice::fill')
def _(ev, st, a, c):
    n = length(V(ev, st, a[0]))
    ev.write(st, a[0], genf(n, lambda k: a[1]))
    return UNIT


@model('core::slice::to_vec', 'core::slice::into_vec', 'std::vec::Vec::as_slice', 'core::slice::as_ref', 'std::vec::Vec::into_boxed_slice',
       'std::boxed::box_assume_init_into_vec_unsafe', 'core::slice::hack::into_vec')
def _(ev, st, a, c):
    return V(ev, st, a[0])


@model('std::boxed::Box::new_uninit')
def _(ev, st, a, c):
    ev.fid += 1
    root = ('C', ev.fid)
    st.r[root] = mk('undef')
    return mk('ptr', root)


@model('std::vec::Vec::as_mut_slice')
def _(ev, st, a, c):
    return a[0]


@model('core::slice::chunks')
def _(ev, st, a, c):
    s = V(ev, st, a[0])
    return mkiter(lift1(lambda s: mk('chunks', s, a[1]), s))


@model('core::slice::chunks_exact')
def _(ev, st, a, c):
    s = V(ev, st, a[0])
    return mkiter(lift1(lambda s: mk('chunks', slice_(s, I(0), sub(length(s), remi(length(s), a[1]))), a[1]), s))


@model('core::slice::concat')
def _(ev, st, a, c):
    s = V(ev, st, a[0])

    def f(s):
        k = fresh('k')
        k.nn = True
        return flat(length(s), close([k], elem(s, k)))
    return lift1(f, s)


@model('core::slice::split_at')
def _(ev, st, a, c):
    s = V(ev, st, a[0])
    n = length(s)
    if not require(ev, st, le(a[1], n)):
        return BOT
    return lift1(lambda s: tup(slice_(s, I(0), a[1]), slice_(s, a[1], length(s))), s)


@model('core::slice::starts_with')
def _(ev, st, a, c):
    s, p = V(ev, st, a[0]), V(ev, st, a[1])
    n = length(p)
    return lift(lambda s, p: And(le(length(p), length(s)), seqeq(ev, slice_(s, I(0), length(p)), p, None)), s, p)


@model('core::slice::ends_with')
def _(ev, st, a, c):
    s, p = V(ev, st, a[0]), V(ev, st, a[1])
    return lift(lambda s, p: And(le(length(p), length(s)), seqeq(ev, slice_(s, sub(length(s), length(p)), length(s)), p, None)), s, p)


@model('core::slice::swap')
def _(ev, st, a, c):
    s = V(ev, st, a[0])
    x, y = elem(s, a[1]), elem(s, a[2])
    ev.write(st, a[0], store(store(s, a[1], y), a[2], x))
    return UNIT


@model('core::slice::reverse')
def _(ev, st, a, c):
    ev.write(st, a[0], lift1(rev, V(ev, st, a[0])))
    return UNIT


@model('core::slice::copy_from_slice', 'core::slice::clone_from_slice')
def _(ev, st, a, c):
    ev.write(st, a[0], V(ev, st, a[1]))
    return UNIT


@model('core::slice::contains')
def _(ev, st, a, c):
    s = V(ev, st, a[0])
    x = V(ev, st, a[1])
    ty = t.elemty(c['argtys'][0]) if c.get('argtys') else None
    return anyseq(ev, st, s, lambda y: eqv(ev, y, x, ty))


@model('core::slice::sort_unstable_by_key', 'core::slice::sort_by_key', 'core::slice::sort_by_cached_key')
def _(ev, st, a, c):
    s = V(ev, st, a[0])

    def f(s):
        k = fresh('k')
        k.nn = True
        r, ok = ev.pure_apply(st, a[1], [elem(s, k)])
        return mk('sorted', s, close([k], r))
    ev.write(st, a[0], lift1(f, s))
    return UNIT


@model('core::slice::sort_by', 'core::slice::sort_unstable_by')
def _(ev, st, a, c):
    s = V(ev, st, a[0])

    def f(s):
        k, j = fresh('k'), fresh('j')
        k.nn = j.nn = True
        r, ok = ev.pure_apply(st, a[1], [elem(s, k), elem(s, j)])
        for u in subterms(r):
            if u.op in ('fld', 'elem') and any(w is k for w in subterms(u)) and not any(w is j for w in subterms(u)):
                v = subst(u, {k: j})
                if r is ite(lt(u, v), adt(ORD, 0), ite(eqi(u, v), adt(ORD, 1), adt(ORD, 2))):
                    return mk('sorted', s, close([k], u))
                if r is ite(lt(v, u), adt(ORD, 0), ite(eqi(v, u), adt(ORD, 1), adt(ORD, 2))):
                    return mk('sorted', s, close([k], sub(I(0), u)))
        raise ip.Unsupported('order of a sort')
    ev.write(st, a[0], lift1(f, s))
    return UNIT


@model('core::slice::sort', 'core::slice::sort_unstable')
def _(ev, st, a, c):
    ev.write(st, a[0], lift1(lambda s: mk('sorted', s, UNIT), V(ev, st, a[0])))
    return UNIT


def rng(r, n):
    """bounds of a range value over a sequence of length n"""
    def lo(r):
        p = r.a[0]
        if p in (RANGE, RANGEI, RANGEF):
            return r.a[2]
        if p in (RANGET, RANGETI, RANGEFULL):
            return I(0)
        raise ip.Unsupported('range ' + p)

    def hi(r):
        p = r.a[0]
        if p == RANGE:
            return r.a[3]
        if p == RANGEI:
            return add(r.a[3], I(1))
        if p in (RANGEF, RANGEFULL):
            return n
        if p == RANGET:
            return r.a[2]
        if p == RANGETI:
            return add(r.a[2], I(1))
        raise ip.Unsupported('range ' + p)
    for l in leaves(r):
        if l.op != 'adt':
            raise ip.Unsupported('opaque range')
    return lift1(lo, r), lift1(hi, r)


@model('std::ops::Index::index')
def _(ev, st, a, c):
    s = V(ev, st, a[0])
    i = V(ev, st, a[1])
    it = c['types'][1] if len(c['types']) > 1 else None
    if it is not None and it[0] == 'adt' and it[1].startswith('core::ops::range'):
        n = length(s)
        lo, hi = rng(i, n)
        assume(ev, st, And(le(lo, hi), le(hi, n)))
        return lift(lambda s, lo, hi: slice_(s, lo, hi), s, lo, hi)
    if it is not None and it[0] == 'uint':
        assume(ev, st, lt(i, length(s)))
        return elem(s, i)
    return ev.opaque(st, c, a)


@model('std::ops::IndexMut::index_mut')
def _(ev, st, a, c):
    it = c['types'][1] if len(c['types']) > 1 else None
    if it is not None and it[0] == 'uint':
        if ev.demands is not None:
            n = length(V(ev, st, a[0]))
            assume(ev, st, lt(a[1], n))

        def f(p):
            if p.op != 'ptr':
                raise ip.Unsupported('index_mut through a value')
            return mk('ptr', *(p.a + (ip.pi(a[1]),)))
        return lift1(f, a[0])
    if it is not None and it[0] == 'adt' and it[1] == RANGEFULL:
        return a[0]
    if it is not None and it[0] == 'adt' and it[1].startswith('core::ops::range'):
        n = length(V(ev, st, a[0]))
        lo, hi = rng(V(ev, st, a[1]), n)
        assume(ev, st, And(le(lo, hi), le(hi, n)))

        def f(p, lo, hi):
            if p.op != 'ptr':
                raise ip.Unsupported('index_mut through a value')
            return mk('ptr', p.a[0], *ip.inner_range(p.a[1:] + (mk('pr', lo, hi),)))
        return lift(f, a[0], lo, hi)
    raise ip.Unsupported('index_mut by range')


# ------------------------------------------------------------------ transparent wrappers
@model('std::ops::Deref::deref', 'std::borrow::Borrow::borrow', 'std::convert::AsRef::as_ref', 'std::boxed::Box::new', 'std::clone::Clone::clone',
       'std::borrow::ToOwned::to_owned', 'std::hint::must_use', 'std::rc::Rc::new', 'std::sync::Arc::new', 'std::string::String::as_str',
       'std::path::Path::new', 'std::path::PathBuf::as_path', 'std::path::Path::to_path_buf', 'std::string::String::as_bytes', 'core::str::as_bytes',
       'std::boxed::Box::from', 'std::vec::Vec::into_iter_', 'std::string::ToString::to_string', 'core::array::as_slice', 'std::mem::drop_',
       'std::convert::identity', 'std::hint::black_box', 'core::str::to_owned', 'core::str::to_string', 'std::path::PathBuf::into_os_string',
       'std::string::String::into_bytes', 'std::string::String::into_boxed_str')
def _(ev, st, a, c):
    x = V(ev, st, a[0])
    if c['name'].endswith('ToString::to_string'):
        ty = ip.strip_ty(c['types'][0])
        if ty in (('str',), ('adt', 'alloc::string::String', ())):
            return x
        return lift1(lambda x: mk('tostr', x), x)
    return x


@model('std::ops::DerefMut::deref_mut', 'std::borrow::BorrowMut::borrow_mut', 'std::convert::AsMut::as_mut', 'std::vec::Vec::as_mut')
def _(ev, st, a, c):
    return a[0]


@model('std::mem::drop', 'std::mem::forget')
def _(ev, st, a, c):
    return UNIT


@model('std::mem::replace')
def _(ev, st, a, c):
    o = V(ev, st, a[0])
    ev.write(st, a[0], a[1])
    return o


@model('std::mem::take')
def _(ev, st, a, c):
    o = V(ev, st, a[0])
    ev.write(st, a[0], default(ev, st, c['types'][0]))
    return o


@model('std::mem::swap')
def _(ev, st, a, c):
    x, y = V(ev, st, a[0]), V(ev, st, a[1])
    ev.write(st, a[0], y)
    ev.write(st, a[1], x)
    return UNIT


@model('std::mem::size_of_val', 'std::mem::size_of')
def _(ev, st, a, c):
    return nonneg(mk('sizeof', ip.tystr(c['types'][0])))


def default(ev, st, ty):
    k = ty[0]
    if k in ('int', 'uint'):
        return I(0)
    if k == 'float':
        return F(0.0, 64 if ty[1] == 'f64' else 32)
    if k == 'bool':
        return FALSE
    if k == 'tuple':
        return tup(*[default(ev, st, x) for x in ty[1]])
    if k == 'array':
        return genf(I(ty[2]), lambda i: default(ev, st, ty[1]))
    if k == 'adt':
        if ty[1] == OPT:
            return NONE
        if ty[1].endswith('::Vec'):
            return NIL
        if ty[1].endswith('::String'):
            return S('')
        b = ev.find_impl('core::default::Default', 'default', ty, None)
        if b is not None:
            return ev.inline(st, b, [], {}, 1)
    return mk('call', 'default', ip.tystr(ty))


@model('std::default::Default::default')
def _(ev, st, a, c):
    if c['body'] is not None:
        return ev.inline(st, c['body'], [], {}, 1)
    return mark(default(ev, st, c['types'][0]), c['types'][0])


# ------------------------------------------------------------------ conversions
def convert(ev, st, x, src, dst):
    if src == dst or src is None or dst is None:
        return x
    k = dst[0]
    if k in ('int', 'uint') and src[0] in ('int', 'uint'):
        return icast(x, src[1], dst[1])
    if k in ('int', 'uint') and src == ('bool',):
        return ite(ev.asbool(x), I(1), I(0))
    if k in ('int', 'uint') and src == ('char',):
        return x
    if k == 'float' and src[0] == 'float':
        return f2f(x, src[1], dst[1])
    if k == 'float' and src[0] in ('int', 'uint'):
        return i2f(x, src[1], dst[1])
    if k == 'adt':
        if dst[1] == OPT and not (src[0] == 'adt' and src[1] == OPT):
            return Some(x)
        for b in ev.prog.method_index.get(('core::convert::From', 'from'), []):
            if b.selfty == dst and b.trargs and b.trargs[-1] == src:
                return ev.inline(st, b, [x], {}, 1)
        if dst[1].endswith('BinaryHeap'):
            return lift1(lambda s: mk('heap', s), x)
        if dst[1].startswith('alloc::') or dst[1].startswith('std::path') or dst[1].startswith('std::ffi'):
            return x
    return mk('call', 'convert', ip.tystr(dst), x)


@model('std::convert::From::from')
def _(ev, st, a, c):
    if c['body'] is not None:
        return ev.inline(st, c['body'], a, {}, 1)
    ts = c['types']
    return convert(ev, st, V(ev, st, a[0]), ts[1] if len(ts) > 1 else None, ts[0])


@model('std::convert::Into::into')
def _(ev, st, a, c):
    ts = c['types']
    return convert(ev, st, V(ev, st, a[0]), ts[0], ts[1] if len(ts) > 1 else None)


@model('std::convert::TryInto::try_into', 'std::convert::TryFrom::try_from')
def _(ev, st, a, c):
    src, dst = c['types'][0], c['types'][1] if len(c['types']) > 1 else None
    if c['name'].endswith('try_from'):
        src, dst = dst, src
    x = V(ev, st, a[0])
    d = dst
    if d is not None and d[0] == 'ref':
        d = d[1]
    if d is not None and d[0] == 'array':
        n = length(x)
        return ite(eqi(n, I(d[2])), Ok(x), Err(mk('sym', 'tryfromslice')))
    if d is not None and d[0] in ('int', 'uint') and src[0] in ('int', 'uint'):
        lo, hi = t.RANGES[d[1]]
        slo, shi = t.RANGES[src[1]]
        g = TRUE
        if lo > slo:
            g = And(g, le(I(lo), x))
        if hi < shi:
            g = And(g, le(x, I(hi)))
        return ite(g, Ok(x), Err(mk('sym', 'tryfromint')))
    return ev.opaque(st, c, a)


# ------------------------------------------------------------------ equality and ordering
def seqeq(ev, x, y, ety):
    def f(x, y):
        if x is y and ety is not None and ety[0] in ('int', 'uint', 'bool'):
            return TRUE
        nx, ny = length(x), length(y)
        xs = x.a if x.op == 'cat' and all(p.op == 'one' for p in x.a) else None
        ys = y.a if y.op == 'cat' and all(p.op == 'one' for p in y.a) else None
        if xs is not None and ys is not None:
            if len(xs) != len(ys):
                return FALSE
            return And(*[eqv(ev, p.a[0], q.a[0], ety) for p, q in zip(xs, ys)])
        m = nx if nx.op == 'i' else ny
        if m.op == 'i' and m.a[0] <= 64:
            return And(eqi(nx, ny), *[eqv(ev, elem(x, I(i)), elem(y, I(i)), ety) for i in range(m.a[0])])
        k = fresh('k')
        k.nn = True
        return And(eqi(nx, ny), Not(anyf(nx, close([k], Not(eqv(ev, elem(x, k), elem(y, k), ety))))))
    return lift(f, x, y)


def eqv(ev, x, y, ty):
    while ty is not None and ty[0] in ('ref', 'ptr'):
        ty = ty[1]
    if ty is None:
        o = set(l.op for l in leaves(x)) | set(l.op for l in leaves(y))
        if o & {'f', 'fadd', 'fsub', 'fmul', 'fdiv', 'i2f', 'f2f'}:
            ty = ('float', 'f64')
        elif o & {'i', 'lin', 'byte'}:
            ty = ('int', 'i64')
        elif o & {'b'}:
            ty = ('bool',)
    if ty is not None:
        k = ty[0]
        if k == 'float':
            return fcmp('eq', x, y)
        if k in ('int', 'uint', 'char'):
            return eqi(x, y)
        if k == 'bool':
            x, y = ev.asbool(x), ev.asbool(y)
            return ite(x, y, Not(y))
        if k == 'tuple':
            return And(*[eqv(ev, fld(x, -1, i), fld(y, -1, i), z) for i, z in enumerate(ty[1])])
        if k in ('array', 'slice'):
            return seqeq(ev, x, y, ty[1])
        if k == 'adt' and ty[1].endswith('::Vec'):
            return seqeq(ev, x, y, ty[2][0] if ty[2] else None)
        if k == 'adt' and ty[1] in ev.prog.adts:
            a = ev.prog.adts[ty[1]]
            n = len(a['variants'])
            if a['kind'] == 'enum' or n > 1:
                def arm(i):
                    def arm2(j):
                        if i != j:
                            return FALSE
                        r = TRUE
                        for q, f in enumerate(a['variants'][i]['f']):
                            ft = f['t']
                            if ft is None and ty[2]:
                                ft = ty[2][0]
                            elif ft is not None and ft[0] == 'param' and ty[2]:
                                ft = ty[2][0]
                            r = And(r, eqv(ev, fld(x, i, q), fld(y, i, q), ft))
                        return r
                    return case(y, n, arm2)
                return case(x, n, arm)
            if ty[1] not in ('alloc::string::String',) and all(f['t'] for f in a['variants'][0]['f']):
                return And(*[eqv(ev, fld(x, 0, q), fld(y, 0, q), f['t']) for q, f in enumerate(a['variants'][0]['f'])])

    def g(a, b):
        if a is b:
            return TRUE
        if a.op == 'str' and b.op == 'str':
            return FALSE
        if a.op == 'sym' and b.op == 'sym' and False:
            return FALSE
        if b.id < a.id:
            a, b = b, a
        return mk('eqv', a, b, b=True)
    return lift(g, x, y)


def localeq(ev, st, c, a):
    """a hand written == of a local type"""
    b = c['body']
    if b is not None and not b.derived:
        return ev.inline(st, b, a, {}, 1)
    return None


@model('std::cmp::PartialEq::eq', 'std::cmp::PartialEq::ne')
def _(ev, st, a, c):
    ne = c['name'].endswith('ne')
    if c['body'] is not None and c['body'].name == 'eq' and not c['body'].derived:
        r = ev.inline(st, c['body'], a, {}, 1)
    else:
        x, y = ev.deep(st, V(ev, st, a[0])), ev.deep(st, V(ev, st, a[1]))
        if ne and c['types'][0][0] == 'adt':
            b = ev.find_impl('core::cmp::PartialEq', 'eq', c['types'][0], None)
            if b is not None and not b.derived:
                return Not(ev.inline(st, b, a, {}, 1))
        r = eqv(ev, x, y, c['types'][0])
    return Not(r) if ne else r


def isnum(ty):
    while ty is not None and ty[0] in ('ref', 'ptr'):
        ty = ty[1]
    return ty


def cmpop(op):
    def m(ev, st, a, c):
        ty = isnum(c['types'][0])
        x, y = V(ev, st, a[0]), V(ev, st, a[1])
        if ty[0] == 'float':
            return fcmp(op, x, y)
        if ty[0] in ('int', 'uint', 'char'):
            return ev.icmp(op.capitalize(), x, y)
        if ty[0] == 'adt' and ty[1] in ('log::Level', 'log::LevelFilter'):
            return FALSE
        return ev.opaque(st, c, a)
    return m


for _o in ('lt', 'le', 'gt', 'ge'):
    M['std::cmp::PartialOrd::' + _o] = cmpop(_o)


@model('std::cmp::Ord::cmp', 'std::cmp::PartialOrd::partial_cmp')
def _(ev, st, a, c):
    if c['body'] is not None:
        return ev.inline(st, c['body'], a, {}, 1)
    ty = isnum(c['types'][0])
    x, y = V(ev, st, a[0]), V(ev, st, a[1])
    part = c['name'].endswith('partial_cmp')
    if ty[0] in ('int', 'uint', 'char'):
        r = ite(lt(x, y), adt(ORD, 0), ite(eqi(x, y), adt(ORD, 1), adt(ORD, 2)))
        return lift1(Some, r) if part else r
    if ty[0] == 'float' and part:
        return ite(fcmp('lt', x, y), Some(adt(ORD, 0)), ite(fcmp('eq', x, y), Some(adt(ORD, 1)), ite(fcmp('gt', x, y), Some(adt(ORD, 2)), NONE)))
    return ev.opaque(st, c, a)


@model('std::cmp::Ord::max', 'std::cmp::max')
def _(ev, st, a, c):
    if isnum(c['types'][0])[0] not in ('int', 'uint'):
        return ev.opaque(st, c, a)
    return imax(V(ev, st, a[0]), V(ev, st, a[1]))


@model('std::cmp::Ord::min', 'std::cmp::min')
def _(ev, st, a, c):
    if isnum(c['types'][0])[0] not in ('int', 'uint'):
        return ev.opaque(st, c, a)
    return imin(V(ev, st, a[0]), V(ev, st, a[1]))


@model('std::cmp::Ord::clamp')
def _(ev, st, a, c):
    if isnum(c['types'][0])[0] not in ('int', 'uint'):
        return ev.opaque(st, c, a)
    ev.demand(st, le(a[1], a[2]), 'required')
    return imin(imax(a[0], a[1]), a[2])


# ------------------------------------------------------------------ arithmetic traits and methods
def arith(op):
    def m(ev, st, a, c):
        ty = isnum(c['types'][0])
        x, y = V(ev, st, a[0]), V(ev, st, a[1])
        if ty[0] in ('int', 'uint', 'float'):
            return ev.binop(op, x, y, ty)
        if c['body'] is not None:
            return ev.inline(st, c['body'], a, {}, 1)
        return ev.opaque(st, c, a)
    return m


def arith_assign(op):
    def m(ev, st, a, c):
        ty = isnum(c['types'][0])
        x, y = V(ev, st, a[0]), V(ev, st, a[1])
        if ty[0] in ('int', 'uint', 'float'):
            ev.write(st, a[0], ev.binop(op, x, y, ty))
            return UNIT
        if c['body'] is not None:
            return ev.inline(st, c['body'], a, {}, 1)
        return ev.opaque(st, c, a)
    return m


for _o in ('Add', 'Sub', 'Mul', 'Div', 'Rem', 'BitAnd', 'BitOr', 'BitXor', 'Shl', 'Shr'):
    _m = {'BitAnd': 'bitand', 'BitOr': 'bitor', 'BitXor': 'bitxor'}.get(_o, _o.lower())
    M['std::ops::%s::%s' % (_o, _m)] = arith(_o)
    M['std::ops::%sAssign::%s_assign' % (_o, _m)] = arith_assign(_o)


@model('std::ops::Neg::neg')
def _(ev, st, a, c):
    ty = isnum(c['types'][0])
    x = V(ev, st, a[0])
    return fneg(x) if ty[0] == 'float' else scale(x, -1)


@model('std::ops::Not::not')
def _(ev, st, a, c):
    ty = isnum(c['types'][0])
    if ty == ('bool',):
        return Not(ev.asbool(V(ev, st, a[0])))
    return ev.opaque(st, c, a)


def inty(c):
    return isnum(c['argtys'][0]) if c.get('argtys') and c['argtys'][0] else None


@model('core::num::pow')
def _(ev, st, a, c):
    def f(x, n):
        if x.op == 'i' and n.op == 'i' and 0 <= n.a[0] < 64:
            return I(x.a[0] ** n.a[0])
        if n.op == 'i' and 0 <= n.a[0] <= 4:
            r = I(1)
            for _ in range(n.a[0]):
                r = mul(r, x)
            return r
        return mk('pow', x, n)
    return lift(f, a[0], a[1])


@model('core::num::saturating_add', 'core::num::saturating_sub', 'core::num::saturating_mul')
def _(ev, st, a, c):
    ty = inty(c) or c['retty']
    lo, hi = t.RANGES[ty[1]]
    op = c['name'].split('_')[-1]
    v = {'add': add, 'sub': sub, 'mul': mul}[op](a[0], a[1])
    if op == 'sub' and lo == 0:
        return max0(v)
    if op == 'add' and lo == 0:
        return imin(v, I(hi))
    return imin(imax(v, I(lo)), I(hi))


@model('core::num::wrapping_add', 'core::num::wrapping_sub', 'core::num::wrapping_mul')
def _(ev, st, a, c):
    ty = inty(c) or c['retty']
    op = c['name'].split('_')[-1]
    v = {'add': add, 'sub': sub, 'mul': mul}[op](a[0], a[1])
    return lift1(lambda v: icast(v, 'i128', ty[1]) if v.op == 'i' else mk('wrap', ty[1], v), v)


@model('core::num::checked_add', 'core::num::checked_sub', 'core::num::checked_mul', 'core::num::checked_div', 'core::num::checked_rem')
def _(ev, st, a, c):
    ty = inty(c)
    op = c['name'].split('_')[-1]
    lo, hi = t.RANGES[ty[1]]
    if op in ('div', 'rem'):
        return ite(eqi(a[1], I(0)), NONE, Some({'div': divi, 'rem': remi}[op](a[0], a[1])))
    v = {'add': add, 'sub': sub, 'mul': mul}[op](a[0], a[1])
    if op == 'sub' and lo == 0:
        return ite(ge0(v), Some(v), NONE)
    return ite(And(le(I(lo), v), le(v, I(hi))), Some(v), NONE)


@model('core::num::abs')
def _(ev, st, a, c):
    x = a[0]
    return ite(ge0(x), x, scale(x, -1))


@model('core::num::abs_diff')
def _(ev, st, a, c):
    return ite(le(a[1], a[0]), sub(a[0], a[1]), sub(a[1], a[0]))


@model('core::num::div_ceil')
def _(ev, st, a, c):
    return cdiv(a[0], a[1])


@model('core::num::rem_euclid', 'core::num::div_euclid')
def _(ev, st, a, c):
    ty = inty(c)
    if ty and ty[0] == 'uint':
        return remi(a[0], a[1]) if 'rem' in c['name'] else divi(a[0], a[1])
    return ev.opaque(st, c, a)


@model('core::num::is_multiple_of')
def _(ev, st, a, c):
    return eqi(remi(a[0], a[1]), I(0))


@model('core::num::to_le_bytes', 'core::num::to_be_bytes', 'core::num::to_ne_bytes', 'core::f64::to_le_bytes', 'core::f64::to_be_bytes')
def _(ev, st, a, c):
    n = c['retty'][2]
    ix = list(range(n))
    if 'be' in c['name'].split('::')[-1].split('_'):
        ix.reverse()
    bs = lambda x: cat(*[one(I((x.a[0] >> (8 * i)) & 255) if x.op == 'i' else nonneg(mk('byte', x, i))) for i in ix])
    return lift1(bs, a[0])


@model('core::num::from_le_bytes', 'core::num::from_be_bytes', 'core::num::from_ne_bytes', 'core::f64::from_le_bytes', 'core::f64::from_be_bytes')
def _(ev, st, a, c):
    s = V(ev, st, a[0])
    ty = c['retty']
    w = {'8': 1, '16': 2, '32': 4, '64': 8}[ty[1][1:] if ty[1] not in ('usize', 'isize') else '64']

    def f(s):
        bs = [elem(s, I(i)) for i in range(w)]
        if 'be' in c['name'].split('::')[-1].split('_'):
            bs.reverse()
        if all(b.op == 'byte' for b in bs) and all(b.a[0] is bs[0].a[0] and b.a[1] == i for i, b in enumerate(bs)):
            return bs[0].a[0]
        if all(b.op == 'i' for b in bs) and ty[0] == 'uint':
            return I(sum(b.a[0] << (8 * i) for i, b in enumerate(bs)))
        return mark(mk('le', ty[1], *bs), ty)
    return lift1(f, s)


@model('core::num::is_power_of_two')
def _(ev, st, a, c):
    return lift1(lambda x: mk('ispow2', x, b=True), a[0])


@model('core::f64::is_nan', 'core::f32::is_nan')
def _(ev, st, a, c):
    return isnan(V(ev, st, a[0]))


def isinf(x):
    return lift1(lambda x: fcmp('eq', fabs(x), F(float('inf'))), x)


@model('core::f64::is_infinite', 'core::f32::is_infinite')
def _(ev, st, a, c):
    return isinf(V(ev, st, a[0]))


@model('core::f64::is_finite', 'core::f32::is_finite')
def _(ev, st, a, c):
    x = V(ev, st, a[0])
    return And(Not(isnan(x)), Not(isinf(x)))


@model('core::f64::abs', 'std::f64::abs', 'core::f32::abs', 'std::f32::abs')
def _(ev, st, a, c):
    return fabs(V(ev, st, a[0]))


@model('std::f64::trunc', 'std::f64::fract', 'std::f64::round', 'std::f64::floor', 'std::f64::ceil', 'std::f64::sqrt',
       'core::f64::trunc', 'core::f64::fract', 'core::f64::round', 'core::f64::floor', 'core::f64::ceil')
def _(ev, st, a, c):
    op = 'f' + c['name'].split('::')[-1]

    def f(x):
        if op == 'ffract':
            return fbin('fsub', x, t.fwhole('ftrunc', x))
        if op == 'fsqrt':
            return mk(op, x)
        return t.fwhole(op, x)
    return lift1(f, V(ev, st, a[0]))


@model('std::f64::powi', 'core::f64::powi')
def _(ev, st, a, c):
    def f(x, n):
        if n.op == 'i' and n.a[0] == 2:
            return fbin('fmul', x, x)
        return mk('powi', x, n)
    return lift(f, V(ev, st, a[0]), a[1])


@model('core::f64::max', 'core::f64::min', 'std::f64::max', 'std::f64::min')
def _(ev, st, a, c):
    x, y = V(ev, st, a[0]), V(ev, st, a[1])
    op = c['name'].split('::')[-1]

    def f(x, y):
        if y.id < x.id:
            x, y = y, x
        return mk('f' + op, x, y)
    return lift(f, x, y)


@model('core::f64::to_bits')
def _(ev, st, a, c):
    return lift1(lambda x: x.a[0] if x.op == 'fbits' else nonneg(mk('bits', x)), V(ev, st, a[0]))


@model('core::f64::from_bits')
def _(ev, st, a, c):
    return lift1(lambda x: x.a[0] if x.op == 'bits' else mk('fbits', x), a[0])


# ------------------------------------------------------------------ Option / Result / ?
@model('std::ops::Try::branch')
def _(ev, st, a, c):
    ty = c['types'][0]
    x = a[0]
    if ty[1] == OPT:
        return case(x, 2, lambda i: adt(CF, 1, NONE) if i == 0 else adt(CF, 0, fld(x, 1, 0)))
    return case(x, 2, lambda i: adt(CF, 0, fldt(ev, x, 0, ty)) if i == 0 else adt(CF, 1, Err(fldt(ev, x, 1, ty))))


def fldt(ev, x, v, ty):
    r = fld(x, v, 0)
    if ty[0] == 'adt' and len(ty[2]) > v:
        mark(r, ty[2][v])
    return r


@model('std::ops::FromResidual::from_residual')
def _(ev, st, a, c):
    if c['types'][0][1] == OPT:
        return NONE
    return a[0]


@model('std::ops::Try::from_output')
def _(ev, st, a, c):
    return Some(a[0]) if c['types'][0][1] == OPT else Ok(a[0])


def unwrap(which):
    def m(ev, st, a, c):
        x = V(ev, st, a[0])
        i = 1 if which == OPT else 0
        if not require(ev, st, variant_is(x, 2, i)):
            return BOT
        x = t.restrict(x, st.ctx)
        r = fld(x, i, 0)
        if c.get('retty') is not None:
            for l in leaves(r):
                mark(l, c['retty'])
        return r
    return m


for _n in ('unwrap', 'expect'):
    M['std::option::Option::' + _n] = unwrap(OPT)
    M['std::result::Result::' + _n] = unwrap(RES)


@model('std::result::Result::unwrap_err', 'std::result::Result::expect_err')
def _(ev, st, a, c):
    x = V(ev, st, a[0])
    if not require(ev, st, variant_is(x, 2, 1)):
        return BOT
    return fld(x, 1, 0)


@model('std::option::Option::is_some', 'std::result::Result::is_err')
def _(ev, st, a, c):
    return variant_is(V(ev, st, a[0]), 2, 1)


@model('std::option::Option::is_none', 'std::result::Result::is_ok')
def _(ev, st, a, c):
    return variant_is(V(ev, st, a[0]), 2, 0)


def payload(c):
    """variant that carries the success payload"""
    return 1 if '::Option::' in c['name'] else 0


@model('std::option::Option::unwrap_or', 'std::result::Result::unwrap_or')
def _(ev, st, a, c):
    x = a[0]
    p = payload(c)
    return case(x, 2, lambda i: fld(x, p, 0) if i == p else a[1])


@model('std::option::Option::unwrap_or_default', 'std::result::Result::unwrap_or_default')
def _(ev, st, a, c):
    x = a[0]
    p = payload(c)
    return cases(ev, st, x, 2, lambda s, i: fld(x, p, 0) if i == p else default(ev, s, c['types'][0]))


@model('std::option::Option::unwrap_or_else', 'std::result::Result::unwrap_or_else')
def _(ev, st, a, c):
    x = a[0]
    p = payload(c)
    return cases(ev, st, x, 2, lambda s, i: fld(x, p, 0) if i == p else ev.apply(s, a[1], [] if p else [fld(x, 1, 0)]))


def rewrap(c, v):
    return Some(v) if payload(c) else Ok(v)


@model('std::option::Option::map', 'std::result::Result::map')
def _(ev, st, a, c):
    x = a[0]
    p = payload(c)

    def f(s, i):
        if i == p:
            v = ev.apply(s, a[1], [fld(x, p, 0)])
            return None if v is None or v is BOT else rewrap(c, v)
        return NONE if p else Err(fld(x, 1, 0))
    return cases(ev, st, x, 2, f)


@model('std::option::Option::and_then', 'std::result::Result::and_then')
def _(ev, st, a, c):
    x = a[0]
    p = payload(c)
    return cases(ev, st, x, 2, lambda s, i: ev.apply(s, a[1], [fld(x, p, 0)]) if i == p else (NONE if p else Err(fld(x, 1, 0))))


@model('std::option::Option::map_or', 'std::result::Result::map_or')
def _(ev, st, a, c):
    x = a[0]
    p = payload(c)
    return cases(ev, st, x, 2, lambda s, i: ev.apply(s, a[2], [fld(x, p, 0)]) if i == p else a[1])


@model('std::option::Option::map_or_else', 'std::result::Result::map_or_else')
def _(ev, st, a, c):
    x = a[0]
    p = payload(c)
    return cases(ev, st, x, 2, lambda s, i: ev.apply(s, a[2], [fld(x, p, 0)]) if i == p else ev.apply(s, a[1], [] if p else [fld(x, 1, 0)]))


@model('std::option::Option::is_some_and', 'std::result::Result::is_ok_and')
def _(ev, st, a, c):
    x = a[0]
    p = payload(c)
    return cases(ev, st, x, 2, lambda s, i: ev.apply(s, a[1], [fld(x, p, 0)]) if i == p else FALSE)


@model('std::option::Option::is_none_or')
def _(ev, st, a, c):
    x = a[0]
    return cases(ev, st, x, 2, lambda s, i: ev.apply(s, a[1], [fld(x, 1, 0)]) if i == 1 else TRUE)


@model('std::result::Result::map_err')
def _(ev, st, a, c):
    x = a[0]

    def f(s, i):
        if i == 0:
            return Ok(fldt(ev, x, 0, c['argtys'][0]) if c.get('argtys') and c['argtys'][0] else fld(x, 0, 0))
        v = ev.apply(s, a[1], [fld(x, 1, 0)])
        return None if v is None or v is BOT else Err(v)
    return cases(ev, st, x, 2, f)


@model('std::option::Option::ok_or')
def _(ev, st, a, c):
    x = a[0]
    return case(x, 2, lambda i: Err(a[1]) if i == 0 else Ok(fld(x, 1, 0)))


@model('std::option::Option::ok_or_else')
def _(ev, st, a, c):
    x = a[0]

    def f(s, i):
        if i == 1:
            return Ok(fld(x, 1, 0))
        v = ev.apply(s, a[1], [])
        return None if v is None or v is BOT else Err(v)
    return cases(ev, st, x, 2, f)


@model('std::result::Result::ok')
def _(ev, st, a, c):
    x = a[0]
    return case(x, 2, lambda i: Some(fld(x, 0, 0)) if i == 0 else NONE)


@model('std::result::Result::err')
def _(ev, st, a, c):
    x = a[0]
    return case(x, 2, lambda i: Some(fld(x, 1, 0)) if i == 1 else NONE)


@model('std::option::Option::or')
def _(ev, st, a, c):
    x = a[0]
    return case(x, 2, lambda i: a[1] if i == 0 else x)


@model('std::option::Option::or_else')
def _(ev, st, a, c):
    x = a[0]
    return cases(ev, st, x, 2, lambda s, i: ev.apply(s, a[1], []) if i == 0 else x)


@model('std::option::Option::filter')
def _(ev, st, a, c):
    x = a[0]

    def f(s, i):
        if i == 0:
            return NONE
        return ite(ev.asbool(ev.apply(s, a[1], [fld(x, 1, 0)])), Some(fld(x, 1, 0)), NONE)
    return cases(ev, st, x, 2, f)


@model('std::option::Option::as_ref', 'std::option::Option::copied', 'std::option::Option::cloned', 'std::option::Option::as_deref',
       'std::result::Result::as_ref', 'std::result::Result::copied', 'std::result::Result::cloned')
def _(ev, st, a, c):
    return V(ev, st, a[0])


@model('std::option::Option::as_mut')
def _(ev, st, a, c):
    p = a[0]
    if p.op != 'ptr':
        raise ip.Unsupported('as_mut through a value')
    x = V(ev, st, p)
    return case(x, 2, lambda i: NONE if i == 0 else Some(mk('ptr', *(p.a + (ip.pf(1, 0),)))))


@model('std::option::Option::take')
def _(ev, st, a, c):
    x = V(ev, st, a[0])
    ev.write(st, a[0], NONE)
    return x


@model('core::ops::RangeInclusive::new', 'std::ops::RangeInclusive::new')
def _(ev, st, a, c):
    return mk('adt', RANGEI, 0, a[0], a[1], FALSE)


@model('core::ops::Range::contains', 'core::ops::RangeInclusive::contains', 'std::ops::Range::contains', 'std::ops::RangeInclusive::contains')
def _(ev, st, a, c):
    r, x = V(ev, st, a[0]), V(ev, st, a[1])
    ty = isnum(c['types'][0])

    def f(r):
        if r.op != 'adt':
            raise ip.Unsupported('opaque range')
        if ty[0] == 'float':
            return And(fcmp('le', r.a[2], x), fcmp('le' if r.a[0] == RANGEI else 'lt', x, r.a[3]))
        return And(le(r.a[2], x), le(x, r.a[3]) if r.a[0] == RANGEI else lt(x, r.a[3]))
    return lift1(f, r)


# ------------------------------------------------------------------ logging, formatting, panics
@model('log::max_level')
def _(ev, st, a, c):
    return mk('sym', 'loglevel')


@model('std::io::_print', 'std::io::_eprint', 'log::__private_api::log', 'env_logger::init')
def _(ev, st, a, c):
    return UNIT


@model('core::fmt::rt::Argument::new_display', 'core::fmt::rt::Argument::new_debug')
def _(ev, st, a, c):
    return mk('disp', ev.deep(st, V(ev, st, a[0])))


@model('std::fmt::Arguments::new', 'std::fmt::Arguments::from_str', 'std::fmt::Arguments::new_const', 'std::fmt::Arguments::new_v1')
def _(ev, st, a, c):
    return mk('fmt', *[ev.deep(st, V(ev, st, x)) for x in a])


@model('std::fmt::format')
def _(ev, st, a, c):
    return mk('format', a[0])


@model('core::panicking::panic', 'core::panicking::panic_fmt', 'std::rt::panic_fmt', 'core::panicking::assert_failed', 'std::rt::begin_panic',
       'core::panicking::panic_display', 'std::process::abort', 'core::panicking::todo_default_msg_')
def _(ev, st, a, c):
    st.r[ip.OKR] = FALSE
    return None


@model('std::process::exit')
def _(ev, st, a, c):
    eff(st, 'exit', a[0])
    return None


# ------------------------------------------------------------------ files
def effmodel(name, keep=0):
    """an I/O action: recorded in the trace, its Result is uninterpreted, its handle keeps its identity"""
    def m(ev, st, a, c):
        xs = [ev.deep(st, V(ev, st, x)) for x in a]
        eff(st, name, *xs)
        r = lift(lambda *xs: mk('call', name, ip.tystr(c['retty']) if c.get('retty') else '', *xs), *xs)
        if c.get('retty') is not None:
            mark(r, c['retty'])
        return r
    return m


EFFECTS = {
    'std::fs::write': 'fs_write', 'std::fs::File::create': 'create', 'std::fs::File::create_new': 'create', 'std::fs::remove_file': 'remove',
    'std::fs::rename': 'rename', 'std::fs::copy': 'copy', 'std::fs::remove_dir_all': 'remove', 'std::fs::create_dir': 'mkdir',
    'std::fs::create_dir_all': 'mkdir', 'std::fs::File::set_len': 'set_len', 'std::fs::hard_link': 'link',
    'std::os::unix::fs::FileExt::write_all_at': 'write_all_at', 'std::os::unix::fs::FileExt::write_at': 'write_at',
    'std::io::Write::write_all': 'write_all', 'std::io::Write::write': 'write', 'std::io::Write::flush': 'flush',
    'std::io::Write::write_fmt': 'write_fmt', 'csv::Writer::serialize': 'csv_serialize', 'csv::Writer::flush': 'csv_flush',
    'std::fs::File::sync_all': 'sync',
}
for _k, _v in EFFECTS.items():
    M[_k] = effmodel(_v)
# read-only actions: uninterpreted, not in the trace
for _k in ('std::fs::File::open', 'std::fs::metadata', 'std::fs::read_dir', 'std::fs::read', 'std::fs::read_to_string', 'csv::Writer::from_writer',
           'std::io::BufWriter::new', 'std::io::BufReader::new', 'csv::ReaderBuilder::new'):
    def _ro(ev, st, a, c):
        xs = [ev.deep(st, V(ev, st, x)) for x in a]
        r = lift(lambda *xs: mk('call', c['name'], ip.tystr(c['retty']) if c.get('retty') else '', *xs), *xs)
        if c.get('retty') is not None:
            mark(r, c['retty'])
        return r
    M[_k] = _ro


@model('std::path::PathBuf::set_extension')
def _(ev, st, a, c):
    p = V(ev, st, a[0])
    ext = V(ev, st, a[1])
    ev.write(st, a[0], withext(p, ext))
    return lift1(lambda p: mk('call', 'set_extension_ok', p, b=True), p)


def withext(p, ext):
    return lift(lambda p, e: mk('withext', p.a[0] if p.op == 'withext' else p, e), p, ext)


@model('std::path::Path::with_extension')
def _(ev, st, a, c):
    return withext(V(ev, st, a[0]), V(ev, st, a[1]))


@model('std::path::Path::display')
def _(ev, st, a, c):
    return V(ev, st, a[0])


# ------------------------------------------------------------------ spectral transforms keep the length
@model('rustfft::Fft::process')
def _(ev, st, a, c):
    pl = ev.deep(st, V(ev, st, a[0]))
    s = V(ev, st, a[1])
    ev.write(st, a[1], lift(lambda pl, s: mk('fftp', pl, s), pl, s))
    return UNIT


@model('rustfft::FftPlanner::new')
def _(ev, st, a, c):
    return mk('sym', 'planner')


@model('rustfft::FftPlanner::plan_fft_forward', 'rustfft::FftPlanner::plan_fft_inverse')
def _(ev, st, a, c):
    return lift1(lambda n: mk('plan', c['name'].split('_')[-1], n), a[1])


# ------------------------------------------------------------------ bincode: a payload is the list of encoded items
ENC = 'bincode::enc::Encode'
DEC = 'bincode::de::Decode'
BDEC = 'bincode::de::BorrowDecode'


def isprim(ty):
    return ty[0] in ('int', 'uint', 'float', 'bool', 'char')


def push_item(ev, st, enc, item):
    ev.write(st, enc, cat(V(ev, st, enc), one(item)))


def encode_value(ev, st, v, ty, enc):
    """append the encoding of v; -> Result term"""
    while ty[0] in ('ref', 'ptr'):
        ty = ty[1]
    v = V(ev, st, v)
    if isprim(ty):
        push_item(ev, st, enc, mk('w', ip.tystr(ty), v))
        return Ok(UNIT)
    if ty[0] == 'tuple':
        for i, x in enumerate(ty[1]):
            encode_value(ev, st, fld(v, -1, i), x, enc)
        return Ok(UNIT)
    et = t.elemty(ty)
    if et is not None:
        n = length(v)
        k = fresh('k')
        k.nn = True
        ev.fid += 1
        sub_ = ('C', ev.fid)
        s2 = st.copy()
        s2.r[sub_] = NIL
        x = elem(v, k)
        for l in leaves(x):
            mark(l, et)
        encode_value(ev, s2, x, et, mk('ptr', sub_))
        push_item(ev, st, enc, mk('warr' if ty[0] == 'array' else 'wseq', n, close([k], s2.r[sub_])))
        return Ok(UNIT)
    if ty[0] == 'adt':
        if ty[1] == OPT:
            push_item(ev, st, enc, mk('wopt', v))
            return Ok(UNIT)
        if ty[1].endswith('::String'):
            push_item(ev, st, enc, mk('w', 'str', v))
            return Ok(UNIT)
        if ty[1].endswith('Box') or ty[1].endswith('Arc') or ty[1].endswith('Rc'):
            return encode_value(ev, st, v, ty[2][0], enc)
        b = ev.find_impl(ENC, 'encode', ty, None)
        if b is not None:
            return ev.inline(st, b, [v, enc], {}, 2)
    if ty == ('str',):
        push_item(ev, st, enc, mk('w', 'str', v))
        return Ok(UNIT)
    raise ip.Unsupported('encoding of %s' % ip.tystr(ty))


def decode_value(ev, st, ty, dec, borrow=False):
    """-> Result term"""
    if isprim(ty) or ty[0] in ('array',) or t.elemty(ty) is not None or (ty[0] == 'adt' and (ty[1].endswith('::String') or ty[1] == OPT)):
        d = V(ev, st, dec)

        def pop(d):
            if d.op != 'adt' or d.a[0] != 'DEC':
                raise ip.Unsupported('opaque decoder')
            s, pos = d.a[2], d.a[3]
            n = length(s)
            g = lt(pos, n)
            item = elem(s, pos)

            def f(it):
                if isprim(ty):
                    if it.op == 'w' and it.a[0] == ip.tystr(ty):
                        return Ok(it.a[1])
                elif ty[0] == 'adt' and ty[1].endswith('::String'):
                    if it.op == 'w' and it.a[0] == 'str':
                        return Ok(it.a[1])
                elif ty[0] == 'adt' and ty[1] == OPT:
                    if it.op == 'wopt':
                        return Ok(it.a[0])
                else:
                    if it.op == ('warr' if ty[0] == 'array' else 'wseq'):
                        n, lam = it.a
                        et = t.elemty(ty)
                        k = fresh('k')
                        k.nn = True
                        ev.fid += 1
                        root = ('C', ev.fid)
                        s2 = st.copy()
                        inner = open_(lam, k)
                        s2.r[root] = mk('adt', 'DEC', 0, inner, I(0))
                        r = decode_value(ev, s2, et, mk('ptr', root), borrow)
                        bad = variant_is(r, 2, 1)
                        fin = s2.r[root]
                        left = Not(eqi(fld(fin, 0, 1), length(inner)))
                        bad = Or(bad, left)
                        v = gen(n, close([k], fld(r, 0, 0)))
                        return ite(anyf(n, close([k], bad)), Err(mk('wiremismatch', ip.tystr(ty), it)), Ok(v))
                return Err(mk('wiremismatch', ip.tystr(ty), it))
            return ite(g, lift1(f, item), Err(mk('wiremismatch', 'end', I(0))))
        out = lift1(pop, d)
        ev.write(st, dec, lift1(lambda d: mk('adt', 'DEC', 0, d.a[2], add(d.a[3], I(1))), d))
        return out
    if ty[0] == 'tuple':
        rs = [decode_value(ev, st, x, dec, borrow) for x in ty[1]]
        bad = FALSE
        for r in rs:
            bad = Or(bad, variant_is(r, 2, 1))
        return ite(bad, Err(mk('wiremismatch', 'tuple', I(0))), Ok(tup(*[fld(r, 0, 0) for r in rs])))
    if ty[0] == 'adt':
        if ty[1].endswith('Box') or ty[1].endswith('Arc'):
            return decode_value(ev, st, ty[2][0], dec, borrow)
        b = None
        if borrow:
            b = ev.find_impl(BDEC, 'borrow_decode', ty, None)
        if b is None:
            b = ev.find_impl(DEC, 'decode', ty, None)
        if b is not None:
            return ev.inline(st, b, [dec], {}, 2)
    raise ip.Unsupported('decoding of %s' % ip.tystr(ty))


@model('bincode::Encode::encode', 'bincode::enc::Encode::encode')
def _(ev, st, a, c):
    return encode_value(ev, st, a[0], c['types'][0], a[1])


@model('bincode::Decode::decode', 'bincode::de::Decode::decode')
def _(ev, st, a, c):
    return decode_value(ev, st, c['types'][0], a[0])


@model('bincode::BorrowDecode::borrow_decode', 'bincode::de::BorrowDecode::borrow_decode')
def _(ev, st, a, c):
    return decode_value(ev, st, c['types'][-1] if c['types'][0][0] == 'other' else c['types'][0], a[0], True)


@model('bincode::encode_to_vec')
def _(ev, st, a, c):
    ev.fid += 1
    root = ('C', ev.fid)
    st.r[root] = NIL
    r = encode_value(ev, st, a[0], c['argtys'][0], mk('ptr', root))
    items = st.r.pop(root)
    cfg = V(ev, st, a[1])
    return case(r, 2, lambda i: Ok(lift1(lambda s: mk('bytes', cfg, s), items)) if i == 0 else Err(fld(r, 1, 0)))


@model('bincode::encode_into_std_write')
def _(ev, st, a, c):
    ev.fid += 1
    root = ('C', ev.fid)
    st.r[root] = NIL
    r = encode_value(ev, st, a[0], c['argtys'][0], mk('ptr', root))
    items = st.r.pop(root)
    cfg = V(ev, st, a[2])
    by = lift1(lambda s: mk('bytes', cfg, s), items)
    ev.write(st, a[1], cat(V(ev, st, a[1]), by))
    return case(r, 2, lambda i: Ok(length(by)) if i == 0 else Err(fld(r, 1, 0)))


@model('bincode::decode_from_slice')
def _(ev, st, a, c):
    x = V(ev, st, a[0])
    cfg = V(ev, st, a[1])
    ty = c['retty'][2][0][1][0]       # Result<(T, usize), E>

    def f(x):
        if x.op != 'bytes':
            r = mk('call', 'bincode::decode', ip.tystr(ty), cfg, x)
            v = fld(r, 0, 0)
            mark(v, ty)
            return case(r, 2, lambda i: Ok(tup(v, mk('decoded_len', x))) if i == 0 else Err(fld(r, 1, 0)))
        if x.a[0] is not cfg:
            return Err(mk('wiremismatch', 'config', I(0)))
        ev.fid += 1
        root = ('C', ev.fid)
        st.r[root] = mk('adt', 'DEC', 0, x.a[1], I(0))
        r = decode_value(ev, st, ty, mk('ptr', root))
        fin = st.r.pop(root)
        return case(r, 2, lambda i: Ok(tup(fld(r, 0, 0), length(x))) if i == 0 else Err(fld(r, 1, 0)))
    ls = leaves(x)
    if len(ls) == 1:
        return f(ls[0]) if x.op != 'sw' else lift1(f, x)
    return lift1(f, x)


def lookup(ev, c):
    n = c['name']
    m = M.get(n)
    if m is None:
        return None
    if n in ('bincode::Encode::encode', 'bincode::Decode::decode', 'bincode::BorrowDecode::borrow_decode') and c['body'] is not None:
        return None
    if n == 'std::iter::Iterator::next' and c['body'] is not None:
        return None
    if n == 'std::clone::Clone::clone' and c['body'] is not None and not c['body'].derived:
        return None
    if n in ('std::ops::Deref::deref', 'std::ops::DerefMut::deref_mut', 'std::ops::Index::index', 'std::string::ToString::to_string') and c['body'] is not None:
        return None
    return m


@model('core::bool::then_some')
def _(ev, st, a, c):
    return ite(ev.asbool(a[0]), Some(a[1]), NONE)


@model('core::bool::then')
def _(ev, st, a, c):
    return split(ev, st, ite(ev.asbool(a[0]), mk('leaf', 1), mk('leaf', 0)), lambda s, i: wrap_some(ev.apply(s, a[1], [])) if i else NONE)


def wrap_some(v):
    return None if v is None or v is BOT else Some(v)


# ------------------------------------------------------------------ complex numbers
@model('rustfft::num_complex::Complex::new', 'num_complex::Complex::new')
def _(ev, st, a, c):
    return adt('num_complex::Complex', 0, a[0], a[1])


@model('rustfft::num_complex::Complex::conj', 'num_complex::Complex::conj')
def _(ev, st, a, c):
    x = V(ev, st, a[0])
    return lift1(lambda x: adt('num_complex::Complex', 0, fld(x, -1, 0), fneg(fld(x, -1, 1))), x)
