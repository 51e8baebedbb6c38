"""Value graph: hash-consed terms with gated values (decision diagrams over interpreted conditions),
linear integer normal forms and sequence normal forms.  Every constructor normalises, so that equal
computations written differently meet in one node."""
import math as _math
import struct as _struct
import sys

sys.setrecursionlimit(200000)


class Blowup(Exception):
    pass


class T:
    __slots__ = ('op', 'a', 'id', 'b', 'lv', 'nn', 'fv', 'n', 'fm', 'bm')

    def __repr__(self):
        return show(self)


_tab = {}
_all = []
LIMIT = [4000000]


def mk(op, *a, b=False):
    key = (op,) + a
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.id = len(_all)
        t.b = b
        t.nn = False
        t.n = 0
        lv = 0
        fm = bm = 0
        for x in a:
            if type(x) is T:
                if x.lv > lv:
                    lv = x.lv
                fm |= x.fm
                bm |= x.bm
        if op == 'lam':
            lv = max(lv, a[0])
            bm &= ~(1 << a[0])
        elif op == 'var':
            fm = 1 << (a[0] % 1021)
        elif op == 'bv':
            bm = 1 << a[0]
        t.lv = lv                # highest binder level inside
        t.fm = fm                # free variables (hashed)
        t.bm = bm                # levels of the free bound variables
        t.fv = bool(fm or bm)    # mentions a loop/bound variable
        _tab[key] = t
        _all.append(t)
        if len(_all) > LIMIT[0]:
            raise Blowup('term table limit')
    return t


def nonneg(t):
    t.nn = True
    return t


# ---------------------------------------------------------------- constants
def I(n):
    return mk('i', int(n))


def B(x):
    return TRUE if x else FALSE


TRUE = mk('b', 1)
FALSE = mk('b', 0)
BOT = mk('bot')
UNIT = mk('tup')
NIL = mk('cat')


def F(x, w=64):
    x = float(x)
    return mk('f', _struct.unpack('<Q', _struct.pack('<d', x))[0], w)


def fval(t):
    return _struct.unpack('<d', _struct.pack('<Q', t.a[0]))[0]


def S(s):
    return mk('str', s)


def sym(name, ty=None):
    t = mk('sym', name)
    mark(t, ty)
    return t


TY = {}


def mark(t, ty):
    """Record what the type says about an opaque value."""
    if ty is None:
        return t
    if t.op in ('i', 'b', 'f', 'adt', 'tup', 'sw', 'cat', 'lin', 'ptr', 'clo', 'iter'):
        return t
    if ty == ('bool',):
        t.b = True
    elif ty[0] == 'uint':
        t.nn = True
    if t.id not in TY:
        TY[t.id] = ty
    return t


_fresh = [0]


def fresh(hint='v', ty=None):
    _fresh[0] += 1
    t = mk('var', _fresh[0], hint)
    return mark(t, ty)


# ---------------------------------------------------------------- gates
ARITY = {}      # term id of disc scrutinee -> number of variants


def arity(s):
    if s.op == 'disc':
        return ARITY.get(s.id, s.a[1])
    return 2


def top(v):
    if v.op == 'sw':
        return v.a[0]
    if v.b and v.op != 'b':
        return v
    return None


def cof(v, s, i):
    if v.op == 'sw':
        if v.a[0] is s:
            return v.a[1 + i]
        return v
    if v is s and v.b:
        return TRUE if i else FALSE
    return v


STRUCTS = {}    # adt path -> number of fields, for single variant types


def _node(s, ch):
    nb = [c for c in ch if c is not BOT]
    if not nb:
        return BOT
    f = nb[0]
    if all(c is f for c in nb) and (len(nb) == len(ch) or f.op not in ('adt', 'tup', 'iter', 'clo', 'lcell')):
        return f
    if len(ch) == 2 and ch[0] is FALSE and ch[1] is TRUE:
        return s
    # same constructor: push the gate inside
    ops = set(c.op for c in nb)
    if len(ops) == 1 and f.op in ('adt', 'tup', 'iter', 'clo', 'lcell'):
        hd = _head(f)
        if all(_head(c) == hd for c in nb):
            k = len(f.a) - len(hd) + 1
            off = len(f.a) - k
            fs = []
            for j in range(k):
                fs.append(switch(s, tuple(BOT if c is BOT else c.a[off + j] for c in ch)))
            return rebuild_head(f, fs)
    elif 'adt' in ops:
        p = None
        for c in nb:
            if c.op == 'adt' and c.a[0] in STRUCTS:
                p = c.a[0]
        if p is not None and all(c.op in ('adt', 'sym', 'fld', 'var', 'bv', 'call', 'elem', 'out') for c in nb):
            n = STRUCTS[p]
            return _node(s, tuple(c if c is BOT or c.op == 'adt' else expand(c, p) for c in ch))
    # eta: every branch is x seen under its own variant
    if s.op == 'disc':
        x = s.a[0]
        ok = True
        for i, c in enumerate(ch):
            if c is BOT or c is x:
                continue
            if c.op == 'adt' and c.a[1] == i and all(
                    a.op == 'fld' and a.a[0] is x and a.a[1] == i and a.a[2] == j for j, a in enumerate(c.a[2:])):
                continue
            ok = False
            break
        if ok:
            return x
    return mk('sw', s, *ch)


def _head(f):
    if f.op == 'adt':
        return ('adt', f.a[0], f.a[1], len(f.a)) if False else ('adt', f.a[0], f.a[1])
    if f.op == 'tup':
        return ('tup',) if len(f.a) == 0 else ('tup',)
    if f.op == 'clo':
        return ('clo', f.a[0])
    if f.op == 'iter':
        return ('iter',)
    if f.op == 'lcell':
        return ('lcell',)
    return None


def rebuild_head(f, fs):
    if f.op == 'adt':
        return adt(f.a[0], f.a[1], *fs)
    if f.op == 'tup':
        return tup(*fs)
    if f.op == 'clo':
        return mk('clo', f.a[0], *fs)
    if f.op == 'iter':
        return mk('iter', *fs)
    return mk(f.op, *fs)


def expand(x, p):
    return mk('adt', p, 0, *[fld(x, 0, i) for i in range(STRUCTS[p])])


_swmemo = {}


def switch(s, ch):
    """Value selected by the (atomic) scrutinee s."""
    ch = tuple(ch)
    f = ch[0]
    if all(c is f for c in ch):
        return f
    key = (s, ch)
    r = _swmemo.get(key)
    if r is not None:
        return r
    m = s
    for c in ch:
        t = top(c)
        if t is not None and t.id < m.id:
            m = t
    if m is s:
        r = _node(s, tuple(cof(c, s, i) for i, c in enumerate(ch)))
    else:
        n = arity(m)
        r = _node(m, tuple(switch(s, tuple(cof(c, m, i) for c in ch)) for i in range(n)))
    _swmemo[key] = r
    return r


_itememo = {}


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if c is BOT:
        return BOT
    if a is b:
        return a
    if c.op != 'sw':
        return switch(c, (b, a))
    key = (c, a, b)
    r = _itememo.get(key)
    if r is None:
        s = c.a[0]
        r = switch(s, tuple(ite(x, cof(a, s, i), cof(b, s, i)) for i, x in enumerate(c.a[1:])))
        _itememo[key] = r
    return r


def And(*xs):
    r = TRUE
    for x in xs:
        r = ite(r, x, FALSE)
    return r


def Or(*xs):
    r = FALSE
    for x in xs:
        r = ite(r, TRUE, x)
    return r


def Not(x):
    return ite(x, FALSE, TRUE)


def Implies(a, b):
    return ite(a, b, TRUE)


# while panics are looked for: the gates above what is being evaluated
GATES = None


def _below(s, i, go, x):
    if GATES is None:
        return go(x)
    GATES.append((s, i))
    try:
        return go(x)
    finally:
        GATES.pop()


def lift(f, *vs):
    """Apply f below the gates of its arguments."""
    memo = {}

    def go(vs):
        s = None
        for v in vs:
            if v.op == 'sw' and (s is None or v.a[0].id < s.id):
                s = v.a[0]
        if s is None:
            for v in vs:
                if v is BOT:
                    return BOT
            return f(*vs)
        r = memo.get(vs)
        if r is None:
            r = switch(s, tuple(_below(s, i, go, tuple(cof(v, s, i) if v.op == 'sw' else v for v in vs)) for i in range(arity(s))))
            memo[vs] = r
        return r
    return go(vs)


def lift1(f, v):
    memo = {}

    def go(v):
        if v.op == 'sw':
            r = memo.get(v)
            if r is None:
                r = switch(v.a[0], tuple(_below(v.a[0], i, go, c) for i, c in enumerate(v.a[1:])))
                memo[v] = r
            return r
        if v is BOT:
            return BOT
        return f(v)
    return go(v)


def nleaves(v, cap=1000):
    seen = {}

    def go(v):
        if v.op != 'sw':
            return 1
        r = seen.get(v)
        if r is None:
            r = min(cap, sum(go(c) for c in v.a[1:]))
            seen[v] = r
        return r
    return go(v)


def liftn(f, *vs, cap=24):
    """lift unless it would multiply too many alternatives; then build the opaque node directly."""
    tot = 1
    for v in vs:
        if v.op == 'sw':
            tot *= nleaves(v)
    if tot > cap:
        return f(*vs)
    return lift(f, *vs)


def leaves(v):
    out = []
    seen = set()

    def go(v):
        if v in seen:
            return
        seen.add(v)
        if v.op == 'sw':
            for c in v.a[1:]:
                go(c)
        elif v is not BOT:
            out.append(v)
    go(v)
    return out


# ---------------------------------------------------------------- aggregates
def adt(path, variant, *fs):
    if any(f is BOT for f in fs) and fs:
        if all(f is BOT for f in fs):
            return BOT
    # eta for single variant types
    if fs and path in STRUCTS and fs[0].op == 'fld':
        x = fs[0].a[0]
        if all(f.op == 'fld' and f.a[0] is x and f.a[1] == 0 and f.a[2] == i for i, f in enumerate(fs)) and len(fs) == STRUCTS[path]:
            return x
    return mk('adt', path, variant, *fs)


def tup(*fs):
    if fs and fs[0].op == 'fld' and fs[0].a[1] == -1:
        x = fs[0].a[0]
        if all(f.op == 'fld' and f.a[0] is x and f.a[1] == -1 and f.a[2] == i for i, f in enumerate(fs)) and TUPN.get(x.id) == len(fs):
            return x
    return mk('tup', *fs)


TUPN = {}


def fld(x, variant, i):
    def f(x):
        if x.op == 'adt':
            if x.a[1] != variant and variant >= 0:
                return BOT
            return x.a[2 + i] if 2 + i < len(x.a) else BOT
        if x.op == 'tup':
            return x.a[i]
        if x.op == 'clo':
            return x.a[1 + i]
        return mk('fld', x, variant, i)
    return lift1(f, x)


def disc(x, n):
    """Discriminant of x, a value with n variants, as a variant index (used as a scrutinee)."""
    r = mk('disc', x, n)
    if n == 2:
        r.b = True      # [d ? 0: false | 1: true] is d itself
    return r


def case(x, n, f):
    """Dispatch on the variant of x: f(i) is the value for variant i."""
    memo = {}

    def g(i):
        if i not in memo:
            memo[i] = f(i)
        return memo[i]

    def leaf(v):
        if v.op == 'adt':
            return g(v.a[1])
        return switch(disc(v, n), tuple(g(i) for i in range(n)))
    return lift1(leaf, x)


def variant_is(x, n, i):
    return case(x, n, lambda j: B(i == j))


# ---------------------------------------------------------------- integers
def _lin(t):
    """-> (const, {monomial: coef})"""
    if t.op == 'i':
        return t.a[0], {}
    if t.op == 'lin':
        return t.a[0], dict(t.a[1])
    return 0, {t: 1}


def _mklin(c, m):
    m = {k: v for k, v in m.items() if v}
    if not m:
        return I(c)
    if c == 0 and len(m) == 1:
        (k, v), = m.items()
        if v == 1:
            return k
    items = tuple(sorted(m.items(), key=lambda kv: kv[0].id))
    t = _tab.get(('lin', c, items))
    if t is None:
        t = mk('lin', c, items)
        for k, _ in items:
            t.fm |= k.fm
            t.bm |= k.bm
        t.fv = bool(t.fm or t.bm)
        t.lv = max(k.lv for k, _ in items)
        t.nn = c >= 0 and all(v > 0 and k.nn for k, v in items) or (_quot(m) and _floor0(c, m))
    return t


def _isint(t):
    return t.op not in ('f', 'str', 'adt', 'tup')


def add(a, b):
    def f(a, b):
        c1, m1 = _lin(a)
        c2, m2 = _lin(b)
        for k, v in m2.items():
            m1[k] = m1.get(k, 0) + v
        return _mklin(c1 + c2, m1)
    return lift(f, a, b)


def scale(a, n):
    def f(a):
        c, m = _lin(a)
        return _mklin(c * n, {k: v * n for k, v in m.items()})
    return lift1(f, a)


def sub(a, b):
    return add(a, scale(b, -1))


def mul(a, b):
    def f(a, b):
        if a.op == 'i':
            return scale(b, a.a[0])
        if b.op == 'i':
            return scale(a, b.a[0])
        c1, m1 = _lin(a)
        c2, m2 = _lin(b)
        r = {}

        def put(k, v):
            r[k] = r.get(k, 0) + v
        for k, v in m1.items():
            if c2:
                put(k, v * c2)
            for k2, v2 in m2.items():
                put(_mono(k, k2), v * v2)
        for k2, v2 in m2.items():
            if c1:
                put(k2, v2 * c1)
        return _mklin(c1 * c2, r)
    return lift(f, a, b)


def _mono(a, b):
    fa = a.a if a.op == 'mul' else (a,)
    fb = b.a if b.op == 'mul' else (b,)
    t = mk('mul', *sorted(fa + fb, key=lambda x: x.id))
    t.nn = all(x.nn for x in t.a)
    return t


def shape(t):
    """lin term -> (shape without constant in canonical sign, sign, const)"""
    c, m = _lin(t)
    items = tuple(sorted(m.items(), key=lambda kv: kv[0].id))
    sg = 1
    if items and items[0][1] < 0:
        sg = -1
        items = tuple((k, -v) for k, v in items)
    return items, sg, c


def _floor0(c, m):
    """c + m is >= 0 because quotients and remainders are bounded by their operands"""
    k_ = 1
    for _ in range(4):
        neg = [k for k, v in m.items() if v < 0 and k.op in ('div', 'rem') and k.a[1].op == 'i' and k.a[1].a[0] >= 2 and k.a[0].nn]
        if not neg:
            break
        d = neg[0]
        w, q = -m[d], d.a[1].a[0]
        m = {k: v for k, v in m.items() if k is not d}
        if d.op == 'rem':
            c -= w * (q - 1)
            continue
        c2, m2 = _lin(d.a[0])
        c, k_ = c * q - w * c2, k_ * q
        m = {k: v * q for k, v in m.items()}
        for k, v in m2.items():
            m[k] = m.get(k, 0) - w * v
        m = {k: v for k, v in m.items() if v}
    return c > -k_ and all(k.nn and v > 0 for k, v in m.items())


def _quot(m):
    return any(k.op in ('div', 'rem') for k in m)


def _bounds0(items):
    lo = hi = None
    if all(k.nn and v > 0 for k, v in items):
        lo = 0
    if all(k.nn and v < 0 for k, v in items):
        hi = 0
    return lo, hi


def ge0(t):
    """t >= 0"""
    def f(t):
        if t.op == 'i':
            return B(t.a[0] >= 0)
        from math import gcd
        c, m = _lin(t)
        g = 0
        for v in m.values():
            g = gcd(g, abs(v))
        if g > 1:
            m = {k: v // g for k, v in m.items()}
            c = c // g          # floor
        items = tuple(sorted(m.items(), key=lambda kv: kv[0].id))
        lo, hi = _bounds0(items)
        if lo is not None and lo + c >= 0:
            return TRUE
        if hi is not None and hi + c < 0:
            return FALSE
        if _quot(m):
            if _floor0(c, m):
                return TRUE
            if _floor0(-c - 1, {k: -v for k, v in m.items()}):
                return FALSE
        neg = items[0][1] < 0
        if neg:
            # not(-t-1 >= 0)
            s = mk('ge0', _mklin(-c - 1, {k: -v for k, v in m.items()}), b=True)
            return mk('sw', s, TRUE, FALSE)
        return mk('ge0', _mklin(c, m), b=True)
    return lift1(f, t)


def le(a, b):
    return ge0(sub(b, a))


def lt(a, b):
    return ge0(add(sub(b, a), I(-1)))


def eq0(t):
    def f(t):
        if t.op == 'i':
            return B(t.a[0] == 0)
        from math import gcd
        c, m = _lin(t)
        g = 0
        for v in m.values():
            g = gcd(g, abs(v))
        if g > 1:
            if c % g:
                return FALSE
            m = {k: v // g for k, v in m.items()}
            c //= g
        items = tuple(sorted(m.items(), key=lambda kv: kv[0].id))
        lo, hi = _bounds0(items)
        if lo is not None and lo + c > 0:
            return FALSE
        if hi is not None and hi + c < 0:
            return FALSE
        if items[0][1] < 0:
            c = -c
            m = {k: -v for k, v in m.items()}
        return mk('eq0', _mklin(c, m), b=True)
    return lift1(f, t)


def eqi(a, b):
    return eq0(sub(a, b))


def max0(x):
    def f(x):
        if x.op == 'i':
            return I(max(0, x.a[0]))
        if x.nn:
            return x
        t = mk('max0', x)
        t.nn = True
        return t
    return lift1(f, x)


def imin(a, b):
    return ite(le(a, b), a, b)


def imax(a, b):
    return ite(le(a, b), b, a)


def _exact(a, b):
    """a / b when b is a constant or a single factor of every monomial of a (the divisor is not 0: that is checked before)"""
    c, m = _lin(a)
    if b.op == 'i':
        n = b.a[0]
        if n == 0 or c % n or any(v % n for v in m.values()):
            return None
        return _mklin(c // n, {k: v // n for k, v in m.items()})
    if c or b.op in ('lin', 'mul'):
        return None
    r = I(0)
    for k, v in m.items():
        if k is b:
            r = add(r, I(v))
        elif k.op == 'mul' and b in k.a:
            fs = list(k.a)
            fs.remove(b)
            r = add(r, scale(_mulall(fs), v))
        else:
            return None
    return r


def divi(a, b):
    """truncated division (operands assumed not both signed-negative corner)"""
    def f(a, b):
        if b.op == 'i' and b.a[0] == 1:
            return a
        if a.op == 'i' and b.op == 'i' and b.a[0] != 0:
            q = abs(a.a[0]) // abs(b.a[0])
            return I(q if (a.a[0] >= 0) == (b.a[0] >= 0) else -q)
        if a.op == 'i' and a.a[0] == 0:
            return a
        q = _exact(a, b)
        if q is not None:
            return q
        q = _divparts(a, b)
        if q is not None:
            return q[0]
        x = _whole(a, b)
        if x is not None:
            return divi(x, b)
        t = mk('div', a, b)
        t.nn = a.nn and (b.nn or (b.op == 'i' and b.a[0] > 0)) or (a.op == 'i' and a.a[0] >= 0 and b.nn)
        return t
    return lift(f, a, b)


def remi(a, b):
    def f(a, b):
        if a.op == 'i' and b.op == 'i' and b.a[0] != 0:
            r = abs(a.a[0]) % abs(b.a[0])
            return I(r if a.a[0] >= 0 else -r)
        if b.op == 'i' and b.a[0] == 1:
            return I(0)
        q = _divparts(a, b)
        if q is not None:
            return q[1]
        t = mk('rem', a, b)
        t.nn = a.nn
        return t
    return lift(f, a, b)


RANGES = {'u8': (0, 255), 'i8': (-128, 127), 'u16': (0, 65535), 'i16': (-32768, 32767),
          'u32': (0, 2**32 - 1), 'i32': (-2**31, 2**31 - 1), 'u64': (0, 2**64 - 1), 'i64': (-2**63, 2**63 - 1),
          'usize': (0, 2**64 - 1), 'isize': (-2**63, 2**63 - 1), 'u128': (0, 2**128 - 1), 'i128': (-2**127, 2**127 - 1)}


def icast(x, fr, to):
    """integer `as` cast"""
    lo, hi = RANGES[to]
    flo, fhi = RANGES[fr] if fr in RANGES else (None, None)

    def f(x):
        if x.op == 'i':
            v = x.a[0]
            n = hi - lo + 1
            return I((v - lo) % n + lo)
        if flo is not None and lo <= flo and fhi <= hi:
            return x
        if x.op == 'i2b':
            return x
        t = mk('icast', to, x)
        t.nn = to[0] == 'u'
        return t
    return lift1(f, x)


# ---------------------------------------------------------------- floats
def f2i(x, to):
    def f(x):
        if x.op == 'f':
            v = fval(x)
            lo, hi = RANGES[to]
            if v != v:
                return I(0)
            return I(int(max(lo, min(hi, v))) if abs(v) != float('inf') else (hi if v > 0 else lo))
        t = mk('f2i', to, x)
        t.nn = to[0] == 'u'
        return t
    return lift1(f, x)


# sequences of floats whose elements are assumed to fit every integer type they are written as (discharged elsewhere)
WIDEN = set()
# opaque sequences -> the sequence that each of their elements is taken from
PICKS = {}
# opaque functions -> (symbols for its arguments, length of its result, which of them its elements are taken from)
CALLINFO = {}


def i2f(x, fr, to):
    def f(x):
        if x.op == 'i' and abs(x.a[0]) < 2**24:
            return F(x.a[0], 64 if to == 'f64' else 32)
        if WIDEN and x.op == 'f2i' and to == 'f64' and x.a[1].op == 'elem' and (x.a[1].a[0] in WIDEN or PICKS.get(x.a[1].a[0]) in WIDEN):
            return x.a[1]
        return mk('i2f', to, x)
    return lift1(f, x)


def f2f(x, fr, to):
    if fr == to:
        return x

    def f(x):
        if x.op == 'f' and to == 'f64':
            return F(fval(x), 64)
        if x.op == 'f' and to == 'f32':
            v = fval(x)
            try:
                return F(_struct.unpack('<f', _struct.pack('<f', v))[0], 32)
            except OverflowError:
                return mk('f2f', to, x)
        if to == 'f32' and x.op == 'f2f' and x.a[0] == 'f64':
            return x.a[1]
        return mk('f2f', to, x)
    return lift1(f, x)


def _w(x):
    return x.a[1] if x.op == 'f' else None


def fbin(op, a, b):
    def f(a, b):
        if a.op == 'f' and b.op == 'f' and _w(a) == 64:
            x, y = fval(a), fval(b)
            try:
                if op == 'fadd':
                    return F(x + y)
                if op == 'fsub':
                    return F(x - y)
                if op == 'fmul':
                    return F(x * y)
                if op == 'fdiv' and y != 0:
                    return F(x / y)
            except OverflowError:
                pass
        if a.op == 'f' and b.op == 'f' and _w(a) == 32 and _w(b) == 32:
            # rounding the double result once more gives the single result for these operations
            x, y = fval(a), fval(b)
            try:
                r = x + y if op == 'fadd' else x - y if op == 'fsub' else x * y if op == 'fmul' else x / y if op == 'fdiv' and y != 0 else None
                if r is not None:
                    return F(_struct.unpack('<f', _struct.pack('<f', r))[0], 32)
            except OverflowError:
                pass
        if op in ('fadd', 'fmul') and b.id < a.id:
            a, b = b, a
        return mk(op, a, b)
    return liftn(f, a, b)


def fwhole(op, a):
    """rounding to whole numbers"""
    def f(a):
        if a.op == 'f':
            v = fval(a)
            if v == v and abs(v) < 2.0 ** 52:
                w = _math.trunc(v)
                if op == 'fround' and abs(v - w) >= 0.5:
                    w += 1 if v > 0 else -1
                elif op == 'ffloor':
                    w = _math.floor(v)
                elif op == 'fceil':
                    w = _math.ceil(v)
                return F(_math.copysign(abs(float(w)), v) if w == 0 else float(w), a.a[1])
            return a
        return mk(op, a)
    return lift1(f, a)


def fneg(a):
    return lift1(lambda a: F(-fval(a), a.a[1]) if a.op == 'f' else (a.a[0] if a.op == 'fneg' else mk('fneg', a)), a)


def fabs(a):
    def f(a):
        if a.op == 'f':
            return F(abs(fval(a)), a.a[1])
        if a.op == 'fneg':
            return fabs(a.a[0])
        if a.op == 'fabs':
            return a
        if a.op == 'fsub' and a.a[1].id < a.a[0].id:
            return mk('fabs', mk('fsub', a.a[1], a.a[0]))
        return mk('fabs', a)
    return lift1(f, a)


def fcmp(op, a, b):
    """op in lt le gt ge eq ne"""
    if op == 'gt':
        return fcmp('lt', b, a)
    if op == 'ge':
        return fcmp('le', b, a)
    if op == 'ne':
        return Not(fcmp('eq', a, b))

    def f(a, b):
        if a.op == 'f' and b.op == 'f':
            x, y = fval(a), fval(b)
            return B({'lt': x < y, 'le': x <= y, 'eq': x == y}[op])
        if op == 'lt' and a is b:
            return FALSE
        if a is b and a.op == 'i2f':
            # a number
            return TRUE
        if op == 'eq':
            if b.id < a.id:
                a, b = b, a
            return mk('feq', a, b, b=True)
        return mk('f' + op, a, b, b=True)
    return liftn(f, a, b)


def isnan(x):
    """x is NaN: not (x == x)"""
    return Not(fcmp('eq', x, x))


# ---------------------------------------------------------------- binders
def close(vs, body):
    lv = body.lv + 1
    m = {}
    for i, v in enumerate(vs):
        bv = mk('bv', lv, i)
        bv.b = v.b
        if v.nn:
            bv.nn = True
        m[v] = bv
    return mk('lam', lv, len(vs), subst(body, m))


def open_(lam, *vals):
    lv, n, body = lam.a
    m = {}
    for i in range(n):
        bv = mk('bv', lv, i)
        m[bv] = vals[i]
    return subst(body, m)


class _Sub:
    def __init__(self, m):
        self.m = m
        self.memo = {}
        self.keys = set(m)
        self.onlyvars = all(k.op in ('var', 'bv') for k in m)
        self.fm = self.bm = 0
        for k in m:
            self.fm |= k.fm
            self.bm |= k.bm

    def go(self, t):
        if t in self.m:
            return self.m[t]
        if not t.a or (self.onlyvars and not (t.fm & self.fm or t.bm & self.bm)):
            return t
        r = self.memo.get(t)
        if r is None:
            r = self._go(t)
            self.memo[t] = r
        return r

    def _go(self, t):
        op = t.op
        if op == 'lam':
            lv, n, body = t.a
            fs = []
            m = {}
            for i in range(n):
                bv = mk('bv', lv, i)
                v = fresh('b')
                v.b = bv.b
                v.nn = bv.nn
                fs.append(v)
                m[bv] = v
            opened = subst(body, m)
            nb = _unvsel(self.go(opened))
            if nb is opened:
                return t
            return close(fs, nb)
        if op == 'sw':
            s = t.a[0]
            ns = self.go(s)
            ch = tuple(_unvsel(self.go(c)) for c in t.a[1:])
            if ns is s:
                return switch(s, ch)
            return reswitch(ns, len(ch), ch)
        if op == 'lin':
            r = I(t.a[0])
            for k, v in t.a[1]:
                r = add(r, scale(self.go(k), v))
            return r
        na = tuple(_unvsel(self.go(x)) if type(x) is T else x for x in t.a)
        if all(x is y for x, y in zip(na, t.a)):
            return t
        return build(op, na, t)


def _unvsel(x):
    """a discriminant used as a value"""
    if x.op == 'vsel':
        return B(x.a[0]) if x.a[0] in (0, 1) else I(x.a[0])
    if x.op == 'sw' and any(l.op == 'vsel' for l in x.a[1:]):
        return switch(x.a[0], tuple(_unvsel(c) for c in x.a[1:]))
    return x


def reswitch(ns, n, ch):
    """ns: value of a scrutinee after substitution (bool diagram or variant selector)."""
    if ns.op == 'vsel':
        return ch[ns.a[0]]
    if ns.op == 'sw':
        return switch(ns.a[0], tuple(reswitch(x, n, tuple(cof(c, ns.a[0], i) for c in ch)) for i, x in enumerate(ns.a[1:])))
    if ns is BOT:
        return BOT
    if ns is TRUE:
        return ch[1]
    if ns is FALSE:
        return ch[0]
    if ns.op == 'disc' or ns.b:
        return switch(ns, ch)
    if n == 2:
        ns.b = True
        return switch(ns, ch)
    raise Blowup('bad scrutinee %s' % ns.op)


def subst(t, m):
    return _unvsel(_Sub(m).go(t))


BUILD = {}


def build(op, a, old=None):
    f = BUILD.get(op)
    if f is not None:
        return f(*a)
    if op == 'call':
        info = CALLINFO.get(a[0])
        if info is not None:
            r = mk(op, *a)
            m = dict(zip(info[0], a[2:]))
            if info[1] is not None and r not in LEN:
                LEN[r] = subst(info[1], m)
            if info[2] is not None:
                PICKS[r] = m[info[2]]
    if op == 'fold' and a[2].a[1] == 2 and old is not None and old.a[2] is not a[2]:
        lam = a[2]
        v = mk('bv', lam.a[0], 1)
        if not any(x is v for x in subterms(lam.a[2])):
            # the step forgets the previous value: only the last one counts
            last = open_(lam, add(a[1], I(-1)), a[0])
            return ite(eq0(a[1]), a[0], last)
    r = mk(op, *a)
    if old is not None:
        if old.b:
            r.b = True
        if old.nn:
            r.nn = True
        if old.id in TY and r.id not in TY:
            TY[r.id] = TY[old.id]
        if old.n:
            r.n = old.n
    return r


def _bdisc(x, n):
    def f(x):
        if x.op == 'adt':
            return mk('vsel', x.a[1])
        return disc(x, n)
    if x.op == 'sw':
        return mk('sw', x.a[0], *[_bdisc(c, n) for c in x.a[1:]])
    if x is BOT:
        return BOT
    return f(x)


BUILD.update({
    'adt': lambda p, v, *f: adt(p, v, *f), 'tup': tup, 'fld': fld, 'disc': _bdisc,
    'mul': lambda *x: _mulall(x), 'ge0': ge0, 'eq0': eq0, 'max0': max0, 'div': divi, 'rem': remi,
    'icast': lambda to, x: icast(x, None, to), 'f2i': lambda to, x: f2i(x, to), 'i2f': lambda to, x: i2f(x, None, to),
    'f2f': lambda to, x: f2f(x, None, to),
    'fadd': lambda a, b: fbin('fadd', a, b), 'fsub': lambda a, b: fbin('fsub', a, b),
    'fmul': lambda a, b: fbin('fmul', a, b), 'fdiv': lambda a, b: fbin('fdiv', a, b),
    'fneg': fneg, 'fabs': fabs, 'fbits': lambda *a: a[0].a[0] if len(a) == 1 and type(a[0]) is T and a[0].op == 'bits' else mk('fbits', *a),
    **{o: (lambda a, o=o: fwhole(o, a)) for o in ('fround', 'ftrunc', 'ffloor', 'fceil')},
    'flt': lambda a, b: fcmp('lt', a, b), 'fle': lambda a, b: fcmp('le', a, b), 'feq': lambda a, b: fcmp('eq', a, b),
})


def _steps(x, lab, k):
    """the first k at which (x >= 0) is no longer lab, for x = rest +- step * k; None when it is not of that form"""
    k0, m = _lin(x)
    with_k = [v for v in m if any(y is k for y in subterms(v))]
    if len(with_k) != 1:
        return None
    v = with_k[0]
    c = m.pop(v)
    rest = _mklin(k0, m)
    if v is k:
        step = I(1)
    elif v.op == 'mul' and v.a.count(k) == 1:
        step = _mulall([y for y in v.a if y is not k])
        if any(y is k for y in subterms(step)) or not step.nn:
            return None
    else:
        return None
    step = mul(step, I(abs(c)))
    if lab == 0 and c > 0:          # stops once step * k >= -rest
        return _cd(max0(scale(rest, -1)), step)
    if lab == 1 and c < 0:          # goes on while step * k <= rest
        return _cd(max0(add(rest, I(1))), step)
    return None


def _cd(a, b):
    if b is I(1):
        return a
    r = cdiv(a, b)
    for l in leaves(r):
        if l.op == 'cdiv':
            l.nn = True
    return r


def _trip(l):
    """a loop counter whose continuation condition became a single bound"""
    r = mk('trip', l)
    r.nn = True
    if l.op != 'lam' or l.a[1] != 1:
        return r
    k = fresh('k')
    k.nn = True
    c = open_(l, k)
    if c is FALSE:
        return I(0)
    if c.op == 'sw' and c.a[0].op == 'ge0' and c.a[1:] == (TRUE, FALSE):
        at, lab = c.a[0], 0
    elif c.op == 'ge0':
        at, lab = c, 1
    else:
        return r
    # goes on while (at >= 0) == lab
    n = _steps(at.a[0], lab, k)
    return r if n is None else n


BUILD['trip'] = _trip


def _mulall(xs):
    r = I(1)
    for x in xs:
        r = mul(r, x)
    return r


# ---------------------------------------------------------------- sequences
# cat(parts...)   parts: one(x) | gen(n, lam) | flat(n, lam) | opaque sequence
# (every length n handed to gen/flat/psum is non-negative: the caller wraps it in max0 or knows it)
def one(x):
    return mk('one', x)


def cat(*parts):
    def f(*parts):
        out = []
        for p in parts:
            if p.op == 'cat':
                out.extend(p.a)
            else:
                out.append(p)
        res = []
        for p in out:
            if res:
                m = _merge(res[-1], p)
                if m is not None:
                    res[-1] = m
                    continue
            res.append(p)
        if len(res) == 1 and res[0].op != 'one':
            return res[0]
        return mk('cat', *res)
    return liftn(f, *parts)


def _merge(a, b):
    """contiguous pieces of the same sequence"""
    if b.op == 'gen':
        n2, g = b.a
        if a.op == 'gen':
            n1, h = a.a
            k = fresh('k')
            k.nn = True
            if open_(g, k) is open_(h, add(n1, k)):
                return gen(add(n1, n2), h)
        elif a.op not in ('one', 'flat', 'cat', 'nil'):
            k = fresh('k')
            k.nn = True
            if open_(g, k) is elem(a, add(length(a), k)):
                return gen(add(length(a), n2), close([k], elem(a, k)))
    return None


def gen(n, lam):
    def f(n):
        if n.op == 'i':
            if n.a[0] <= 0:
                return NIL
            if n.a[0] <= 64:
                return cat(*[one(open_(lam, I(i))) for i in range(n.a[0])])
        # eta
        lv, nv, body = lam.a
        if body.op == 'elem':
            s, ix = body.a
            if ix.op == 'bv' and ix.a[0] == lv and not _mentions(s, lv):
                if length(s) is n:
                    return s
        return mk('gen', n, lam)
    return lift1(f, n)


def _mentions(t, lv):
    return bool(t.bm >> lv & 1)


def genf(n, f, hint='k'):
    k = fresh(hint)
    k.nn = True
    return gen(n, close([k], f(k)))


def flat(n, lam):
    def f(n):
        if n.op == 'i':
            if n.a[0] <= 0:
                return NIL
            if n.a[0] <= 32:
                return cat(*[open_(lam, I(i)) for i in range(n.a[0])])
        lv, nv, body = lam.a
        if body.op == 'cat' and len(body.a) == 1 and body.a[0].op == 'one':
            k = fresh('k')
            k.nn = True
            b = open_(lam, k)
            return gen(n, close([k], b.a[0].a[0]))
        if body is NIL:
            return NIL
        # flattening the chunks of s gives s
        if body.op == 'elem' and body.a[0].op == 'chunks' and body.a[1].op == 'bv' and body.a[1].a[0] == lv:
            if length(body.a[0]) is n:
                return body.a[0].a[0]
        return mk('flat', n, lam)
    return lift1(f, n)


def flatf(n, f):
    k = fresh('k')
    k.nn = True
    return flat(n, close([k], f(k)))


_foldlenmemo = {}


def _foldlen(s):
    """length of a recurrence that keeps the length of its initial value"""
    if s in _foldlenmemo:
        return _foldlenmemo[s]
    init, n, lam = s.a
    _foldlenmemo[s] = None
    r = None
    if init.op in ('gen', 'cat', 'store', 'sorted', 'flat', 'sym', 'fld', 'elem', 'fold', 'sw', 'call', 'var', 'bv') and lam.a[2].op not in ('lin', 'i', 'f', 'b'):
        k, p = fresh('k'), fresh('p')
        k.nn = True
        body = open_(lam, k, p)
        lp = mk('len', p)
        lp.nn = True
        l0 = length(init)
        if all(x is p or x.op in ('gen', 'cat', 'store', 'sorted', 'flat') for x in leaves(body)) and subst(length(body), {lp: l0}) is l0:
            r = l0
    _foldlenmemo[s] = r
    return r


def length(s):
    def f(s):
        op = s.op
        if op == 'cat':
            r = I(0)
            for p in s.a:
                r = add(r, length(p))
            return r
        if op == 'one':
            return I(1)
        if op == 'gen':
            return s.a[0]
        if op in ('store', 'stores', 'sorted'):
            return length(s.a[0])
        if op == 'fftp':        # a spectral transform is in place
            return length(s.a[1])
        if op == 'str':
            return I(len(s.a[0].encode()))
        if op == 'strb':
            return length(s.a[0])
        if op == 'flat':
            # total of the inner lengths
            n, lam = s.a
            k = fresh('k')
            k.nn = True
            b = length(open_(lam, k))
            if not _mentions_var(b, k):
                return mul(n, b)
            t = psum(n, close([k], b))
            return t
        if op == 'fold':
            r = _foldlen(s)
            if r is not None:
                return r
        if op == 'chunks':
            sl, c = s.a
            return cdiv(length(sl), c)
        if op == 'out' and s.a[0].endswith('::read_exact') and s.a[2] == 1:
            return length(s.a[4])
        if s in LEN:
            return LEN[s]
        t = mk('len', s)
        t.nn = True
        return t
    return lift1(f, s)


LEN = {}        # opaque sequences whose length is known


def _mentions_var(t, v):
    if not (t.fm & v.fm or t.bm & v.bm):
        return False
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x is v:
            return True
        if x in seen or not (x.fm & v.fm or x.bm & v.bm):
            continue
        seen.add(x)
        if x.op == 'lin':
            st.extend(k for k, _ in x.a[1])
        else:
            st.extend(y for y in x.a if type(y) is T)
    return False


def mentions(t, vs):
    """does t mention any of the given terms (variables)"""
    vs = set(vs)
    if not vs:
        return False
    fm = bm = 0
    allv = True
    for v in vs:
        fm |= v.fm
        bm |= v.bm
        allv = allv and v.op in ('var', 'bv')
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in vs:
            return True
        if x in seen or (allv and not (x.fm & fm or x.bm & bm)):
            continue
        seen.add(x)
        if x.op == 'lin':
            st.extend(k for k, _ in x.a[1])
        else:
            st.extend(y for y in x.a if type(y) is T)
    return False


def subterms(t):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        if x.op == 'lin':
            st.extend(k for k, _ in x.a[1])
        else:
            st.extend(y for y in x.a if type(y) is T)


def _whole(a, b):
    """x when a is x - x % b"""
    if a.op == 'lin':
        c, m = _lin(a)
        for k, v in m.items():
            if k.op == 'rem' and v == -1 and k.a[1] is b and sub(k.a[0], k) is a:
                return k.a[0]
    return None


def _divparts(a, b):
    """(q, r) with a = q*b + r and 0 <= r < b for a constant b, when every part is known not to be negative"""
    if a.op != 'lin' or b.op != 'i' or b.a[0] <= 1:
        return None
    n = b.a[0]
    c, m = _lin(a)
    q = {k: v // n for k, v in m.items() if v % n == 0}
    r = {k: v for k, v in m.items() if v % n}
    if not q or r or c < 0 or any(v < 0 or not nonneg_(k) for k, v in q.items()):
        return None
    return _mklin(c // n, q), I(c % n)


def nonneg_(k):
    return bool(k.nn)


def cdiv(a, b):
    def f(a, b):
        if a.op == 'i' and b.op == 'i' and b.a[0] > 0:
            return I(-((-a.a[0]) // b.a[0]))
        if b.op == 'i' and b.a[0] == 1:
            return a
        x = _whole(a, b)
        if x is not None:
            return divi(x, b)
        t = mk('cdiv', a, b)
        t.nn = a.nn
        return t
    return lift(f, a, b)


def psum(n, lam):
    """sum of lam(i) for i < n (integers)"""
    def f(n):
        lv, nv, body = lam.a
        if n.op == 'i' and 0 <= n.a[0] <= 32 and (n.a[0] <= 4 or body.op != 'sw' or not any(
                s.op not in ('i', 'bv', 'lin', 'ge0', 'eq0', 'sw') for s in subterms(body))):
            r = I(0)
            for i in range(n.a[0]):
                r = add(r, open_(lam, I(i)))
            return r
        if body.op == 'i':
            return scale(n, body.a[0])
        if not _mentions(body, lv):
            return mul(n, body)
        if body.op == 'lin':
            c, m = _lin(body)
            if c <= 0 and all(v < 0 for v in m.values()):
                k = fresh('k')
                k.nn = True
                return scale(psum(n, close([k], scale(open_(lam, k), -1))), -1)
        t = mk('psum', n, lam)
        t.nn = body.nn or (body.op == 'i' and body.a[0] >= 0) or (body.op == 'sw' and all(
            x.nn or (x.op == 'i' and x.a[0] >= 0) for x in leaves(body)))
        return t
    return lift1(f, n)


def elem(s, i):
    def f(s, i):
        op = s.op
        if op == 'gen':
            return open_(s.a[1], i)
        if op == 'one':
            return s.a[0]
        if op == 'cat':
            r = BOT
            parts = list(s.a)
            off = I(0)
            offs = []
            for p in parts:
                offs.append(off)
                off = add(off, length(p))
            r = None
            for p, o in reversed(list(zip(parts, offs))):
                v = elem(p, sub(i, o))
                if r is None:
                    r = v
                else:
                    r = ite(lt(i, add(o, length(p))), v, r)
            return r if r is not None else BOT
        if op == 'store':
            b, j, v = s.a
            return ite(eqi(i, j), v, elem(b, i))
        if op == 'chunks':
            sl, c = s.a
            base = mul(i, c)
            n = imin(c, sub(length(sl), base))
            return slice_(sl, base, add(base, n)) if False else mk('elem', s, i)
        t = mk('elem', s, i)
        ty = TY.get(s.id)
        if ty is not None:
            et = elemty(ty)
            if et:
                mark(t, et)
        return t
    return lift(f, s, i)


def elemty(ty):
    while ty and ty[0] in ('ref', 'ptr'):
        ty = ty[1]
    if ty[0] in ('array', 'slice'):
        return ty[1]
    if ty[0] == 'adt' and ty[1].endswith('::Vec') and ty[2]:
        return ty[2][0]
    return None


def slice_(s, a, b):
    """s[a..b] (0 <= a <= b <= len)"""
    def f(s, a, b):
        if a.op == 'i' and a.a[0] == 0 and b is length(s):
            return s
        if s.op == 'cat' and a.op == 'i':
            # drop whole leading/trailing parts when the bounds are syntactic
            parts = list(s.a)
            offs = [I(0)]
            for p in parts:
                offs.append(add(offs[-1], length(p)))
            for x in range(len(offs)):
                for y in range(x, len(offs)):
                    if offs[x] is a and offs[y] is b:
                        return cat(*parts[x:y])
        elif s.op == 'cat':
            parts = list(s.a)
            offs = [I(0)]
            for p in parts:
                offs.append(add(offs[-1], length(p)))
            for x in range(len(offs)):
                for y in range(x, len(offs)):
                    if offs[x] is a and offs[y] is b:
                        return cat(*parts[x:y])
        return genf(sub(b, a), lambda k: elem(s, add(a, k)))
    return lift(f, s, a, b)


def store(s, i, v):
    def f(s, i):
        if s.op == 'cat' and i.op == 'i' and all(p.op == 'one' for p in s.a) and 0 <= i.a[0] < len(s.a):
            ps = list(s.a)
            ps[i.a[0]] = one(v)
            return mk('cat', *ps)
        if s.op == 'cat':
            # position inside a part known syntactically
            off = I(0)
            for j, p in enumerate(s.a):
                if p.op == 'one' and off is i:
                    ps = list(s.a)
                    ps[j] = one(v)
                    return cat(*ps)
                off = add(off, length(p))
        if v.op == 'elem' and v.a[0] is s and v.a[1] is i:
            return s
        if s.op == 'store' and s.a[1] is i:
            return mk('store', s.a[0], i, v)
        t = mk('store', s, i, v)
        if s.id in TY:
            TY[t.id] = TY[s.id]
        return t
    return lift(f, s, i)


def rev(s):
    n = length(s)
    return genf(n, lambda k: elem(s, sub(add(n, I(-1)), k)))


def anyf(n, lam):
    """exists i < n. lam(i)"""
    def f(n):
        lv, nv, body = lam.a
        if body is FALSE or (n.op == 'i' and n.a[0] <= 0):
            return FALSE
        if n.op == 'i' and n.a[0] <= 16:
            return Or(*[open_(lam, I(i)) for i in range(n.a[0])])
        if n.op == 'i' and open_(lam, I(0)) is FALSE:
            return anyf(sub(n, I(1)), later(lam))
        if body is TRUE:
            return lt(I(0), n)
        return mk('any', n, lam, b=True)
    return lift1(f, n)


def later(lam):
    k = fresh('k')
    k.nn = True
    return close([k], open_(lam, add(k, I(1))))


def firstf(n, lam):
    """least i with lam(i)"""
    def f(n):
        if n.op == 'i' and n.a[0] > 16 and open_(lam, I(0)) is FALSE:
            return add(firstf(sub(n, I(1)), later(lam)), I(1))
        t = mk('first', n, lam)
        t.nn = True
        return t
    return lift1(f, n)


# ---------------------------------------------------------------- ordered maps from keys to lists
# MM{s}: the map that results from appending v to the list of k for every (k, v) of the sequence s, in order
MM = 'MM'
STRUCTS[MM] = 1


def mkeyat(s, j):
    return fld(elem(s, j), -1, 0)


def mget(m, key):
    if m.op != 'adt' or m.a[0] != MM:
        return mk('mapget', m, key)
    if m.a[2] is NIL:
        return NIL
    return mk('mget', m.a[2], key)


def mhas(m, key):
    """bool"""
    if m.op != 'adt' or m.a[0] != MM:
        return mk('maphas', m, key, b=True)
    if m.a[2] is NIL:
        return FALSE
    return mk('mhas', m.a[2], key, b=True)


def mset(m, key, v):
    if m.op == 'adt' and m.a[0] == MM:
        s = m.a[2]
        if v.op == 'cat':
            parts = v.a
        else:
            parts = (v,)
        old = mget(m, key)
        if parts and parts[0] is old:
            parts = parts[1:]
        elif old is not NIL:
            return mk('mapset', m, key, v)
        if all(p.op == 'one' for p in parts) and parts:
            return mk('adt', MM, 0, cat(s, *[one(tup(key, p.a[0])) for p in parts]))
    return mk('mapset', m, key, v)


BUILD.update({'mget': lambda s, k: NIL if s is NIL else mk('mget', s, k), 'mhas': lambda s, k: FALSE if s is NIL else mk('mhas', s, k, b=True),
              'mn': lambda s: I(0) if s is NIL else nonneg(mk('mn', s)), 'mkey': lambda s, k: mk('mkey', s, k), 'mvals': lambda s, k: mk('mvals', s, k)})
BUILD.update({'cat': cat, 'gen': gen, 'flat': flat, 'len': length, 'elem': elem, 'store': store, 'psum': psum,
              'any': anyf, 'first': firstf, 'cdiv': cdiv, 'one': one})


# ---------------------------------------------------------------- contexts (what the path knows)
class Ctx:
    __slots__ = ('d', 'iv', 'memo')

    def __init__(self, d=None, iv=None):
        self.d = d or {}
        self.iv = iv or {}
        self.memo = {}

    def bounds(self, items):
        lo, hi = self.iv.get(items, (None, None))
        l0, h0 = _bounds0(items)
        if l0 is not None and (lo is None or l0 > lo):
            lo = l0
        if h0 is not None and (hi is None or h0 < hi):
            hi = h0
        if len(items) > 1 or (items and items[0][1] != 1):
            # interval sum over single atoms
            slo = shi = 0
            for k, v in items:
                kl, kh = self.iv.get(((k, 1),), (None, None))
                if k.nn and (kl is None or kl < 0):
                    kl = 0
                if v > 0:
                    slo = None if (slo is None or kl is None) else slo + v * kl
                    shi = None if (shi is None or kh is None) else shi + v * kh
                else:
                    slo = None if (slo is None or kh is None) else slo + v * kh
                    shi = None if (shi is None or kl is None) else shi + v * kl
            if slo is not None and (lo is None or slo > lo):
                lo = slo
            if shi is not None and (hi is None or shi < hi):
                hi = shi
        return lo, hi

    def look(self, s):
        r = self.d.get(s)
        if r is not None:
            return r
        if s.op == 'ge0':
            items, sg, c = shape(s.a[0])
            lo, hi = self.bounds(items)
            # ge0 atoms have positive leading coefficient: sg == 1
            if lo is not None and lo + c >= 0:
                return 1
            if hi is not None and hi + c < 0:
                return 0
        elif s.op == 'eq0':
            items, sg, c = shape(s.a[0])
            lo, hi = self.bounds(items)
            if lo is not None and lo + c > 0:
                return 0
            if hi is not None and hi + c < 0:
                return 0
            if lo is not None and lo == hi and lo + c == 0:
                return 1
        elif s.op == 'feq':
            a, b = s.a
            if self.d.get(mk('flt', a, b, b=True)) == 1 or self.d.get(mk('flt', b, a, b=True)) == 1:
                return 0
        elif s.op == 'flt':
            a, b = s.a
            if self.d.get(mk('flt', b, a, b=True)) == 1 or self.d.get(mk('fle', b, a, b=True)) == 1:
                return 0
            x, y = (a, b) if a.id <= b.id else (b, a)
            if self.d.get(mk('feq', x, y, b=True)) == 1:
                return 0
            if self.d.get(mk('fle', a, b, b=True)) == 0:
                return 0
        elif s.op == 'fle':
            a, b = s.a
            if self.d.get(mk('flt', a, b, b=True)) == 1:
                return 1
            if self.d.get(mk('flt', b, a, b=True)) == 1:
                return 0
            x, y = (a, b) if a.id <= b.id else (b, a)
            if self.d.get(mk('feq', x, y, b=True)) == 1:
                return 1
        return None

    def add(self, s, label):
        """-> new context, or None when contradictory"""
        k = self.look(s)
        if k is not None and k != label:
            return None
        c = Ctx(dict(self.d), self.iv)
        c.d[s] = label
        if s.op in ('ge0', 'eq0'):
            items, sg, k0 = shape(s.a[0])
            lo, hi = self.bounds(items)
            if s.op == 'ge0':
                if label:
                    lo = -k0 if lo is None else max(lo, -k0)
                else:
                    hi = -k0 - 1 if hi is None else min(hi, -k0 - 1)
            else:
                if label:
                    lo = hi = -k0
                else:
                    if lo is not None and lo == -k0:
                        lo += 1
                    if hi is not None and hi == -k0:
                        hi -= 1
            if lo is not None and hi is not None and lo > hi:
                return None
            c.iv = dict(self.iv)
            c.iv[items] = (lo, hi)
        if s.op == 'any' and label:
            # the first index that satisfies it does
            f = firstf(*s.a)
            if f.op == 'first':
                c = c.assume(open_(s.a[1], f))
                c = c and c.assume(lt(f, s.a[0]))
        return c

    def assume(self, v, label=1):
        """assume a bool value: only its top conjuncts are kept"""
        if v is TRUE or v is FALSE:
            if (v is TRUE) != bool(label):
                return None
            return self
        if v.op == 'sw':
            # conjunctive literal: exactly one feasible branch
            s = v.a[0]
            feas = []
            for i, c in enumerate(v.a[1:]):
                if c is BOT:
                    continue
                if (c is TRUE and not label) or (c is FALSE and label):
                    continue
                if self.look(s) is not None and self.look(s) != i:
                    continue
                feas.append((i, c))
            if not feas:
                return None
            if len(feas) == 1:
                i, ch = feas[0]
                n = self.add(s, i)
                if n is None:
                    return None
                return n.assume(ch, label)
            return self
        if v.b:
            return self.add(v, 1 if label else 0)
        return self


EMPTY = Ctx()


def restrict(t, ctx):
    """simplify the gates of t (top level and inside constructors) under the path knowledge"""
    if not ctx.d:
        return t
    memo = ctx.memo

    def go(t):
        if t.op not in ('sw', 'adt', 'tup', 'iter', 'cat', 'one', 'clo') and not t.b:
            return t
        r = memo.get(t)
        if r is not None:
            return r
        if t.op == 'sw':
            k = ctx.look(t.a[0])
            if k is not None:
                r = go(t.a[1 + k])
            else:
                ch = []
                s = t.a[0]
                for i, c in enumerate(t.a[1:]):
                    n = ctx.add(s, i)
                    ch.append(BOT if n is None else restrict(c, n))
                r = switch(s, tuple(ch))
        elif t.b and t.op != 'b':
            k = ctx.look(t)
            r = t if k is None else B(k)
        elif t.op in ('adt', 'tup', 'iter', 'one', 'clo', 'cat'):
            na = tuple(go(x) if type(x) is T else x for x in t.a)
            r = t if all(x is y for x, y in zip(na, t.a)) else (cat(*na) if t.op == 'cat' else build(t.op, na, t))
        else:
            r = t
        memo[t] = r
        return r
    return go(t)


# ---------------------------------------------------------------- printing
def show(t, depth=60):
    out = []
    budget = [6000]

    def p(t, d):
        if budget[0] <= 0:
            return '…'
        budget[0] -= 1
        if type(t) is not T:
            return str(t)
        op = t.op
        if d <= 0:
            return '…'
        if op == 'i':
            return str(t.a[0])
        if op == 'b':
            return 'true' if t.a[0] else 'false'
        if op == 'f':
            return '%r' % fval(t)
        if op == 'str':
            return repr(t.a[0])
        if op == 'sym':
            return str(t.a[0])
        if op == 'var':
            return '%s%d' % (t.a[1], t.a[0])
        if op == 'bv':
            return '#%d.%d' % t.a
        if op == 'lin':
            s = ' + '.join((p(k, d - 1) if v == 1 else '%d*%s' % (v, p(k, d - 1))) for k, v in t.a[1])
            return '(' + s + (' + %d' % t.a[0] if t.a[0] else '') + ')'
        if op == 'adt':
            nm = t.a[0].split('::')[-1] + '#%d' % t.a[1]
            return nm + '{' + ', '.join(p(x, d - 1) for x in t.a[2:]) + '}'
        if op == 'fld':
            return p(t.a[0], d - 1) + ('.%d' % t.a[2] if t.a[1] <= 0 else '.%d:%d' % t.a[1:])
        if op == 'sw':
            return '[' + p(t.a[0], d - 1) + ' ? ' + ' | '.join('%d: %s' % (i, p(c, d - 1)) for i, c in enumerate(t.a[1:])) + ']'
        return op + '(' + ', '.join(p(x, d - 1) for x in t.a) + ')'
    return p(t, depth)
