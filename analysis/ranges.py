"""Interval domain over the value graph, the number of samples of a frame partitioned until every question is settled."""
import judge
import term as t
from judge import *

INF = float('inf')
BIND = {'gen': (0, 1), 'flat': (0, 1), 'psum': (0, 1), 'any': (0, 1), 'first': (0, 1), 'fold': (1, 2), 'recn': (1, 3), 'trip': (None, 0)}


class Lost(Exception):
    """a condition that both outcomes of a partition share: the partition is split"""


def limits(ty):
    w = {'usize': 64, 'isize': 64}.get(ty) or int(ty[1:])
    return (0, 2 ** w - 1) if ty[0] == 'u' else (-2 ** (w - 1), 2 ** (w - 1) - 1)


class Ranges:
    def __init__(self, n, lo, hi, bounds, grow=None):
        """n: the term for the number of samples, between lo and hi; bounds: bound variable -> its number of values; grow: next_size of a number"""
        self.n, self.lo, self.hi, self.bounds, self.grow = n, lo, hi, bounds, grow
        self.memo = {}

    def iv(self, v):
        r = self.memo.get(v)
        if r is None:
            r = self.memo[v] = self.iv_(v)
        return r

    def iv_(self, v):
        """-> (least, greatest, least is reached, greatest is reached)"""
        op = v.op
        if op == 'i':
            return v.a[0], v.a[0], True, True
        if v is self.n:
            return self.lo, self.hi, self.lo == self.hi, self.lo == self.hi
        if v in self.bounds:
            n = self.bounds[v]
            if n is None:
                return 0, INF, True, False
            c = self.iv(n)
            return 0, c[1] - 1, c[0] > 0 and c[2], c[3]
        if op == 'lin':
            c, m = t._lin(v)
            lo = hi = c
            la = ha = True
            for x, k in list(m.items()):
                if x.op == 'call' and x.a[0] == '~next' and k > 0 and self.grow:
                    # k * (x + 1 + growth(x)) = k * next_size(x)
                    g = self.iv(x.a[2])
                    rest = t.sub(v, t.mul(I(k), t.add(t.add(x.a[2], I(1)), x)))
                    r = self.iv(rest)
                    if g[1] == INF:
                        return r[0], INF, False, False
                    one = g[0] == g[1]
                    lo, hi = self.grow(max(g[0], 0), one)[0], self.grow(max(g[1], 0), one)[1]
                    return r[0] + k * lo, r[1] + k * hi, one and r[2] and g[2], one and r[3] and g[3]
            for x, k in m.items():
                a = self.iv(x)
                if k < 0:
                    a = (a[1], a[0], a[3], a[2])
                lo += k * a[0]
                hi += k * a[1]
                la &= a[2]
                ha &= a[3]
            if v.nn and lo < 0:
                lo, la = 0, False
            return lo, hi, la, ha
        if op == 'call' and v.a[0] == '~next' and self.grow:
            g = self.iv(v.a[2])
            if g[1] < INF:
                one = g[0] == g[1]
                return 0, self.grow(max(g[1], 0), one)[1] - (g[0] + 1), False, one and g[2]
        if op in ('div', 'cdiv'):
            a, b = self.iv(v.a[0]), self.iv(v.a[1])
            if a[0] >= 0 and b[0] >= 0:
                bl, ba = (b[0], b[2]) if b[0] > 0 else (1, False)
                d = (lambda x, y: x if y == 1 else x // y) if op == 'div' else (lambda x, y: -((-x) // y))
                lo = 0 if b[1] == INF else INF if a[0] == INF else d(a[0], b[1])
                hi = INF if a[1] == INF else d(a[1], bl)
                return lo, hi, a[2] and b[3], a[3] and ba
        if op == 'rem':
            a, b = self.iv(v.a[0]), self.iv(v.a[1])
            if a[0] >= 0 and b[0] > 0:
                if a[1] < b[0]:
                    return a
                if a[0] == a[1] and b[0] == b[1]:
                    return a[0] % b[0], a[0] % b[0], a[2] and b[2], a[2] and b[2]
                return 0, min(a[1], b[1] - 1), False, False
        if op == 'mul':
            r = (1, 1, True, True)
            for x in v.a:
                a = self.iv(x)
                if a[0] < 0 or r[0] < 0:
                    return 0 if v.nn else -INF, INF, False, False
                r = (0 if 0 in (r[0], a[0]) else r[0] * a[0], 0 if 0 in (r[1], a[1]) else r[1] * a[1], r[2] and a[2], r[3] and a[3])
            return r
        if op == 'sw' and v.a[0].op in ('ge0', 'eq0', 'b') or op == 'sw' and len(v.a) == 3:
            k = self.truth(v.a[0])
            if k is not None:
                return self.iv(v.a[1 + k])
            free = not self.about(v.a[0])
            r = None
            for x in v.a[1:]:
                if x is BOT:
                    continue
                a = self.iv(x)
                if not free:
                    a = a[:2] + (False, False)
                if r is None:
                    r = a
                else:
                    r = (min(r[0], a[0]), max(r[1], a[1]),
                         (r[2] if r[0] < a[0] else a[2] if a[0] < r[0] else r[2] or a[2]), (r[3] if r[1] > a[1] else a[3] if a[1] > r[1] else r[3] or a[3]))
            if r is not None:
                return r
        if op in ('icast', 'f2i'):
            a, (lo, hi) = self.num(v.a[1]), limits(v.a[0])
            if a[0] >= lo and a[1] <= hi:
                return a
            return lo, hi, False, False
        if op == 'trip':
            k = fresh('k')
            k.nn = True
            c = open_(v.a[0], I(0))
            go = self.truth(c) if c.op != 'b' else c.a[0]
            return (1, INF, False, False) if go == 1 else (0, INF, go == 0 or not self.about(c), False)
        if op == 'psum':
            n = self.iv(v.a[0])
            k = fresh('k')
            k.nn = True
            self.bounds[k] = v.a[0]
            e = self.iv(open_(v.a[1], k))
            if e[0] >= 0:
                return n[0] * e[0] if n[0] and e[0] else 0, INF if INF in (n[1], e[1]) else n[1] * e[1], n[0] == 0 and n[2], False
        if op == 'fold' and v.a[2].a[1] == 2:
            r = self.fold(v)
            if r is not None:
                return r
        if op == 'bitand' and any(x.op == 'i' and x.a[0] >= 0 for x in v.a):
            return 0, min(x.a[0] for x in v.a if x.op == 'i' and x.a[0] >= 0), False, False
        return 0 if v.nn else -INF, INF, False, False

    def fold(self, v):
        """a variable that each step of a loop leaves alone or sets anew"""
        k, acc = fresh('k'), fresh('acc')
        k.nn = True
        self.bounds[k] = v.a[1]
        r = self.iv(v.a[0])
        for l, ctx in judge.paths(open_(v.a[2], k, acc), cap=100):
            if l is acc:
                continue
            if acc in subterms(l):
                return None
            conds = [(c, i) for c, i in ctx.d.items() if self.about(c)]
            saved = dict(self.memo)
            if not tighten(self, conds):
                self.memo = saved
                continue
            x = self.iv(l)
            self.memo = saved
            if conds or any(n > 1 for n in occurrences(l, lambda s: s in self.bounds).values()):
                x = x[:2] + (False, False)
            r = (min(r[0], x[0]), max(r[1], x[1]), (x if x[0] < r[0] else r)[2], (x if x[1] > r[1] else r)[3])
        return r

    def num(self, v):
        """ranges of floats made from integers"""
        if v.op == 'i2f':
            return self.num(v.a[1])
        if v.op in ('fadd', 'fsub', 'fmul', 'fdiv', 'f', 'ffloor', 'fceil', 'fround', 'ftrunc', 'f2f') or v.fv and v.op != 'lin' and v.op not in ('len', 'div', 'sw'):
            if v.op == 'f':
                x = fval(v)
                return (x, x, True, True) if x == x else (-INF, INF, False, False)
            if v.op in ('fadd', 'fsub'):
                a, b = self.num(v.a[0]), self.num(v.a[1])
                if v.op == 'fsub':
                    b = (-b[1], -b[0], b[3], b[2])
                return a[0] + b[0], a[1] + b[1], a[2] and b[2], a[3] and b[3]
            if v.op in ('ffloor', 'fceil', 'fround', 'ftrunc'):
                a = self.num(v.a[0])
                return a[0] - 1, a[1] + 1, False, False
            if v.op in ('fdiv',):
                a, b = self.num(v.a[0]), self.num(v.a[1])
                if a[0] >= 0 and b[0] > 0 and a[1] < INF:
                    return a[0] / b[1], a[1] / b[0], a[2] and b[3], a[3] and b[2]
        if v.op in ('f', 'fadd', 'fsub', 'fmul', 'fdiv'):
            return -INF, INF, False, False
        return self.iv(v)

    def about(self, c):
        """the condition is about lengths and positions"""
        ss = list(subterms(c))
        return any(s is self.n or s in self.bounds for s in ss) and not any(s.op == 'elem' or s.op == 'call' and s.a[0] != '~next' for s in ss)

    def truth(self, c):
        if c.op == 'b':
            return c.a[0]
        if c.op == 'ge0':
            a = self.iv(c.a[0])
            return 1 if a[0] >= 0 else 0 if a[1] < 0 else None
        if c.op == 'eq0':
            a = self.iv(c.a[0])
            return 0 if a[0] > 0 or a[1] < 0 else 1 if a[0] == a[1] == 0 else None
        if c.op == 'sw' and c.a[1:] in ((FALSE, TRUE), (TRUE, FALSE)):
            k = self.truth(c.a[0])
            return None if k is None else c.a[1 + k].a[0]
        return None


def occurrences(v, leaf):
    """how often each leaf stands in the expression"""
    r = {}

    def go(v):
        if leaf(v):
            r[v] = r.get(v, 0) + 1
            return
        for x in (t._lin(v)[1] if v.op == 'lin' else v.a):
            if hasattr(x, 'op'):
                go(x)
    go(v)
    return r


class Narrow:
    """an integer that goes into a type of limited size"""

    def __init__(self, kind, to, x, ctx, bounds):
        self.kind, self.to, self.x, self.ctx, self.bounds = kind, to, x, ctx, bounds


def narrowings(v, n, body=None, cap=200000):
    """all conversions of lengths and positions in a value, with the conditions on lengths and positions they are under"""
    body = body or {}
    want = {}
    out = {}
    steps = [0]

    def target(s):
        return s.op in ('icast', 'f2i', 'i2f')

    def inside(s):
        r = want.get(s)
        if r is None:
            want[s] = False
            r = target(s) or s.op == 'call' and s.a[0] in body
            if not r:
                for x in (t._lin(s)[1] if s.op == 'lin' else s.a):
                    if hasattr(x, 'op') and inside(x):
                        r = True
            want[s] = r
        return r
    seen = set()
    bounds = {}
    bodies = {}

    def opened(lam, count, ctx):
        if lam.op != 'lam' or not inside(lam):
            return
        b = bodies.get((lam, count))
        if b is None:
            ks = [fresh('k') for _ in range(lam.a[1])]
            if count != 0:
                ks[0].nn = True
                bounds[ks[0]] = count
            b = bodies[lam, count] = open_(lam, *ks)
        go(b, ctx)

    terms = {}

    def vars_(s):
        r = terms.get(s)
        if r is None:
            r = terms[s] = frozenset(x for x in subterms(s) if x in bounds)
        return r

    def about(c):
        if c not in known:
            known[c] = c.op in ('ge0', 'eq0') and any(s is n or s in bounds for s in subterms(c)) and not any(
                s.op == 'elem' or s.op == 'call' and s.a[0] != '~next' or s.op in ('trip', 'fold', 'recn') for s in subterms(c))
        return known[c]
    known = {}

    def go(s, ctx):
        if not inside(s):
            return
        vs = vars_(s)
        ctx = tuple(x for x in ctx if vars_(x[0]) <= vs)
        key = (s, frozenset(ctx))
        if key in seen:
            return
        seen.add(key)
        steps[0] += 1
        if steps[0] > cap:
            raise judge.Blowup('too many conversions')
        if s.op in ('icast', 'f2i', 'i2f'):
            x = s.a[1]
            data = any(w.op in ('elem', 'call') and w.op != 'len' for w in subterms(x)) and s.op != 'icast'
            if not (s.op in ('f2i',) and (data or not any(w.op == 'i2f' for w in subterms(x)))):
                out.setdefault((s, frozenset(ctx)), Narrow(s.op, s.a[0], x, tuple(ctx), bounds))
            go(x, ctx)
            return
        if s.op == 'call' and s.a[0] in body:
            deps, b = body[s.a[0]]
            go(subst(b, dict(zip(deps, s.a[2:]))), ctx)
            for x in s.a[2:]:
                go(x, ctx)
            return
        if s.op == 'sw':
            c = s.a[0]
            for i, x in enumerate(s.a[1:]):
                if x is not BOT:
                    if about(c):
                        if (c, 1 - i) in ctx:
                            continue
                        go(x, ctx if (c, i) in ctx else ctx + ((c, i),))
                    else:
                        go(x, ctx)
            return
        if s.op in ('trip', 'any', 'first'):
            return
        if s.op in BIND:
            ni, li = BIND[s.op]
            for j, x in enumerate(s.a):
                if j != li and hasattr(x, 'op'):
                    go(x, ctx)
            opened(s.a[li], None if ni is None else s.a[ni], ctx)
            return
        for x in (t._lin(s)[1] if s.op == 'lin' else s.a):
            if hasattr(x, 'op') and x.op != 'lam':
                go(x, ctx)
            elif hasattr(x, 'op') and x.op == 'lam' and s.op != 'sorted':
                opened(x, 0, ctx)
    go(v, ())
    return list(out.values())


def fits(w, n, least, most, lo, hi, grow=None, cap=30000):
    """True, or (number of samples, value, whether that value is reached)"""
    todo = [(least, most)]
    lost, tries = None, 20
    steps = 0
    while todo:
        a, b = todo.pop()
        steps += 1
        if steps > cap:
            return lost or (a, None, False)
        r = Ranges(n, a, b, dict(w.bounds), grow)
        dead, open_conds = False, []
        for c, i in w.ctx:
            k = r.truth(c)
            if k is not None and k != i:
                dead = True
            elif k is None:
                open_conds.append((c, i))
        if dead:
            continue
        if not tighten(r, open_conds):
            continue
        x = r.num(w.x) if w.kind == 'f2i' else r.iv(w.x)
        if x[0] >= lo and x[1] <= hi:
            continue
        if a < b:
            m = (a + b) // 2
            todo.append((a, m))
            todo.append((m + 1, b))
            continue
        exact = x[1] > hi and x[3] or x[0] < lo and x[2]
        exact = exact and not open_conds and all(c <= 1 for s, c in occurrences(w.x, lambda s: s in w.bounds or s.op in ('psum', 'trip', 'fold', 'call')).items())
        first = a, x[1] if x[1] > hi else x[0], bool(exact)
        if exact:
            return first
        # not a value that is certainly reached: there might be one for other numbers of samples
        if lost is None:
            lost = first
        tries -= 1
        if not tries:
            return lost
    return lost or True


def tighten(r, conds):
    """narrow bound variables by the conditions on them, dropping the conditions that are met by all that is left; False: no value is left"""
    vars_ = {}
    for c, i in list(conds):
        if c.op != 'ge0':
            continue
        c1, m = t._lin(c.a[0])
        vs = [v for v in m if v in r.bounds]
        if len(vs) != 1 or m[vs[0]] not in (1, -1):
            continue
        v = vs[0]
        k = m[v]
        rest = t.sub(c.a[0], t.mul(I(k), v))
        if any(s in r.bounds for s in subterms(rest)):
            continue
        rest = r.iv(rest)
        lo, hi, la, ha = vars_.get(v) or r.iv(v)
        ex = rest[0] == rest[1]
        # k * v + rest >= 0 when i, < 0 otherwise
        if k == 1 and i == 1:
            nlo, nhi = -rest[1], hi
        elif k == -1 and i == 1:
            nlo, nhi = lo, rest[1]
        elif k == 1:
            nlo, nhi = lo, -rest[0] - 1
        else:
            nlo, nhi = rest[0] + 1, hi
        if nlo > lo:
            lo, la = nlo, ex
        if nhi < hi:
            hi, ha = nhi, ex
        if lo > hi:
            return False
        vars_[v] = lo, hi, la, ha
        if ex:
            conds.remove((c, i))
    if vars_:
        r.memo = dict(vars_)
    return True
