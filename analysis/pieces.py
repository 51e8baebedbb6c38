"""Loops over a sequence made of pieces: every quantified operator whose bound is the length of the whole is split at the piece
boundaries, and the body is simplified under what the path and the position know."""
import term as t
from term import *

QUANT = ('any', 'first', 'fold', 'flat', 'psum', 'gen')


def peel(v, offs, ctx):
    """offs: start of every piece, then the total length"""
    total = offs[-1]
    memo = {}

    def parts(offs):
        for o, e in zip(offs, offs[1:]):
            yield o, sub(e, o)

    def lam1(lam, o, n):
        k = fresh('k')
        k.nn = True
        c = ctx.assume(lt(k, n))
        if c is None:
            return None
        return k, go(restrict(open_(lam, add(o, k)), c), c)

    def go(x, c):
        r = memo.get((x, id(c)))
        if r is None:
            r = _go(x, c)
            memo[(x, id(c))] = r
            keep.append(c)
        return r
    keep = []

    def _go(x, c):
        m = {}
        for s in subterms(x):
            if s.op == 'lam' or s.bm or s in m:
                continue
            if s.op not in QUANT:
                continue
            n = s.a[1] if s.op == 'fold' else s.a[0]
            if n is total or n.op == 'i' and 0 <= n.a[0] <= 16:
                r = split(s, offs if n is total else [I(i) for i in range(n.a[0] + 1)])
                if r is not None and r is not s:
                    m[s] = r
        if not m:
            return x
        y = subst(x, m)
        y = restrict(y, c)
        return y

    def one_(n):
        return n.op == 'i' and n.a[0] == 1

    def split(s, offs):
        lam = s.a[2] if s.op == 'fold' else s.a[1]
        if s.op in ('any', 'first'):
            rs = []
            for o, n in parts(offs):
                if one_(n):
                    p = restrict(open_(lam, o), ctx)
                    rs.append((o, p, I(0)))
                else:
                    q = lam1(lam, o, n)
                    if q is None:
                        continue
                    l = close([q[0]], q[1])
                    rs.append((o, restrict(anyf(n, l), ctx), firstf(n, l)))
            if s.op == 'any':
                return Or(*[p for _, p, _ in rs])
            r = None
            for o, p, f in reversed(rs):
                if p is FALSE:
                    continue
                x = add(o, f)
                r = x if r is None or p is TRUE else ite(p, x, r)
            return r if r is not None else s
        if s.op == 'fold':
            if lam.a[1] != 2:
                return None
            acc = s.a[0]
            for o, n in parts(offs):
                if one_(n):
                    acc = restrict(open_(lam, o, acc), ctx)
                    continue
                k, p = fresh('k'), fresh('p')
                k.nn = True
                c = ctx.assume(lt(k, n))
                if c is None:
                    continue
                b = restrict(open_(lam, add(o, k), p), c)
                if b is p:
                    continue
                acc = t.mk('fold', acc, n, close([k, p], b))
            return acc
        if s.op == 'psum':
            r = I(0)
            for o, n in parts(offs):
                if one_(n):
                    r = add(r, restrict(open_(lam, o), ctx))
                    continue
                q = lam1(lam, o, n)
                if q is not None:
                    r = add(r, psum(n, close([q[0]], q[1])))
            return r
        rs = []
        for o, n in parts(offs):
            if one_(n):
                x = restrict(open_(lam, o), ctx)
                rs.append(x if s.op == 'flat' else one(x))
                continue
            q = lam1(lam, o, n)
            if q is not None:
                l = close([q[0]], q[1])
                rs.append(flat(n, l) if s.op == 'flat' else gen(n, l))
        return cat(*rs)

    for _ in range(6):
        w = restrict(go(restrict(v, ctx), ctx), ctx)
        if w is v:
            break
        v = w
        memo.clear()
    return v


def open_loops(v, kinds=('any', 'first', 'fold', 'psum', 'recn', 'trip', 'div', 'rem')):
    """a loop or division that is left"""
    for s in subterms(v):
        if s.op in kinds:
            return s
    return None
