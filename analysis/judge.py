"""Comparing value graphs: equal normal forms prove an obligation; two fully interpreted different ones
refute it; anything that the analysis did not interpret leaves it undecided."""
import os
import traceback

import interp
import term as t
from term import *
from facts import pretty, Anchor

OKR = interp.OKR
WORLD = interp.WORLD

# nodes that stand for something the analysis has not interpreted
FUZZY = {'recn', 'trip', 'havoc', 'unknown', 'out', 'rec'}
# library functions that are treated as fixed mathematical or input/output functions of their arguments
KNOWN_CALLS = (
    'bincode::', 'rkyv::', 'std::fs::', 'std::io::', 'std::path::', 'std::ffi::', 'csv::', 'chrono::', 'hound::',
    'splines::', 'inverse_distance_weight::', 'create', 'write', 'std::f64::', 'core::f64::', 'std::env::', 'clap::', 'log::', 'median::',
    'average::', 'rgsl::', 'statrs::', 'core::str::', 'alloc::str::', 'alloc::string::',
)


class Ev(interp.Evaluator):
    """evaluator + public function lookup"""

    def __init__(self, P, barriers=None):
        super().__init__(P, barriers)
        self.P = P
        self.hooks = {}      # name of a called function -> f(state, call, args), run before the call
        self.anyhook = None  # the same for every call
        self.extra = {}      # name of a library function -> its meaning in this analysis

    def invoke(self, st, c, args, depth=0):
        h = self.hooks.get(c['name'])
        if h is not None:
            h(st, c, args)
        if self.anyhook is not None:
            self.anyhook(st, c, args)
        x = self.extra.get(c['name'])
        if x is not None:
            return x(self, st, args, c)
        return super().invoke(st, c, args, depth)

    def fnbody(self, path, unit=None):
        return self.P.get(path, unit)

    def ecall(self, path, *args, st=None, unit=None):
        b = self.fnbody(path, unit)
        return self.run(b, list(args), {}, st or interp.new_state())


def fuzzy(x, extra=()):
    """the first sub-term that was not interpreted, or None"""
    for s in subterms(x):
        if s.op in FUZZY and not (s.op == 'out' and str(s.a[0]).startswith(KNOWN_CALLS)):
            return s
        if s.op == 'call' and not str(s.a[0]).startswith(KNOWN_CALLS + tuple(extra)):
            return s
    return None


def _pairs(a, b, ctx, out, cap):
    """feasible pairs of leaves"""
    seen = set()

    def go(a, b, ctx):
        if len(out) > cap:
            return
        if a is b or a is BOT or b is BOT:
            return
        s = None
        for v in (a, b):
            if v.op == 'sw' and (s is None or v.a[0].id < s.id):
                s = v.a[0]
            elif v.b and v.op not in ('b', 'sw') and (s is None or v.id < s.id):
                s = v
        if s is None:
            out.append((a, b, ctx))
            return
        k = ctx.look(s)
        for i in range(t.arity(s)):
            if k is not None and k != i:
                continue
            c2 = ctx.add(s, i)
            if c2 is None:
                continue
            go(cof2(a, s, i), cof2(b, s, i), c2)
    go(a, b, ctx)


def cof2(v, s, i):
    if v.op == 'sw':
        return cof(v, s, i)
    if v is s:
        return B(i)
    return v


def is_seq(x):
    return x.op in ('cat', 'gen', 'flat', 'slice', 'store', 'sorted', 'chunks', 'mapseq', 'one', 'filt') or (x.op == 'fold' and t._foldlen(x) is not None)


def _elem_eq(a, b, ctx, depth):
    """both are sequences: equal when lengths are equal and the generic elements are"""
    la, lb = length(a), length(b)
    d = diff(la, lb, ctx, depth - 1)
    if d is not None:
        return ('length', d)
    k = fresh('k')
    k.nn = True
    c2 = ctx.assume(lt(k, la))
    if c2 is None:
        return None
    return diff(elem(a, k), elem(b, k), c2, depth - 1)


def diff(a, b, ctx=t.EMPTY, depth=12):
    """None when the values are equal under ctx, otherwise a description (x, y, path context) of one difference"""
    if a is b:
        return None
    a = restrict(a, ctx)
    b = restrict(b, ctx)
    if a is b:
        return None
    if depth <= 0:
        return (a, b, ctx)
    out = []
    _pairs(a, b, ctx, out, 4000)
    for x, y, c in out:
        x, y = restrict(x, c), restrict(y, c)
        if x is y:
            continue
        if x.op == 'sw' or y.op == 'sw':
            d = diff(x, y, c, depth - 1)
            if d is not None:
                return d
            continue
        if x.op in ('adt', 'tup', 'clo') and x.op == y.op and t._head(x) == t._head(y) and len(x.a) == len(y.a):
            bad = None
            for p, q in zip(x.a, y.a):
                if type(p) is T and p is not q:
                    bad = diff(p, q, c, depth - 1)
                    if bad is not None:
                        break
            if bad is not None:
                return bad
            continue
        if is_seq(x) and is_seq(y) or (is_seq(x) or is_seq(y)) and x.op in t_SEQISH and y.op in t_SEQISH:
            d = _elem_eq(x, y, c, depth)
            if d is None:
                continue
            return d if len(d) == 3 else (x, y, c)
        if x.op == y.op and x.op in ('f2i', 'i2f', 'f2f', 'icast', 'bits', 'unbits', 'one', 'w', 'wseq', 'warr', 'wopt', 'bytes', 'fadd', 'fmul', 'fsub', 'fdiv') and len(x.a) == len(y.a):
            bad = None
            for p, q in zip(x.a, y.a):
                if p is q or p == q:
                    continue
                if type(p) is not T or type(q) is not T:
                    bad = (x, y, c)
                    break
                if p.op == 'lam':
                    vs = [fresh('k') for _ in range(p.a[1])]
                    for v in vs:
                        v.nn = True
                    bad = diff(open_(p, *vs), open_(q, *vs), c, depth - 1)
                else:
                    bad = diff(p, q, c, depth - 1)
                if bad is not None:
                    break
            if bad is not None:
                return bad
            continue
        return (x, y, c)
    return None


t_SEQISH = ('cat', 'gen', 'flat', 'slice', 'store', 'sorted', 'chunks', 'mapseq', 'one', 'filt', 'fold', 'sym', 'fld', 'elem', 'var', 'call', 'out')


def cshow(ctx, n=6):
    return ' and '.join('%s=%s' % (show(s)[:80], v) for s, v in list(ctx.d.items())[-n:])


def same(R, key, a, b, what, ctx=t.EMPTY, at='', allow=()):
    """obligation: a equals b"""
    try:
        d = diff(a, b, ctx)
    except (interp.Unsupported, Blowup) as e:
        R.undecided(key, '%s: %s' % (what, e))
        return None
    if d is None:
        R.proved(key, what)
        return True
    x, y, c = d
    f = fuzzy(x, allow) or fuzzy(y, allow)
    for s in c.d:
        f = f or fuzzy(s, allow)
    txt = '%s: got %s, expected %s, when %s' % (what, show(x)[:300], show(y)[:300], cshow(c))
    if f is not None:
        R.undecided(key, 'not interpreted %s: %s' % (show(f)[:100], txt))
        return None
    R.violated(key, txt, at)
    return False


def holds(R, key, v, what, ctx=t.EMPTY, at='', allow=()):
    """obligation: the bool v is true under ctx"""
    return same(R, key, v, TRUE, what, ctx, at, allow)


def attempt(R, key, f, hard=False):
    """run f; what the engine cannot interpret is undecided; a missing public interface is an Anchor error"""
    try:
        return f()
    except Anchor as e:
        if hard:
            raise
        R.undecided(key, 'interface not found: %s' % e)
    except RecursionError:
        R.undecided(key, 'not interpreted: nesting')
    except Exception as e:
        if os.environ.get('ATSC_DEBUG'):
            traceback.print_exc(limit=-12)
        R.undecided(key, 'not interpreted: %s: %s' % (type(e).__name__, str(e)[:300]))
    return None


def prune(v, ctx):
    """simplify under the path knowledge everywhere, also inside the arguments of opaque functions"""
    for _ in range(6):
        v = restrict(v, ctx)
        m = {}
        for s in subterms(v):
            if s.op == 'sw':
                g = s.a[0]
                if g.bm or g in m:
                    continue
                k = ctx.look(g)
                if k is not None:
                    m[g] = B(k) if g.b else mk('vsel', k)
        if not m:
            return v
        w = subst(v, m)
        if w is v:
            return v
        v = w
    return v


def refine(ctx):
    """the path knowledge with the conditions nested inside its conditions decided by the others; None when it contradicts itself"""
    def gated(s):
        return any(x.op == 'sw' and not x.bm for x in subterms(s))
    out = t.EMPTY
    late = []
    for s, lab in ctx.d.items():
        if gated(s):
            late.append((s, lab))
        else:
            out = out.add(s, lab)
            if out is None:
                return None
    for s, lab in late:
        w = prune(s, out)
        if w is s or not s.b:
            out = out.add(s, lab)
        else:
            out = out.assume(w if lab else Not(w))
        if out is None:
            return None
    return out


def gates(v):
    """conditions anywhere inside v that do not depend on a bound variable"""
    r = set()
    for s in subterms(v):
        if s.op == 'sw' and not s.a[0].bm:
            r.add(s.a[0])
    return r


def split_diff(a, b, ctx=t.EMPTY, cap=4000):
    """like diff, deciding the conditions nested inside the arguments of opaque functions case by case"""
    n = [0]

    def go(a, b, c):
        n[0] += 1
        if n[0] > cap:
            raise Blowup('too many cases')
        a, b = prune(a, c), prune(b, c)
        if a is b:
            return None
        g = gates(a) | gates(b)
        if not g:
            return diff(a, b, c)
        s = min(g, key=lambda x: x.id)
        for i in range(t.arity(s)):
            c2 = c.add(s, i)
            if c2 is None or not zone_feasible(c2):
                continue
            d = go(a, b, c2)
            if d is not None:
                return d
        return None
    return go(a, b, ctx)


def known(ctx, v):
    """the bool v is true under the path knowledge"""
    return restrict(v, ctx) is TRUE


def strip_ref(ty):
    while ty[0] in ('ref', 'ptr'):
        ty = ty[1]
    return ty


def tysym(name, ty):
    """an arbitrary value of type ty"""
    v = sym(name, ty)
    t.mark(v, ty)
    return v


def struct(P, path, name):
    """an arbitrary value of a struct type, one symbol per field"""
    d = P.adts[path]
    return adt(path, 0, *[tysym('%s.%s' % (name, f['n']), f['t']) for f in d['variants'][0]['f']])


def field_index(P, path, fname, variant=0):
    for i, f in enumerate(P.adts[path]['variants'][variant]['f']):
        if f['n'] == fname:
            return i
    raise Anchor('field %s of %s' % (fname, path))


def variants(P, path):
    return [v['n'] for v in P.adts[path]['variants']]


def paths(v, ctx=t.EMPTY, cap=20000):
    """all feasible (leaf, path knowledge) of a value"""
    out = []

    def go(v, ctx):
        if len(out) > cap:
            raise Blowup('too many paths')
        if v.op == 'sw':
            s = v.a[0]
            k = ctx.look(s)
            for i, c in enumerate(v.a[1:]):
                if c is BOT or (k is not None and k != i):
                    continue
                c2 = ctx.add(s, i)
                if c2 is not None:
                    go(c, c2)
        elif v is not BOT and zone_feasible(ctx):
            out.append((v, ctx))
    go(v, ctx)
    return out


def implied(ctx, v):
    """v follows from the path knowledge"""
    v = restrict(v, ctx)
    if v is TRUE:
        return True
    if v is FALSE:
        return False
    c = ctx.assume(Not(v))
    return c is None or not zone_feasible(c)


def joint(xs, ctx=None):
    """feasible combinations of the leaves of several values -> [(leaves, knowledge)]"""
    out = [((), ctx or t.EMPTY)]
    for x in xs:
        out = [(ls + (l,), c2) for ls, c in out for l, c2 in paths(restrict(x, c), c)]
    return out


def decide(R, key, ok, what, *terms, allow=()):
    """report an obligation whose outcome was computed by a rule: refuted only when every term was interpreted"""
    if ok:
        R.proved(key)
        return True
    for x in terms:
        f = fuzzy(x, allow)
        if f is not None:
            R.undecided(key, 'not interpreted %s: %s' % (show(f)[:100], what))
            return None
    R.violated(key, what)
    return False


def zone_feasible(ctx, extra=()):
    """difference-bound closure of the integer comparisons in the path knowledge: False when they contradict each other"""
    edges = []
    nodes = {None: 0}

    def cons(term, lab):
        c, m = t._lin(term)
        if not lab:         # term < 0  <=>  -term - 1 >= 0
            c, m = -c - 1, {x: -v for x, v in m.items()}
        vs = list(m.items())
        if len(vs) == 1 and abs(vs[0][1]) == 1:
            a, b = (vs[0][0], None) if vs[0][1] == 1 else (None, vs[0][0])
        elif len(vs) == 2 and sorted(v for _, v in vs) == [-1, 1]:
            a = [x for x, v in vs if v == 1][0]
            b = [x for x, v in vs if v == -1][0]
        else:
            return
        # a - b + c >= 0   <=>  b <= a + c
        for x in (a, b):
            nodes.setdefault(x, len(nodes))
        edges.append((nodes[a], nodes[b], c))
    for s, lab in list(ctx.d.items()) + list(extra):
        if s.op == 'ge0':
            cons(s.a[0], lab)
    for x in list(nodes):
        if x is not None and t.nonneg(x):
            edges.append((nodes[x], nodes[None], 0))
    n = len(nodes)
    d = [0] * n
    for _ in range(n + 1):
        ch = False
        for a, b, c in edges:
            if d[a] + c < d[b]:
                d[b] = d[a] + c
                ch = True
        if not ch:
            return True
    return False


def witness(ctx, names, values, vs, bad):
    """constant folding of the path knowledge about sizes: numbers for which the path is taken and bad(folded vs) holds, or None.
    ctx: a context, or a list of (condition, label). names: terms that take the numbers; values: tuples of numbers tried"""
    conds = ctx if isinstance(ctx, list) else [(s, lab) for s, lab in ctx.d.items() if s.op in ('ge0', 'eq0')]
    for xs in values:
        m = {a: I(x) for a, x in zip(names, xs)}
        for s, lab in conds:
            w = subst(s, m)
            if w not in (TRUE, FALSE) or (w is TRUE) != bool(lab):
                break
        else:
            if bad(*[subst(v, m) for v in vs]):
                return xs
    return None


def unroll(v, cap=4):
    """folds over a constant small number of steps, applied"""
    for _ in range(20):
        m = {}
        for s in subterms(v):
            if s.op == 'recn' and s.a[1].op == 'i' and s.a[1].a[0] <= cap:
                x = s.a[2].a
                for i in range(s.a[1].a[0]):
                    x = open_(s.a[3], I(i), *x).a
                m[s] = x[s.a[0]]
            elif s.op in ('flat', 'gen') and s.a[0].op == 'i' and s.a[0].a[0] <= cap and s.a[1].a[1] == 1:
                xs = [open_(s.a[1], I(i)) for i in range(s.a[0].a[0])]
                m[s] = cat(*(xs if s.op == 'flat' else [one(x) for x in xs]))
            elif s.op in ('fold', 'any', 'psum') and s.a[0 if s.op != 'fold' else 1].op == 'i':
                n = s.a[0 if s.op != 'fold' else 1].a[0]
                if n > cap:
                    continue
                if s.op == 'fold' and s.a[2].a[1] == 2:
                    x = s.a[0]
                    for i in range(n):
                        x = open_(s.a[2], I(i), x)
                elif s.op == 'any':
                    x = Or(*[open_(s.a[1], I(i)) for i in range(n)])
                elif s.op == 'psum':
                    x = I(0)
                    for i in range(n):
                        x = add(x, open_(s.a[1], I(i)))
                else:
                    continue
                m[s] = x
            elif s.op in ('mn', 'mkey', 'mvals') and s.a[0].op in ('sw', 'cat', 'one') and not s.bm:
                def f(e, s=s):
                    e = e.a[0] if e.op == 'cat' and len(e.a) == 1 else e
                    if e.op != 'one' or e.a[0].op != 'tup' or s.op != 'mn' and s.a[1] is not I(0):
                        return mk(s.op, e, *s.a[1:])
                    return I(1) if s.op == 'mn' else e.a[0].a[0] if s.op == 'mkey' else one(e.a[0].a[1])
                x = t.lift1(f, s.a[0])
                if x is not s:
                    m[s] = x
            elif s.op == 'sorted' and length(s.a[0]) is I(1) and not s.bm:
                m[s] = s.a[0]
        if not m:
            return v
        v = subst(v, m)
    return v


def ground(v, cap=5000):
    """constant folding of loops over constants"""
    for _ in range(40):
        m = {}
        todo = [s for s in subterms(v) if s.op in ('trip', 'fold') and not s.bm]
        for s in todo:
            if any(x is not s and x.op in ('trip', 'fold') and not x.bm for x in subterms(s)):
                continue
            if any(x.op in ('sym', 'var', 'fresh', 'call', 'havoc') for x in subterms(s)):
                continue
            if s.op == 'trip' and s.a[0].a[1] == 1:
                for k in range(cap):
                    c = ground(open_(s.a[0], I(k)), cap)
                    if c is not t.TRUE:
                        if c is t.FALSE:
                            m[s] = I(k)
                        break
            elif s.op == 'fold' and s.a[1].op == 'i' and s.a[1].a[0] <= cap and s.a[2].a[1] == 2:
                x = s.a[0]
                for k in range(s.a[1].a[0]):
                    x = ground(open_(s.a[2], I(k), x), cap)
                m[s] = x
        if not m:
            return v
        v = subst(v, m)
    return v
