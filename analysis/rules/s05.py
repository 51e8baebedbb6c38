"""S05: cleaning and chunking."""
import math

import judge
import frames
import programs
from judge import *
from rules import s06
from rules.s04 import payload_origin

OP = 'atsc::optimizer::OptimizerPlan'
MAXF = 131072


class NoEval(Exception):
    pass


def fl(x, e, v):
    """value of the float / bool term x when the term e has the float value v"""
    if x is e:
        return v
    o = x.op
    if o == 'f':
        return fval(x)
    if x is TRUE or x is FALSE:
        return x is TRUE
    if o == 'fabs':
        return abs(fl(x.a[0], e, v))
    if o == 'fneg':
        return -fl(x.a[0], e, v)
    if o in ('flt', 'fle', 'feq'):
        p, q = fl(x.a[0], e, v), fl(x.a[1], e, v)
        return {'flt': p < q, 'fle': p <= q, 'feq': p == q}[o]
    if o == 'sw':
        return fl(x.a[1 + int(fl(x.a[0], e, v))], e, v)
    if o in ('fsub', 'fadd', 'fmul', 'fdiv') and all(y is e or y.op == 'f' for y in x.a[:2]):
        p, q = fl(x.a[0], e, v), fl(x.a[1], e, v)
        try:
            return {'fsub': lambda: p - q, 'fadd': lambda: p + q, 'fmul': lambda: p * q, 'fdiv': lambda: p / q}[o]()
        except (ZeroDivisionError, OverflowError):
            raise NoEval(show(x)[:80])
    if o in ('ftrunc', 'ffloor', 'fceil', 'fround'):
        p = fl(x.a[0], e, v)
        if math.isfinite(p):
            raise NoEval(show(x)[:80])
        return p
    if o == 'call' and x.a[0].startswith('core::f64::') and len(x.a) == 3:
        p = fl(x.a[2], e, v)
        f = {'is_normal': lambda: math.isfinite(p) and abs(p) >= 2.2250738585072014e-308,
             'is_subnormal': lambda: p != 0 and abs(p) < 2.2250738585072014e-308,
             'is_sign_negative': lambda: math.copysign(1, p) < 0,
             'is_sign_positive': lambda: math.copysign(1, p) > 0,
             'signum': lambda: p if p != p else math.copysign(1, p)}.get(x.a[0].split('::')[-1])
        if f:
            return f()
    raise NoEval(show(x)[:80])


def linear(x, e):
    """only comparisons of e, |e|, -e with constants or itself: constant between the constants"""
    for s in subterms(x):
        if s.op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            return False
    return True


def partition(x):
    """one float of every class that the constants of the predicate distinguish: the constants, their neighbours and one between"""
    cs = {0.0, 1.7976931348623157e308, 5e-324, 2.2250738585072014e-308}
    for s in subterms(x):
        if s.op == 'f' and math.isfinite(fval(s)):
            cs.add(abs(fval(s)))
    pts = set()
    for c in cs:
        for q in (c, math.nextafter(c, math.inf), math.nextafter(c, 0.0) if c else c):
            if math.isfinite(q):
                pts |= {q, -q}
    ps = sorted(pts)
    for a, b in zip(ps, ps[1:]):
        m = a / 2 + b / 2
        pts.add(m)
    return sorted(pts)


def cleaning(P, R, data, got):
    if not (got.op == 'flat' and got.a[0] is length(data)):
        if got is data:
            R.violated('cleaning', 'nothing is dropped')
            return
        judge.decide(R, 'cleaning', False, 'the kept samples are not a selection of the input samples: %s' % show(got)[:300], got)
        return
    k = fresh('k')
    k.nn = True
    body = open_(got.a[1], k)
    e = elem(data, k)

    def kept(v):
        x = body
        while x.op == 'sw':
            x = x.a[1 + int(fl(x.a[0], e, v))]
        return x
    try:
        for nm, v in (('NaN', math.nan), ('infinite', math.inf), ('-infinite', -math.inf)):
            x = kept(v)
            R.count('classes of samples')
            judge.decide(R, 'drops ' + nm, length(x) is I(0), 'an %s sample is kept as %s' % (nm, show(x)[:100]), x)
        bad = None
        for v in partition(body):
            R.count('classes of samples')
            x = kept(v)
            if x is not cat(one(e)) and x is not one(e):
                bad = bad or (v, x)
        exact = linear(body, e)
        if bad:
            judge.decide(R, 'keeps finite', False, 'the finite sample %r becomes %s' % (bad[0], show(bad[1])[:200]), bad[1])
        elif exact:
            R.proved('keeps finite')
        else:
            R.undecided('keeps finite', 'arithmetic in the selection of samples')
    except NoEval as x:
        R.undecided('cleaning', 'selection not interpreted: %s' % x)


BITS = ('core::num::leading_zeros', 'core::num::next_power_of_two', 'core::num::ilog2', 'core::num::is_power_of_two')


def classes(x, L):
    """partition of the values of L by their highest bit, on which the bit operations on L are constants: (assumption, substitution)"""
    calls = {s for s in subterms(x) if s.op == 'call' and s.a[0] in BITS and (s.a[2] is L or s.a[2].op == 'bitor' and set(s.a[2].a[:2]) == {I(1), L})}
    if not calls:
        yield TRUE, {}
        return
    yield le(L, I(0)), {L: I(0)}
    for i in range(0, 48):
        p = 1 << i
        for lo, hi in ((p, p), (p + 1, 2 * p - 1)):
            if lo > hi:
                continue
            m = {}
            for c in calls:
                odd = c.a[2] is not L
                m[c] = {'leading_zeros': I(63 - i), 'ilog2': I(i)}.get(c.a[0].split('::')[-1])
                if m[c] is None and not odd:
                    m[c] = I(p if lo == hi else 2 * p) if c.a[0].endswith('next_power_of_two') else B(lo == hi)
                if m[c] is None:
                    del m[c]
            for y in subterms(x):
                # the highest bit is set
                if y.op == 'bitand' and L in y.a[:2]:
                    z = [q for q in y.a[:2] if q is not L]
                    if z and folded(subst(z[0], m)) is I(p):
                        m[y] = I(p)
            yield And(le(I(lo), L), le(L, I(hi))), m


def folded(x):
    """constant shifts"""
    for _ in range(6):
        m = {}
        for y in subterms(x):
            if y.op == 'shl' and all(z.op == 'i' for z in y.a[:2]):
                m[y] = I(y.a[0].a[0] << y.a[1].a[0])
            elif y.op == 'shr' and all(z.op == 'i' for z in y.a[:2]):
                m[y] = I(y.a[0].a[0] >> y.a[1].a[0])
        if not m:
            break
        x = subst(x, m)
    return x


def chunking(P, R, n, got):
    """chunks handed out by one loop after the other: fixed numbers of equal chunks, then a loop until nothing is left"""
    rest = n
    parts = list(got.a) if got.op == 'cat' else [got]
    for i, part in enumerate(parts):
        if part.op == 'gen' and part.a[0].op != 'trip' and part.a[1].a[2].op == 'i':
            c = part.a[1].a[2].a[0]
            R.count('chunk loops')
            judge.decide(R, 'chunk not empty', c >= 1, 'chunks of length %d' % c, part)
            judge.decide(R, 'chunk not too long', c <= MAXF, 'chunks of length %d' % c, part)
            rest = sub(rest, scale(part.a[0], c))
            if i == len(parts) - 1:
                judge.same(R, 'all chunked', rest, I(0), 'the chunks add up to all samples')
            continue
        if i < len(parts) - 1:
            R.undecided('chunks', 'chunk loop not recognised: ' + show(part)[:200])
            return
        chunk_loop(P, R, rest, part, n)


def upper(x):
    """an upper bound: whole multiples rounded up are at least what was divided"""
    m = {}
    if x.op != 'lin':
        return x
    c, its = t._lin(x)
    r = I(c)
    for y, k in its.items():
        if y.op == 'cdiv' and k < 0 and y.a[1].op == 'i' and (-k) % y.a[1].a[0] == 0:
            q = y.a[0]
            if q.op == 'max0':
                q = ite(ge0(q.a[0]), q.a[0], I(0))
            r = sub(r, scale(q, (-k) // y.a[1].a[0]))
        else:
            r = add(r, scale(y, k))
    return r


def chunk_loop(P, R, n, got, n0):
    if got.op == 'gen' and got.a[0].op == 'trip':
        q = fresh('q')
        q.nn = True
        got = mk('flat', got.a[0], close([q], one(open_(got.a[1], q))))
    if got.op != 'flat' or got.a[0].op != 'trip':
        R.undecided('chunks', 'chunk loop not recognised: ' + show(got)[:200])
        return
    k = fresh('k')
    k.nn = True
    cont, body = open_(got.a[0].a[0], k), open_(got.a[1], k)
    st = {s for s in list(subterms(cont)) + list(subterms(body)) if s.op == 'fold' and s.a[1] is k}
    if len(st) != 1:
        R.undecided('chunks', 'state of the chunk loop not recognised')
        return
    st = st.pop()
    L = sym('rest')
    L.nn = True
    cont, body = subst(cont, {st: L}), subst(body, {st: L})
    z = fresh('z')
    z.nn = True
    nxt = open_(st.a[2], z, L)
    if any(k in judge.t.subterms(x) for x in (cont, body)) or z in subterms(nxt):
        R.undecided('chunks', 'chunk loop depends on the iteration number')
        return
    R.count('chunk loops')
    judge.same(R, 'initial rest', st.a[0], n, 'the loop starts with all samples')
    # after the loop nothing is left
    c = t.EMPTY.assume(Not(cont))
    if c is not None:
        judge.decide(R, 'all chunked', judge.implied(c, eqi(L, I(0))), 'the loop can end with samples left: %s' % show(cont)[:200], cont)
    c0 = t.EMPTY.assume(cont)
    # the rest never grows (obligation below): it stays below its initial bound
    if judge.implied(t.EMPTY, le(upper(st.a[0]), I(MAXF))):
        top = le(L, I(MAXF))
        c0 = c0.assume(top)
    else:
        top = TRUE
    for seq0, ctx in judge.paths(body, c0):
        for nx0, c2 in judge.paths(restrict(nxt, ctx), ctx):
            R.count('chunk loop paths')
            for bound, m in classes(tup(seq0, nx0, *c2.d), L):
                c3 = t.EMPTY.assume(And(bound, top))
                if c3 is None:
                    continue
                for s, k in c2.d.items():
                    s = folded(subst(s, m))
                    c3 = c3 and c3.assume(s if k == 1 else Not(s)) if s.b or s in (TRUE, FALSE) else c3
                if c3 is None or not judge.zone_feasible(c3):
                    continue
                R.count('classes of chunk lengths')
                seq, nx = folded(subst(seq0, m)), folded(subst(nx0, m))
                where = judge.cshow(c2) + (' for a rest of ' + show(bound) if m else '')
                items = seq.a if seq.op == 'cat' else (seq,)
                if not all(i.op == 'one' for i in items):
                    R.undecided('chunk', 'chunks of an iteration not recognised: ' + show(seq)[:200])
                    continue
                tot = nx
                def ob(key, v, what, x):
                    good = judge.implied(c3, v)
                    if not good and st.a[0] is not n0:
                        # a rest that the loop may never have
                        R.undecided(key, '%s (%s)' % (what, where))
                        return
                    judge.decide(R, key, good, '%s (%s)' % (what, where), x)
                for i in items:
                    v = i.a[0]
                    tot = add(tot, v)
                    ob('chunk not empty', le(I(1), v), 'a chunk of length %s can be empty' % show(v)[:100], v)
                    ob('chunk not too long', le(v, I(MAXF)), 'a chunk of length %s can be longer than %d' % (show(v)[:100], MAXF), v)
                ob('chunks sum', eqi(tot, L), 'chunk and rest do not add up to what was left: %s' % show(tot)[:200], tot)
                ob('rest', And(lt(nx, L), le(I(0), nx)), 'the rest does not shrink: %s' % show(nx)[:100], nx)


def planning(P, R):
    data = judge.tysym('data', ('slice', ('float', 'f64')))
    ev = judge.Ev(P)
    p, st = ev.ecall('optimizer::OptimizerPlan::plan', data)
    for k in ev.inlined:
        R.saw(pretty(P.bodies[k]))
    ix = {f['n']: i for i, f in enumerate(P.adts[OP]['variants'][0]['f'])}
    kept = fld(p, 0, ix['data'])
    cleaning(P, R, data, kept)
    n = sym('kept', ('uint', 'usize'))
    n.nn = True
    got = subst(fld(p, 0, ix['chunk_sizes']), {length(kept): n})
    judge.attempt(R, 'chunks', lambda: chunking(P, R, n, got))
    judge.same(R, 'one codec per chunk', length(fld(p, 0, ix['compressors'])), length(fld(p, 0, ix['chunk_sizes'])), 'as many codecs as chunks')
    # choosing the codec keeps their number
    s = judge.struct(P, OP, 'plan')
    cs = [fld(s, 0, ix[x]) for x in ('data', 'chunk_sizes', 'compressors')]
    ev = judge.Ev(P)
    st = interp.new_state()
    q = ev.cell(st, s, 'plan')
    b = ev.fnbody('optimizer::OptimizerPlan::set_compressor')
    r, st = ev.run(b, [q, judge.tysym('codec', b.lty[2])], {}, st)
    s2 = ev.read(st, q)
    judge.same(R, 'set_compressor codecs', length(fld(s2, 0, ix['compressors'])), length(cs[2]), 'choosing the codec keeps one per chunk')
    for x in ('data', 'chunk_sizes'):
        judge.same(R, 'set_compressor ' + x, fld(s2, 0, ix[x]), fld(s, 0, ix[x]), 'choosing the codec leaves the rest of the plan alone')
    # execution
    ev = judge.Ev(P)
    r, st = ev.ecall('optimizer::OptimizerPlan::get_execution', s)
    for k in ev.inlined:
        R.saw(pretty(P.bodies[k]))
    # a plan has one codec per chunk (decided above)
    r = subst(r, {length(cs[2]): length(cs[1])})
    judge.same(R, 'execution length', length(r), length(cs[1]), 'one execution per chunk')
    x = fresh('x')
    x.nn = True
    c = t.EMPTY.assume(lt(x, length(cs[1])))
    judge.same(R, 'execution codec', restrict(fld(elem(r, x), 0, 0), c), elem(cs[2], x), 'codec of the chunk', c)
    judge.same(R, 'execution samples', restrict(fld(elem(r, x), 0, 1), c), chunk(cs[0], cs[1], x), 'samples of the chunk: consecutive slices of the kept samples', c)


def chunk(data, sizes, i):
    q = fresh('q')
    q.nn = True
    off = t.psum(i, close([q], elem(sizes, q)))
    j = fresh('j')
    j.nn = True
    return gen(elem(sizes, i), close([j], elem(data, add(j, off))))


def program(P, R, prog):
    ix = frames.fields(P)
    px = {f['n']: i for i, f in enumerate(P.adts[OP]['variants'][0]['f'])}
    for v, nm in enumerate(programs.choices(P, prog)):
        def one_(v=v, nm=nm):
            a = programs.args_struct(P, prog, compressor=adt(programs.UNITS[prog][1] + '::CompressorType', v))
            s, data, plan, st = programs.compress_data(P, R, prog, a)
            _, _, fs = s06.parts(P, s)
            sizes, kept = fld(plan, 0, px['chunk_sizes']), fld(plan, 0, px['data'])
            # decided in planning()
            fs = subst(fs, {length(fld(plan, 0, px['compressors'])): length(sizes)})
            key = '%s %s' % (prog, nm)
            R.count('program configurations')
            judge.same(R, key + ' frames', length(fs), length(sizes), 'one frame per chunk', allow=('~',))
            x = fresh('x')
            x.nn = True
            c = t.EMPTY.assume(lt(x, length(sizes)))
            f = restrict(elem(fs, x), c)
            want = chunk(kept, sizes, x)
            judge.same(R, key + ' count', restrict(fld(f, 0, ix['sample_count']), c), elem(sizes, x), 'frame of the chunk', c, allow=('~',))
            for y, ctx in judge.paths(fld(f, 0, ix['data']), c):
                R.count('payload paths')
                o = payload_origin(P, y)
                if o is None:
                    judge.decide(R, key + ' payload', False, 'the payload does not come from a codec: %s' % show(y)[:200], y)
                    continue
                judge.same(R, key + ' samples', o[1], want, 'the frame is that of the chunk', ctx, allow=('~',))
        judge.attempt(R, '%s %s' % (prog, nm), one_)


def run(P, R):
    R.rule('Rule: the kept samples are a per-element selection of the input whose condition is decided on every class of floats its constants '
           'distinguish; in the chunk loop each iteration pushes chunks between 1 and %d which add up with the rest to the rest before, and it ends '
           'only with nothing left; the execution list and the frames of both programs take the consecutive slices of the kept samples.' % MAXF)
    for p in ('optimizer::OptimizerPlan::plan', 'optimizer::OptimizerPlan::get_execution', 'optimizer::OptimizerPlan::set_compressor'):
        P.get(p)
    judge.attempt(R, 'planning', lambda: planning(P, R))
    for prog in programs.UNITS:
        judge.attempt(R, prog, lambda: program(P, R, prog))
