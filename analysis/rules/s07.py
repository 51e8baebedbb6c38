"""S07: automatic selection and the error bound."""
import judge
import frames
import shapes
from judge import *
from frames import CP, FR, CR
from rules.s04 import Some


def run(P, R):
    R.rule('Rule: on every path through the automatic selection, with the codecs kept opaque, the path knowledge must imply for the stored result: '
           'its error (of the whole chunk) is within the bound; or it is the run-length payload; or every candidate run on the whole chunk is '
           'known to be over the bound and none is smaller. Among the whole-chunk candidates none that is within the bound is smaller. '
           'Constant storage needs path knowledge that the maximum and the minimum of the chunk are equal.')
    R.assume.append('the error reported by a codec is the one of its payload, and that of the run-length codec is zero: S08')
    P.get('frame::CompressorFrame::compress_best')
    P.get(frames.CALLS['results'])
    judge.attempt(R, 'selection', lambda: selection(P, R))


def selection(P, R):
    names = judge.variants(P, CP)
    ix = frames.fields(P)
    ei = judge.field_index(P, CR, 'error')
    di = judge.field_index(P, CR, 'compressed_data')
    f, data, st, args = frames.build(P, R, 'compress_best', Some(adt(CP, names.index('Auto'))))
    bound = f2f_(args[0])
    rec, pay = fld(f, 0, ix['compressor']), fld(f, 0, ix['data'])
    call0 = {}
    for x in subterms(tup(rec, pay)):
        if x.op == 'call' and x.a[0] == frames.OPAQUE['results'] and x.a[3] is data:
            call0[x] = x.a[2]
    R.count('codec runs on the whole chunk', len(call0))
    exact = names.index('RLE')
    def one_path(me, codec, ctx):
        if codec.op != 'adt':
            R.undecided('stored codec', show(codec)[:200])
            return
        nm = names[codec.a[1]]
        where = judge.cshow(ctx, 8)
        ops = []
        for s in ctx.d:
            z = judge.fuzzy(s, ('~',)) or next((y for y in subterms(s) if y.op in ('argmin', 'argmax')), None)
            if z is not None:
                ops.append(z)

        def bad(key, msg):
            if judge.refine(ctx) is None:
                R.count('impossible paths')
            elif ops:
                R.undecided(key, 'not interpreted %s: %s' % (show(ops[0])[:100], msg))
            else:
                R.violated(key, msg)
        if nm == 'Constant':
            R.count('constant paths')
            if constant(ctx, data):
                R.proved('constant only when all equal')
            else:
                bad('constant only when all equal', 'constant storage although the samples may differ (%s)' % where)
            return
        # candidates run on the whole chunk on this path
        seen = set()
        for s in ctx.d:
            seen |= set(subterms(s))
        kind = {c: restrict(call0[c], ctx) for c in call0}
        # several terms can stand for the run of one codec
        run_ = {c for c in call0 if c in seen and (kind[c] is not kind[me])} | {me}
        alias = {c: [d for d in call0 if d is c or kind[d] is kind[c]] for c in run_}
        fits = {c: any(fit(ctx, fld(d, 0, ei), bound) for d in alias[c]) for c in run_}
        over = {c: any(exceeds(ctx, fld(d, 0, ei), bound) for d in alias[c]) for c in run_}
        names_ = {c: names[k.a[1]] if k.op == 'adt' else '?' for c, k in kind.items()}
        R.count('selected ' + nm)
        smaller = [c for c in run_ if c is not me and not judge.implied(ctx, le(length(fld(me, 0, di)), length(fld(c, 0, di))))]
        if fits[me]:
            R.proved('error within bound')
            worse = [c for c in smaller if not over[c]]
            if worse:
                bad('smallest', '%s is stored although %s may be smaller and within the bound (%s)' % (nm, names_[worse[0]], where))
            else:
                R.proved('smallest')
        elif codec.a[1] == exact:
            R.proved('exact codec')
            # exact, but another whole-chunk candidate within the bound could be smaller
            worse = [c for c in smaller if not over[c]]
            if worse:
                bad('smallest', '%s is stored although %s may be smaller and within the bound (%s)' % (nm, names_[worse[0]], where))
        else:
            missing = [c for c in run_ if not over[c]]
            have_exact = any(kind[c].op == 'adt' and kind[c].a[1] == exact for c in run_)
            if missing:
                bad('error within bound', '%s is stored although its error is not known to be within the bound and %s may be within it (%s)' % (
                    nm, names_[missing[0]], where))
            elif not have_exact:
                bad('error within bound', '%s is stored with an error over the bound and the exact codec was not tried (%s)' % (nm, where))
            elif smaller:
                bad('smallest fallback', '%s is stored although %s may be smaller (%s)' % (nm, names_[smaller[0]], where))
            else:
                R.proved('fallback')

    for x, ctx in judge.paths(pay):
        R.count('paths')
        if not (x.op == 'fld' and x.a[0] in call0 and x.a[2] == di):
            judge.decide(R, 'stored payload', False, 'the stored payload is not that of a codec run on the whole chunk: %s' % show(x)[:200], x)
            continue
        for codec, c2 in judge.paths(restrict(call0[x.a[0]], ctx), ctx):
            one_path(x.a[0], codec, c2)
    if pay.op != 'sw':
        R.undecided('selection', 'no selection recognised')


def fit(ctx, e, b):
    im = judge.implied
    return im(ctx, t.fcmp('le', e, b)) or im(ctx, t.fcmp('lt', e, b)) or (im(ctx, Not(t.fcmp('lt', b, e))) and im(ctx, t.fcmp('eq', e, e)))


def exceeds(ctx, e, b):
    im = judge.implied
    return im(ctx, Not(t.fcmp('le', e, b))) or im(ctx, t.fcmp('lt', b, e)) or im(ctx, Not(t.fcmp('eq', e, e)))


def f2f_(x):
    return mk('f2f', 'f64', x)


def constant(ctx, data):
    mx, mn = [], []
    for s in ctx.d:
        for e in subterms(s):
            if e.op == 'fold':
                k = shapes.extreme(e, data)
                (mx if k == 'max' else mn if k == 'min' else []).append(e)
    for a in mx:
        for b in mn:
            if judge.implied(ctx, t.fcmp('eq', a, b)) or judge.implied(ctx, t.fcmp('le', a, b)):
                return True
    # every element equal to one value
    for s, lab in ctx.d.items():
        if s.op == 'any' and lab == 0:
            k = fresh('k')
            k.nn = True
            c = Not(open_(s.a[1], k))
            n = s.a[0]
            if c.op == 'feq' and any(x.op == 'elem' and x.a[0] is data for x in c.a[:2]) and (n is length(data) or add(n, I(1)) is length(data)):
                return True
    return False
