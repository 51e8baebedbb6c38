"""S02: decoding what the encoder wrote gives back every field.

The encoder of each codec is evaluated on an arbitrary payload to its list of written items (type, value); the decoder is evaluated on
that very list.  The result is compared field by field with the payload."""
import judge
from judge import *

CODECS = [
    ('compressor::constant::Constant', ('to_bytes', 'decompress')),
    ('compressor::fft::FFT', ('to_bytes', 'decompress')),
    ('compressor::polynomial::Polynomial', ('to_bytes', 'decompress')),
    ('compressor::rle::IndexRLE', ('to_bytes', 'decompress')),
    ('compressor::noop::Noop', ('to_bytes', 'decompress')),
]


def narrowed(back, orig):
    """is back the number orig as it is after a round trip through one integer type: -> type or None"""
    if back.op == 'i2f' and back.a[1].op == 'f2i' and back.a[1].a[1] is orig:
        return back.a[1].a[0]
    return None


def value(R, key, back, orig, ctx, widths, depth=8):
    """back is orig, up to the storage width; widths collects the width used on each path"""
    if back is orig:
        return True
    if depth == 0:
        return judge.same(R, key, back, orig, 'stored value', ctx)
    if back.op == 'sw':
        s = back.a[0]
        ok = True
        for i, c in enumerate(back.a[1:]):
            c2 = ctx.add(s, i)
            if c2 is None or c is BOT:
                continue
            ok = value(R, key + '/%d' % i, c, restrict(orig, c2), c2, widths, depth) and ok
        return ok
    w = narrowed(back, orig)
    if w is not None:
        widths.append((w, ctx))
        return True
    if back.op == 'gen' and diff(length(back), length(orig), ctx) is None:
        k = fresh('k')
        k.nn = True
        c2 = ctx.assume(lt(k, length(back))) or ctx
        return value(R, key + '[k]', elem(back, k), elem(orig, k), c2, widths, depth - 1)
    if back.op == 'tup':
        return all([value(R, key + '.%d' % i, x, fld(orig, -1, i), ctx, widths, depth - 1) for i, x in enumerate(back.a)])
    if back.op == 'adt' and back.a[0] in t.STRUCTS:
        return all([value(R, key + '.%d' % i, x, fld(orig, 0, i), ctx, widths, depth - 1) for i, x in enumerate(back.a[2:])])
    return judge.same(R, key, back, orig, 'the field that is read back', ctx) is True


def roundtrip(P, R, path, enc, dec, widths):
    ev = Ev(P)
    e, d = ev.fnbody(path + '::' + enc), ev.fnbody(path + '::' + dec)
    R.saw(pretty(e))
    R.saw(pretty(d))
    st = interp.new_state()
    ty = e.lty[1]
    ty = ty[1] if ty[0] == 'ref' else ty
    me = sym('self', ty)
    by, st = ev.run(e, [me], {}, st)
    judge.holds(R, path + ' encodes', st.r[OKR], 'encoding does not panic')
    for l in leaves(by):
        if l.op == 'bytes':
            R.count('item lists')
            R.count('items written', len(l.a[1].a) if l.a[1].op == 'cat' else 1)
    r, st = ev.run(d, [by], {}, st)
    judge.holds(R, path + ' decodes', st.r[OKR], 'the decoder accepts exactly the items the encoder wrote, in type and order')
    adtd = P.adts[ty[1]]
    fields = adtd['variants'][0]['f']
    ev_fields = []
    for i, f in enumerate(fields):
        key = '%s.%s' % (path, f['n'])
        R.count('fields')
        back, orig = fld(r, 0, i), fld(me, 0, i)
        if back.op == 'adt' and back.a[0].endswith('Option') and back.a[1] == 0:
            # not stored: only allowed for the error, which is not part of the payload
            if f['n'] != 'error':
                R.violated(key, 'the field is not stored')
            continue
        if value(R, key, back, orig, t.EMPTY, widths):
            R.proved(key, 'read back as written')
    for k in ev.inlined:
        R.saw(pretty(P.bodies[k]))


def run(P, R):
    R.rule('Rule: for every codec the list of (type, value) items that its Encode implementation writes for an arbitrary payload is fed to its Decode '
           'implementation; by global value numbering every field of the result must be the field of the payload (in a narrow width: the number '
           'that the narrowing wrote), and no path of the decoder may reject the list.')
    R.assume.append('bincode encodes and decodes primitive values and sequences inversely for one configuration')
    for path, (e, d) in CODECS:
        widths = []
        judge.attempt(R, path, lambda: roundtrip(P, R, path, e, d, widths))
        R.count('narrow widths', len(widths))
