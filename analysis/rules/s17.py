"""S17: the sample container gives back exactly the samples that were put in."""
import effects
import judge
import term as t
from judge import *

W = 'wavbrro::wavbrro::WavBrro'
API = 'wavbrro::WavBrro::'
MAXC = 2048
MARK = {0: 'W', 1: 'B', 2: 'R', 3: 'O', 8: 'W', 9: 'B', 10: 'R', 11: 'O'}
HEAD = 12


def fieldof(P, w, name):
    return fld(w, 0, judge.field_index(P, W, name))


def flatten(chunks):
    return flat(length(chunks), close_k(lambda k: elem(chunks, k)))


def close_k(f):
    k = fresh('k')
    k.nn = True
    return close([k], f(k))


def joined(chunks):
    """the samples of a chunk list, or None when it is not a list of chunks of something"""
    if chunks.op == 'chunks':
        return chunks.a[0]
    return flatten(chunks)


def bounded(chunks):
    """largest possible chunk of a list cut from a slice, or None"""
    if chunks.op == 'chunks' and chunks.a[1].op == 'i':
        return chunks.a[1].a[0]
    return None


def add_sample(P, R):
    w = judge.struct(P, W, 'w')
    x = judge.tysym('x', ('float', 'f64'))
    st = interp.new_state()
    root = ('C', 990001)
    st.r[root] = w
    ev = judge.Ev(P)
    b = ev.fnbody(API + 'add_sample')
    r, st = ev.run(b, [mk('ptr', root), x], {}, st)
    for k in ev.inlined:
        R.saw(pretty(P.bodies[k]))
    w2 = st.r[root]
    old, new = fieldof(P, w, 'chunks'), fieldof(P, w2, 'chunks')
    n = length(old)
    judge.same(R, 'add: count', fieldof(P, w2, 'sample_count'), add(fieldof(P, w, 'sample_count'), I(1)), 'sample count after adding one')
    holds(R, 'add: never fails', st.r[judge.OKR], 'adding a sample does not panic')
    k = fresh('k')
    k.nn = True
    for y, c in judge.paths(new):
        R.count('ways of adding a sample')
        y = restrict(y, c)
        d = length(y)
        empty = implied(c, lt(n, I(1)))
        if implied(c, eqi(d, add(n, I(1)))):
            judge.same(R, 'add: new chunk', restrict(elem(y, n), c), cat(one(x)), 'content of a new last chunk', c)
            c2 = c.assume(lt(k, n))
            if c2 is not None:
                judge.same(R, 'add: keeps chunks', restrict(elem(y, k), c2), elem(old, k), 'earlier chunks', c2)
        elif implied(c, eqi(d, n)):
            last = elem(old, sub(n, I(1)))
            decide(R, 'add: into a chunk', implied(c, lt(I(0), n)), 'a sample is put into a chunk when there is none', y)
            judge.same(R, 'add: last chunk', restrict(elem(y, sub(n, I(1))), c), cat(last, one(x)), 'content of the last chunk', c)
            c2 = c.assume(lt(k, sub(n, I(1))))
            if c2 is not None:
                judge.same(R, 'add: keeps chunks', restrict(elem(y, k), c2), elem(old, k), 'earlier chunks', c2)
            decide(R, 'add: chunk size', implied(c, lt(length(last), I(MAXC))), 'a chunk can grow beyond %d samples, when %s' % (MAXC, cshow(c)[:300]), y)
        else:
            decide(R, 'add: chunks', False, 'chunk list after adding a sample is %s' % show(y)[:300], y)
    # an empty container
    r, st = judge.Ev(P).ecall(API + 'new')
    judge.same(R, 'new: empty', fieldof(P, r, 'chunks'), cat(), 'chunks of a new container')
    judge.same(R, 'new: count', fieldof(P, r, 'sample_count'), I(0), 'sample count of a new container')
    r, st = judge.Ev(P).ecall('wavbrro::WavBrro::get_samples', w)
    judge.same(R, 'get: all chunks in order', r, flatten(old), 'samples of a container')
    holds(R, 'get: never fails', st.r[judge.OKR], 'reading the samples does not panic')


def container(P, R, key, w, data, c=t.EMPTY):
    """the struct w holds data"""
    ch = restrict(fieldof(P, w, 'chunks'), c)
    if any(s.op == 'fold' for s in subterms(w)):
        # built by a loop that was not summarised: the step is judged by the rule on adding a sample
        R.undecided(key + ' content', 'built by a loop: ' + show(ch)[:200])
        return
    judge.same(R, key + ' content', joined(ch), data, 'samples in the container', c)
    b = bounded(ch)
    if b is None:
        k = fresh('k')
        k.nn = True
        c2 = c.assume(lt(k, length(ch)))
        if c2 is not None:
            l = restrict(length(elem(ch, k)), c2)
            if implied(c2, le(l, I(MAXC))):
                R.proved(key + ' chunk size')
            else:
                R.undecided(key + ' chunk size', show(l)[:200])
    else:
        decide(R, key + ' chunk size', 1 <= b <= MAXC, 'chunks of up to %d samples' % b, ch)
    n = restrict(fieldof(P, w, 'sample_count'), c)
    want = length(data)
    if n.op == 'icast' and n.a[0] in ('u32', 'u64', 'usize') and n.a[1] is want:
        n = want
    judge.same(R, key + ' count', n, want, 'sample count in the container', c)


def header(R, key, seg, c):
    bs = [restrict(elem(seg, I(i)), c) for i in range(HEAD)]
    for i, ch in MARK.items():
        judge.same(R, '%s mark %d' % (key, i), bs[i], I(ord(ch)), 'byte %d of the file' % i, c)


def emission(P, R, key, st, path, want):
    """every normal path writes header and serialised container; want(struct, ctx) judges the container"""
    n = 0
    for w, v, c in effects.normal(st):
        tr = effects.items(w, c)
        segs = effects.written(tr, path)
        if segs is None:
            if not [x for x, _ in tr if x.a[0] in effects.CREATE]:
                decide(R, key + ' written', False, 'a path ends normally without writing the file', *c.d)
            else:
                R.undecided(key, 'writes of the file are not understood')
            continue
        lay = effects.layout([(o, restrict(x, c)) for o, x in segs])
        if lay is None:
            decide(R, key + ' contiguous', False, 'segments at offsets %s do not follow each other' % ', '.join(
                '%s+%s' % (show(o), show(length(x))) for o, x in segs), *[o for o, _ in segs])
            continue
        R.proved(key + ' contiguous')
        n += 1
        R.count('emissions')
        header(R, key, lay, c)
        body = slice_(lay, I(HEAD), length(lay))
        if body.op == 'fld' and body.a[0].op == 'call' and body.a[0].a[0] == 'rkyv::to_bytes':
            R.proved(key + ' body')
            want(body.a[0].a[2], c)
        else:
            decide(R, key + ' body', False, 'after the header follows %s instead of the serialised container' % show(body)[:200], body)
    return n


def writing(P, R):
    path = judge.tysym('path', ('adt', 'std::path::Path', ()))
    data = judge.tysym('data', ('slice', ('float', 'f64')))
    ev = effects.evaluator(P, {})
    r, st = ev.run(ev.fnbody(API + 'to_file_with_data'), [path, data], {}, interp.new_state())
    for k in ev.inlined:
        R.saw(pretty(P.bodies[k]))
    emission(P, R, 'to_file_with_data', st, path, lambda w, c: container(P, R, 'to_file_with_data', w, data, c))
    w0 = judge.struct(P, W, 'w')
    ev = effects.evaluator(P, {})
    r, st = ev.run(ev.fnbody(API + 'to_file'), [w0, path], {}, interp.new_state())

    def eq(w, c):
        for i, f in enumerate(P.adts[W]['variants'][0]['f']):
            judge.same(R, 'to_file ' + f['n'], fld(w, 0, i), fld(w0, 0, i), 'serialised field ' + f['n'], c)
    emission(P, R, 'to_file', st, path, eq)
    R.floor('emissions', 2)


def other_tests(path, c):
    """path knowledge about the content of the file other than comparisons of single bytes"""
    out = []
    for s, lab in c.d.items():
        if s.op == 'disc':
            continue
        if s.op == 'eq0' and len(t._lin(s.a[0])[1]) == 1 and effects.file_byte(next(iter(t._lin(s.a[0])[1]))):
            continue
        if any(effects.file_bytes(x) is not None for x in subterms(s)):
            out.append(s)
    return out


def reading(P, R):
    path = judge.tysym('path', ('adt', 'std::path::Path', ()))
    ev = effects.evaluator(P, {})
    r, st = ev.run(ev.fnbody(API + 'from_file'), [path], {}, interp.new_state())
    for k in ev.inlined:
        R.saw(pretty(P.bodies[k]))
    for w, v, c in effects.normal(st, r):
        kb = effects.known_bytes(c)
        v = restrict(v, c)
        if v.op == 'adt' and v.a[1] == 0:
            R.count('accepting paths')
            odd = other_tests(path, c)
            if odd:
                R.undecided('accept: marks', 'a test of the file that is not a comparison of bytes: ' + show(odd[0])[:200])
            for i, ch in MARK.items():
                got = kb.get((path, i))
                if got is None and odd:
                    continue
                decide(R, 'accept: mark %d' % i, got == (ord(ch), True), 'a file is accepted although byte %d was %s' % (
                    i, 'not checked' if got is None else 'compared with %r' % chr(got[0] & 255)), *c.d)
            val = v.a[2]
            srcs = {s for s in subterms(val) if s.op == 'call' and s.a[0] == 'rkyv::from_bytes'}
            if len(srcs) != 1:
                decide(R, 'accept: content', False, 'the samples are %s' % show(val)[:200], val)
                continue
            src, = srcs
            obj = fld(src, 0, 0)
            judge.same(R, 'accept: samples', val, flatten(fieldof(P, obj, 'chunks')), 'samples of a read file', c)
            fb = effects.file_bytes(src.a[2])
            if fb is None:
                R.undecided('accept: bytes', show(src.a[2])[:200])
            else:
                decide(R, 'accept: bytes', fb[0] is path and fb[1] is I(HEAD) and fb[2] is None,
                       'the container is decoded from offset %s%s' % (show(fb[1]), '' if fb[2] is None else ' with length ' + show(fb[2])), fb[1])
            bad = [s for s, lab in c.d.items() if s.op == 'disc' and lab == 1 and s.a[0].op == 'call' and 'Result' in str(s.a[0].a[1])]
            decide(R, 'accept: reads', not bad, 'a file is accepted although %s failed' % ', '.join(show(s.a[0])[:80] for s in bad), *c.d)
        elif v.op == 'adt' and v.a[1] == 1:
            # a refusal needs a reason: a mark that differs or an operation that failed
            R.count('refusing paths')
            why = [i for i, ch in MARK.items() if kb.get((path, i)) and (kb[(path, i)][0] == ord(ch)) != kb[(path, i)][1]]
            why += [s for s, lab in c.d.items() if s.op == 'disc' and lab == 1]
            if why:
                R.proved('refuse')
            elif other_tests(path, c):
                R.undecided('refuse', 'a test of the file that is not a comparison of bytes')
            else:
                decide(R, 'refuse', False, 'a file with both marks is refused, when ' + cshow(c)[:300], *c.d)
    R.floor('accepting paths', 1)


def run(P, R):
    R.rule('Rule: normal forms of the container operations. Adding appends to the last chunk only when it has fewer than 2048 samples or opens a chunk, and '
           'counts one; building from a slice is the chunking of exactly that slice; the samples are all chunks in order; every emission is the 12 byte header '
           'with both marks followed directly by the serialised container; reading accepts only with all eight mark bytes compared and all operations '
           'successful, decodes exactly the bytes from offset 12 to the end and returns all chunks in order.')
    R.assume.append('rkyv serialisation round-trips a container; validation is part of rkyv::from_bytes; a container has fewer than 2^32 samples')
    attempt(R, 'add', lambda: add_sample(P, R))
    attempt(R, 'write', lambda: writing(P, R))
    attempt(R, 'read', lambda: reading(P, R))
