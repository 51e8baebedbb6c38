"""S26: compressing a frame of finite samples and decompressing it never stops with a panic."""
import itertools, os, pickle, signal, time
import codec
import frames
import judge
import term as t
from judge import *
from codec import Codecs
from rules.s08 import counts

DEBUG = os.environ.get('ATSC_TIMES')
T0 = time.time()
POP = 'std::collections::BinaryHeap::pop'
SIZES = tuple(range(1, 13)) + (14, 19, 20, 33, 50, 99, 100, 127, 128, 129, 150, 200, 255, 256, 257, 300, 399, 400, 401, 500, 1000)


def whole(x):
    """whole numbers of at most 2^53 survive a float, those on their way into payloads their storage type (S21)"""
    x = counts(x)
    for _ in range(4):
        m = {}
        for s in subterms(x):
            if s.op == 'f2i' and s.a[0] == 'usize' and s.a[1].op == 'i2f' and s.a[1].a[0] == 'f64':
                m[s] = s.a[1].a[1]
            elif s.op == 'icast':
                m[s] = s.a[1]
        if not m:
            break
        x = subst(x, m)
    return x


def strides(x, c):
    """b < ceil(n / a) gives a * b < n"""
    m = {}
    for s in subterms(x):
        if s.op == 'ge0':
            k, mm = t._lin(s.a[0])
            neg = [y for y, q in mm.items() if q == -1 and y.op == 'mul']
            pos = [y for y, q in mm.items() if q == 1]
            if k == -1 and len(mm) == 2 and len(neg) == len(pos) == 1:
                for a, b in (neg[0].a, neg[0].a[::-1]):
                    if judge.prune(lt(b, mk('cdiv', pos[0], a)), c) is TRUE:
                        m[s] = TRUE
    return judge.prune(subst(x, m), c) if m else x


def popped(x, c):
    """values with the items taken from a heap replaced by arbitrary items of what was put in: -> [(value, context)]"""
    for s in subterms(x):
        if s.op == 'fld' and s.a[0].op == 'call' and s.a[0].a[0] == POP and s.a[1:] == (1, 0):
            h = s.a[0].a[2]
            while h.op == 'fold' and h.a[2].a[-1].op == 'out' and h.a[2].a[-1].a[0] == POP:
                h = h.a[0]
            out = []
            for l, q in judge.paths(h, c):
                if l.op != 'heap':
                    return [(x, c)]
                k = fresh('k')
                k.nn = True
                q2 = q.assume(lt(k, length(l.a[0])))
                if q2 is not None:
                    out += popped(subst(whole(x), {s: elem(l.a[0], k)}), q2)
            return out
    return [(x, c)]


def moved(c, m):
    """path knowledge under a substitution"""
    r = t.EMPTY
    for s, lab in c.d.items():
        w = subst(s, m)
        r = r and (r.assume(w if lab else Not(w)) if t.arity(w) == 2 else r.add(w, lab))
    return r


def rounds(l, c, loops):
    """the goal with what follows from how often the loops ran: a loop that ran had its continuation condition true in the last round; -> [(goal, context)]"""
    c = codec.never_ran(c, loops)
    if c is None:
        return []
    out = [(l, c)]
    for s, lab in list(c.d.items()):
        if s.op == 'eq0' and lab == 0 and s.a[0] in loops:
            lp = s.a[0]
            last = open_(loops[lp].a[0], add(lp, I(-1)))
            nxt = []
            for g, q in out:
                if judge.prune(g, q) is TRUE:
                    continue
                for v, q2 in judge.paths(judge.prune(last, q), q):
                    q2 = q2 if v is TRUE else q2.assume(v) if v is not FALSE and t.arity(v) == 2 else None if v is FALSE else q2
                    if q2 is not None:
                        h = g
                        if judge.prune(eqi(lp, I(1)), q2) is TRUE:
                            h, q2 = subst(g, {lp: I(1)}), moved(q2, {lp: I(1)})
                        if q2 is not None:
                            nxt.append((judge.prune(h, q2), q2))
            out = nxt
    return out


def cases(c, facts):
    """the ways in which facts can hold"""
    out = [c]
    for s, lab in facts:
        if s.op == 'sw' and t.arity(s) == 2:
            nxt = []
            for q in out:
                w = judge.prune(s if lab else Not(s), q)
                if w.op != 'sw' or len(out) > 64:
                    q = q.assume(w)
                    nxt += [q] if q is not None else []
                    continue
                for v, q2 in judge.paths(w, q):
                    q2 = q2.assume(v)
                    nxt += [q2] if q2 is not None else []
            out = nxt
    return out


class Panics:
    def __init__(self, P, R, C=None):
        self.P, self.R, self.C = P, R, C
        self.pos = None

    def bounded(self, x, c):
        """a selected position counts at most as the last of what it was selected from: what holds then holds for it"""
        m = {}
        for s in subterms(x):
            if s.op == 'ge0' and self.pos is not None:
                k, mm = t._lin(s.a[0])
                w = {y: add(length(y.a[0].a[0].a[2]), I(-1)) for y, q in mm.items() if q < 0 and self.selected(y)}
                if w and judge.prune(ge0(subst(s.a[0], w)), c) is TRUE:
                    m[s] = TRUE
                # positions are unsigned
                y = next(iter(mm), None)
                if k == -1 and len(mm) == 1 and mm[y] == 1 and self.selected(y) and judge.prune(eqi(y, I(0)), c) is FALSE:
                    m[s] = TRUE
        return judge.prune(subst(x, m), c) if m else x

    def selected(self, s):
        return s.op == 'fld' and s.a[1:] == (0, self.pos) and s.a[0].op == 'elem' and s.a[0].a[0].op == 'call' and s.a[0].a[0].a[0] == '~' + TRIM

    def follows(self, d):
        """does the path imply what the code demands"""
        x, loops = codec.free_loops(whole(d.cond))
        m = {y: v for v, y in loops.items()}
        facts = [(subst(whole(s), m), lab) for s, lab in d.facts]

        def given(c, pruned):
            for s, lab in facts:
                if c is not None:
                    w = judge.prune(s, c) if pruned else s
                    c = c.assume(w if lab else Not(w)) if t.arity(s) == 2 else c.add(s, lab)
            return c
        c = given(t.EMPTY, False)
        if c is None:
            return True
        for l, q in judge.paths(x, c):
            # what was known there, on this path
            q = given(q, True)
            if q is None:
                continue
            l = self.bounded(strides(judge.prune(l, q), q), q)
            if l is TRUE:
                continue
            for v, q2 in rounds(l, q, loops) if loops else [(l, q)]:
                if not self.settled(v, q2) and not all(self.settled(judge.prune(v, q3), q3) for q3 in cases(q2, facts)):
                    return False
        return True

    def settled(self, l, q):
        for v, q2 in popped(l, q):
            v = whole(judge.prune(v, q2))
            for l2, q3 in judge.paths(v, q2):
                if self.bounded(strides(judge.prune(l2, q3), q3), q3) is not TRUE:
                    return False
        return True

    def fails(self, d, data, ranges):
        """samples (a pattern, their number) for which the path is taken and the demand is not met, by constant folding; None when not found"""
        if data is None:
            return None
        known = list(dict.fromkeys(d.facts + d.gates))
        full, labels, unknown, spectral = [d.cond, *[s for s, _ in known]], [lab for _, lab in known], [], False
        if any(s.op == 'fftp' or s.op == 'call' and s.a[0] == '~' + TRIM for x in full for s in subterms(x)):
            full, unknown, spectral = ramp(full, self.selected)
        full = [opened(s) for s in full]
        free = sorted({s for x in full for s in subterms(x) if s.op in ('sym', 'var', 'fresh') and s is not data and s not in unknown and not s.bm}, key=lambda s: s.id)
        sy = [s for s in free if s not in ranges]
        rs = [s for s in free if s in ranges]
        if len(sy) > 1 or any(not any(q < 0 and y is s for x in full[1:] for u in subterms(x) if u.op == 'ge0' for y, q in t._lin(u.a[0])[1].items()) for s in sy):
            return None         # an index that nothing bounds
        # the quickly refuted first
        facts = sorted(zip(labels, full[1:]), key=lambda f: (any(s.op in ('fold', 'psum', 'trip') for s in subterms(f[1])), sum(1 for _ in subterms(f[1]))))
        stop = time.time() + 15
        for z in SIZES if not spectral else range(4, 128):
            if time.time() > stop:
                return None
            for name, lam in patterns()[1:] if spectral else patterns():
                for kv in ([0, 1, 2, z - 2, z - 1, z] if sy else [0]):
                    if kv < 0:
                        continue
                    for vs in itertools.product(*[ranges[s] for s in rs]):
                        m = {data: gen(I(z), lam)}
                        m.update(zip(rs, vs))
                        for s in sy:
                            m[s] = I(kv)
                        if judge.ground(subst(full[0], m), 1100) is not FALSE:
                            continue
                        for lab, x in facts:
                            w = judge.ground(subst(x, m), 1100)
                            if lab not in (0, 1) or w is not (TRUE if lab else FALSE):
                                break
                        else:
                            return z, name + ''.join(', %s = %s' % (show(s), show(v)) for s, v in zip(rs, vs))
        return None

    def check(self, key, e, data=None, ranges=None, worst=None):
        ranges = dict(ranges or {})
        if self.C is not None:
            ranges[self.C.bound] = (F(0.01),)
        self.R.count('demands', e.met + len(e.demands))
        self.R.count('demands met by the path as it is', e.met)
        if e.met:
            self.R.proved(key, '%d demands implied directly' % e.met)
        bad = 0
        for d in e.demands:
            what = '%s: %s' % (d.fn, d.what)
            if self.follows(d):
                self.R.proved(key + ' ' + what)
                continue
            bad += 1
            w = self.fails(d, data, ranges) if bad <= 6 else None
            if w is None and bad <= 6 and worst:
                w = self.fails(worst(d), data, ranges)
            if w:
                self.R.violated(key + ' ' + what, '%s panics (%s: needs %s) for %d samples (%s)' % (d.fn, d.what, show(whole(d.cond))[:300], w[0], w[1]))
            else:
                self.R.undecided(key + ' ' + what, 'not shown to hold: %s' % show(d.cond)[:200])
        for note in set(e.notes):
            if 'not tracked' in note:
                self.R.undecided(key, note)


def opened(v):
    """opaque functions replaced by what they compute"""
    for _ in range(6):
        m = {s: subst(codec.BODY[s.a[0]][1], dict(zip(codec.BODY[s.a[0]][0], s.a[2:]))) for s in subterms(v) if s.op == 'call' and s.a[0] in codec.BODY}
        if not m:
            break
        v = subst(v, m)
    return v


def patterns():
    k = fresh('k')
    k.nn = True
    return [('all equal', close([k], F(5.0))), ('rising', close([k], fbin('fadd', i2f(k, None, 'f64'), F(0.5)))),
            ('falling', close([k], fbin('fsub', F(0.5), i2f(k, None, 'f64'))))]


def ramp(full, selected):
    """the three biggest frequencies of a ramp of up to 127 samples are the first three, in this order; other values of the spectrum stay unknown"""
    m, unknown = {}, []
    for x in full:
        for s in subterms(x):
            if s in m or s.bm:
                continue
            trim = s.a[0].a[0] if selected(s) else s.a[0] if s.op == 'len' and s.a[0].op == 'call' and s.a[0].a[0] == '~' + TRIM else None
            if trim is not None and not any(u.op == 'call' and u.a[0] == '~next' for u in subterms(trim)):
                v = s.a[0].a[1] if s.op == 'fld' else I(3)
                unknown.append(fresh('spectrum'))
                m[s] = switch(And(And(le(I(3), trim.a[3]), le(I(3), length(trim.a[2]))), lt(v, I(3)) if s.op == 'fld' else TRUE), (unknown[-1], v))
    full = [subst(x, m) for x in full]
    m = {}
    for x in full:
        for s in subterms(x):
            if s.op == 'call' and (s.a[0] == '~' + TRIM or '~' + codec.ERROR == s.a[0]) and s not in m:
                m[s] = fresh('spectrum')
                unknown.append(m[s])
    return [subst(x, m) for x in full], unknown, True


def strict(e):
    e.demands = []
    t.GATES = []
    return e


TRIM = codec.FFT + '::fft_trim'


def members(v, c):
    """the elements of a list, each with path knowledge"""
    if v.op == 'sw':
        # an element of any of the alternatives
        return [y for l in set(leaves(v)) for y in members(l, c)]
    if v.op == 'cat':
        return [y for x in v.a for y in members(x, c)]
    if v.op == 'one':
        return [(v.a[0], c)]
    if v.op in ('gen', 'flat'):
        i = fresh('i')
        i.nn = True
        x = open_(v.a[1], i)
        return members(x, c) if v.op == 'flat' else [(x, c)]
    k = fresh('k')
    k.nn = True
    c2 = c.assume(lt(k, length(v)))
    return [(elem(v, k), c2)] if c2 is not None else []


def positions(P, R, C):
    """does the selection of frequencies keep each position below the length of what it selects from; -> index of the position in a frequency"""
    sm = C.sum[TRIM]
    R.saw(sm.name)
    buf = sm.inputs[0][1]
    ix = next(j for j, f in enumerate(P.adts['atsc::compressor::fft::FrequencyPoint']['variants'][0]['f']) if f['t'][0] == 'uint')
    ok = True
    for x, c in members(sm.ret, t.EMPTY.assume(le(I(1), length(buf)))):
        for v, c2 in popped(fld(x, 0, ix), c):
            ok = ok and judge.prune(lt(whole(judge.prune(v, c2)), length(buf)), c2) is TRUE
    if ok:
        R.proved('selected positions', 'below the number of frequencies')
        return ix
    R.undecided('selected positions', 'not shown to be below the number of frequencies')
    return None


RECONSTRUCT = (codec.POLY + '::polynomial_to_data', codec.POLY + '::idw_to_data', codec.FFT + '::round')


def strictly(C):
    """the runs of C are strict; -> list of their evaluators"""
    made, plain = [], C.ev

    def ev(depth):
        made.append(strict(plain(depth)))
        return made[-1]
    C.ev = ev
    return made


def codecs(P, R):
    # what the search measures does not matter to what it does next: the reconstruction inside is followed when it decodes
    C, D = Codecs(P, R, opaque=(TRIM,)), Codecs(P, R, opaque=RECONSTRUCT + (TRIM,))
    D.data, D.bound, D.n, D.some = C.data, C.bound, C.n, C.some
    pan = Panics(P, R, C)
    pan.pos = judge.attempt(R, 'selected positions', lambda: positions(P, R, C))
    runs, searches = strictly(C), strictly(D)

    def entry(nm, di, mode):
        key = '%s at %s by %s' % (nm, C.depths[di], mode)
        X, made = (D, searches) if mode == 'bounded' else (C, runs)
        pay = X.payload(nm, di, mode == 'bounded')
        if all(l is BOT for l in leaves(pay)):
            return          # the selection itself is no codec
        R.count('codec entries')
        pan.check(key, made[-1], C.data)
        C.decode(nm, pay, di)
        R.count('codec entries')
        pan.check(key + ' decoded', runs[-1], C.data)
    for nm in C.names:
        for mode in ('compress', 'bounded'):
            # the search does not depend on the width
            for di in range(1 if mode == 'bounded' and nm in ('FFT', 'Polynomial', 'Idw') else len(C.depths)):
                yield nm, mode, lambda nm=nm, mode=mode, di=di: judge.attempt(R, '%s at %s by %s' % (nm, C.depths[di], mode), lambda: entry(nm, di, mode))


def apart(R, jobs):
    """each group of jobs in a process of its own: the terms of one are of no use to the others"""
    groups = {}
    for nm, mode, job in jobs:
        groups.setdefault((nm, mode), []).append(job)
    left = int(max(10, float(os.environ.get('ATSC_BUDGET', '780')) - (time.time() - R.t0) - 15))
    running = []
    for g, js in groups.items():
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                signal.alarm(left)
                os.close(r)
                R.obl, R.counts, R.analysed = [], {}, set()
                for j in js:
                    j()
                with os.fdopen(w, 'wb') as f:
                    pickle.dump((R.obl, R.counts, R.analysed), f)
            finally:
                os._exit(0)
        os.close(w)
        running.append((g, pid, r))
    for g, pid, r in running:
        with os.fdopen(r, 'rb') as f:
            d = f.read()
        os.waitpid(pid, 0)
        try:
            obl, counts_, analysed = pickle.loads(d)
        except Exception:
            R.undecided('%s by %s' % g, 'not interpreted within the time and memory set aside')
            continue
        R.obl += obl
        for k, n in counts_.items():
            R.count(k, n)
        R.analysed |= analysed
        if DEBUG:
            print(g, round(time.time() - T0, 1))


def run(P, R):
    R.rule('Rule: every place where the code stops unless a condition holds (index and slice bounds, subtraction below zero, 8 and 16 bit arithmetic, '
           'division by zero, unwrap, panic) that is reached from the codec entries on arbitrary samples, and from their decoders on the resulting payloads, is an '
           'obligation: the path condition there, with loop counters as closed forms, implies the condition.')
    R.assume += ['frames have 1 to 131072 finite samples: S05', 'arithmetic wider than 16 bits does not overflow upwards', 'integers fit their storage types: S21',
                 'rustfft, splines and inverse_distance_weight do not panic',
                 'reconstructions have as many samples as the frame where they are measured: S04, S08']
    P.get('compressor::Compressor::compress')
    judge.attempt(R, 'codecs', lambda: apart(R, codecs(P, R)))
    judge.attempt(R, 'statistics', lambda: statistics(P, R))
    judge.attempt(R, TRIM, lambda: helper(P, R, TRIM, lambda buf, n: t.EMPTY.assume(le(I(1), length(buf))).assume(le(I(1), n))))
    judge.attempt(R, codec.ERROR, lambda: helper(P, R, codec.ERROR, lambda x, y: t.EMPTY.assume(le(I(1), length(x))).assume(eqi(length(x), length(y)))))
    for fn in ('compress', 'compress_bounded', 'compress_best'):
        judge.attempt(R, 'frame by ' + fn, lambda: builders(P, R, fn))
    R.floor('codec entries', 50)
    R.floor('demands', 200)


def statistics(P, R):
    e = strict(judge.Ev(P))
    b = P.get(codec.STATS + '::new')
    data = judge.tysym('data', ('slice', ('float', 'f64')))
    st = interp.new_state()
    st.ctx = t.EMPTY.assume(le(I(1), length(data)))
    e.run(b, [data], {}, st)
    R.saw(pretty(b))
    R.count('codec entries')
    Panics(P, R).check('statistics', e, data)


def helper(P, R, path, given):
    """a function that is opaque elsewhere, on arbitrary arguments for which given holds"""
    b = P.get(path)
    e, st = strict(judge.Ev(P)), interp.new_state()
    syms, args = [], []
    for i in range(1, b.nargs + 1):
        v = judge.tysym('arg%d' % i, judge.strip_ref(b.lty[i]))
        syms.append(v)
        args.append(e.cell(st, v, ('arg', i)) if b.lty[i][0] == 'ref' and b.lty[i][2] else v)
    st.ctx = given(*syms)
    e.run(b, args, {}, st)
    R.saw(pretty(b))
    R.count('codec entries')
    Panics(P, R).check(pretty(b), e, syms[0])


class Worst:
    def __init__(self, cond, facts, gates):
        self.cond, self.facts, self.gates = cond, facts, gates


def builders(P, R, fn):
    """frame builders with the codecs opaque"""
    import frames
    some = {v: i for i, v in enumerate(judge.variants(P, frames.CP))}
    comp = adt(frames.CP, some['Auto']) if fn == 'compress_best' else judge.tysym('codec', ('adt', frames.CP, ()))
    old = judge.Ev
    made, bound, samples = [], [], []

    def ev(*a, **k):
        made.append(strict(old(*a, **k)))
        return made[-1]
    def given(c, data, args):
        c = c.assume(le(I(1), length(data)))
        bound[:], samples[:] = args[:2], [data]
        if fn == 'compress_best':
            # the levels of --compression-selection-sample-level
            c = c.assume(lt(args[1], I(7)))
        return c
    judge.Ev = ev
    try:
        from rules import s04
        frames.build(P, R, fn, s04.Some(comp), given=given)
    finally:
        judge.Ev = old
    x = exact(P, R)

    def worst(d):
        # a bound of zero, and samples with more decimals than the lossy codecs keep
        lossy = [adt(frames.CP, some[n]) for n in ('FFT', 'Polynomial', 'Idw')]
        res = {s: F(1e-7) for f in (d.cond, *[s for s, _ in d.facts]) for s in subterms(f)
               if x is not None and s.op == 'fld' and s.a[0].op == 'call' and s.a[0].a[0] == frames.OPAQUE['results'] and s.a[2] == x and any(c in s.a[0].a for c in lossy)}

        def at(f):
            return subst(subst(f, res), {bound[0]: F(0.0)})
        return Worst(at(d.cond), [(at(s), lab) for s, lab in d.facts], [(at(s), lab) for s, lab in d.gates])
    for d in made[-1].demands:
        res = {s for f in (d.cond, *[s for s, _ in d.facts]) for s in subterms(f) if s.op == 'fld' and s.a[0].op == 'call' and s.a[0].a[0] == frames.OPAQUE['results']}
        m = {s: F(0.0) for s in res if x is not None and s.a[2] == x and adt(frames.CP, some['RLE']) in s.a[0].a}
        # bounds are not negative
        d.cond = subst(d.cond, m)
        d.cond = subst(d.cond, {s: TRUE for s in subterms(d.cond) if s.op == 'fle' and s.a[0] is F(0.0) and bound and (s.a[1] is bound[0] or s.a[1].op == 'f2f' and s.a[1].a[-1] is bound[0])})
    ranges = {v: (F(0.05),) for v in bound[:1]}
    ranges.update({v: tuple(I(k) for k in range(7)) for v in bound[1:2]})
    Panics(P, R).check('frame by ' + fn, made[-1], samples[0], ranges, worst if fn == 'compress_best' else None)


def exact(P, R):
    """RLE reports no error on any samples; -> index of the error in a result"""
    C = Codecs(P, R)
    r, st = C.run('compressor::Compressor::get_compress_bounded_results', [C.codec('RLE'), C.data, C.bound], 0)
    ix = [i for i, f in enumerate(P.adts['atsc::compressor::CompressorResult']['variants'][0]['f']) if f['t'] == ['float', 'f64'] or tuple(f['t']) == ('float', 'f64')]
    if len(ix) == 1 and fld(r, 0, ix[0]) is F(0.0):
        return ix[0]
