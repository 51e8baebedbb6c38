"""S24: the WAV converter joins the channels of each group in order and keeps every value that is not NaN."""
import effects
import judge
import models
import term as t
import textfile
from judge import *
from rules import s23

SAMPLES = ('hound::WavReader::samples', 'hound::WavReader::into_samples')
ALLOW = ('hound::', 'std::fs::', 'std::io::', 'clap::', 'core::str::', 'std::path::', 'container', 'env_logger::', 'log::', 'std::io::_print')


def calls(v, names):
    return {s for s in subterms(v) if s.op == 'call' and s.a[0] in names}


# ------------------------------------------------------------------ joined bits
def width(x):
    """(largest value, trailing zero bits) of a non-negative integer term, or None"""
    if x.op == 'i':
        n = x.a[0]
        if n < 0:
            return None
        return n, (n & -n).bit_length() - 1 if n else 64
    if x.op == 'icast' and x.a[0] in ('u8', 'u16', 'u32'):
        return (1 << int(x.a[0][1:])) - 1, 0
    if x.op == 'lin':
        c, m = t._lin(x)
        top, tz = (c, (c & -c).bit_length() - 1 if c else 64)
        if c < 0:
            return None
        for y, k in m.items():
            w = width(y)
            if w is None or k <= 0:
                return None
            top += w[0] * k
            tz = min(tz, w[1] + (k & -k).bit_length() - 1)
        return top, tz
    return None


def joined(v):
    """or of values without common bits is their sum"""
    for _ in range(50):
        bs = sorted((s for s in subterms(v) if s.op in ('bitor', 'bitxor')), key=lambda s: s.id)
        m = {}
        for s in bs:
            if any(q is not s and q.op in ('bitor', 'bitxor') for q in subterms(s)):
                continue
            xs = [x for x in s.a if type(x) is T]
            if any(x.op == 'sw' for x in xs):
                continue
            ws = [width(x) for x in xs]
            if any(w is None for w in ws):
                continue
            if all(w1[0] < 1 << w2[1] or w2[0] < 1 << w1[1] for i, w1 in enumerate(ws) for w2 in ws[:i]):
                y = I(0)
                for x in xs:
                    y = add(y, x)
                m[s] = y
        if not m:
            return v
        v = subst(v, m)
    return v


# ------------------------------------------------------------------ recurrences over whole groups
class Groups:
    """recurrences of the loop over single samples at position C*j + r: the state at the start of a group is inferred as the
    part of the initial state that a whole group reproduces (the rest is arbitrary)"""

    def __init__(self, C, j):
        self.C, self.j = C, j
        self.memo = {}

    def offset(self, n):
        d = sub(n, mul(I(self.C), self.j))
        return d.a[0] if d.op == 'i' and d.a[0] >= 0 else None

    def step(self, f, s, x):
        return self.reduce(open_(f.a[2], add(mul(I(self.C), self.j), I(s)), x))

    def base(self, f):
        key = (f.a[0], f.a[2])
        if key not in self.memo:
            init = f.a[0]
            self.memo[key] = self.find(f, init)
        return self.memo[key]

    def find(self, f, init):
        cur = init
        for _ in range(8):
            x = cur
            for s in range(self.C):
                x = self.step(f, s, x)
            if x is cur:
                return cur
            if cur.op == 'cat' and all(p.op == 'one' for p in cur.a):
                ln = length(x)
                if ln is not I(len(cur.a)):
                    raise interp.Unsupported('state of the loop')
                parts = []
                moved = False
                for i, p in enumerate(cur.a):
                    e = self.reduce(elem(x, I(i)))
                    if e is p.a[0] or p.a[0].op == 'var':
                        parts.append(p)
                    else:
                        parts.append(one(fresh('h')))
                        moved = True
                if not moved:
                    return cur
                cur = cat(*parts)
                continue
            break
        raise interp.Unsupported('state of the loop at the start of a group')

    def reduce(self, v):
        for _ in range(60):
            fs = [s for s in subterms(v) if s.op == 'fold' and s.a[2].a[1] == 2 and self.offset(s.a[1]) is not None]
            if not fs:
                return v
            # the smallest offsets first
            fs.sort(key=lambda s: (self.offset(s.a[1]), s.id))
            f = fs[0]
            x = self.base(f)
            for s in range(self.offset(f.a[1])):
                x = self.step(f, s, x)
            v = subst(v, {f: x})
        raise interp.Unsupported('state of the loop')


def value(S, C, j):
    """the value of group j of samples S with C channels"""
    x = I(0)
    for q in range(C):
        smp = fld(elem(S, add(mul(I(C), j), I(q))), 0, 0)
        x = add(x, mul(I(65536 ** q), icast(smp, 'i16', 'u16')))
    return models.from_bits(x) if hasattr(models, 'from_bits') else mk('fbits', x)


def tidy(v, C):
    """groups of constant size and loops over the channels of one group, written out"""
    for _ in range(10):
        m = {}
        for s in subterms(v):
            if s.op == 'elem' and s.a[0].op == 'chunks' and s.a[0].a[1] is I(C):
                sl = s.a[0].a[0]
                n = length(sl)
                if t._whole(n, I(C)) is not None or C == 1 or (n.op == 'mul' and I(C) in n.a):
                    m[s] = cat(*[one(elem(sl, add(mul(I(C), s.a[1]), I(q)))) for q in range(C)])
            elif s.op == 'shl' and s.a[1].op == 'i' and 0 <= s.a[1].a[0] < 64:
                m[s] = mul(s.a[0], I(1 << s.a[1].a[0]))
        w = judge.unroll(subst(v, m) if m else v)
        if w is v:
            return v
        v = w
    return v


def unfinished(v):
    """something is left that the rule should have reduced"""
    for s in subterms(v):
        if s.op in ('fold', 'chunks', 'recn', 'any', 'first', 'psum', 'shl', 'shr', 'flat', 'gen', 'rem', 'div'):
            return s
    return None


def compare(R, key, got, want, what, c, C):
    got = joined(tidy(got, C))
    u = unfinished(got)
    if u is not None and got is not want:
        R.undecided(key, 'not reduced: ' + show(u)[:200])
        return
    judge.same(R, key, got, want, what, c, allow=ALLOW)


def content(R, seq, S, ch, c):
    """the container holds the joined value of every whole group, without NaN, in order"""
    n = length(S)
    for C in (1, 2, 3, 4):
        key = 'values %d channels' % C
        if ch is not None:
            x = subst(seq, {ch: I(C)})
        else:
            x = seq
        c2 = c
        if ch is not None:
            kn = {}
            cc = t.EMPTY
            for s, l in c.d.items():
                s2 = subst(s, {ch: I(C)})
                if s2.op == 'b' or s2.op == 'i':
                    continue
                if s2.op == 'sw':
                    cc = cc.assume(s2 if l else Not(s2)) if s2.b else cc
                else:
                    cc = cc.add(s2, l)
                if cc is None:
                    break
            if cc is None:
                continue
            c2 = cc
        x = restrict(x, c2)
        if x.op == 'cat' and not x.a:
            decide(R, key, False, 'nothing is written', x, allow=ALLOW)
            continue
        j = fresh('j')
        j.nn = True
        want = value(S, C, j)
        keep = ite(t.isnan(want), cat(), cat(one(want)))
        try:
            if x.op in ('flat', 'gen') and x.a[0] is n:
                for r in range(C):
                    g = Groups(C, j)
                    k = add(mul(I(C), j), I(r))
                    c3 = c2.assume(lt(k, n))
                    body = open_(x.a[1], k)
                    if x.op == 'gen':
                        body = cat(one(body))
                    body = restrict(g.reduce(body), c3)
                    R.count('positions in a group')
                    compare(R, key, body, keep if r == C - 1 else cat(), 'written after sample %d of a group' % r, c3, C)
            elif x.op in ('flat', 'gen') and (x.a[0] is divi(n, I(C)) or x.a[0] is t.cdiv(n, I(C)) and C > 1):
                if x.a[0] is not divi(n, I(C)):
                    decide(R, key, False, 'an incomplete last group is written', x, allow=ALLOW)
                    continue
                c3 = c2.assume(lt(j, x.a[0]))
                body = open_(x.a[1], j)
                if x.op == 'gen':
                    body = cat(one(body))
                body = restrict(body, c3)
                for r in range(C):
                    R.count('positions in a group')
                compare(R, key, body, keep, 'written for a group', c3, C)
            else:
                scenes(R, key, x, S, C, c2)
        except (interp.Unsupported, Blowup) as e:
            R.undecided(key, str(e)[:200])


def scenes(R, key, x, S, C, c):
    """files of up to three groups, folded to constants: refutes only"""
    for N in range(0, 3 * C + 1):
        es = [sym('s%d' % i) for i in range(N)]
        sub_ = {S: cat(*[one(adt('core::result::Result', 0, e)) for e in es])}
        try:
            y = subst(x, sub_)
            y = judge.unroll(y, 3 * C + 1)
            y = joined(tidy(y, C))
        except (interp.Unsupported, Blowup, RecursionError):
            break
        if unfinished(y) is not None or fuzzy(y, ALLOW) is not None:
            break
        want = cat()
        for j in range(N // C):
            v = value(cat(*[one(adt('core::result::Result', 0, e)) for e in es]), C, I(j))
            want = cat(want, ite(t.isnan(v), cat(), cat(one(v))))
        cc = t.EMPTY
        d = judge.diff(y, want, cc)
        if d is not None:
            decide(R, key, False, 'of %d samples is written %s instead of %s' % (N, show(d[0])[:200], show(d[1])[:200]), d[0], d[1], allow=ALLOW)
            return
    R.undecided(key, 'content ' + show(x)[:200])


def origin(p):
    """the path term a file name came from"""
    for _ in range(6):
        if p.op == 'fld' and p.a[0].op == 'call' and p.a[0].a[0] in ('std::path::Path::to_str', 'std::path::PathBuf::to_str'):
            p = p.a[0].a[2]
        elif p.op == 'call' and p.a[0] in ('std::path::Path::new',):
            p = p.a[-1]
        else:
            break
    return p


def target(R, p, inp):
    """the container file is the input with the extension wbro"""
    if p.op == 'withext':
        ok = origin(p.a[0]) is inp and p.a[1] is mk('str', 'wbro')
        decide(R, 'target', ok, 'written to %s' % show(p)[:200], p, allow=ALLOW)
        return
    try:
        xs = textfile.atoms(textfile.pieces_of(p))
    except (interp.Unsupported, AttributeError):
        R.undecided('target', show(p)[:200])
        return
    base, tail = None, b''
    for x in xs:
        if x.op == 'i':
            tail += bytes([x.a[0]])
        elif base is None and not tail:
            base = x.a[0] if x.op == 'disp' else x
        else:
            R.undecided('target', show(p)[:200])
            return
    if base is None:
        decide(R, 'target', False, 'written to %r' % tail, p, allow=ALLOW)
        return
    if base.op == 'fld' and base.a[0].op == 'call' and base.a[0].a[0] == 'core::str::strip_suffix':
        cut = base.a[0].a[3]
        src = origin(base.a[0].a[2])
        suf = cut.a[0].encode() if cut.op == 'str' else None
        ok = src is inp and suf in (b'wav', b'.wav') and suf[:-3] + b'wbro' == tail
        decide(R, 'target', ok, 'written to the input with %s replaced by %s' % (suf, tail), p, allow=ALLOW)
    else:
        decide(R, 'target', False, 'written to %s followed by %r' % (show(base)[:100], tail), p, allow=ALLOW)


def same_file(p, inp):
    return p is not None and origin(p) is inp


def run_main(P, R):
    A = s23.Abs(P)
    ev = effects.evaluator(P, {k: v for k, v in A.barriers().items() if 'WavBrro' in k})
    b = ev.fnbody('main', 'wav2wbro-bin')
    r, st = ev.run(b, [], {}, interp.new_state())
    for k in ev.inlined:
        R.saw(pretty(P.bodies[k]))
    fi = judge.field_index(P, 'bin:wav2wbro::Args', 'input')
    seen = False
    for w, _, c in effects.normal(st):
        R.count('paths')
        args = calls(tup(w, *c.d), ('clap::Parser::parse',))
        if len(args) != 1:
            R.undecided('options', '%d' % len(args))
            continue
        inp = fld(list(args)[0], 0, fi)
        tr = effects.items(w, c)
        wr = [i for i, (x, _) in enumerate(tr) if x.a[0] == 'container']
        other = [x.a[0] for x, _ in tr if x.a[0] in effects.CREATE or x.a[0] in effects.DESTROY]
        decide(R, 'only the container', not other, 'other outputs: %s' % ', '.join(map(str, other)))
        if len(wr) != 1:
            decide(R, 'written once', False, 'the container is written %d times' % len(wr), w, *c.d, allow=ALLOW)
            continue
        late = [x for x, _ in tr[wr[0]:] if x.a[0] == 'read']
        decide(R, 'read before written', not late, 'input is read after the container was written')
        e = tr[wr[0]][0]
        p, seq = restrict(e.a[1], c), restrict(e.a[2], c)
        target(R, p, inp)
        # the two marks were checked in the input
        kb = effects.known_bytes(c)
        got = {}
        for (f, o), (v, eq) in kb.items():
            if eq and same_file(f, inp):
                got[o] = v
        for o, v in list(enumerate(b'RIFF')) + list(enumerate(b'WAVE', 8)):
            decide(R, 'mark at %d' % o, got.get(o) == v, 'a file is converted without byte %d being checked' % o, *c.d, allow=ALLOW)
        # source of the samples
        S = calls(tup(seq, *c.d), SAMPLES)
        if len(S) != 1:
            decide(R, 'samples', False, 'the values come from %d readings' % len(S), seq, allow=ALLOW)
            continue
        S, = S
        R.count('conversions')
        decide(R, 'sample type', 'i16' in str(S.a[1]), 'samples are read as %s' % S.a[1], S, allow=ALLOW)
        op = calls(S, ('hound::WavReader::open',))
        decide(R, 'source', len(op) == 1 and same_file(list(op)[0].a[2], inp), 'samples are read from %s' % show(S.a[2])[:200], S, allow=ALLOW)
        sp = {s for s in subterms(tup(seq, *c.d)) if s.op == 'fld' and s.a[0].op == 'call' and s.a[0].a[0] == 'hound::WavReader::spec'}
        k = fresh('k')
        k.nn = True
        c2 = c.assume(lt(k, length(S)))
        bad = c2.add(mk('disc', elem(S, k), 2), 1) if c2 is not None else None
        for s, l in c.d.items():
            if bad is not None and s.op == 'any' and l == 0:
                e = restrict(open_(s.a[1], k), bad)
                if e is TRUE or implied(bad, e):
                    bad = None
        decide(R, 'unreadable sample', bad is None, 'a file is converted although a sample could not be read', *c.d, allow=ALLOW)
        chans = [s for s in sp if s.a[2] == channel_field(P)]
        if len(sp) > 1 or not chans:
            R.undecided('channels', 'number of channels comes from %s' % [show(s)[:80] for s in sp])
            continue
        content(R, seq, S, chans[0], c)


def channel_field(P):
    for k in P.adts:
        if k.startswith('hound::') and k.endswith('::WavSpec'):
            return judge.field_index(P, k, 'channels')
    return 0


def run(P, R):
    R.rule('Rule: normal form of the converter with the container as the sequence of its samples (S17). On every way that ends normally both marks of the '
           'input were compared with RIFF and WAVE, no sample was unreadable, and the container goes to the sibling file after the last read. For 1 to 4 '
           'channels the content is shown by induction over whole groups: the loop state at the start of a group is inferred, and for each position in a '
           'generic group what is appended is compared with the joined value (nothing before the last channel, nothing for NaN).')
    R.assume.append('hound yields the channel samples in file order; more than four channels stop the run by a bounds check')
    attempt(R, 'main', lambda: run_main(P, R))
    R.floor('conversions', 1)
    R.floor('positions in a group', 10)
