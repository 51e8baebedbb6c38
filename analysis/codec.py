"""The codecs: a payload is produced from arbitrary samples and fed to its decoder.

Helper functions on the way are replaced by summaries: what the analysis of the helper finds its results to depend on, as opaque functions of
exactly these inputs.  A summary is computed from the helper's own body on every run."""
import judge
import term as t
from judge import *

POLY = 'compressor::polynomial::Polynomial'
FFT = 'compressor::fft::FFT'
STATS = 'optimizer::utils::DataStats'
ERROR = 'utils::error::error_mape'
BD = 'atsc::optimizer::utils::Bitdepth'
PT = 'atsc::compressor::polynomial::PolynomialType'
CMP = 'atsc::compressor::Compressor'


BODY = {}       # name of an opaque function -> (inputs, what it computes)


class Summary:
    """what a function does to its result and to the things it borrows mutably"""

    def __init__(self, P, body, inner=None):
        self.name = pretty(body)
        self.P, self.body = P, body
        ev = judge.Ev(P, inner or {})
        st = interp.new_state()
        self.inputs = []      # (argument, field path, symbol)
        args = []
        self.mut = []
        self.pick = {}
        for i in range(1, body.nargs + 1):
            ty = body.lty[i]
            base = judge.strip_ref(ty)
            v = self.arbitrary('%s#%d' % (self.name, i), base, (i - 1,))
            if ty[0] == 'ref' and ty[2]:
                p = ev.cell(st, v, ('sum', self.name, i))
                self.mut.append((i - 1, ('C', ('sum', self.name, i)), v))
                args.append(p)
            else:
                args.append(v)
        self.ret, st = ev.run(body, args, {}, st)
        self.panics = st.r[OKR]
        self.post = [(i, v, st.r[root]) for i, root, v in self.mut]
        self.inlined = set(ev.inlined)

    def arbitrary(self, name, ty, path):
        if ty[0] == 'adt' and ty[1] in t.STRUCTS and ty[1] in self.P.adts and not ty[1].endswith('::Vec'):
            fs = self.P.adts[ty[1]]['variants'][0]['f']
            return adt(ty[1], 0, *[self.arbitrary(name + '.' + f['n'], f['t'], path + (i,)) for i, f in enumerate(fs)])
        v = judge.tysym(name, ty)
        self.inputs.append((path, v))
        return v

    def actuals(self, args):
        m = {}
        for path, s in self.inputs:
            v = args[path[0]]
            for i in path[1:]:
                v = fld(v, 0, i)
            m[s] = v
        return m

    def abstract(self, what, v, m):
        """v with everything computed replaced by an opaque function of the inputs it depends on"""
        syms = {s for _, s in self.inputs}
        if v in syms or not subterm_syms(v, syms):
            return subst(v, m)
        if v.op == 'sw' and (any(l in syms for l in leaves(v)) or all(not subterm_syms(l, syms) for l in leaves(v))):
            # a choice between inputs: kept
            s = v.a[0]
            c = subst(s, m)
            return t.switch(c, [self.abstract('%s?%d' % (what, i), x, m) if x is not BOT else BOT for i, x in enumerate(v.a[1:])])
        if v.op == 'adt' and v.a[0] in t.STRUCTS:
            return adt(v.a[0], v.a[1], *[self.abstract('%s.%d' % (what, i), x, m) for i, x in enumerate(v.a[2:])])
        deps = [s for _, s in self.inputs if s in subterm_syms(v, syms)]
        nm = '~' + self.name + what
        BODY[nm] = (deps, v)
        if nm not in t.CALLINFO:
            n, src = self.length(v), self.picks(v)
            ok = lambda x: x is not None and not (subterm_syms(x, syms) - set(deps))
            t.CALLINFO[nm] = (deps, n if ok(n) else None, src if ok(src) else None)
        return liftn(lambda *xs: t.build('call', (nm, '', *xs)), *[m[s] for s in deps], cap=8)

    def picks(self, v):
        """the input that every element of the sequence v is taken from"""
        if not all(judge.is_seq(l) for l in leaves(v)):
            return None
        if v not in self.pick:
            k = fresh('k')
            k.nn = True
            c = t.EMPTY.assume(lt(k, length(v)))
            src = {l.a[0] if l.op == 'elem' else None for l, _ in judge.paths(elem(v, k), c)}
            self.pick[v] = src.pop() if len(src) == 1 else None
        s = self.pick[v]
        return s if s in {x for _, x in self.inputs} else None

    def __call__(self, ev, st, args, c):
        xs = [ev.deep(st, x) for x in args]
        m = self.actuals(xs)
        for i, old, new in self.post:
            if new is not old:
                ev.write(st, args[i], self.abstract('!%d' % i, new, m))
        r = self.abstract('', self.ret, m)
        mark(r, c['retty'])
        return r

    def length(self, v):
        """how long the sequence v is"""
        if not all(judge.is_seq(l) for l in leaves(v)):
            return None
        n = length(v)
        ins = {s for _, s in self.inputs}
        for x in subterms(n):
            if x.op in ('trip', 'fold', 'feq', 'flt', 'div') or x.op == 'len' and x.a[0] not in ins:
                return None
        return n


def summaries(P, names):
    r = {}
    for n in names:
        try:
            r[n] = Summary(P, P.get(n))
        except judge.Anchor:
            pass        # gone: its code is followed where it went
    return r


def subterm_syms(v, syms):
    return {x for x in subterms(v) if x in syms}


HELPERS = (POLY + '::compress_hinted', POLY + '::polynomial_to_data', POLY + '::idw_to_data', FFT + '::fft_trim', FFT + '::round', FFT + '::get_mirrored_freqs')
NEXT = 'utils::next_size'
LENGTH = ('int', 'usize')


class Codecs:
    """producing payloads from arbitrary samples and decoding them, with the helpers named in `opaque` summarised"""

    def __init__(self, P, R, opaque=HELPERS, keep_error=True):
        self.P, self.R = P, R
        self.names = judge.variants(P, CMP)
        self.depths = judge.variants(P, BD)
        self.sum = summaries(P, opaque)
        for s in self.sum.values():
            R.saw(s.name)
        self.stat = Summary(P, P.get(STATS + '::new'))
        R.saw(self.stat.name)
        self.data = judge.tysym('data', ('slice', ('float', 'f64')))
        self.bound = judge.tysym('max_error', ('float', 'f64'))
        self.n = length(self.data)
        t.WIDEN.add(self.data)
        self.some = t.EMPTY.assume(le(I(1), self.n))
        self.keep_error = keep_error
        self.rounds = None
        self.bi = judge.field_index(P, 'atsc::' + STATS, 'bitdepth')
        if self.next_grows():
            self.sum[NEXT] = self.next_size

    def next_grows(self):
        """next_size(n) is at least n + 1"""
        try:
            b = self.P.get(NEXT)
        except judge.Anchor:
            return False
        x = sym('n', ('uint', 'usize'))
        x.nn = True
        r, st = judge.Ev(self.P).run(b, [x], {}, interp.new_state())
        self.R.saw(pretty(b))
        self.next_form = (r, x)
        return all(t.nonneg(sub(l, add(x, I(1)))) for l in leaves(r))

    @staticmethod
    def next_size(ev, st, args, c):
        def f(x):
            y = mk('call', '~next', 'usize', x)
            y.nn = True
            return add(add(x, I(1)), y)
        return t.lift1(f, args[0])

    def ev(self, depth):
        e = judge.Ev(self.P)
        e.barriers = dict(self.sum)
        if self.rounds is not None:
            e.unroll = (self.P.get(ERROR).key, self.rounds)
        if self.keep_error:
            e.barriers[ERROR] = e.opaque_barrier

        def stats(ev, st, a, c):
            r = self.stat(ev, st, a, c)
            return adt(r.a[0], 0, *[adt(BD, depth) if i == self.bi else x for i, x in enumerate(r.a[2:])])
        e.barriers[STATS + '::new'] = stats
        return e

    def run(self, path, args, depth, ctx=None):
        e = self.ev(depth)
        st = interp.new_state()
        st.ctx = ctx or self.some
        r, st = e.run(e.fnbody(path), args, {}, st)
        for k in e.inlined:
            self.R.saw(pretty(self.P.bodies[k]))
        return r, st

    def codec(self, name):
        return adt(CMP, self.names.index(name))

    def results(self, name, depth):
        """(payload, error) of a bounded run"""
        r, st = self.run('compressor::Compressor::get_compress_bounded_results', [self.codec(name), self.data, self.bound], depth)
        ci = judge.field_index(self.P, 'atsc::compressor::CompressorResult', 'compressed_data')
        ei = judge.field_index(self.P, 'atsc::compressor::CompressorResult', 'error')
        return fld(r, 0, ci), fld(r, 0, ei)

    def bounded_runs(self, name, depth, most=64):
        """(round, payload, error, condition) of the bounded runs that leave the loop around the error measure in that round; one run with
        the loop summarised (round None) when there is no such loop"""
        ci = judge.field_index(self.P, 'atsc::compressor::CompressorResult', 'compressed_data')
        ei = judge.field_index(self.P, 'atsc::compressor::CompressorResult', 'error')
        for n in range(most):
            self.rounds = n
            try:
                e = self.ev(depth)
            finally:
                self.rounds = None
            st = interp.new_state()
            st.ctx = self.some
            st.r[interp.GUARD] = TRUE
            r, st = e.run(e.fnbody('compressor::Compressor::get_compress_bounded_results'), [self.codec(name), self.data, self.bound], {}, st)
            for k in e.inlined:
                self.R.saw(pretty(self.P.bodies[k]))
            if 'no round %d' % n in e.notes:
                return
            if 'round %d' % n not in e.notes:
                yield (None,) + self.results(name, depth) + (TRUE,)
                return
            self.R.count('rounds followed')
            yield n, fld(r, 0, ci), fld(r, 0, ei), st.r.get(interp.GUARD, TRUE)
        raise interp.Unsupported('more than %d rounds' % most)

    def payload(self, name, depth, bounded):
        fn = 'compress_bounded' if bounded else 'compress'
        r, st = self.run('compressor::Compressor::' + fn, [self.codec(name), self.data] + ([self.bound] if bounded else []), depth)
        return r

    def decode(self, name, payload, depth):
        r, st = self.run('compressor::Compressor::decompress', [self.codec(name), self.n, payload], depth)
        return r

    def extremes(self):
        """opaque field of the statistics -> 'max' / 'min', or None with the term when it is not recognised"""
        import shapes
        (_, d), = self.stat.inputs
        out, bad = {}, {}
        v = self.stat.ret
        for i, f in enumerate(self.P.adts['atsc::' + STATS]['variants'][0]['f']):
            if f['n'] in ('max', 'min'):
                x = fld(v, 0, i)
                k = shapes.extreme(x, d)
                a = fld(self.stat.abstract('', v, {d: self.data}), 0, i)
                if k == f['n']:
                    out[a] = k
                else:
                    bad[f['n']] = (a, x, k or shapes.partial(x, d))
        return out, bad


def free_loops(x):
    """every closed loop counter becomes an arbitrary natural number: -> value, {symbol: counter}"""
    m = {}
    for s in subterms(x):
        if s.op == 'trip' and not s.bm:
            v = sym('loop%d' % s.id)
            v.nn = True
            m[s] = v
    return subst(x, m), {v: k for k, v in m.items()}


def never_ran(ctx, loops, m=None):
    """path knowledge with what follows from loops that ran zero times: their continuation condition was false at once; None when impossible"""
    for s, lab in list(ctx.d.items()):
        if s.op == 'eq0' and lab == 1 and s.a[0] in loops:
            c = open_(loops[s.a[0]].a[0], I(0))
            ctx = ctx.assume(Not(subst(c, m) if m else c))
            if ctx is None:
                return None
    return ctx
