"""S23: in the CSV compressor samples and index advance together, and are paired again on the way back."""
import effects
import judge
import models
import programs
import term as t
from judge import *

WB = 'wavbrro::wavbrro::WavBrro'
VS = 'vsri::Vsri'
ALLOW = ('csv::', 'std::fs::', 'std::io::', '~', 'fs_write', 'wavbrro::', 'rkyv::', 'set_extension_ok', 'env_logger::', 'csv_', 'create')
ROWS = ('csv::Reader::records', 'csv::Reader::into_records', 'csv::Reader::deserialize', 'csv::Reader::into_deserialize')


def only(w, name, ctx):
    """the sequence of the arguments of the effects of one kind in a trace"""
    w = restrict(w, ctx)
    if w.op == 'sym' and w.a[0] == 'W0':
        return cat()
    if w.op == 'cat':
        return cat(*[only(x, name, ctx) for x in w.a])
    if w.op == 'one':
        x = w.a[0]
        if x.op != 'eff':
            raise interp.Unsupported('effect trace: ' + show(x)[:100])
        if x.a[0] == 'opaque':
            raise interp.Unsupported('closure handed to ' + str(x.a[1]))
        return cat(one(tup(*x.a[1:]))) if x.a[0] == name else cat()
    if w.op in ('flat', 'gen'):
        vs = [fresh('k') for _ in range(w.a[1].a[1])]
        for v in vs:
            v.nn = True
        body = open_(w.a[1], *vs)
        if w.op == 'gen':
            body = cat(one(body))
        c2 = ctx.assume(lt(vs[0], w.a[0])) or ctx
        s = only(body, name, c2)
        if s is cat():
            return s
        return flat(w.a[0], close(vs, s))
    if w.op == 'sw':
        return t.rebuild_sw(w, lambda x: only(x, name, ctx)) if hasattr(t, 'rebuild_sw') else lift1(lambda x: only(x, name, ctx), w)
    raise interp.Unsupported('effect trace: ' + show(w)[:120])


class Abs:
    """the container as the plain sequence of its samples, the index as the plain sequence of its times"""

    def __init__(self, P):
        self.P = P
        self.fw = judge.field_index(P, WB, 'chunks')
        self.fv = judge.field_index(P, VS, 'vsri_segments')
        self.nw = len(P.adts[WB]['variants'][0]['f'])
        self.nv = len(P.adts[VS]['variants'][0]['f'])

    def wb(self, seq):
        return adt(WB, 0, *[seq if i == self.fw else sym('wb%d' % i) for i in range(self.nw)])

    def vs(self, seq):
        return adt(VS, 0, *[seq if i == self.fv else sym('vs%d' % i) for i in range(self.nv)])

    def samples(self, w):
        return fld(w, 0, self.fw)

    def times(self, v):
        return fld(v, 0, self.fv)

    def barriers(self):
        A = self
        V = models.V

        def w_new(ev, st, args, c):
            return A.wb(cat())

        def w_slice(ev, st, args, c):
            return A.wb(ev.deep(st, V(ev, st, args[0])))

        def w_add(ev, st, args, c):
            w = V(ev, st, args[0])
            ev.write(st, args[0], lift1(lambda w: A.wb(cat(A.samples(w), one(args[1]))), w))
            return UNIT

        def w_get(ev, st, args, c):
            return A.samples(V(ev, st, args[0]))

        def w_file(ev, st, args, c):
            models.eff(st, 'container', ev.deep(st, V(ev, st, args[1])), A.samples(V(ev, st, args[0])))
            return UNIT

        def w_data(ev, st, args, c):
            models.eff(st, 'container', ev.deep(st, V(ev, st, args[0])), ev.deep(st, V(ev, st, args[1])))
            return UNIT

        def v_new(ev, st, args, c):
            return A.vs(cat())

        def v_upd(ev, st, args, c):
            v = V(ev, st, args[0])
            y = args[1]
            r = lift1(lambda y: mk('call', '~update_for_point', 'Result', y), y)
            bad = lift1(lambda y: mk('disc', mk('call', '~update_for_point', 'Result', y), 2), y)
            new = lift1(lambda v: A.vs(cat(A.times(v), one(y))), v)
            # a refused time changes nothing
            ev.write(st, args[0], ite(bad, v, new))
            return r

        def v_flush(ev, st, args, c):
            models.eff(st, 'index', ev.deep(st, V(ev, st, args[1])), A.times(V(ev, st, args[0])))
            return mk('call', '~flush_to', 'Result', ev.deep(st, V(ev, st, args[1])))

        def v_load(ev, st, args, c):
            p = ev.deep(st, V(ev, st, args[0]))
            return lift(lambda p: mk('call', '~load', 'Result', p), p)

        def v_time(ev, st, args, c):
            v = ev.deep(st, V(ev, st, args[0]))
            return lift(lambda v, i: mk('call', '~get_time', 'Option', v, i), v, args[1])

        return {
            'wavbrro::WavBrro::new': w_new, 'wavbrro::WavBrro::default': w_new, 'wavbrro::WavBrro::from_slice': w_slice,
            'wavbrro::WavBrro::add_sample': w_add, 'wavbrro::WavBrro::get_samples': w_get, 'wavbrro::WavBrro::to_file': w_file,
            'wavbrro::WavBrro::to_file_with_data': w_data,
            'Vsri::default': v_new, 'Vsri::new': v_new, 'Vsri::update_for_point': v_upd, 'Vsri::flush_to': v_flush, 'Vsri::load': v_load,
            'Vsri::get_time': v_time, 'day_elapsed_seconds': None, 'compress_data': None, 'decompress_data': None,
        }


def rows_of(x):
    return {s for s in subterms(x) if s.op == 'call' and s.a[0] in ROWS}


def bases(inp, out, c):
    """the output base on this path"""
    l = c.look(mk('disc', out, 2))
    for lab, b in ((0, inp), (1, fld(out, 1, 0))):
        if l is None or l == lab:
            cc = c.add(mk('disc', out, 2), lab)
            if cc is not None:
                yield b, cc


def small(x, n):
    """a number of rows fits 32 bits (the index counts positions in 32 bits)"""
    w = {mk('icast', ty, n): n for ty in ('i32', 'u32', 'i64')}
    return subst(x, {a: b for a, b in w.items() if a.op == 'icast'})


def seqrule(R, key, seq, n, at, what, c):
    """seq has n elements and element k is at(k)"""
    seq = small(seq, n)
    if judge.same(R, key + ' count', restrict(length(seq), c), n, 'number of %s' % what, c, allow=ALLOW) is not True:
        return
    k = fresh('k')
    k.nn = True
    c2 = c.assume(lt(k, n))
    if c2 is None:
        R.proved(key)
        return
    judge.same(R, key, restrict(elem(seq, k), c2), restrict(at(k), c2), '%s k' % what, c2, allow=ALLOW)


def program(P, R):
    a = judge.struct(P, 'bin:csv_compressor::Args', 'args')
    un, nc, ov, ow, out, inp = [programs.arg(P, a, x) for x in ('uncompress', 'no_compression', 'output_vsri', 'output_wavbrro', 'output', 'input')]
    A = Abs(P)
    ev = effects.evaluator(P, A.barriers())
    b = ev.fnbody('process_args', programs.UNITS['csv-compressor'][0])
    r, st = ev.run(b, [a], {}, interp.new_state())
    for k in ev.inlined:
        R.saw(pretty(P.bodies[k]))
    S = [y for y in P.adts if y.endswith('csv::Sample') and y.startswith('bin:csv_compressor')][0]
    ft, fv = judge.field_index(P, S, 'timestamp'), judge.field_index(P, S, 'value')
    for w, _, c0 in effects.normal(st):
        u = c0.look(un)
        for base, c in bases(inp, out, c0):
            R.count('paths')
            if u == 1:
                back(P, R, A, inp, base, w, c, S, ft, fv)
            elif u == 0:
                forth(P, R, A, nc, ov, ow, base, w, c, ft, fv)
            else:
                R.undecided('mode', cshow(c)[:200])


def forth(P, R, A, nc, ov, ow, base, w, c, ft, fv):
    idx, con, comp = (only(w, n, c) for n in ('index', 'container', '~compress_data'))
    outs = {}
    for name, seq in (('index', idx), ('container', con), ('compressed', comp)):
        l = restrict(length(seq), c)
        if l.op != 'i' or l.a[0] > 1:
            R.undecided(name, 'written %s times' % show(l)[:80])
            continue
        if l.a[0] == 1:
            e = restrict(elem(seq, I(0)), c)
            outs[name] = e.a[-1] if name != 'compressed' else e.a[0]
    if not outs:
        R.proved('nothing written')
        return
    rows = set()
    for x in outs.values():
        rows |= rows_of(x)
    rows |= {s for q in c.d for s in rows_of(q)}
    if len(rows) != 1:
        decide(R, 'rows', False, 'samples and index come from %d readings of the file' % len(rows), *outs.values(), allow=ALLOW)
        return
    rows, = rows
    n = length(rows)

    def row(k):
        return fld(elem(rows, k), 0, 0)

    def ts(k):
        x = divi(fld(row(k), 0, ft), I(1000))
        return mk('call', '~day_elapsed_seconds', 'i32', x)
    for name, x in outs.items():
        R.count('outputs')
        if name == 'index':
            seqrule(R, 'index', x, n, ts, 'times of the index', c)
        else:
            seqrule(R, name, x, n, lambda k: fld(row(k), 0, fv), 'values of the %s' % name, c)
    # a refused time or a malformed row stops the run
    k = fresh('k')
    k.nn = True
    c2 = c.assume(lt(k, n))
    if c2 is None:
        return
    for what, d in (('malformed row', mk('disc', elem(rows, k), 2)), ('time that the index refuses', mk('disc', mk('call', '~update_for_point', 'Result', ts(k)), 2))):
        bad = c2.add(d, 1)
        if bad is not None and what.startswith('time'):
            bad = bad.add(mk('disc', elem(rows, k), 2), 0)
        for s, l in c.d.items():
            if bad is not None and s.op == 'any' and l == 0:
                e = restrict(open_(s.a[1], k), bad)
                if e is TRUE or implied(bad, e):
                    bad = None
        decide(R, what, bad is None, 'the run goes on after a ' + what, *c.d, allow=ALLOW)


def back(P, R, A, inp, base, w, c, S, ft, fv):
    con, dec, rows = (only(w, n, c) for n in ('container', '~decompress_data', 'csv_serialize'))
    ld = restrict(length(dec), c)
    if ld is I(0):
        l1, l2 = restrict(length(con), c), restrict(length(rows), c)
        decide(R, 'refused input', l1 is I(0) and l2 is I(0), 'values are written although nothing was decompressed', l1, l2, allow=ALLOW)
        return
    if ld is not I(1):
        R.undecided('decompress', 'run %s times' % show(ld)[:80])
        return
    arg = restrict(elem(dec, I(0)), c).a[0]
    cand = {s for x in (con, rows) for s in subterms(x) if s.op == 'call' and s.a[0].endswith('~decompress_data')}
    if len(cand) != 1:
        decide(R, 'decompressed', False, 'the written values do not come from the decompressed stream', con, rows, allow=ALLOW)
        return
    data, = cand
    n = length(data)
    R.count('ways back')
    lc = restrict(length(con), c)
    if lc is I(1):
        seqrule(R, 'container back', restrict(elem(con, I(0)), c).a[-1], n, lambda k: elem(data, k), 'values of the container', c)
    else:
        R.undecided('container back', 'written %s times' % show(lc)[:80])
    want = mk('call', '~load', 'Result', mk('withext', inp, mk('str', 'vsri')))
    loads = {s for s in subterms(rows) if s.op == 'call' and s.a[0] == '~load'}
    loaded = []
    for l in loads:
        p = l.a[2]
        q = pathof(p)
        if q is None:
            R.undecided('index file', show(p)[:200])
            return
        decide(R, 'index file', q is want.a[2], 'the index is loaded from %s' % show(q)[:200], q, allow=ALLOW)
        loaded.append(l)
    if len(loaded) != 1:
        decide(R, 'index used', False, 'the times of the rows come from %d indexes' % len(loaded), rows, allow=ALLOW)
        return
    index = fld(loaded[0], 0, 0)

    def row(k):
        o = mk('call', '~get_time', 'Option', index, k)
        return adt(S, 0, *[fld(o, 1, 0) if i == ft else elem(data, k) for i in range(2)])
    rows = small(rows, n)
    # every serialised row: its last argument is the sample
    k = fresh('k')
    k.nn = True
    c2 = c.assume(lt(k, n))
    judge.same(R, 'rows back count', restrict(length(rows), c), n, 'number of rows', c, allow=ALLOW)
    if c2 is not None:
        e = restrict(elem(rows, k), c2)
        if e.op != 'tup':
            R.undecided('rows back', show(e)[:200])
            return
        got = e.a[-1]
        # positions are 32 bit in the index
        wide = mk('icast', 'i32', k)
        got = restrict(subst(got, {wide: k}), c2) if wide.op == 'icast' else got
        judge.same(R, 'rows back', got, row(k), 'row k', c2, allow=ALLOW)


def pathof(p):
    """the path a text came from"""
    for _ in range(8):
        if p.op == 'withext':
            return p
        if p.op == 'fld' and p.a[0].op == 'call' and p.a[0].a[0] in ('std::path::Path::to_str',):
            p = p.a[0].a[2]
        elif p.op == 'call' and p.a[0] in ('std::path::Path::to_string_lossy', 'std::path::Path::display'):
            p = p.a[2]
        elif p.op == 'fld' and p.a[0].op == 'call':
            p = p.a[0]
            if p.a[0] not in ('std::path::PathBuf::to_str',):
                return None
            p = p.a[2]
        else:
            return None
    return None


TIME = ('hour', 'minute', 'second')


def daytime(R, key, r, want, moment, y):
    """r, with the parts of the time of day as opaque numbers, is want(seconds since midnight), and they are the parts of the moment"""
    parts = {}
    for s in subterms(r):
        if s.op == 'call' and s.a[0].startswith('chrono::Timelike::'):
            parts.setdefault(s.a[0].split('::')[-1], set()).add(s)
    srcs = {s.a[2] for v in parts.values() for s in v}
    if not srcs or not set(parts) <= set(TIME):
        R.undecided(key, show(r)[:200])
        return
    if len(srcs) > 1:
        R.undecided(key, 'several times of day: ' + show(r)[:200])
        return
    src, = srcs
    one_ = {n: mk('call', 'chrono::Timelike::' + n, 'u32', src) for n in TIME}
    for n, v in parts.items():
        for s in v:
            one_[n] = s
    sec = add(add(mul(one_['hour'], I(3600)), mul(one_['minute'], I(60))), one_['second'])
    while r.op == 'icast' and r.a[0] in ('i32', 'u32', 'i64', 'u64', 'isize', 'usize', 'i128', 'u128'):
        r = r.a[1]
    judge.same(R, key, r, want(sec), 'seconds since the start of the day', allow=('chrono::', 'core::'))
    if src.op == 'call' and src.a[0] == 'chrono::DateTime::time':
        src = src.a[2]
    moment(src)


def day(P, R):
    """seconds since the start of the day, and the start of the day"""
    ev = judge.Ev(P)
    y = judge.tysym('t', ('int', 'i64'))
    r, st = ev.run(ev.fnbody('day_elapsed_seconds', 'vsri-lib'), [y], {}, interp.new_state())
    R.saw('day_elapsed_seconds')

    def moment(src):
        if src.op == 'fld' and src.a[0].op == 'call' and src.a[0].a[0] in ('chrono::DateTime::from_timestamp', 'chrono::TimeZone::timestamp_opt'):
            a = src.a[0].a[2:]
            a = a[-2:] if len(a) >= 2 else a
            decide(R, 'day source', a == (y, I(0)), 'the parts of the day come from the moment %s' % ', '.join(show(x) for x in a), *a)
        else:
            decide(R, 'day source', any(x is y for x in subterms(src)), 'the parts do not come from the time given', src, allow=('chrono::',)) \
                if y not in set(subterms(src)) else R.undecided('day source', show(src)[:200])
    daytime(R, 'day', r, lambda s: s, moment, y)
    try:
        body = ev.fnbody('start_day_ts', 'vsri-lib')
    except Exception:
        return
    ev = judge.Ev(P)
    d = judge.tysym('dt', ('adt', 'chrono::DateTime', ()))
    r, st = ev.run(body, [d], {}, interp.new_state())
    R.saw('start_day_ts')
    ts = [s for s in subterms(r) if s.op == 'call' and s.a[0] == 'chrono::DateTime::timestamp']
    if len(ts) != 1:
        R.undecided('start of day', show(r)[:200])
        return
    decide(R, 'start of day moment', ts[0].a[2] is d, 'the time stamp is that of ' + show(ts[0].a[2])[:100], ts[0].a[2])
    daytime(R, 'start of day', r, lambda s: sub(ts[0], s), lambda src: decide(R, 'start of day source', src is d, 'the parts of the day are those of ' + show(src)[:100], src), d)


def run(P, R):
    R.rule('Rule: normal form of the whole program with the container as the sequence of its samples (S17) and the index as the sequence of its times '
           '(S14-S16). On every way that ends normally, what is written as container, index and compressed data has one element per row of the one reading, '
           'element k made from row k, no row is malformed and no time refused; on the way back row k pairs decompressed value k with the time that the '
           'index next to the input gives for position k.')
    R.assume.append('serde reads and writes the row type by column name (S13)')
    attempt(R, 'program', lambda: program(P, R))
    attempt(R, 'day', lambda: day(P, R))
    R.floor('outputs', 6)
    R.floor('ways back', 2)
