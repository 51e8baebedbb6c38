"""S09: command line options reach the engine unchanged."""
import judge
import frames
import programs
from judge import *
from frames import CP
from rules import s06
from rules.s04 import payload_origin
from rules.s05 import chunk, OP

LOSSY = ('fft', 'polynomial', 'idw')
MAXERR = 50


class Stop(Exception):
    pass


def text(x):
    return x.a[0] if x.op == 'str' else None


def definitions(P, R, prog):
    """options of the program as its parser defines them: {id: {property: arguments}}"""
    pre = programs.UNITS[prog][1] + '::'
    bs = [b for k, b in P.bodies.items() if k.startswith(pre) and k.endswith('::augment_args')]
    if len(bs) != 1:
        raise Anchor('option definitions of ' + prog)
    x, st = judge.Ev(P).run(bs[0], [sym('cmd')], {}, interp.new_state())
    R.saw(pretty(bs[0]))
    out = {}
    while x.op == 'call' and x.a[0].startswith('clap::Command'):
        if x.a[0] == 'clap::Command::arg':
            y, d = x.a[3], {}
            while y.op == 'call' and y.a[0].startswith('clap::Arg::'):
                if y.a[0] == 'clap::Arg::new':
                    out[text(y.a[2])] = d
                    break
                d.setdefault(y.a[0].split('::')[-1], y.a[3:])
                y = y.a[2]
        x = x.a[2]
    return out


def ranged(d):
    """accepted values of an integer option, or None"""
    for v in d.get('value_parser', ()):
        for s in subterms(v):
            if s.op == 'call' and s.a[0].endswith('RangedI64ValueParser::range'):
                r = s.a[3]
                if r.op == 'adt' and len(r.a) >= 4 and r.a[2].op == r.a[3].op == 'i':
                    hi = r.a[3].a[0] + (1 if 'Inclusive' in r.a[0] else 0)
                    return range(r.a[2].a[0], hi)
    return None


def names(P, R, prog):
    """variant -> name on the command line"""
    pre = programs.UNITS[prog][1] + '::'
    e = pre + 'CompressorType'
    vs = judge.variants(P, e)
    bs = [b for k, b in P.bodies.items() if k.startswith(pre) and k.endswith('::to_possible_value')]
    if len(bs) != 1:
        raise Anchor('names of the compressor option of ' + prog)
    out = {}
    for i, v in enumerate(vs):
        x, st = judge.Ev(P).run(bs[0], [adt(e, i)], {}, interp.new_state())
        for s in subterms(x):
            if s.op == 'call' and s.a[0].endswith('PossibleValue::new') and text(s.a[2]):
                out[i] = text(s.a[2])
            if s.op == 'call' and 'PossibleValue::alias' in s.a[0]:
                for q in subterms(tup(*[z for z in s.a[3:] if type(z) is T])):
                    if q.op == 'str' and q.a[0] in [w.lower() for w in judge.variants(P, CP)] and q.a[0] != v.lower():
                        R.violated('%s alias' % v, 'the option value %s selects the variant %s' % (q.a[0], v))
    R.saw(pretty(bs[0]))
    return out


def parsed(P, R, prog, opts):
    """every field comes from the option of its name"""
    pre = programs.UNITS[prog][1] + '::'
    bs = [b for k, b in P.bodies.items() if k.startswith(pre) and k.endswith('::from_arg_matches_mut')]
    if len(bs) != 1:
        raise Anchor('option parsing of ' + prog)
    x, st = judge.Ev(P).run(bs[0], [sym('m')], {}, interp.new_state())
    R.saw(pretty(bs[0]))
    ok = [l for l in leaves(x) if l.op == 'adt' and l.a[0] == 'core::result::Result' and l.a[1] == 0]
    for l in ok:
        a = l.a[2]
        for i, f in enumerate(P.adts[a.a[0]]['variants'][0]['f']):
            src = {text(s.a[3]) for s in subterms(a.a[2 + i]) if s.op == 'call' and s.a[0].startswith('clap::ArgMatches') and len(s.a) > 3}
            R.expect('%s option %s' % (prog, f['n']), src == {f['n']} and f['n'] in opts, 'field %s is read from %s' % (f['n'], sorted(map(str, src))))


def lin_bound(b, err, e):
    """the bound when the error option is e, as a number"""
    x = subst(b, {err: I(e)})
    return fval(x) if x.op == 'f' else None


def bound_ok(R, key, b, err, errs):
    """b is err / 100 for every accepted value"""
    for e in errs:
        R.count('bounds checked')
        v = lin_bound(b, err, e)
        if v is None:
            judge.decide(R, key, False, 'the error bound is not a function of the error option: %s' % show(b)[:200], b)
            return
        if abs(v - e / 100) > 1e-6:
            R.violated(key, 'with --error %d the bound is %r instead of %r' % (e, v, e / 100))
            return
    R.proved(key)


def program(P, R, prog):
    opts = judge.attempt(R, prog + ' options', lambda: definitions(P, R, prog)) or {}
    judge.attempt(R, prog + ' parsing', lambda: parsed(P, R, prog, opts))
    cl = judge.attempt(R, prog + ' names', lambda: names(P, R, prog)) or {}
    errs = ranged(opts.get('error', {}))
    levels = ranged(opts.get('compression_selection_sample_level', {}))
    if errs is None or levels is None:
        R.undecided(prog + ' ranges', 'accepted values of the options not recognised')
        errs, levels = errs or range(0, MAXERR + 1), levels or range(0, 7)
    else:
        R.expect(prog + ' error values', errs == range(0, MAXERR + 1), 'accepted error values are %r, documented 0..%d' % (errs, MAXERR))
        R.expect(prog + ' sampling levels', levels == range(0, 7), 'accepted sampling levels are %r, documented 0..6' % (levels,))
    codecs = [v.lower() for v in judge.variants(P, CP)]
    ix = frames.fields(P)
    res = {}
    vs = programs.choices(P, prog)
    for v, nm in enumerate(vs):
        def one_(v=v, nm=nm):
            key = '%s %s' % (prog, nm)
            opt = cl.get(v, nm.lower())
            R.count('compressor values')
            R.expect(key + ' name', opt in codecs and opt.lower() == nm.lower(), 'option value %s selects the variant %s' % (opt, nm))
            a = programs.args_struct(P, prog, compressor=adt(programs.UNITS[prog][1] + '::CompressorType', v))
            s, data, plan, st = programs.compress_data(P, R, prog, a)
            fs = s06.parts(P, s)[2]
            px = {f['n']: i for i, f in enumerate(P.adts[OP]['variants'][0]['f'])}
            sizes, kept = fld(plan, 0, px['chunk_sizes']), fld(plan, 0, px['data'])
            x = fresh('x')
            x.nn = True
            c = t.EMPTY.assume(lt(x, length(sizes)))
            f = restrict(elem(fs, x), c)
            pay = fld(f, 0, ix['data'])
            err = programs.arg(P, a, 'error')
            lev = programs.arg(P, a, 'compression_selection_sample_level')
            auto = opt == 'auto'
            for y, ctx in judge.paths(pay, c):
                R.count('payload paths')
                o = payload_origin(P, y)
                if o is None:
                    judge.decide(R, key + ' payload', False, 'the payload does not come from a codec: %s' % show(y)[:200], y)
                    continue
                call = y if y.op == 'call' else y.a[0]
                if not auto:
                    cd = restrict(o[0], ctx)
                    judge.decide(R, key + ' codec', cd.op == 'adt' and codecs[cd.a[1]] == opt, 'option value %s runs the codec %s' % (opt, show(cd)[:80]), cd)
                    if opt in LOSSY:
                        if call.a[0] == frames.OPAQUE['compress']:
                            R.violated(key + ' bounded', 'the lossy codec %s runs without the error bound' % nm)
                        else:
                            R.proved(key + ' bounded')
            runs = [q for q in subterms(tup(pay, fld(f, 0, ix['compressor']))) if q.op == 'call' and q.a[0] in (frames.OPAQUE['bounded'], frames.OPAQUE['results'])]
            for q in runs:
                R.count('bounded codec runs')
                bound_ok(R, key + ' bound', q.a[4], err, errs)
            if auto:
                judge.decide(R, key + ' selection', any(q.a[0] == frames.OPAQUE['results'] for q in runs), 'automatic selection is not run', pay)
                levels_ok(R, key, tup(pay, fld(f, 0, ix['compressor'])), chunk(kept, sizes, x), elem(sizes, x), lev, levels, st)
            res[opt] = [(q.a[0], show(q.a[2])) for q in runs] if not auto else None
        judge.attempt(R, '%s %s' % (prog, nm), one_)
    return {'errors': errs, 'levels': levels, 'codecs': res}


def levels_ok(R, key, pay, want, n, lev, levels, st):
    """the amount of sampled data falls with the level, from everything to 128 samples; every level is one the engine handles"""
    sizes = []
    for l in levels:
        x = subst(pay, {lev: I(l)})
        R.count('sampling levels')
        ls = set()
        for q in subterms(x):
            if q.op == 'call' and q.a[0] == frames.OPAQUE['results'] and length(q.a[3]) is not length(want):
                ls.add(length(q.a[3]))
        if any(s is lev for s in subterms(x)):
            R.undecided(key + ' level', 'sampling level not resolved')
            return
        if not ls:
            sizes.append(None)
        elif len(ls) == 1 and next(iter(ls)).op == 'i':
            sizes.append(ls.pop().a[0])
        else:
            R.undecided(key + ' level', 'sampled length not recognised: %s' % [show(q)[:80] for q in ls])
            return
    num = [s if s is not None else 1 << 62 for s in sizes]
    R.expect(key + ' level 0', num[0] > 131072, 'sampling level 0 samples only %s' % sizes[0])
    R.expect(key + ' level 6', num[-1] == 128 and len(num) == 7, 'the highest sampling level samples %s instead of 128' % sizes[-1])
    R.expect(key + ' levels', all(a > b for a, b in zip(num, num[1:])), 'sampled lengths of the levels: %s' % sizes)


def inside(P, R):
    """the bound of a bounded run is the one the codec works with"""
    nms = judge.variants(P, CP)
    for nm in nms:
        if nm.lower() not in LOSSY:
            continue
        for fn in ('compress_bounded', 'get_compress_bounded_results'):
            def one_(nm=nm, fn=fn):
                ev = judge.Ev(P)
                seen = []

                def hook(st, c, a):
                    seen.append(a)
                    raise Stop()
                for cl in ('fft::FFT', 'polynomial::Polynomial'):
                    ev.hooks['compressor::%s::compress_bounded' % cl] = hook
                b = ev.fnbody('compressor::Compressor::' + fn)
                args = [judge.tysym(n, judge.strip_ref(b.lty[j + 2])) for j, n in enumerate(('data', 'max_error'))]
                try:
                    ev.run(b, [adt(CP, nms.index(nm))] + args, {}, interp.new_state())
                except Stop:
                    pass
                R.saw(pretty(b))
                if not seen:
                    R.undecided('%s %s bound' % (nm, fn), 'no bounded run of the codec found')
                for a in seen:
                    R.count('codec entries')
                    judge.same(R, '%s %s samples' % (nm, fn), a[1], args[0], 'samples given to the codec')
                    judge.same(R, '%s %s bound' % (nm, fn), a[2], args[1], 'bound given to the codec')
            judge.attempt(R, '%s %s' % (nm, fn), one_)


def run(P, R):
    R.rule('Rule: the value graph of the option parser and of compress_data of both programs, per value of the compressor option: the codec that '
           'produces the payload has the name of the option value, every codec run takes error/100 (folded for every accepted value) as bound, lossy '
           'codecs never run without it; per sampling level the sampled length; both programs give the same for the values they share.')
    R.assume.append('clap parses according to the definitions that the derive macro generated')
    out = {}
    for prog in programs.UNITS:
        out[prog] = judge.attempt(R, prog, lambda: program(P, R, prog))
    a, b = (out[p] for p in programs.UNITS)
    if a and b:
        for k in ('errors', 'levels'):
            R.expect('programs agree on ' + k, a[k] == b[k], '%r and %r' % (a[k], b[k]))
        for c in a['codecs']:
            if c in b['codecs']:
                R.expect('programs agree on ' + c, a['codecs'][c] == b['codecs'][c], '%r and %r' % (a['codecs'][c], b['codecs'][c]))
    judge.attempt(R, 'inside', lambda: inside(P, R))
