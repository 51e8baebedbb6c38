"""S11: output files: which ones, from what, and only after everything was read and computed."""
import effects
import judge
import programs
from judge import *

CODEC = {'compress_data': '~compress_data', 'decompress_data': '~decompress_data'}
CODECS = ('compress_data', 'decompress_data')


def iscodec(x):
    n = x.a[0].split('::')[-1].lstrip('~')
    return n if n in CODECS else None


def trace_rule(R, key, tr, c, targets):
    """no destructive effect; every file that is opened for writing is a target, after all reads and the codec run.
    -> list of (extension, content or None)"""
    made = []
    last_read = codec_at = None
    first = None
    for i, (x, loop) in enumerate(tr):
        n = x.a[0]
        R.count('effects')
        if n == 'read':
            last_read = (i, show(x.a[1]))
            if first is not None:
                decide(R, key + ' order', False, 'an output is opened before the run has finished reading (%s)' % last_read[1], x)
        elif iscodec(x):
            codec_at = i
        elif n in effects.DESTROY:
            decide(R, key + ' ' + n, False, 'the run does %s on %s' % (n, ', '.join(show(y)[:120] for y in x.a[1:])), x)
        elif n in effects.CREATE:
            first = i if first is None else first
            p = restrict(x.a[1], c)
            hit = [e for e, tm in targets.items() if restrict(tm, c) is p]
            if not hit:
                decide(R, key + ' target', False, 'opens %s for writing, which is none of the documented outputs (%s)' % (show(p)[:200], ', '.join(targets)), p)
                continue
            R.proved(key + ' target ' + hit[0])
            made.append((hit[0], i, x.a[2] if n == 'fs_write' else None, loop, codec_at))
        elif n in effects.WRITE or n == 'exit':
            pass
        elif n.startswith('~'):
            pass
        else:
            R.undecided(key, 'effect %s' % n)
    return made


def failed_reads(c):
    """reads known to have failed on the path"""
    out = []
    for s, lab in c.d.items():
        if s.op == 'disc' and s.a[0].op == 'call' and s.a[0].a[0].startswith(effects.READ) and 'result::Result' in str(s.a[0].a[1]) and lab == 1:
            out.append(s.a[0].a[0])
    return out


def once(R, key, made):
    seen = set()
    for e, i, content, loop, codec in made:
        if loop:
            R.undecided(key, 'output %s opened in a loop' % e)
        elif e in seen:
            R.violated(key + ' once', 'output with extension %s is opened twice' % e)
        seen.add(e)


def run_atsc(P, R):
    a = judge.struct(P, 'bin:atsc::Args', 'args')
    un, = [programs.arg(P, a, 'uncompress')]
    path = judge.tysym('path', ('adt', 'std::path::PathBuf', ()))
    ev = effects.evaluator(P, {k: None for k in CODECS})
    b = ev.fnbody('process_single_file', 'atsc-bin')
    r, st = ev.run(b, [path, a], {}, interp.new_state())
    for k in ev.inlined:
        R.saw(pretty(P.bodies[k]))
    for w, v, c in effects.normal(st, r):
        R.count('paths of the main program')
        u = c.look(un)
        ext = {0: 'bro', 1: 'wbro'}.get(u)
        if ext is None:
            # the mode was not looked at on this path: it must not write
            targets = {}
        else:
            targets = {ext: mk('withext', path, mk('str', ext))}
        key = 'atsc ' + {0: 'compress', 1: 'decompress', None: 'any'}[u]
        made = trace_rule(R, key, effects.items(w, c), c, targets)
        once(R, key, made)
        ok = v.op == 'adt' and v.a[1] == 0
        for e, i, content, loop, codec in made:
            R.count('outputs')
            decide(R, key + ' computed', codec is not None and codec < i, 'the output is opened before its content is computed', v)
            fr = failed_reads(c)
            decide(R, key + ' refused', not fr, 'the output is opened although %s failed' % ', '.join(fr), v)
            if content is not None:
                x = restrict(content, c)
                decide(R, key + ' content', x.op == 'call' and iscodec(x) == 'compress_data', 'the file gets %s instead of the compressed stream' % show(x)[:200], x)
        if ok and u == 0:
            decide(R, key + ' written', len(made) > 0, 'the run succeeds without writing its output', v, *c.d)
        if ok and u == 1 and any(iscodec(x) for x, _ in effects.items(w, c)):
            decide(R, key + ' written', len(made) > 0, 'the run succeeds without writing its output', v, *c.d)
    R.floor('paths of the main program', 6)
    R.floor('outputs', 2)


def run_csv(P, R):
    prog = 'csv-compressor'
    a = judge.struct(P, 'bin:csv_compressor::Args', 'args')
    un, nc, ov, ow, out, inp = [programs.arg(P, a, x) for x in ('uncompress', 'no_compression', 'output_vsri', 'output_wavbrro', 'output', 'input')]
    ev = effects.evaluator(P, {k: None for k in CODECS})
    b = ev.fnbody('process_args', programs.UNITS[prog][0])
    r, st = ev.run(b, [a], {}, interp.new_state())
    for k in ev.inlined:
        R.saw(pretty(P.bodies[k]))
    base = t.ite_disc(out) if hasattr(t, 'ite_disc') else None
    for w, v, c in effects.normal(st):
        R.count('paths of the CSV compressor')
        u = c.look(un)
        # the output base: the requested one, or the input
        o = None
        for s, lab in c.d.items():
            if s.op == 'disc' and s.a[0] is out:
                o = lab
        cands = [inp] if o == 0 else [fld(out, 1, 0)] if o == 1 else []
        exts = {0: ('bro', 'wavbro', 'vsri'), 1: ('wbro', 'csv'), None: ()}[u]
        if not cands:
            c2 = []
            for lab, bs in ((0, inp), (1, fld(out, 1, 0))):
                cc = c.add(mk('disc', out, 2), lab)
                if cc is not None:
                    c2.append((cc, bs))
        else:
            c2 = [(c, cands[0])]
        for cc, bs in c2:
            targets = {e: mk('withext', bs, mk('str', e)) for e in exts}
            key = 'csv-compressor ' + {0: 'compress', 1: 'decompress', None: 'any'}[u]
            tr = effects.items(w, cc)
            made = trace_rule(R, key, tr, cc, targets)
            once(R, key, made)
            got = {m[0] for m in made}
            for e, i, content, loop, codec in made:
                R.count('outputs of the CSV compressor')
                fr = failed_reads(cc)
                decide(R, key + ' refused', not fr, 'the output is opened although %s failed' % ', '.join(fr), w)
                if content is not None and e == 'bro':
                    x = restrict(content, cc)
                    decide(R, key + ' content', x.op == 'call' and iscodec(x) == 'compress_data', 'the file gets %s instead of the compressed stream' % show(x)[:200], x)
            if u == 0:
                for e, want in (('bro', Not(nc)), ('vsri', ov), ('wavbro', ow)):
                    k = restrict(want, cc)
                    if k is TRUE or k is FALSE:
                        decide(R, key + ' requested ' + e, (e in got) == (k is TRUE), 'output %s %s' % (e, 'missing' if k is TRUE else 'written although it was not requested'), *cc.d)
                    elif e in got:
                        decide(R, key + ' requested ' + e, False, 'output %s is written without regard to its option' % e, *cc.d)
            elif u == 1 and any(iscodec(x) for x, _ in tr):
                for e in ('wbro', 'csv'):
                    decide(R, key + ' written ' + e, e in got, 'the run succeeds without writing %s' % e, *cc.d)
    R.floor('outputs of the CSV compressor', 8)


def run(P, R):
    R.rule('Rule: the trace of file effects of each program is computed for every path (reads, codec runs, opens for writing, removals) with the codecs '
           'opaque. No path removes, renames, copies or truncates; every file opened for writing is the documented name (input or output base with the '
           'extension of the mode); it is opened after the last read and after the codec run, never on a path on which a read failed; a run that ends '
           'normally has written the outputs of its mode.')
    R.assume.append('the process is the only one that acts on the files; two names are the same file only if they are the same path term')
    attempt(R, 'atsc', lambda: run_atsc(P, R))
    attempt(R, 'csv-compressor', lambda: run_csv(P, R))
