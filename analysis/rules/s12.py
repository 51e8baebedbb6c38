"""S12: directory mode processes every regular file once and reports failures in the exit status."""
import effects
import flow
import judge
import programs
import term as t
from judge import *

ONE = 'process_single_file'
RES = 'core::result::Result<%s,core::io::error::Error>'


def pick(b, xs):
    """path and options among the arguments of the per file function"""
    p, a = [], []
    for i, x in enumerate(xs):
        ty = judge.strip_ref(b.lty[i + 1])
        if ty[0] == 'adt' and ty[1].endswith('::Args'):
            a.append(x)
        elif ty[0] == 'adt' and ty[1].startswith('std::path::Path') or ty == ('str',):
            p.append(x)
    if len(p) != 1 or len(a) != 1:
        raise interp.Unsupported('arguments of ' + ONE)
    return p + a


def calls(v, name):
    return {s for s in subterms(v) if s.op == 'call' and s.a[0] == name}


def small_lists(r, ok, rd, entries, perfile, inp):
    """the result for listings of one and two regular files, folded to constants: a failure that ends in success, or None"""
    call = [q for q in perfile if q.a[2] is not inp]
    if not call:
        return None
    q0 = call[0]
    try:
        for n in (1, 2):
            es = [sym('e%d' % i) for i in range(n)]
            seq = cat(*[one(e) for e in es])
            v, o = (judge.unroll(subst(x, {entries: seq})) for x in (r, ok))
            for p, c in judge.paths(ite(o, v, BOT)):
                if not (p.op == 'adt' and p.a[1] == 0):
                    continue
                rdl = [l for s, l in c.d.items() if s.op == 'disc' and s.a[0] is rd]
                if rdl != [0]:
                    continue
                for e in es:
                    c = c.add(mk('disc', e, 2), 0) if c is not None else None
                if c is None:
                    continue
                for i, e in enumerate(es):
                    path = mk('call', 'std::fs::DirEntry::path', 'std::path::PathBuf', fld(e, 0, 0))
                    res = subst(q0, {q0.a[2]: path})
                    c2 = c.assume(mk('call', 'std::path::Path::is_file', 'bool', path))
                    c2 = c2.add(mk('disc', res, 2), 1) if c2 is not None else None
                    if c2 is not None and judge.zone_feasible(c2) and all(fuzzy(s, ('~',)) is None for s in c2.d):
                        return 'with %d listed files the run succeeds although processing entry %d failed' % (n, i)
    except (Blowup, interp.Unsupported):
        pass
    return None


def instances(ctx, k, n):
    """what the path knowledge says about the k-th of n elements: (path knowledge, further bool)"""
    c = ctx
    g = TRUE
    for s, lab in list(ctx.d.items()):
        if s.op == 'any' and lab == 0 and s.a[0] is n:
            g = And(g, Not(open_(s.a[1], k)))
        elif s.op == 'ge0' and lab == 0 or s.op == 'eq0' and lab == 1:
            # psum(n, f) <= 0 and f >= 0: every f(k) is 0
            c0, m = t._lin(s.a[0])
            if c0 == (-1 if s.op == 'ge0' else 0) and all(v == 1 and x.op == 'psum' for x, v in m.items()):
                for x in m:
                    f = open_(x.a[1], k)
                    if x.a[0] is n and all(l.op == 'i' and l.a[0] >= 0 for l in leaves(f)):
                        g = And(g, eqi(f, I(0)))
    return c, g


def run_directory(P, R):
    a = judge.struct(P, 'bin:atsc::Args', 'args')
    inp = programs.arg(P, a, 'input')
    ev = effects.evaluator(P, {ONE: effects.barrier(pick)})
    b = ev.fnbody('process_args', 'atsc-bin')
    # only the calls of the per file function matter here
    ev.anyhook = None
    r, st = ev.run(b, [a], {}, interp.new_state())
    for k in ev.inlined:
        R.saw(pretty(P.bodies[k]))
    w, ok = st.r[judge.WORLD], st.r[judge.OKR]
    whole = tup(r, w, ok)
    md = calls(whole, 'std::fs::metadata') or calls(whole, 'std::path::Path::metadata')
    rd = calls(whole, 'std::fs::read_dir') or calls(whole, 'std::path::Path::read_dir')
    isf = {s for s in calls(whole, 'std::fs::Metadata::is_file') if fld(s, 0, 0) is not None}
    if len(rd) != 1:
        raise interp.Unsupported('%d listings' % len(rd))
    rd, = rd
    decide(R, 'listing of the input', rd.a[2] is inp, 'lists %s instead of the input' % show(rd.a[2])[:100], rd)
    entries = fld(rd, 0, 0)
    n = length(entries)
    perfile = calls(whole, '~' + ONE)
    # the per element call
    k = fresh('k')
    k.nn = True
    ent = elem(entries, k)
    # paths: the listing worked
    refute = small_lists(r, ok, rd, entries, perfile, inp)
    for w1, v, c in effects.normal(st, r):
        R.count('paths')
        lab = {}
        for s, l in c.d.items():
            if s.op == 'disc' and s.a[0] is rd:
                lab['rd'] = l
            if s.op == 'disc' and s.a[0] in md:
                lab['md'] = l
            if s.op == 'call' and s.a[0] in ('std::fs::Metadata::is_file', 'std::path::Path::is_file') and not s.a[0].startswith('~'):
                lab['file'] = l
            if s.op == 'call' and s.a[0] in ('std::fs::Metadata::is_dir', 'std::path::Path::is_dir'):
                lab['dir'] = l
        succeeded = v.op == 'adt' and v.a[1] == 0
        if v.op == 'call' and v.a[0] == '~' + ONE:
            succeeded = None
        key = None
        if lab.get('rd') == 0:
            errs = [s for s in c.d if s.op in ('any',) and s.a[0] is n]
            # did listing an entry fail on this path?
            lerr = FALSE
            body = mk('disc', ent, 2)
            bad = any_entry_error(c, n, k, ent)
            if bad:
                decide(R, 'listing error', succeeded is False, 'the run succeeds although the listing failed', v)
                continue
            c1 = c.add(body, 0) if c.look(body) is None else c
            tr = restrict(w, c)
            spec = flat(n, close([k], ite(isfile(ent), cat(one(mk("eff", "~" + ONE, pathof(ent), a))), cat())))
            judge.same(R, 'each file once', tr, cat(sym('W0'), spec), 'files processed in directory mode', c, allow=('~',))
            if succeeded:
                cc = instances(c, k, n)
                callk = None
                for q in perfile:
                    for s in subterms(q.a[2]):
                        pass
                fk = None
                opened = open_(close([k], ite(isfile(ent), cat(one(mk("eff", "~" + ONE, pathof(ent), a))), cat())), k)
                call = [q for q in perfile if q.a[2] is not inp]
                # the result of the call for element k
                if not call and succeeded:
                    R.violated('failures reported', 'the run succeeds whatever the outcome of processing the entries')
                    continue
                res = mk('call', '~' + ONE, call[0].a[1], *[pathof(ent) if x is call[0].a[2] else x for x in call[0].a[2:]]) if call else None
                if res is None:
                    R.undecided('failures reported', 'no per file call')
                    continue
                fail = And(isfile(ent), mk('disc', res, 2))
                if cc is not None:
                    good = restrict(And(fail, cc[1]), cc[0]) is FALSE
                    if not good and not recognised(c, n):
                        if refute:
                            R.violated('failures reported', refute)
                        else:
                            R.undecided('failures reported', 'condition of success: ' + cshow(c)[:300])
                    else:
                        decide(R, 'failures reported', good, 'the run succeeds although processing an entry may have failed, when ' + cshow(c)[:300], *c.d, allow=('~',))
        elif lab.get('rd') == 1:
            decide(R, 'listing error', succeeded is False, 'the run succeeds although the directory cannot be listed', v)
        elif lab.get('md') == 1:
            decide(R, 'input missing', succeeded is False, 'the run succeeds although the input cannot be looked up', v)
        elif lab.get('file') == 1:
            tr = restrict(w, c)
            judge.same(R, 'single file', tr, cat(sym('W0'), one(mk('eff', '~' + ONE, inp, a))), 'files processed for a file input', c, allow=('~',))
            mine = [q for q in perfile if q.a[2] is inp]
            if not mine and succeeded:
                R.violated('single file status', 'the run succeeds whatever the outcome of processing the file')
            for q in mine:
                if q.a[2] is inp:
                    l = c.look(mk('disc', q, 2))
                    if l is None and succeeded is None:
                        R.proved('single file status')
                    else:
                        decide(R, 'single file status', (l == 1) == (not succeeded) if l is not None else succeeded is False,
                               'the run succeeds although processing the file failed', v)
        elif lab.get('file') == 0 and lab.get('dir') == 0:
            decide(R, 'other input', succeeded is False, 'the run succeeds although the input is neither a file nor a directory', v)
        else:
            R.undecided('dispatch', 'path ' + cshow(c)[:200])
    holds(R, 'no panic', ok, 'directory mode never panics on its own', allow=('~',))


def isfile(ent):
    return mk('call', 'std::path::Path::is_file', 'bool', pathof(ent))


def pathof(ent):
    return mk('call', 'std::fs::DirEntry::path', 'std::path::PathBuf', fld(ent, 0, 0))


def any_entry_error(c, n, k, ent):
    """the path knowledge says that listing some entry failed"""
    d = mk('disc', ent, 2)
    for s, lab in c.d.items():
        if s.op == 'any' and lab == 1 and s.a[0] is n and open_(s.a[1], k) is d:
            return True
    return False


def recognised(c, n):
    """the path says something about all entries beyond the listing, in a form that is understood"""
    for s, lab in c.d.items():
        if s.op in ('ge0', 'eq0'):
            c0, m = t._lin(s.a[0])
            if not all(x.op in ('psum', 'len', 'i') for x in m):
                return False
        elif any(q.op in ('fold', 'filt', 'first') for q in subterms(s)):
            return False
    return True


def run_main(P, R):
    """main ends normally only if processing succeeded, and every early exit has a failing status"""
    ev = effects.evaluator(P, {'process_args': None})
    ev.anyhook = None
    b = ev.fnbody('main', 'atsc-bin')
    r, st = ev.run(b, [], {}, interp.new_state())
    R.saw(pretty(b))
    res = calls(tup(r, st.r[judge.OKR]), '~process_args')
    if len(res) != 1:
        raise interp.Unsupported('result of process_args is not looked at: %d' % len(res)) if not effects.items(st.r[judge.WORLD], t.EMPTY) or len(res) > 1 else Lost()
    res, = res
    for ok, c in judge.paths(st.r[judge.OKR]):
        if ok is FALSE:
            continue
        v = restrict(r, c)
        l = c.look(mk('disc', res, 2))
        if v.op == 'tup':
            decide(R, 'exit status', l == 0, 'main ends normally although processing failed', v)
        elif v is res or v.op == 'adt' and 'Result' in str(v.a[0]):
            decide(R, 'exit status', v is res or l == 0 or v.a[1] == 1, 'main returns success although processing failed', v)
        else:
            R.undecided('exit status', 'main returns ' + show(v)[:100])
    for k, bb in P.bodies.items():
        if not k.startswith('bin:atsc::'):
            continue
        for s in flow.sites(bb):
            if s.name != 'std::process::exit':
                continue
            R.count('exit sites')
            o = s.term['a'][0]
            x = o.get('v', {}).get('i') if o.get('o') == 'const' else None
            if x is None:
                R.undecided('exit status', 'status of exit is computed')
            else:
                decide(R, 'exit status', int(x) != 0, 'an exit reports success, but main only exits early on failures')


class Lost(Exception):
    pass


def run(P, R):
    R.rule('Rule: normal form of the main program with the per file function opaque. For a directory the trace of per file calls is exactly one call per '
           'listed regular file in listing order with unchanged options, independent of earlier results; success implies, for an arbitrary entry, that its '
           'call did not fail; every other case of the input that cannot be processed is an error; main turns an error into a failing status.')
    R.assume.append('Path::is_file and the directory listing are taken as the operating system reports them')
    attempt(R, 'directory', lambda: run_directory(P, R))

    def m():
        try:
            run_main(P, R)
        except Lost:
            R.violated('exit status', 'main does not look at the result of the processing')
    attempt(R, 'main', m)
    R.floor('paths', 5)
