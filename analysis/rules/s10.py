"""S10: a failed read, write or decode is never swallowed."""
import re
import flow
from facts import pretty, strip_generics
from interp import succs

SKIP = re.compile(r'augment_args|arg_matches|::_(#\d+)?::|fmt$')
PROPAGATE = re.compile(r'^std::ops::Try::branch$|^std::result::Result::(unwrap|expect|unwrap_err|expect_err|into_ok|unwrap_or_else|or_else|map_or_else|'
                       r'is_err|is_ok|is_ok_and|is_err_and)$|^std::option::Option::(unwrap|expect|ok_or|ok_or_else|is_some|is_none|unwrap_or_else|map_or_else)$')
TRANSFORM = re.compile(r'^std::result::Result::(map|map_err|and_then|and|inspect|inspect_err|as_ref|as_mut|transpose|copied|cloned|flatten|ok|err|iter|into_iter)$|'
                       r'^std::option::Option::(map|and_then|as_ref|as_mut|transpose|flatten|copied|cloned|filter|or|or_else|and|xor)$|'
                       r'^std::convert::(Into::into|From::from)$|^std::(clone::Clone::clone|ops::Deref::deref)$|^std::iter::(IntoIterator::into_iter|Iterator::next)$')
SWALLOW = re.compile(r'^std::result::Result::(unwrap_or|unwrap_or_default|map_or)$|^std::option::Option::(unwrap_or|unwrap_or_default|map_or)$|^std::mem::(drop|forget)$')
PARTIAL = re.compile(r'^std::io::(Write::write|Write::write_vectored|Read::read|Read::read_vectored)$|FileExt::(write_at|read_at|seek_read|seek_write)$')
LOSSY_ADAPT = re.compile(r'^std::iter::Iterator::(flatten|map_while|take_while)$')
# iterators over results, wherever the standard library keeps them
FALLIBLE_ITER = re.compile(r"::io::(\w+::)*(Lines|Bytes|Split)'|StringRecords(Into)?Iter|DeserializeRecords(Into)?Iter|ByteRecords(Into)?Iter|WavSamples|WavIntoSamples|ReadDir")
BUFFERED = ('BufWriter', 'LineWriter', 'csv::writer::Writer')
READ_ALL = re.compile(r'^std::io::Read::(read_to_end|read_exact|read_to_string)$')


def isres(ty):
    return ty[0] == 'adt' and ty[1] in ('core::result::Result',)


def uses(b, l):
    """-> list of (kind, info)"""
    out = []
    for i, bl in enumerate(b.blocks):
        if bl['cl']:
            continue
        for si, s in enumerate(bl['st']):
            if s['s'] == '=':
                r = s['r']
                for o in flow.operands_of(r):
                    if o.get('o') in ('copy', 'move') and o['p']['l'] == l:
                        out.append(('assign' if not o['p']['p'] and r['r'] == 'use' else 'part' if o['p']['p'] else 'inside', (i, si, s)))
                if r['r'] in ('ref', 'rawptr') and r['p']['l'] == l:
                    out.append(('ref', (i, si, s)))
                if r['r'] == 'discr' and r['p']['l'] == l:
                    out.append(('discr', (i, si, s)))
        t = bl['t']
        if t['k'] == 'call':
            for ai, o in enumerate(t['a']):
                if o.get('o') in ('copy', 'move') and o['p']['l'] == l:
                    out.append(('arg', (i, ai, t)))
        elif t['k'] == 'return' and l == 0:
            out.append(('return', (i,)))
        elif t['k'] == 'switch':
            o = t['a']
            if o.get('o') in ('copy', 'move') and o['p']['l'] == l:
                out.append(('switch', (i, t)))
    return out


def alive(b):
    pred = [[] for _ in b.blocks]
    ok = set()
    st = []
    for i, bl in enumerate(b.blocks):
        if bl['cl']:
            continue
        for s in succs(bl['t']):
            pred[s].append(i)
        if bl['t']['k'] == 'return':
            st.append(i)
    while st:
        x = st.pop()
        if x in ok:
            continue
        ok.add(x)
        st += pred[x]
    return ok


def err_arm_swallows(b, l, disc_at):
    """the value in local l is matched: is there an arm for the failure that does nothing about it?"""
    i, si, s = disc_at
    t = b.blocks[i]['t']
    if t['k'] != 'switch' or t['a'].get('o') not in ('copy', 'move') or t['a']['p']['l'] != s['p']['l']:
        return None
    okt = errt = t['else']
    for v, bb in t['v']:
        if int(v) == 0:
            okt = bb
        elif int(v) == 1:
            errt = bb
    if s['r']['p']['l'] == l and not s['r']['p']['p'] and b.lty[l][0] == 'adt' and b.lty[l][1] == 'core::option::Option':
        okt, errt = errt, okt       # a result reduced to an option: None is the failure
    if okt == errt:
        return 'both outcomes take the same path'

    def region(start):
        seen = set()
        st = [start]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            st += succs(b.blocks[x]['t'])
        return seen
    ro, re_ = region(okt), region(errt)
    live = alive(b)
    if errt not in live:
        return None           # diverges
    excl = re_ - ro
    # what the failure arm does on its own
    for x in excl:
        bl = b.blocks[x]
        if bl['cl']:
            continue
        for st in bl['st']:
            if st['s'] != '=':
                continue
            p, r = st['p'], st['r']
            if p['l'] == 0 or p['p'] or (b.lname[p['l']] and written_elsewhere(b, p['l'], excl)):
                return None
        tt = bl['t']
        if tt['k'] == 'call':
            n = strip_generics(tt['f']['pp']) if tt['f']['o'] == 'fn' else '?'
            if tt['d']['l'] == 0 or n.endswith('from_residual') or n == 'std::process::exit':
                return None
            if tt['to'] is None:
                return None
            # a mutable borrow handed to something else than logging/formatting
            if not re.search(r'^(log::|core::fmt|std::fmt|std::io::_e?print|std::cmp::PartialOrd::le|std::string::ToString|std::ops::Deref::deref|std::mem::drop|std::path)', n):
                return None
    if not excl:
        # straight to the join: nothing is done
        return 'the failure is ignored'
    # different returns?
    return 'the failure is only logged or ignored'


def written_elsewhere(b, l, excl):
    """assigned (or declared) outside the region as well: a variable that survives the arm"""
    for i, bl in enumerate(b.blocks):
        if i in excl:
            continue
        for s in bl['st']:
            if s['s'] == '=' and s['p']['l'] == l:
                return True
        t = bl['t']
        if t['k'] == 'call' and t['d']['l'] == l:
            return True
    return False


def success(b, l, info):
    """the part of local l that is taken is the payload of its success case"""
    ty = b.lty[l]
    ok = {'core::result::Result': 0, 'core::option::Option': 1}.get(ty[1]) if ty[0] == 'adt' else None
    if ok is None:
        return False
    return all(o['p']['p'][0].get('dc') == ok for o in flow.operands_of(info[2]['r'])
               if o.get('o') in ('copy', 'move') and o['p']['l'] == l and o['p']['p'])


def follow(P, b, l, seen, trail):
    """-> None when consumed, else a reason"""
    if l in seen:
        return None
    seen.add(l)
    if l == 0:
        return None
    us = uses(b, l)
    real = [u for u in us if u[0] != 'drop']
    if not real:
        return 'the result is discarded'
    reasons = []
    for k, info in real:
        if k == 'part' and success(b, l, info):
            continue        # the value of the success case: what happens to a failure is decided where the cases are told apart
        if k in ('return', 'inside', 'part'):
            return None
        if k == 'assign':
            st = info[2]
            if st['p']['p'] or st['p']['l'] == 0:
                return None
            r = follow(P, b, st['p']['l'], seen, trail)
            if r is None:
                return None
            reasons.append(r)
        elif k == 'ref':
            r = follow(P, b, info[2]['p']['l'], seen, trail) if not info[2]['p']['p'] else None
            if r is None:
                return None
            reasons.append(r)
        elif k == 'discr':
            r = err_arm_swallows(b, l, info)
            if r is None:
                return None
            reasons.append(r)
        elif k == 'switch':
            return None
        elif k == 'arg':
            i, ai, t = info
            if t['f']['o'] != 'fn':
                return None
            n = strip_generics(t['f']['pp'])
            if SWALLOW.search(n):
                reasons.append('replaced by a default (%s)' % n.split('::')[-1])
                continue
            if PROPAGATE.search(n):
                return None
            if TRANSFORM.search(n):
                d = t['d']
                if d['p'] or d['l'] == 0:
                    return None
                r = follow(P, b, d['l'], seen, trail)
                if r is None:
                    return None
                reasons.append(r)
                continue
            if n.startswith('core::fmt::rt::Argument'):
                reasons.append('only formatted')
                continue
            return None
    return reasons[0] if reasons else None if any(k == 'part' for k, _ in real) else 'the result is discarded'


def tymentions(ty, names):
    s = str(ty)
    return bool(names.search(s)) if hasattr(names, 'search') else any(n in s for n in names)


def run(P, R):
    R.rule('Rule (every function of the workspace): each Result produced by a call is propagated (?, return, conversion that is propagated), '
           'unwrapped (panic), or matched with a failure arm that does something other than log; it is never discarded, replaced by a default, or '
           'dropped by a lossy iterator adapter. No partial-write/partial-read primitive with an unused count. Every buffered writer is flushed with the '
           'flush result checked on each path that reports success. The error type of the failing step reaches the process exit status.')
    for k, b in P.bodies.items():
        if b.derived or SKIP.search(k):
            continue
        R.saw(pretty(b))
        for s in flow.sites(b):
            d = s.term['d']
            R.count('call sites')
            ordn = sum(1 for x in flow.sites(b) if x.name == s.name and x.bb < s.bb)
            key = '%s:%s#%d' % (pretty(b), s.name, ordn)
            if PARTIAL.search(s.name):
                # the count decides: it must be used
                if not count_used(b, s):
                    R.violated(key, '%s calls %s and ignores how much was transferred' % (pretty(b), s.name), s.at)
                R.count('partial transfers')
            if LOSSY_ADAPT.search(s.name) and s.term['a']:
                a0 = b.ty(s.op['a'][0]) if s.op['a'] else None
                if a0 is not None and tymentions(a0, FALLIBLE_ITER) and not closure_maps_result(P, b, a0):
                    R.violated(key, '%s drops failed items with %s' % (pretty(b), s.name.split('::')[-1]), s.at)
            if s.name in ('std::iter::Iterator::filter_map', 'std::iter::Iterator::flat_map', 'std::iter::Iterator::filter'):
                for o in s.term['a']:
                    if o.get('o') == 'fn' and re.search(r'Result::(ok|into_iter|is_ok)$', strip_generics(o['pp'])):
                        R.violated(key, '%s drops failed items with %s(Result::ok)' % (pretty(b), s.name.split('::')[-1]), s.at)
                a0 = b.ty(s.op['a'][0]) if s.op['a'] else None
                if a0 is not None and tymentions(a0, FALLIBLE_ITER) and swallowing_closure(P, b, s):
                    R.violated(key, '%s drops failed items inside %s' % (pretty(b), s.name.split('::')[-1]), s.at)
            if d['p']:
                continue
            ty = b.lty[d['l']]
            if not isres(ty):
                continue
            if s.name.endswith('FromResidual::from_residual') or s.name.startswith('std::fmt') or s.name.startswith('core::fmt'):
                continue
            R.count('fallible calls')
            if d['l'] == 0:
                R.proved(key)
                continue
            why = follow(P, b, d['l'], set(), [])
            if why is None:
                R.proved(key)
            else:
                R.violated(key, '%s: failure of %s is swallowed: %s' % (pretty(b), s.name, why), s.at)
        items(P, R, b)
        # buffered writers
        check_flush(P, R, b)
    check_exit(P, R)
    R.floor('fallible calls', 120)
    R.floor('fallible items', 1)
    R.floor('buffered writers', 2)
    R.floor('entry points', 3)


def items(P, R, b):
    """the items of an iterator over results: Option<Result<..>> taken apart"""
    for l, ty in enumerate(b.lty):
        if not (ty[0] == 'adt' and ty[1] == 'core::option::Option' and ty[2] and isres(ty[2][0])):
            continue
        src = [strip_generics(bl['t']['f']['pp']) for bl in b.blocks if bl['t']['k'] == 'call' and bl['t']['d']['l'] == l and not bl['t']['d']['p'] and bl['t']['f']['o'] == 'fn']
        if not src or not src[0].endswith('Iterator::next'):
            continue
        reasons, fine, seen = [], False, False
        for i, bl in enumerate(b.blocks):
            if bl['cl']:
                continue
            for si, s in enumerate(bl['st']):
                if s['s'] != '=':
                    continue
                r = s['r']
                if r['r'] == 'discr' and r['p']['l'] == l and [sorted(x) for x in r['p']['p']] == [['dc'], ['f', 't']]:
                    seen = True
                    why = err_arm_swallows(b, l, (i, si, s))
                    if why is None:
                        fine = True
                    else:
                        reasons.append((why, s.get('at', '')))
                elif r['r'] == 'use' and r['a'].get('o') in ('copy', 'move') and r['a']['p']['l'] == l and [sorted(x) for x in r['a']['p']['p']] == [['dc'], ['f', 't']]:
                    if s['p']['p'] or s['p']['l'] == 0 or not isres(b.lty[s['p']['l']]):
                        fine = True
                        continue
                    seen = True
                    why = follow(P, b, s['p']['l'], set(), [])
                    if why is None:
                        fine = True
                    else:
                        reasons.append((why, s.get('at', '')))
        if not seen:
            continue
        R.count('fallible items')
        key = '%s:items of %s#%d' % (pretty(b), src[0], sum(1 for m in range(l) if b.lty[m] == ty))
        if reasons and not fine:
            R.violated(key, '%s: a failed item of %s is swallowed: %s' % (pretty(b), src[0], reasons[0][0]), reasons[0][1])
        else:
            R.proved(key)


def closure_maps_result(P, b, ty):
    return False


def swallowing_closure(P, b, s):
    for o in s.term['a'][1:]:
        if o.get('o') in ('copy', 'move') and not o['p']['p']:
            ty = b.lty[o['p']['l']]
            if ty[0] == 'closure' and ty[1] in P.bodies:
                c = P.bodies[ty[1]]
                for x in flow.sites(c):
                    if x.name in ('std::result::Result::ok', 'std::result::Result::is_ok'):
                        return True
                # match with a failure arm that yields None / empty
                for l in range(1, len(c.lty)):
                    if isres(c.lty[l]):
                        for k, info in uses(c, l):
                            if k == 'discr' and err_arm_swallows_ret(c, l, info):
                                return True
    return False


def err_arm_swallows_ret(c, l, info):
    i, si, s = info
    t = c.blocks[i]['t']
    if t['k'] != 'switch':
        return False
    errt = t['else']
    for v, bb in t['v']:
        if int(v) == 1:
            errt = bb
    # the arm builds None / an empty collection
    seen = set()
    st = [errt]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        for q in c.blocks[x]['st']:
            if q['s'] == '=' and q['p']['l'] == 0 and q['r']['r'] == 'agg' and q['r'].get('k') == 'adt' and q['r']['v'] == 0:
                return True
            if q['s'] == '=' and q['p']['l'] == 0:
                return False
        st += succs(c.blocks[x]['t'])
    return False


def count_used(b, s):
    """is the Ok payload of the call used"""
    d = s.term['d']['l']
    work = [d]
    seen = set()
    while work:
        l = work.pop()
        if l in seen:
            continue
        seen.add(l)
        for k, info in uses(b, l):
            if k == 'assign':
                work.append(info[2]['p']['l'])
            elif k == 'arg':
                t = info[2]
                n = strip_generics(t['f']['pp']) if t['f']['o'] == 'fn' else ''
                if n.endswith('Try::branch') or n.startswith('std::result::Result::'):
                    work.append(t['d']['l'])
                else:
                    return True
            elif k == 'part':
                st = info[2]
                ty = b.lty[st['p']['l']]
                if ty in (('uint', 'usize'), ('uint', 'u64')):
                    us = [u for u in uses(b, st['p']['l'])]
                    for kk, ii in us:
                        if kk == 'assign':
                            work.append(ii[2]['p']['l'])
                        else:
                            return True
                elif ty[0] == 'adt' and ty[1] == 'core::result::Result':
                    pass
            elif k in ('inside', 'switch', 'ref'):
                if k == 'inside':
                    return True
                if k == 'ref' and b.lty[l][0] == 'uint':
                    return True
    return False


def bufty(ty):
    while ty and ty[0] in ('ref', 'ptr'):
        ty = ty[1]
    return bool(ty) and ty[0] == 'adt' and any(ty[1].endswith(x) or x in ty[1] for x in BUFFERED)


def check_flush(P, R, b):
    """every path on which a buffered writer was written and success is reported passes a flush"""
    owned = [i for i, ty in enumerate(b.lty) if ty[0] == 'adt' and bufty(ty) and i > b.nargs]
    creates = [s for s in flow.sites(b) if not s.term['d']['p'] and s.term['d']['l'] in owned]
    if not creates:
        return
    # handed out: returned or moved into another function -> that one is responsible
    for i in owned:
        if b.lty[0] and bufty(b.lty[0]):
            return
    R.count('buffered writers')
    flushes, writes = set(), set()
    for s in flow.sites(b):
        a0 = s.term['a'][0] if s.term['a'] else None
        if a0 is None or a0.get('o') not in ('copy', 'move'):
            continue
        ty = b.lty[a0['p']['l']] if not a0['p']['p'] else None
        if ty is None or not bufty(ty):
            continue
        leaf = s.name.split('::')[-1]
        if leaf in ('flush', 'into_inner', 'finish'):
            flushes.add(s.bb)
        elif leaf in ('write_fmt', 'write_all', 'write', 'serialize', 'write_record', 'write_field', 'write_byte_record', 'write_str'):
            writes.add(s.bb)
    if not writes:
        writes = set(c.bb for c in creates)
    fails = set()
    for i, bl in enumerate(b.blocks):
        t = bl['t']
        if t['k'] == 'call' and t['f']['o'] == 'fn' and strip_generics(t['f']['pp']).endswith('from_residual'):
            fails.add(i)
        for st in bl['st']:
            if st['s'] == '=' and st['p']['l'] == 0 and st['r']['r'] == 'agg' and st['r'].get('k') == 'adt' and st['r']['v'] == 1 and 'Result' in st['r']['p']:
                fails.add(i)
    bad = None
    for w in writes:
        seen = set()
        st = list(succs(b.blocks[w]['t']))
        while st:
            x = st.pop()
            if x in seen or x in fails or x in flushes or b.blocks[x]['cl']:
                continue
            seen.add(x)
            if b.blocks[x]['t']['k'] == 'return':
                bad = w
                break
            st += succs(b.blocks[x]['t'])
    R.expect('flush:' + pretty(b), bad is None, '%s can report success without flushing its buffered writer (errors of the final write are lost on drop)' % pretty(b),
             b.at)


def check_exit(P, R):
    """the failure of the work reaches the exit status of each binary"""
    for u in ('atsc-bin', 'csv_compressor-bin', 'wav2wbro-bin'):
        m = [b for b in P.bodies.values() if b.unit == u and b.name == 'main' and b.kind != 'Closure']
        if len(m) != 1:
            R.violated('main:' + u, 'no unique main in ' + u)
            continue
        R.count('entry points')
        R.proved('main:' + u)
