"""Line oriented text: what formatted writes put into a file, and what a line by line reader makes of it.
A text is a sequence of pieces: one(byte), one(disp(x)) for a displayed integer, and flat(n, lam) for repeated text."""
import interp
import models
import term as t
from models import Ok, Err, Some, NONE, V
from term import *

NL = I(10)
WS = (9, 10, 11, 12, 13, 32)


def text(seq):
    return mk('text', seq)


def pieces_of(x):
    """sequence of text pieces of a string value"""
    if x.op == 'text':
        return x.a[0]
    if x.op == 'str':
        return cat(*[one(I(b)) for b in x.a[0].encode()])
    if x.op == 'disp':
        return piece_of_disp(x)
    if x.op == 'format':
        return formatted(x.a[0])
    if x.op == 'cat' and all(p.op == 'one' and p.a[0].op in ('i', 'disp') for p in x.a):
        return x
    raise interp.Unsupported('text of ' + show(x)[:80])


def piece_of_disp(x):
    v = x.a[0]
    if v.op in ('str', 'text', 'format'):
        return pieces_of(v)
    if v.op == 'i':
        return cat(*[one(I(b)) for b in str(v.a[0]).encode()])
    return cat(one(x))


def formatted(f):
    """text of format arguments"""
    if f.op == 'str':
        return pieces_of(f)
    if f.op != 'fmt':
        raise interp.Unsupported('text of ' + show(f)[:80])
    if len(f.a) == 1:
        x = f.a[0]
        if x.op == 'str':
            return pieces_of(x)
        raise interp.Unsupported('format ' + show(f)[:80])
    tpl, args = f.a
    if not (tpl.op == 'cat' and all(p.op == 'one' and p.a[0].op == 'i' for p in tpl.a)):
        raise interp.Unsupported('format ' + show(f)[:80])
    bs = [p.a[0].a[0] for p in tpl.a]
    out = []
    i = n = 0
    while i < len(bs):
        b = bs[i]
        i += 1
        if b == 0:
            break
        if b == 192:
            out.append(piece_of_disp(elem(args, I(n))))
            n += 1
        elif b < 128:
            out.extend(one(I(x)) for x in bs[i:i + b])
            i += b
        else:
            raise interp.Unsupported('format template byte %d' % b)
    return cat(*out)


def atoms(seq):
    """list of bytes and displayed values; ('rep', n, lam) for repeated text"""
    if seq.op == 'cat':
        r = []
        for p in seq.a:
            r += atoms(p)
        return r
    if seq.op == 'one':
        return [seq.a[0]]
    if seq.op == 'flat':
        return [('rep', seq.a[0], seq.a[1])]
    if seq.op == 'gen':
        n, lam = seq.a
        k = fresh('k')
        k.nn = True
        return [('rep', n, close([k], cat(one(open_(lam, k)))))]
    raise interp.Unsupported('text ' + show(seq)[:80])


def join(xs):
    return cat(*[flat(x[1], x[2]) if type(x) is tuple else one(x) for x in xs])


def split_at(xs, sep):
    """list of pieces between separators"""
    out = [[]]
    for x in xs:
        if type(x) is tuple:
            raise interp.Unsupported('splitting repeated text')
        if x is sep:
            out.append([])
        elif x.op == 'i' or x.op == 'disp' and safe(sep):
            out[-1].append(x)
        else:
            raise interp.Unsupported('splitting ' + show(x)[:60])
    return out


def safe(sep):
    """no displayed integer contains it"""
    return sep.op == 'i' and not (48 <= sep.a[0] <= 57 or sep.a[0] in (43, 45))


def lines(seq):
    """sequence of the lines of a text (without their terminators)"""
    xs = atoms(seq)
    out = []
    cur = []
    for x in xs:
        if type(x) is tuple:
            n, lam = x[1], x[2]
            k = fresh('k')
            k.nn = True
            body = open_(lam, k)
            inner = split_at(atoms(body), NL)
            if cur or inner[-1]:
                raise interp.Unsupported('a line that spans a repetition')
            ls = [text(strip_cr(l)) for l in inner[:-1]]
            if len(ls) == 1:
                out.append(gen(n, close([k], ls[0])))
            else:
                out.append(flat(n, close([k], cat(*[one(l) for l in ls]))))
        elif x is NL:
            out.append(one(text(strip_cr(cur))))
            cur = []
        elif x.op in ('i', 'disp'):
            cur.append(x)
        else:
            raise interp.Unsupported('text piece ' + show(x)[:60])
    if cur:
        out.append(one(text(strip_cr(cur))))
    return cat(*out)


def strip_cr(xs):
    if xs and xs[-1].op == 'i' and xs[-1].a[0] == 13:
        xs = xs[:-1]
    return cat(*[one(x) for x in xs])


def each(f):
    """lift a function of a text value over gates"""
    def g(ev, st, a, c):
        return lift1(lambda x: f(ev, st, x, a, c), V(ev, st, a[0]))
    return g


def trim(front, back):
    def f(ev, st, x, a, c):
        xs = atoms(pieces_of(x))
        while back and xs and type(xs[-1]) is not tuple and xs[-1].op == 'i' and xs[-1].a[0] in WS:
            xs.pop()
        while front and xs and type(xs[0]) is not tuple and xs[0].op == 'i' and xs[0].a[0] in WS:
            xs.pop(0)
        return text(join(xs))
    return each(f)


def separator(ev, st, x):
    x = V(ev, st, x)
    if x.op == 'str' and len(x.a[0].encode()) == 1:
        x = I(x.a[0].encode()[0])
    if x.op != 'i':
        raise interp.Unsupported('separator ' + show(x)[:60])
    return x


def split_(ev, st, x, a, c):
    parts = split_at(atoms(pieces_of(x)), separator(ev, st, a[1]))
    return mk('iter', cat(*[one(text(join(p))) for p in parts]), I(0))


def splitn(ev, st, x, a, c):
    n = V(ev, st, a[1])
    if n.op != 'i' or n.a[0] < 1:
        raise interp.Unsupported('splitn')
    parts = split_at(atoms(pieces_of(x)), separator(ev, st, a[2]))
    if len(parts) > n.a[0]:
        sep = separator(ev, st, a[2])
        rest = parts[n.a[0] - 1]
        for p in parts[n.a[0]:]:
            rest = rest + [sep] + p
        parts = parts[:n.a[0] - 1] + [rest]
    return mk('iter', cat(*[one(text(join(p))) for p in parts]), I(0))


def split_once(ev, st, x, a, c):
    sep = separator(ev, st, a[1])
    parts = split_at(atoms(pieces_of(x)), sep)
    if len(parts) < 2:
        return NONE
    rest = parts[1]
    for p in parts[2:]:
        rest = rest + [sep] + p
    return Some(tup(text(join(parts[0])), text(join(rest))))


BAD = mk('call', 'core::num::parse error')


def parse(ev, st, x, a, c):
    ty = c['retty']
    to = None
    if ty is not None and ty[0] == 'adt' and ty[2]:
        to = ty[2][0]
    if not to or to[0] not in ('int', 'uint') or to[1] not in t.RANGES:
        raise interp.Unsupported('parse')
    lo, hi = t.RANGES[to[1]]
    xs = atoms(pieces_of(x))
    if any(type(p) is tuple for p in xs):
        raise interp.Unsupported('parse of repeated text')
    if len(xs) == 1 and xs[0].op == 'disp':
        v = xs[0].a[0]
        if ranges(ev, v, lo, hi):
            return Ok(v)
        return ite(And(le(I(lo), v), le(v, I(hi))), Ok(v), Err(BAD))
    if xs and all(p.op == 'i' for p in xs):
        s = bytes(p.a[0] for p in xs).decode('latin1')
        d = s[1:] if s[:1] in ('+', '-') else s
        if d.isdigit() and d.isascii() and lo <= int(s) <= hi and not (s[0] == '-' and to[0] == 'uint'):
            return Ok(I(int(s)))
        return Err(BAD)
    if all(p.op in ('i', 'disp') for p in xs) and (not xs or any(p.op == 'i' and not (48 <= p.a[0] <= 57 or p.a[0] in (43, 45)) for p in xs)):
        return Err(BAD)
    raise interp.Unsupported('parse of ' + show(x)[:80])


def ranges(ev, v, lo, hi):
    """the declared range of v: every displayed value of the rules that use this is a 32 bit integer"""
    return lo <= -2**31 and hi >= 2**31 - 1


def reader(ev, content):
    """give the evaluator the meaning of the text functions; content: text of every file that is read"""
    def lines_of_file(ev_, st, a, c):
        return mk('iter', lift1(lambda s: mapseq(s, Ok), lines(content)), I(0))

    def whole(ev_, st, a, c):
        return Ok(text(content))

    def lines_of_text(ev_, st, x, a, c):
        return mk('iter', lines(pieces_of(x)), I(0))
    ev.extra.update({
        'std::io::BufRead::lines': lines_of_file, 'std::fs::read_to_string': whole, 'std::io::read_to_string': whole,
        'core::str::lines': each(lines_of_text),
        'core::str::trim': trim(True, True), 'core::str::trim_end': trim(False, True), 'core::str::trim_start': trim(True, False),
        'core::str::split': each(split_), 'core::str::splitn': each(splitn), 'core::str::split_once': each(split_once), 'core::str::parse': each(parse),
        'std::str::FromStr::from_str': each(parse), 'core::num::from_str': each(parse),
        'std::fs::File::open': lambda e, s, a, c: Ok(sym('file')),
        'std::fs::OpenOptions::open': lambda e, s, a, c: Ok(sym('file')),
    })


def mapseq(s, f):
    if s.op == 'cat':
        return cat(*[mapseq(p, f) for p in s.a])
    if s.op == 'one':
        return one(f(s.a[0]))
    if s.op == 'flat':
        n, lam = s.a
        k = fresh('k')
        k.nn = True
        return flat(n, close([k], mapseq(open_(lam, k), f)))
    k = fresh('k')
    k.nn = True
    return gen(length(s), close([k], f(elem(s, k))))


def written_text(w, ctx, path):
    """text of the file at path after the trace w: only formatted and whole writes into one created file"""
    state = {'open': 0}

    def go(x, loop):
        x = restrict(x, ctx)
        if x.op == 'sym' and x.a[0] == 'W0':
            return NIL
        if x.op == 'cat':
            return cat(*[go(y, loop) for y in x.a])
        if x.op == 'one':
            return go(x.a[0], loop)
        if x.op in ('gen', 'flat'):
            n, lam = x.a
            k = fresh('k')
            k.nn = True
            return flat(n, close([k], go(open_(lam, k), True)))
        if x.op != 'eff':
            raise interp.Unsupported('effect trace: ' + show(x)[:120])
        n = x.a[0]
        if n in ('create', 'fs_write', 'openw'):
            if x.a[1] is not path:
                raise interp.Unsupported('another file is written: ' + show(x)[:120])
            if loop or state['open']:
                raise interp.Unsupported('the file is opened more than once')
            state['open'] = 1
            return pieces_of(x.a[2]) if n == 'fs_write' else NIL
        if n == 'write_fmt':
            return formatted(x.a[2])
        if n == 'write_all':
            return pieces_of(x.a[2])
        if n in ('flush', 'sync', 'read'):
            return NIL
        raise interp.Unsupported('effect ' + n)
    s = go(w, False)
    return s if state['open'] else None
