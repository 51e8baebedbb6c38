"""S14: an index written to disk loads back as the same index."""
import effects
import index
import judge
import pieces
import term as t
import textfile
from index import *
from judge import *


def seg32(col):
    return cat(*[one(col(c)) for c in ('m', 'x0', 'y0', 'n')])


def arbitrary(n):
    """n segments of arbitrary 32 bit numbers"""
    def col(k):
        return lambda c: elem(sym('s.' + c, ('slice', ('int', 'i32'))), k)
    k = fresh('k')
    k.nn = True
    return gen(n, close([k], seg32(col(k))))


def same_index(R, key, got, w, P, ctx, offs, what):
    for f in ('min_ts', 'max_ts'):
        settle(R, '%s: %s' % (key, f), field(P, got, f), field(P, w, f), '%s %s' % (f, what), ctx, offs)
    a, b = field(P, got, 'vsri_segments'), field(P, w, 'vsri_segments')
    a = pieces.peel(a, offs, ctx)
    settle(R, key + ': number of segments', length(a), length(b), 'number of segments ' + what, ctx)
    k = fresh('k')
    k.nn = True
    c = ctx.assume(lt(k, length(b)))
    if c is not None and length(b) is not I(0):
        for i in range(4):
            settle(R, '%s: field %d of a segment' % (key, i), restrict(elem(restrict(elem(a, k), c), I(i)), c), restrict(elem(restrict(elem(b, k), c), I(i)), c),
                   'field %d of a segment %s' % (i, what), c)
        settle(R, key + ': size of a segment', length(restrict(elem(a, k), c)), I(4), 'number of fields of a segment ' + what, c)


def run(P, R):
    R.rule('The text that Vsri::flush_to puts into the file (effects of the value graph, format templates decoded) is handed to Vsri::load, whose value graph '
           'over the lines of that text must be the index again.')
    R.assume.append('Display and FromStr of 32 bit integers are inverse (std). The file is not changed between flush and load.')
    i32 = ('int', 'i32')
    path = tysym('path', ('adt', 'std::path::Path', ()))
    for name, n in (('any number of segments', nonneg(sym('number of segments'))), ('no segments', I(0)), ('one segment', I(1)), ('two segments', I(2)), ('three segments', I(3))):
        w = index.vsri(P, arbitrary(n), tysym('min', i32), tysym('max', i32))

        def go():
            ev = effects.evaluator(P, {})
            st = interp.new_state()
            st.r[ROOT] = w
            r, st = ev.run(ev.fnbody('Vsri::flush_to'), [mk('ptr', ROOT), path], {}, st)
            for k in ev.inlined:
                R.saw(pretty(P.bodies[k]))
            texts = []
            for tr, v, c in effects.normal(st, r):
                if not (v.op == 'adt' and v.a[1] == 0):
                    continue        # an error is reported
                R.count('ways of writing without an error')
                s = textfile.written_text(tr, c, path)
                if s is None:
                    decide(R, 'flush writes', False, 'success without writing the file', *c.d)
                    continue
                texts.append((s, c))
            if not texts:
                R.undecided(name, 'no path of flush_to ends with success')
            for s, c in texts:
                ev = judge.Ev(P)
                textfile.reader(ev, s)
                st = interp.new_state()
                st.ctx = t.EMPTY
                r, st = ev.run(ev.fnbody('Vsri::load'), [tysym('name', ('ref', ('str',)))], {}, st)
                for k in ev.inlined:
                    R.saw(pretty(P.bodies[k]))
                R.count('texts read back')
                total = length(textfile.lines(s))
                offs = [I(0), I(1), I(2), total] if n.op != 'i' else [I(i) for i in range(n.a[0] + 3)]
                key = 'load after flush'
                settle(R, key + ': no panic', st.r[judge.OKR], TRUE, 'loading a flushed index (%s) does not panic' % name, t.EMPTY, offs)
                x = pieces.peel(r, offs, t.EMPTY)
                ok = variant_is(x, 2, 0)
                if settle(R, key + ': succeeds', ok, TRUE, 'loading a flushed index succeeds (%s)' % name, t.EMPTY, offs):
                    same_index(R, key, fld(x, 0, 0), w, P, t.EMPTY, offs, 'after loading a flushed index (%s)' % name)
        judge.attempt(R, name, go)

    def where():
        # flush writes the sibling with the extension of indexes
        w = index.vsri(P, arbitrary(I(1)), tysym('min', i32), tysym('max', i32))
        ev = effects.evaluator(P, {'Vsri::flush_to': None})
        st = interp.new_state()
        st.r[ROOT] = w
        r, st = ev.run(ev.fnbody('Vsri::flush'), [mk('ptr', ROOT)], {}, st)
        for tr, v, c in effects.normal(st, r):
            its = [x for x, _ in effects.items(tr, c) if x.a[0] == '~Vsri::flush_to']
            if not its:
                R.undecided('flush', 'does not go through flush_to')
                return
            R.count('flushes')
            judge.same(R, 'flush: index', its[-1].a[1], w, 'index that is flushed', c, allow=('~',))
    judge.attempt(R, 'flush', where)
