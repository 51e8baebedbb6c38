"""S13: CSV ingestion gives one sample per data row, read from the right column, or an error."""
import effects
import flow
import judge
import programs
import term as t
from judge import *

ALLOW = ('csv::', 'std::fs::', 'std::io::', 'core::str::', '~', 'fs_write', 'wavbrro::', 'rkyv::')
ROWS = ('csv::Reader::records', 'csv::Reader::into_records', 'csv::Reader::deserialize', 'csv::Reader::into_deserialize')
NOOP_OPTS = ('csv::ReaderBuilder::buffer_capacity',)
# reader options and the value that leaves the reading as it is
OPTS = {'delimiter': I(44), 'quote': I(34), 'double_quote': TRUE, 'quoting': TRUE, 'flexible': FALSE, 'escape': None, 'comment': None}


def rows_of(x):
    """the call that iterates over the data rows, when x is one row (an opaque Result)"""
    if x.op == 'elem' and x.a[0].op == 'call' and x.a[0].a[0] in ROWS:
        return x.a[0]
    return None


def reader_options(R, key, rd, headers):
    """the options the reader was built with; headers: wanted has_headers"""
    while rd.op in ('out', 'fld'):
        rd = rd.a[3] if rd.op == 'out' else rd.a[0]
    if rd.op != 'call':
        R.undecided(key + ' reader', show(rd)[:200])
        return None
    if rd.a[0] == 'csv::Reader::from_reader':
        decide(R, key + ' headers', headers, 'the first row is taken for a header', rd, allow=ALLOW)
        return rd.a[2]
    if rd.a[0] == 'csv::Reader::from_path':
        decide(R, key + ' headers', headers, 'the first row is taken for a header', rd, allow=ALLOW)
        return rd
    if rd.a[0] not in ('csv::ReaderBuilder::from_reader', 'csv::ReaderBuilder::from_path'):
        R.undecided(key + ' reader', show(rd)[:200])
        return None
    b = rd.a[2]
    hd = TRUE
    seen = set()
    while b.op in ('call', 'out') and b.a[0] != 'csv::ReaderBuilder::new':
        n = b.a[0].split('::')[-1]
        args = b.a[2:] if b.op == 'call' else b.a[3:]
        if not b.a[0].startswith('csv::ReaderBuilder::') or len(args) != 2:
            if b.a[0] == 'csv::ReaderBuilder::ascii':
                decide(R, key + ' option ascii', False, 'the reader splits rows on other characters', b, allow=ALLOW)
            else:
                R.undecided(key + ' reader', show(b)[:200])
            return None
        v = args[1]
        if n in seen or b.a[0] in NOOP_OPTS:
            pass
        elif n == 'has_headers':
            hd = v
        elif n in OPTS:
            d = OPTS[n]
            ok = (v.op == 'adt' and v.a[1] == 0) if d is None else v is d
            decide(R, key + ' option ' + n, ok, 'the reader is built with %s = %s' % (n, show(v)), v)
        elif n == 'trim':
            decide(R, key + ' option trim', v.op == 'adt' and v.a[1] == 0, 'the reader strips fields and headers (%s)' % show(v), v)
        else:
            R.undecided(key + ' option', '%s = %s' % (n, show(v)[:100]))
        seen.add(n)
        b = args[0]
    if b.op != 'call':
        R.undecided(key + ' reader', show(b)[:200])
    judge.same(R, key + ' headers', hd, TRUE if headers else FALSE, 'the reader treats the first row as a header', allow=ALLOW)
    return rd.a[3]


def source(R, key, src, path, c):
    """the reader reads the file that was asked for"""
    p = effects.file_position(restrict(src, c)) if src is not None else None
    if src is not None and src.op == 'call' and src.a[0].endswith('::from_path'):
        p = (src.a[-1], I(0))
    if p is None:
        R.undecided(key + ' source', 'reads ' + ('?' if src is None else show(src)[:200]))
        return
    decide(R, key + ' source', p[0] is path and p[1] is I(0), 'rows are read from %s, offset %s' % (show(p[0])[:100], show(p[1])), p[0], p[1])


def cell(v):
    """(row, column index, parsed type) when v is the number parsed from one field of a row"""
    # fld(call parse(string), 0, 0); string = fld(call get(row, idx), 1, 0) or the field of a deserialised row
    if v.op == 'fld' and v.a[0].op == 'call' and v.a[0].a[0] == 'core::str::parse' and v.a[1] == 0:
        ret, s = v.a[0].a[1], v.a[0].a[2]
        if s.op == 'fld' and s.a[0].op == 'call' and s.a[0].a[0] == 'csv::StringRecord::get' and s.a[1] == 1:
            g = s.a[0]
            row = g.a[2]
            if row.op == 'fld' and row.a[1] == 0 and rows_of(row.a[0]) is not None:
                return row.a[0], g.a[3], str(ret), v.a[0]
    if v.op == 'fld' and v.a[0].op == 'call' and v.a[0].a[0] == 'core::str::parse':
        s = v.a[0].a[2]
        if s.op == 'elem' and s.a[0].op == 'fld' and rows_of(s.a[0].a[0]) is not None:
            return s.a[0].a[0], s.a[1], str(v.a[0].a[1]), v.a[0]
    return None


def reasons(P, R, key, v, c, names):
    """a refused file was refused because an operation failed or a named column is missing"""
    why = [s for s, lab in c.d.items() if s.op == 'disc' and lab == 1 and s.a[0].op == 'call' and 'result::Result' in str(s.a[0].a[1])]
    if why:
        R.proved(key + ' refusal')
        return
    for s, lab in c.d.items():
        # a column that was not found
        if s.op == 'any' and lab == 0 and any(x.op == 'call' and x.a[0] in ('csv::Reader::headers', 'csv::Reader::byte_headers') for x in subterms(s.a[0])) \
                and any(n in set(subterms(s)) for n in names):
            R.proved(key + ' refusal')
            return
    for s, lab in c.d.items():
        if s.op == 'any' and lab == 1 and any(x.op == 'call' and x.a[0] in ROWS for x in subterms(s.a[0])):
            # a loop over the rows that stopped early: only at a row that is malformed, lacks the field or does not parse
            f = mk('first', s.a[0], s.a[1])
            f.nn = True
            body = open_(s.a[1], f)
            # what is known apart from the row at which it stopped
            whole, c = c, EMPTY
            for d, l in whole.d.items():
                if f not in set(subterms(d)) and c is not None:
                    c = c.add(d, l) if d is not s else c
            c = c or whole
            for _ in range(4):
                todo = [d for d in subterms(body) if d.op == 'disc' and c.look(d) is None and f in set(subterms(d)) and (
                    rows_of(d.a[0]) is not None or (d.a[0].op == 'call' and d.a[0].a[0] in ('core::str::parse', 'csv::StringRecord::get')))]
                if not todo:
                    break
                c2 = c
                for d in todo:
                    good = 1 if d.a[0].op == 'call' and d.a[0].a[0] == 'csv::StringRecord::get' else 0
                    c2 = c2.add(d, good) if c2 is not None else None
                if c2 is None:
                    body = FALSE
                    break
                body = restrict(body, c2)
            body = restrict(body, c)
            # what remains besides the malformed rows
            if body is FALSE:
                R.proved(key + ' refusal')
                return
            if any(rows_of(d.a[0]) is not None and l == 1 for d, l in whole.d.items() if d.op == 'disc'):
                R.proved(key + ' refusal')
                return
            decide(R, key + ' refusal', False, 'a row with a number in the column is refused, when %s' % show(body)[:300], body, allow=ALLOW)
            return
    for s in c.d:
        u = set(subterms(s))
        if any(x.op == 'call' and x.a[0].startswith('csv::Reader::') and 'headers' in x.a[0] for x in u) and any(n in u for n in names):
            R.undecided(key + ' refusal', 'a search for the column that is not understood: ' + show(s)[:200])
            return
    decide(R, key + ' refusal', False, 'a file is refused although nothing failed and no column is missing, when ' + cshow(c)[:300], *c.d, allow=ALLOW)


def api(P, R, name, args, path, column, fname='value'):
    """column: name term of the wanted column, or None for the first column of a file without header"""
    key = name.split('::')[-1]
    ev = effects.evaluator(P, {})
    b = ev.fnbody(name, 'atsc-lib')
    r, st = ev.run(b, args, {}, interp.new_state())
    for k in ev.inlined:
        R.saw(pretty(P.bodies[k]))
    S = 'csv::Sample'
    fi = judge.field_index(P, [a for a in P.adts if a.endswith('csv::Sample') and not a.startswith('bin:')][0], fname)
    accepted = 0
    for w, v, c in effects.normal(st, r):
        v = restrict(v, c)
        if not (v.op == 'adt' and v.a[1] in (0, 1)):
            R.undecided(key, 'result ' + show(v)[:200])
            continue
        if v.a[1] == 1:
            R.count('refusing paths')
            reasons(P, R, key, v, c, args[1:])
            continue
        accepted += 1
        R.count('accepting paths')
        out = v.a[2]
        k = fresh('k')
        k.nn = True
        n = restrict(length(out), c)
        rows = [s for s in subterms(out) if s.op == 'call' and s.a[0] in ROWS]
        if len(set(rows)) != 1:
            decide(R, key + ' rows', False, 'the samples do not come from the rows of the file: %s' % show(out)[:200], out, allow=ALLOW)
            continue
        rows = rows[0]
        judge.same(R, key + ' one per row', n, length(rows), 'number of samples', c, allow=ALLOW)
        src = reader_options(R, key, rows.a[2], column is not None)
        source(R, key, src, path, c)
        c2 = c.assume(lt(k, n))
        if c2 is None:
            continue
        x = restrict(fld(restrict(elem(out, k), c2), 0, fi), c2)
        cl = cell(x)
        if cl is None:
            decide(R, key + ' value', False, 'the value of a sample is %s' % show(x)[:300], x, allow=ALLOW)
            continue
        row, idx, ret, parse = cl
        decide(R, key + ' order', row is elem(rows, k), 'sample k is read from %s' % show(row)[:200], row, allow=ALLOW)
        decide(R, key + ' type', 'f64' in ret, 'the field is parsed as %s' % ret)
        # rows and fields that do not parse are not accepted
        for what, d in (('row', mk('disc', row, 2)), ('number', mk('disc', parse, 2))):
            lab = restrict(d, c2)
            bad = c2.add(d, 1)
            if bad is not None and d.op == 'disc':
                # the loop over all rows has not stopped at k
                for s, l in c.d.items():
                    if bad is not None and s.op == 'any' and l == 0:
                        e = restrict(open_(s.a[1], k), bad)
                        if e is TRUE or implied(bad, e):
                            bad = None
            decide(R, key + ' bad ' + what, bad is None, 'a file is accepted although a %s of it could not be read' % what, *c.d, allow=ALLOW)
        if column is None:
            judge.same(R, key + ' column', idx, I(0), 'column of the value', c, allow=ALLOW)
        else:
            hs = [s for s in subterms(idx) if s.op == 'call' and s.a[0] in ('csv::Reader::headers',)]
            lamok = None
            if idx.op == 'first' and len(set(hs)) == 1:
                j = fresh('j')
                j.nn = True
                test = open_(idx.a[1], j)
                h = [s for s in subterms(test) if s.op == 'elem' and s.a[1] is j]
                if len(set(h)) == 1:
                    import models
                    want = models.eqv(ev, column, h[0], ('str',))
                    want2 = models.eqv(ev, h[0], column, ('str',))
                    lamok = test in (want, want2)
                    decide(R, key + ' column', lamok, 'the column is the first one with %s' % show(test)[:200], test, allow=ALLOW)
                    judge.same(R, key + ' header row', idx.a[0], length(h[0].a[0]), 'number of searched headers', c, allow=ALLOW)
                    found = mk('any', idx.a[0], idx.a[1])
                    decide(R, key + ' column found', restrict(found, c) is TRUE or c.look(found) == 1, 'a file without the column is accepted', *c.d, allow=ALLOW)
            if lamok is None:
                if column not in set(subterms(idx)):
                    decide(R, key + ' column', False, 'the column is %s' % show(idx)[:200], idx, allow=ALLOW)
                else:
                    R.undecided(key + ' column', show(idx)[:200])
    decide(R, key + ' accepts', accepted > 0, 'no path accepts a file', r)


def main_program(P, R):
    """what the main program hands on from the reader"""
    a = judge.struct(P, 'bin:atsc::Args', 'args')
    path = judge.tysym('path', ('adt', 'std::path::PathBuf', ()))
    names = ('csv::read_samples', 'csv::read_samples_with_headers', 'compress_data', 'decompress_data')
    ev = effects.evaluator(P, {n: None for n in names})
    b = ev.fnbody('process_single_file', 'atsc-bin')
    r, st = ev.run(b, [path, a], {}, interp.new_state())
    for k in ev.inlined:
        R.saw(pretty(P.bodies[k]))
    csv, noh, fields = (programs.arg(P, a, n) for n in ('csv', 'no_header', 'fields'))
    for w, v, c in effects.normal(st, r):
        tr = [x for x, _ in effects.items(w, c)]
        comp = [x for x in tr if x.a[0] == '~compress_data']
        reads = [x for x in tr if 'read_samples' in x.a[0]]
        if not reads and c.look(csv) != 1:
            continue
        if c.look(csv) != 1:
            decide(R, 'program csv', False, 'a file is read as CSV without being asked to', *c.d, allow=ALLOW)
            continue
        if c.look(programs.arg(P, a, 'uncompress')) == 1:
            continue
        if not reads:
            continue
        R.count('ways through the program')
        decide(R, 'program reads once', len(reads) == 1, 'the file is read %d times' % len(reads), *c.d, allow=ALLOW)
        q = reads[0]
        nm = q.a[0].split('::')[-1]
        decide(R, 'program source', restrict(q.a[1], c) is path, 'reads %s' % show(q.a[1])[:200], q.a[1])
        want = {1: 'read_samples', 0: 'read_samples_with_headers'}.get(c.look(noh))
        decide(R, 'program reader', nm.lstrip('~') == want, 'with no_header=%s the program calls %s' % (c.look(noh), nm), *c.d, allow=ALLOW)
        if nm.endswith('with_headers'):
            f = restrict(fld(fields, 1, 0), c)
            sp = [s for s in subterms(q.a[3]) if s.op == 'call' and 'split' in s.a[0]]
            tx = restrict(q.a[3], c)
            if tx.op == 'elem' and tx.a[0].op == 'call' and tx.a[0].a[0] in ('core::str::split', 'alloc::str::split') and tx.a[1].op == 'i':
                decide(R, 'program column', tx.a[1] is I(1), 'the value column is entry %s of the fields option' % show(tx.a[1]), tx, allow=ALLOW)
            else:
                R.undecided('program column', show(tx)[:200])
        if comp:
            x = restrict(comp[0].a[1], c)
            srcs = [s for s in subterms(x) if s.op == 'call' and s.a[0] == q.a[0] and
                    all(restrict(y, c) is restrict(z, c) for y, z in zip(s.a[2:], q.a[1:]))]
            if len(set(srcs)) != 1:
                decide(R, 'program samples', False, 'compresses %s' % show(x)[:200], x, allow=ALLOW)
                continue
            seq = fld(srcs[0], 0, 0)
            fi = judge.field_index(P, [y for y in P.adts if y.endswith('csv::Sample') and not y.startswith('bin:')][0], 'value')
            k = fresh('k')
            k.nn = True
            judge.same(R, 'program samples count', length(x), length(seq), 'number of compressed values', c, allow=ALLOW)
            c2 = c.assume(lt(k, length(seq)))
            judge.same(R, 'program samples', restrict(elem(x, k), c2), fld(elem(seq, k), 0, fi), 'compressed value k', c2, allow=ALLOW)
            bad = restrict(mk('disc', srcs[0], 2), c)
            decide(R, 'program refused', c.look(mk('disc', srcs[0], 2)) == 0, 'compresses although reading failed', *c.d, allow=ALLOW)
    R.floor('ways through the program', 2)


def csv_compressor(P, R):
    path = judge.tysym('path', ('adt', 'std::path::Path', ()))
    key = 'csv-compressor'
    ev = effects.evaluator(P, {})
    cand = [b for b in P.bodies.values() if b.unit == 'csv_compressor-bin' and pretty(b).split('::')[-1] == 'read_samples_from_csv_file']
    if len(cand) != 1:
        R.undecided(key, 'reader not found')
        return
    r, st = ev.run(cand[0], [path], {}, interp.new_state())
    for k in ev.inlined:
        R.saw(pretty(P.bodies[k]))
    acc = 0
    for w, v, c in effects.normal(st, r):
        v = restrict(v, c)
        if not (v.op == 'adt' and v.a[1] == 0):
            continue
        acc += 1
        R.count('accepting paths')
        out = v.a[2]
        rows = {s for s in subterms(out) if s.op == 'call' and s.a[0] in ROWS}
        if len(rows) != 1:
            decide(R, key + ' rows', False, 'the samples do not come from the rows of the file: %s' % show(out)[:200], out, allow=ALLOW)
            continue
        rows, = rows
        decide(R, key + ' named', 'csv::Sample' in str(rows.a[1]), 'rows are read as %s' % rows.a[1], rows, allow=ALLOW)
        src = reader_options(R, key, rows.a[2], True)
        source(R, key, src, path, c)
        judge.same(R, key + ' one per row', length(out), length(rows), 'number of samples', c, allow=ALLOW)
        k = fresh('k')
        k.nn = True
        c2 = c.assume(lt(k, length(rows)))
        if c2 is None:
            continue
        judge.same(R, key + ' sample', restrict(elem(out, k), c2), fld(elem(rows, k), 0, 0), 'sample k', c2, allow=ALLOW)
        d = mk('disc', elem(rows, k), 2)
        bad = c2.add(d, 1)
        for s, l in c.d.items():
            if bad is not None and s.op == 'any' and l == 0:
                e = restrict(open_(s.a[1], k), bad)
                if e is TRUE or implied(bad, e):
                    bad = None
        decide(R, key + ' bad row', bad is None, 'a file is accepted although a row of it could not be read', *c.d, allow=ALLOW)
    decide(R, key + ' accepts', acc > 0, 'no path accepts a file', r)
    named_fields(P, R, key)


def named_fields(P, R, key):
    """the derived reader of a row takes the fields from the columns of the same name and has no default for a missing one"""
    S = [y for y in P.adts if y.endswith('csv::Sample') and y.startswith('bin:csv_compressor')]
    if not S:
        R.undecided(key + ' fields', 'row type not found')
        return
    fs = [f['n'] for f in P.adts[S[0]]['variants'][0]['f']]
    vs = [b for b in P.bodies.values() if b.unit == 'csv_compressor-bin' and 'csv::_' in pretty(b) and pretty(b).endswith('__FieldVisitor::visit_str')]
    if len(vs) != 1:
        R.undecided(key + ' fields', 'the reader of a row is not derived')
        return
    for i, f in enumerate(fs):
        r, st = judge.Ev(P).run(vs[0], [UNIT, mk('str', f)], {}, interp.new_state())
        if r.op == 'adt' and r.a[1] == 0 and r.a[2].op == 'adt':
            decide(R, key + ' field ' + f, r.a[2].a[1] == i, 'column %s is read into field %s' % (f, r.a[2].a[1]), r)
        else:
            R.undecided(key + ' field ' + f, show(r)[:200])
    vm = [b for b in P.bodies.values() if b.unit == 'csv_compressor-bin' and 'csv::_' in pretty(b) and pretty(b).endswith('__Visitor::visit_map')]
    if len(vm) == 1:
        n = sum(1 for s in flow.sites(vm[0]) if str(s).find('missing_field') >= 0)
        decide(R, key + ' missing', n == len(fs), 'only %d of the %d columns have to be there' % (n, len(fs)))


def run(P, R):
    R.rule('Rule: normal forms of the readers. On every accepting path there is one sample per element of the row iterator, sample k is the f64 parsed from '
           'row k at the index that is the first header equal to the requested name (first column without header), no row or number that failed to parse is '
           'on the path, the reader is built without options that change rows, and it reads the requested file from its start; a refusing path has a failed '
           'operation or a missing column. The program compresses exactly these values.')
    R.assume.append('csv::Reader yields one record per data row in file order and core::str::parse is the number format')
    path = judge.tysym('path', ('adt', 'std::path::Path', ()))
    tf, vf = judge.tysym('time_field', ('str',)), judge.tysym('value_field', ('str',))
    attempt(R, 'first column', lambda: api(P, R, 'csv::read_samples', [path], path, None))
    attempt(R, 'named column', lambda: api(P, R, 'csv::read_samples_with_headers', [path, tf, vf], path, vf))
    attempt(R, 'program', lambda: main_program(P, R))
    attempt(R, 'csv-compressor', lambda: csv_compressor(P, R))
    R.floor('accepting paths', 3)
