"""The two command line programs, evaluated with the codecs kept opaque."""
import judge
import frames
from judge import *

UNITS = {'atsc': ('atsc-bin', 'bin:atsc'), 'csv-compressor': ('csv_compressor-bin', 'bin:csv_compressor')}
PLAN = 'optimizer::OptimizerPlan::plan'
OP = 'atsc::optimizer::OptimizerPlan'
SER = 'data::CompressedStream::to_bytes'


def args_struct(P, prog, **fixed):
    """arguments of the program: one symbol per field, except the fixed ones"""
    root = UNITS[prog][1] + '::Args'
    if root not in P.adts:
        raise Anchor('Args of ' + prog)
    fs = P.adts[root]['variants'][0]['f']
    for k in fixed:
        if k not in [f['n'] for f in fs]:
            raise Anchor('argument %s of %s' % (k, prog))
    return adt(root, 0, *[fixed[f['n']] if f['n'] in fixed else judge.tysym('args.' + f['n'], f['t']) for f in fs])


def arg(P, a, name):
    return fld(a, 0, judge.field_index(P, a.a[0], name))


def choices(P, prog):
    return judge.variants(P, UNITS[prog][1] + '::CompressorType')


def compress_data(P, R, prog, a, extra=()):
    """-> (stream handed to the serialiser, data, plan, state)"""
    ev = judge.Ev(P, set(frames.CALLS.values()) | {PLAN, SER} | set(extra))
    b = ev.fnbody('compress_data', UNITS[prog][0])
    data = judge.tysym('data', ('slice', ('float', 'f64')))
    seen = []

    def hook(st, c, args):
        seen.append(args)
    r, st = ev.run(b, [data, a], {}, interp.new_state())
    for k in ev.inlined:
        R.saw(pretty(P.bodies[k]))
    if not (r.op == 'call' and r.a[0] == '~' + SER):
        raise interp.Unsupported('result of compress_data is not a serialised stream: ' + show(r)[:200])
    plan = mk('call', '~' + PLAN, OP, data)
    return r.a[2], data, plan, st
