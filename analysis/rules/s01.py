"""S01: output is a function of the input and the options."""
import re
import flow
from facts import pretty, strip_generics

# sources of values that differ between two runs on the same input
DENY = [
    (r'^std::time::(SystemTime|Instant)\b', 'reads a clock'),
    (r'^std::time::(SystemTime|Instant)::', 'reads a clock'),
    (r'^chrono::(offset::)?(Utc|Local|offset::utc::Utc)::(now|today)', 'reads a clock'),
    (r'(^|::)(Utc|Local)::(now|today)$', 'reads a clock'),
    (r'^(rand|fastrand|getrandom|oorandom|rand_core|uuid)::', 'draws random values'),
    (r'^std::thread::', 'depends on thread identity or scheduling'),
    (r'^(rayon|crossbeam|tokio|futures)\b', 'depends on scheduling'),
    (r'^std::sync::(mpsc|atomic|Mutex|RwLock|Condvar|Barrier)', 'state shared across calls or threads'),
    (r'^core::sync::atomic|^std::sync::atomic|::atomic::Atomic', 'state shared across calls'),
    (r'^std::sync::(OnceLock|LazyLock|Once)\b|^std::cell::(LazyCell|OnceCell)', 'state that survives a call'),
    (r'^std::thread::LocalKey|LocalKey::with', 'state that survives a call'),
    (r'^std::env::(var|vars|var_os|vars_os|current_dir|temp_dir|current_exe|home_dir)', 'reads the environment'),
    (r'^std::process::id$|^std::os::unix::process::parent_id', 'reads the process id'),
    (r'^std::hash::(RandomState|random::RandomState)|RandomState::(new|build_hasher)', 'seeds a hash randomly'),
    (r'^std::fs::Metadata::(modified|accessed|created)|MetadataExt::(ino|mtime|atime|ctime|dev|uid|gid|mtime_nsec)', 'reads file metadata that is not content'),
    (r'^core::fmt::rt::Argument::new_pointer', 'formats an address'),
    (r'^std::ptr::(const_ptr|mut_ptr|non_null|NonNull)::(addr|expose_provenance|align_offset)|::(expose_provenance|addr)$', 'uses an address as a value'),
    (r'^std::(thread::)?available_parallelism|std_detect::|is_x86_feature_detected|^std::arch::', 'depends on the machine'),
    (r'MaybeUninit::(assume_init|uninit_array)', 'may expose uninitialised memory'),
    (r'^std::vec::Vec::set_len', 'may expose uninitialised memory'),
    (r'^std::any::type_name|^std::panic::Location', 'depends on the build'),
    (r'^std::alloc::', 'depends on the allocator'),
    (r'^libc::|^std::os::unix::net|^std::net::', 'reads outside state'),
]
DENY = [(re.compile(a), b) for a, b in DENY]
# hash tables: only operations that reveal the iteration order
HASHTY = ('std::collections::hash::map::HashMap', 'std::collections::hash::set::HashSet')
ORDERED_OPS = re.compile(r'::(iter|iter_mut|keys|values|values_mut|into_keys|into_values|drain|retain|into_iter|union|intersection|difference|symmetric_difference|extract_if)$')
# clap's derive caches default strings of the argument table in OnceLock statics: constants
CLAP = re.compile(r'augment_args|arg_matches')
CASTS = ('PointerExposeProvenance', 'PointerExposeAddress')


def ishash(ty):
    while ty and ty[0] in ('ref', 'ptr'):
        ty = ty[1]
    return bool(ty) and ty[0] == 'adt' and ('::HashMap' in ty[1] or '::HashSet' in ty[1] or '::hash_map::' in ty[1] or '::hash_set::' in ty[1]
                                            or '::hash::map::' in ty[1] or '::hash::set::' in ty[1] or 'hashbrown' in ty[1])


def run(P, R):
    R.rule('Rule: no function of the workspace (whole call graph, resolved callees, function values and closures) calls or references a source of '
           'run-dependent values (clock, randomness, environment, process/thread identity, scheduling, hash-table iteration order, addresses, '
           'file times, uninitialised memory), no static is mutable or interior-mutable, no pointer is cast to an integer.')
    R.assume.append('third-party codecs (rustfft, splines, inverse_distance_weight, bincode, rkyv, csv) are deterministic for equal inputs')
    for k, b in P.bodies.items():
        if CLAP.search(k):
            continue
        R.saw(pretty(b))
        R.count('functions')
        bad = []
        for s in flow.sites(b):
            R.count('call sites')
            bad += check_op(P, b, s.op, s.at)
        for o in flow.fnrefs(b):
            R.count('function references')
            bad += check_op(P, b, o, b.at)
        for bl in b.blocks:
            for st in bl['st']:
                if st['s'] == '=' and st['r']['r'] == 'cast' and st['r']['kind'].startswith(CASTS):
                    bad.append(('cast', 'casts a pointer to an integer', st.get('at', b.at)))
                if st['s'] == '=' and st['r']['r'] == 'cast' and st['r']['kind'] == 'Transmute':
                    fy = src_ty(b, st['r']['a'])
                    to = b.ty(st['r']['t'])
                    if fy and fy[0] in ('ref', 'ptr') and to[0] in ('int', 'uint'):
                        bad.append(('cast', 'transmutes a pointer to an integer', st.get('at', b.at)))
        if bad:
            for n, why, at in bad:
                R.violated('%s:%s' % (pretty(b), n), '%s %s (%s)' % (pretty(b), why, n), at)
        else:
            R.proved('fn ' + pretty(b))
    for s in P.statics:
        if CLAP.search(s['key']):
            continue
        R.count('statics')
        R.expect('static ' + s['key'], not s['mut'] and s['freeze'], 'static %s holds state that survives a call' % s['key'], s['at'])
    R.floor('functions', 250)
    R.floor('call sites', 1200)


def src_ty(b, o):
    if o.get('o') in ('copy', 'move') and not o['p']['p']:
        return b.lty[o['p']['l']]
    return None


def check_op(P, b, o, at):
    out = []
    name = strip_generics(o['pp'])
    for rx, why in DENY:
        if rx.search(name):
            out.append((name, why, at))
            break
    tys = [b.ty(x) for x in o['a']]
    leaf = name.split('::')[-1]
    rname = o.get('rp', '')
    if any(ishash(t) for t in tys[:1]) or 'hash::map' in rname or 'hash::set' in rname or '::HashMap::' in name or '::HashSet::' in name:
        if ORDERED_OPS.search('::' + leaf) or (leaf in ('fmt', 'next', 'eq_by') and ishash(tys[0] if tys else None)):
            out.append((name, 'observes the iteration order of a hash table', at))
    if leaf == 'new_debug' and any(ishash(t) for t in tys):
        out.append((name, 'formats a hash table', at))
    return out
