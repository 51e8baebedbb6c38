"""S18: no unchecked memory access, untrusted bytes are validated before use."""
import re
import flow
from facts import pretty, strip_generics

UNCHECKED = re.compile(r'(_unchecked(_mut)?$|^std::slice::from_raw_parts|^core::slice::raw::|^std::ptr::(read|write|copy|replace|null)|::from_raw$|'
                       r'^std::mem::(transmute|zeroed|uninitialized|transmute_copy)|MaybeUninit::assume_init|^std::vec::Vec::(set_len|from_raw_parts)|'
                       r'^rkyv::(archived_root|archived_value|archived_unsized_root|util::archived_root|util::from_bytes_unchecked|access_unchecked)|'
                       r'^std::string::String::from_utf8_unchecked|^std::intrinsics::|^memmap)')
# derive(Archive, CheckBytes) of rkyv expands to these; they are the validated path itself
DERIVE_OWNERS = re.compile(r'::_(#\d+)?::')
VALIDATED = {'rkyv::from_bytes', 'rkyv::check_archived_root', 'rkyv::validation::validators::check_archived_root', 'rkyv::validation::validators::from_bytes',
             'rkyv::util::from_bytes', 'rkyv::check_archived_value'}


def run(P, R):
    R.rule('Rule: outside derive expansions the workspace has no unsafe block, unsafe fn, unsafe impl, mutable static, call of an unsafe or '
           '*_unchecked function, or transmute; every function that turns file bytes into a container goes through a validating decoder '
           '(rkyv CheckBytes / bincode), so the language keeps all accesses in bounds for any input.')
    R.assume.append('std and the third-party crates are sound')
    for n in ('core::slice::get_unchecked', 'rkyv::archived_root', 'std::mem::transmute', 'rkyv::util::from_bytes_unchecked'):
        assert UNCHECKED.search(n), n
    for u in P.unsafe_blocks:
        if u['user'] and not (u['expansion'] and DERIVE_OWNERS.search(u['owner'])):
            R.violated('unsafe:' + u['owner'], 'unsafe block in %s' % u['owner'], u['at'])
        R.count('unsafe blocks seen (macro/derive expansions included)')
    for i in P.impls:
        R.count('impls')
        if i['unsafe'] and not i['expansion']:
            R.violated('unsafe impl:' + str(i.get('trait')), 'unsafe impl of %s' % i.get('trait'), i['at'])
    for s in P.statics:
        R.count('statics')
        if s['mut']:
            R.violated('static mut:' + s['key'], 'mutable static', s['at'])
    for k, b in P.bodies.items():
        R.saw(pretty(b))
        R.count('functions')
        derive = bool(DERIVE_OWNERS.search(k))
        if b.unsafe_fn and not derive:
            R.violated('unsafe fn:' + pretty(b), 'unsafe function %s' % pretty(b), b.at)
        bad = []
        for s in flow.sites(b):
            R.count('call sites')
            if s.name in VALIDATED:
                R.count('validated decodings')
            if s.name.startswith('bincode::decode_from_slice'):
                R.count('validated decodings')
            if derive or b.derived:
                continue
            if s.op.get('unsafe') and not s.name.startswith('std::fmt::'):
                bad.append((s.name, 'calls the unsafe function %s' % s.name, s.at))
            elif UNCHECKED.search(s.name):
                bad.append((s.name, 'uses %s' % s.name, s.at))
        if not derive and not b.derived:
            for o in flow.fnrefs(b):
                n = strip_generics(o['pp'])
                if UNCHECKED.search(n):
                    bad.append((n, 'uses %s' % n, b.at))
        for n, w, at in bad:
            R.violated('%s:%s' % (pretty(b), n), '%s %s' % (pretty(b), w), at)
        if not bad:
            R.proved('fn ' + pretty(b))
    R.floor('functions', 300)
    R.floor('validated decodings', 6)
