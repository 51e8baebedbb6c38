"""Call graph and per-function value flow over the MIR facts."""
from facts import strip_generics, pretty


def operands_of(r):
    k = r['r']
    if k in ('use', 'cast', 'un', 'repeat'):
        return [r['a']]
    if k == 'bin':
        return [r['a'], r['b']]
    if k == 'agg':
        return r['f']
    return []


class Site:
    __slots__ = ('body', 'bb', 'term', 'name', 'pp', 'op', 'at')

    def __repr__(self):
        return '%s -> %s' % (pretty(self.body), self.name)


def sites(body):
    r = getattr(body, '_sites', None)
    if r is None:
        r = []
        for i, bl in enumerate(body.blocks):
            t = bl['t']
            if t['k'] == 'call' and t['f']['o'] == 'fn':
                s = Site()
                s.body, s.bb, s.term, s.op = body, i, t, t['f']
                s.pp = t['f']['pp']
                s.name = strip_generics(s.pp)
                s.at = t.get('at', '')
                r.append(s)
        body._sites = r
    return r


def fnrefs(body):
    """function items used as values (not called directly)"""
    out = []
    for bl in body.blocks:
        for s in bl['st']:
            if s['s'] == '=':
                for o in operands_of(s['r']):
                    if o.get('o') == 'fn':
                        out.append(o)
        t = bl['t']
        if t['k'] == 'call':
            for o in t['a']:
                if o.get('o') == 'fn':
                    out.append(o)
    return out


def closures(body):
    for bl in body.blocks:
        for s in bl['st']:
            if s['s'] == '=' and s['r']['r'] == 'agg' and s['r']['k'] == 'closure':
                yield s['r']['p']


def targets(P, body, o):
    """local bodies an fn operand may denote"""
    out = []
    if 'rp' in o:
        b = P.bodies.get(P.callee_key(body, o['rp'], o.get('rlocal', False)))
        if b is not None:
            return [b]
        return []
    if o.get('trait'):
        return list(P.method_index.get((o['trait'], o['p'].split('::')[-1]), []))
    b = P.bodies.get(P.callee_key(body, o['p'], True)) or P.bodies.get(o['p'])
    return [b] if b is not None else []


def callees(P, body):
    r = getattr(body, '_callees', None)
    if r is None:
        r = {}
        for s in sites(body):
            for b in targets(P, body, s.op):
                r.setdefault(b.key, s)
        for o in fnrefs(body):
            for b in targets(P, body, o):
                r.setdefault(b.key, None)
        for c in closures(body):
            k = P.callee_key(body, c, True)
            if k in P.bodies:
                r.setdefault(k, None)
        body._callees = r
    return r


def reach(P, roots):
    seen = {}
    st = [(r, None) for r in roots]
    while st:
        k, via = st.pop()
        if k in seen:
            continue
        seen[k] = via
        for c in callees(P, P.bodies[k]):
            if c not in seen:
                st.append((c, k))
    return seen


def where(b):
    return '%s (%s)' % (pretty(b), b.at)
