"""Builds the value graph of a function from its MIR: structured evaluation of the control-flow graph with
gated merges at post-dominators, loops closed by recurrence solving, callees inlined."""
import term as t
from term import *
from facts import strip_generics, pretty

OPTION = 'core::option::Option'
RESULT = 'core::result::Result'
CF = 'core::ops::control_flow::ControlFlow'
ORDERING = 'core::cmp::Ordering'
RANGE = 'core::ops::range::Range'


class Unsupported(Exception):
    pass


def Some(x):
    return adt(OPTION, 1, x)


NONE = adt(OPTION, 0)


def Ok(x):
    return adt(RESULT, 0, x)


def Err(x):
    return adt(RESULT, 1, x)


def pf(variant, i):
    return mk('pf', variant, i)


def pi(ix):
    return mk('pi', ix)


def inner_range(path):
    """element or range of a range, as an element or range of the whole"""
    out = []
    for e in path:
        if e.op in ('pi', 'pr') and out and out[-1].op == 'pr':
            lo = out.pop().a[0]
            e = mk(e.op, *[t.add(lo, x) for x in e.a])
        out.append(e)
    return tuple(out)


class State:
    __slots__ = ('r', 'ctx')

    def __init__(self, r, ctx):
        self.r = r
        self.ctx = ctx

    def copy(self):
        return State(dict(self.r), self.ctx)


OKR = ('OK',)
WORLD = ('W',)


def new_state():
    return State({OKR: TRUE, WORLD: sym('W0')}, EMPTY)


# ------------------------------------------------------------------ control-flow facts of a body
class Cfg:
    def __init__(self, body):
        self.body = body
        blocks = body.blocks
        n = len(blocks)
        self.succ = []
        for b in blocks:
            self.succ.append([] if b['cl'] else succs(b['t']))
        # blocks from which a return is reachable
        pred = [[] for _ in range(n)]
        for i, s in enumerate(self.succ):
            for j in s:
                pred[j].append(i)
        self.pred = pred
        alive = set()
        st = [i for i, b in enumerate(blocks) if b['t']['k'] == 'return' and not b['cl']]
        while st:
            x = st.pop()
            if x in alive:
                continue
            alive.add(x)
            st.extend(pred[x])
        self.alive = alive
        # reachable RPO
        seen, order = set(), []
        stack = [(0, iter(self.succ[0]))]
        seen.add(0)
        while stack:
            x, it = stack[-1]
            for y in it:
                if y not in seen:
                    seen.add(y)
                    stack.append((y, iter(self.succ[y])))
                    break
            else:
                order.append(x)
                stack.pop()
        self.rpo = list(reversed(order))
        self.num = {b: i for i, b in enumerate(self.rpo)}
        self.idom = self._dom(self.rpo, lambda x: [p for p in pred[x] if p in seen], 0)
        # post-dominators on the alive subgraph with virtual exit
        EXIT = -1
        rs = {x: [y for y in self.succ[x] if y in alive] for x in self.rpo if x in alive}
        rp = {EXIT: []}
        for x in rs:
            if blocks[x]['t']['k'] == 'return':
                rp[EXIT].append(x)
        for x in rs:
            for y in rs[x]:
                rp.setdefault(y, []).append(x)
        seen2, order2 = {EXIT}, []
        stack = [(EXIT, iter(rp[EXIT]))]
        while stack:
            x, it = stack[-1]
            for y in it:
                if y not in seen2:
                    seen2.add(y)
                    stack.append((y, iter(rp.get(y, []))))
                    break
            else:
                order2.append(x)
                stack.pop()
        prpo = list(reversed(order2))

        def psucc(x):
            r = [y for y in rs.get(x, []) if y in seen2]
            if x in rs and blocks[x]['t']['k'] == 'return':
                r.append(EXIT)
            return r
        self.ipdom = self._dom(prpo, psucc, EXIT)
        # natural loops
        self.loops = {}
        for x in self.rpo:
            for y in self.succ[x]:
                if y in self.num and self._dominates(y, x):
                    body_ = self.loops.setdefault(y, {y})
                    st = [x]
                    while st:
                        z = st.pop()
                        if z in body_:
                            continue
                        body_.add(z)
                        st.extend(p for p in pred[z] if p in seen)
        self._live = None

    def _dom(self, rpo, preds, root):
        num = {b: i for i, b in enumerate(rpo)}
        idom = {root: root}
        ch = True
        while ch:
            ch = False
            for b in rpo:
                if b == root:
                    continue
                new = None
                for p in preds(b):
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            a, c = p, new
                            while a != c:
                                while num[a] > num[c]:
                                    a = idom[a]
                                while num[c] > num[a]:
                                    c = idom[c]
                            new = a
                if new is not None and idom.get(b) != new:
                    idom[b] = new
                    ch = True
        return idom

    def _dominates(self, a, b):
        while True:
            if a == b:
                return True
            n = self.idom.get(b)
            if n is None or n == b:
                return False
            b = n

    def live_in(self):
        if self._live is None:
            blocks = self.body.blocks
            use, df = {}, {}
            for i in self.rpo:
                u, d = set(), set()

                def useop(o):
                    if o.get('o') in ('copy', 'move'):
                        useplace(o['p'])

                def useplace(p):
                    if p['l'] not in d:
                        u.add(p['l'])
                    for e in p['p']:
                        if isinstance(e, dict) and 'ix' in e and e['ix'] not in d:
                            u.add(e['ix'])

                def defplace(p):
                    if p['p']:
                        useplace(p)
                    else:
                        d.add(p['l'])
                for s in blocks[i]['st']:
                    if s['s'] == '=':
                        for o in rv_ops(s['r']):
                            useop(o)
                        for p in rv_places(s['r']):
                            useplace(p)
                        defplace(s['p'])
                    elif s['s'] == 'setd':
                        useplace(s['p'])
                tt = blocks[i]['t']
                k = tt['k']
                if k == 'call':
                    useop(tt['f'])
                    for o in tt['a']:
                        useop(o)
                    defplace(tt['d'])
                elif k in ('switch', 'assert'):
                    useop(tt['a'])
                elif k == 'return':
                    if 0 not in d:
                        u.add(0)
                use[i], df[i] = u, d
            live = {i: set() for i in self.rpo}
            ch = True
            while ch:
                ch = False
                for i in reversed(self.rpo):
                    o = set()
                    for s in self.succ[i]:
                        o |= live.get(s, set())
                    n = use[i] | (o - df[i])
                    if n != live[i]:
                        live[i] = n
                        ch = True
            self._live = live
        return self._live


def rv_ops(r):
    k = r['r']
    if k in ('use', 'cast', 'un', 'repeat'):
        return [r['a']]
    if k == 'bin':
        return [r['a'], r['b']]
    if k == 'agg':
        return r['f']
    return []


def rv_places(r):
    return [r['p']] if r['r'] in ('ref', 'rawptr', 'discr') else []


def succs(tt):
    k = tt['k']
    if k in ('goto', 'drop', 'assert'):
        return [tt['to']]
    if k == 'switch':
        return list(dict.fromkeys([b for _, b in tt['v']] + [tt['else']]))
    if k == 'call':
        return [tt['to']] if tt['to'] is not None else []
    return []


def cfg_of(body):
    c = getattr(body, '_cfg', None)
    if c is None:
        c = body._cfg = Cfg(body)
    return c


# ------------------------------------------------------------------ outcome trees
class Tree:
    """dd: decision diagram whose leaves are mk('leaf', i); leaves: list of (target, state)"""
    __slots__ = ('dd', 'leaves')

    def __init__(self, dd, leaves):
        self.dd = dd
        self.leaves = leaves


def leaf_tree(target, st):
    return Tree(mk('leaf', 0), [(target, st)])


GUARD = ('C', 'guard')
DEADL = mk('dead')      # a path that panics (BOT is a path that cannot be taken)
DEAD = Tree(DEADL, [])


def ddmap(dd, f):
    """map the leaves of a diagram; BOT leaves are passed as None"""
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is None:
            if x.op == 'sw':
                r = switch(x.a[0], tuple(go(c) for c in x.a[1:]))
            elif x is BOT or x is DEADL:
                r = f(None) if x is DEADL else BOT
            else:
                r = f(x.a[0])
            memo[x] = r
        return r
    return go(dd)


def compose(dd, subs):
    """dd over leaf indices, subs[i] = Tree -> one Tree"""
    leaves = []
    offs = {}
    for i, s in subs.items():
        offs[i] = len(leaves)
        leaves.extend(s.leaves)

    def f(i):
        if i is None:
            return DEADL
        if i not in subs:
            return BOT
        return ddmap(subs[i].dd, lambda j: DEADL if j is None else mk('leaf', offs[i] + j))
    return Tree(ddmap(dd, f), leaves)


def okdd(tree):
    """does the region finish without panicking: merged OK"""
    return ddmap(tree.dd, lambda i: FALSE if i is None else tree.leaves[i][1].r[OKR])


def merge(tree, sel, ctx):
    """merge the leaves with target in sel into one state (other leaves are excluded)"""
    idx = [i for i in _used(tree.dd) if tree.leaves[i][0] in sel]
    if not idx:
        return None
    if len(idx) == 1:
        st = tree.leaves[idx[0]][1].copy()
        only = idx[0]
        st.r[OKR] = ddmap(tree.dd, lambda i: FALSE if i is None else (st.r[OKR] if i == only else BOT))
        return st
    roots = {}
    for i in idx:
        for k in tree.leaves[i][1].r:
            roots[k] = True
    S = set(idx)
    out = {}
    for k in roots:
        vals = [tree.leaves[i][1].r.get(k) for i in idx]
        if k == OKR:
            continue
        v0 = vals[0]
        if v0 is not None and all(v is v0 for v in vals):
            out[k] = v0
            continue
        if any(v is None for v in vals):
            # not initialised on some path: dead afterwards
            if k[0] != 'L':
                continue
        m = {i: v for i, v in zip(idx, vals) if v is not None}
        out[k] = ddmap(tree.dd, lambda i: m.get(i, BOT) if i is not None else BOT)
    out[OKR] = ddmap(tree.dd, lambda i: FALSE if i is None else (tree.leaves[i][1].r[OKR] if i in S else BOT))
    st = State(out, ctx)
    # everything known on all paths: the selected leaves were reached
    cond = ddmap(tree.dd, lambda i: BOT if i is None else B(i in S))
    c = ctx.assume(cond) if cond is not BOT else ctx
    if c is not None:
        st.ctx = c
    return st


def _used(dd):
    out = []
    seen = set()

    def go(x):
        if x in seen:
            return
        seen.add(x)
        if x.op == 'sw':
            for c in x.a[1:]:
                go(c)
        elif x is not BOT and x is not DEADL:
            out.append(x.a[0])
    go(dd)
    return sorted(set(out))


class Frame:
    __slots__ = ('body', 'id', 'tys', 'cfg', 'depth')

    def __init__(self, body, id_, tys, depth):
        self.body = body
        self.id = id_
        self.tys = tys
        self.cfg = cfg_of(body)
        self.depth = depth


class Demand:
    """cond is needed where facts hold; gates: choices between alternatives of values above, true there too"""

    def __init__(self, cond, facts, what, fn):
        self.cond, self.facts, self.what, self.fn = cond, facts, what, fn
        self.gates = list(t.GATES or ())


class Evaluator:
    def __init__(self, prog, barriers=None, models=None):
        import models as M
        self.prog = prog
        self.M = models or M
        self.fid = 0
        self.rootty = {}
        self.barriers = barriers or {}
        if not isinstance(self.barriers, dict):
            self.barriers = {b: self.opaque_barrier for b in barriers}
        self.unknown = {}      # opaque callee name -> count
        self.notes = []
        self.inlined = {}
        self.loops = 0
        self.steps = 0
        self.cenv = {}
        self.maxsteps = 400000
        self.demands = None     # strict runs: [Demand] conditions without which the code panics, on the path where it relies on them
        self.met = 0            # those that the path implies outright
        self.cur = None         # the function being followed
        self.unroll = None      # (function key, n): of loops that reach the function, the executions that end in round n
        for p, a in prog.adts.items():
            if a['kind'] == 'struct':
                t.STRUCTS[p] = len(a['variants'][0]['f'])
        t.STRUCTS.pop('core::ops::range::RangeInclusive', None)

    # -------------------------------------------------------- types
    def sty(self, fr, ty):
        """substitute generics"""
        if not fr.tys:
            return ty
        return subst_ty(ty, fr.tys)

    def nvariants(self, path):
        a = self.prog.adts.get(path)
        if a is None:
            raise Unsupported('unknown adt ' + path)
        return len(a['variants'])

    def place_ty(self, fr, p):
        ty = fr.body.lty[p['l']]
        for e in p['p']:
            if e == '*':
                ty = deref_ty(ty)
            elif isinstance(e, dict) and 'f' in e:
                ty = fr.body.ty(e['t'])
            elif isinstance(e, dict) and ('ix' in e or 'ci' in e):
                ty = ty[1] if ty[0] in ('array', 'slice') else ('other',)
        return self.sty(fr, ty)

    def op_ty(self, fr, o):
        if o['o'] in ('copy', 'move'):
            return self.place_ty(fr, o['p'])
        return self.sty(fr, fr.body.ty(o['t']))

    # -------------------------------------------------------- memory
    def getp(self, v, path):
        for e in inner_range(path):
            if e.op == 'pr':
                v = lift(lambda v, lo, hi: t.slice_(v, lo, hi), v, *e.a)
            elif e.op == 'pf':
                v = fld(v, e.a[0], e.a[1])
            elif e.op == 'pi':
                v = elem(v, e.a[0])
            elif e.op == 'pk':
                v = lift(t.mget, v, e.a[0])
        return v

    def setp(self, v, path, nv, ty=None):
        if not path:
            return nv
        e = path[0]
        if e.op == 'pf':
            var, i = e.a

            def f(v):
                if v.op == 'adt':
                    fs = list(v.a[2:])
                    fs[i] = self.setp(fs[i], path[1:], nv)
                    return adt(v.a[0], v.a[1], *fs)
                if v.op == 'tup':
                    fs = list(v.a)
                    fs[i] = self.setp(fs[i], path[1:], nv)
                    return tup(*fs)
                if v.op == 'clo':
                    fs = list(v.a[1:])
                    fs[i] = self.setp(fs[i], path[1:], nv)
                    return mk('clo', v.a[0], *fs)
                raise Unsupported('write to a field of opaque %s' % v.op)
            return lift1(f, v)
        if e.op == 'pr':
            if len(path) > 1 and path[1].op in ('pi', 'pr'):
                return self.setp(v, inner_range(path), nv, ty)
            n = t.length(v)
            inner = nv if len(path) == 1 else self.setp(t.slice_(v, *e.a), path[1:], nv)
            return t.cat(t.slice_(v, t.I(0), e.a[0]), inner, t.slice_(v, e.a[1], n))
        if e.op == 'pi':
            inner = nv if len(path) == 1 else self.setp(elem(v, e.a[0]), path[1:], nv)
            return store(v, e.a[0], inner)
        if e.op == 'pk' and len(path) == 1:
            return lift(t.mset, v, e.a[0], nv)
        raise Unsupported('path')

    def read(self, st, p):
        """content behind a value that may be a pointer"""
        def f(p):
            if p.op == 'ptr':
                root = p.a[0]
                if root not in st.r:
                    raise Unsupported('dangling pointer %r' % (root,))
                return self.getp(st.r[root], p.a[1:])
            return p
        if p.op == 'ptr':
            return f(p)
        return lift1(f, p)

    def write(self, st, p, v, ty=None):
        if p.op == 'ptr':
            root = p.a[0]
            if root not in st.r:
                raise Unsupported('dangling pointer write')
            base = st.r[root]
            path = p.a[1:]
            base = self.expand_for(base, path, root)
            st.r[root] = self.setp(base, path, v)
            return
        if p.op == 'sw':
            # conditional target: gate the write of every root that may be meant
            roots = []
            for l in leaves(p):
                if l is BOT:
                    continue
                if l.op != 'ptr':
                    raise Unsupported('write through a value')
                if l.a[0] not in roots:
                    roots.append(l.a[0])
            for root in roots:
                if root not in st.r:
                    raise Unsupported('dangling pointer write')

                def f(l, base, v, root=root):
                    if l is BOT or l.a[0] != root:
                        return base
                    path = l.a[1:]
                    return self.setp(self.expand_for(base, path, root), path, v)
                st.r[root] = lift(f, p, st.r[root], v)
            return
        raise Unsupported('write through opaque pointer %s' % p.op)

    def expand_for(self, v, path, root):
        """make sure fields on the path can be written: expand opaque structs"""
        ty = None
        if isinstance(root, tuple) and root[0] == 'L':
            ty = self.rootty.get(root)
        return self._expand(v, path, ty)

    def _expand(self, v, path, ty):
        if not path:
            return v
        e = path[0]
        if e.op != 'pf':
            return v
        var, i = e.a
        ty = strip_ty(ty)
        if ty is not None and v.op not in ('adt', 'tup', 'clo', 'sw'):
            if ty[0] == 'adt' and ty[1] in t.STRUCTS:
                v = mk('adt', ty[1], 0, *[self.mfld(v, ty, 0, j) for j in range(t.STRUCTS[ty[1]])])
            elif ty[0] == 'tuple':
                v = mk('tup', *[self.mfld(v, ty, -1, j) for j in range(len(ty[1]))])
        if len(path) > 1 and v.op == 'adt' and var < 1 and ty is not None and ty[0] == 'adt' and ty[1] in t.STRUCTS:
            fs = list(v.a[2:])
            fs[i] = self._expand(fs[i], path[1:], self.fty(ty, 0, i))
            v = mk('adt', v.a[0], v.a[1], *fs)
        return v

    def mfld(self, v, ty, var, j):
        x = fld(v, var, j)
        return mark(x, self.fty(ty, var, j))

    def fty(self, ty, var, j):
        ty = strip_ty(ty)
        if ty is None:
            return None
        if ty[0] == 'tuple':
            return ty[1][j]
        if ty[0] == 'adt':
            a = self.prog.adts.get(ty[1])
            if a:
                return a['variants'][max(var, 0)]['f'][j]['t']
        return None

    # -------------------------------------------------------- places / operands
    def place_ptr(self, fr, st, p, start=None):
        """-> ('mem', root, path) or ('val', term) or ('gate', dd, resume): behind a gated pointer"""
        root = ('L', fr.id, p['l'])
        path = ()
        val = None
        var = -1
        ty = fr.body.lty[p['l']]
        i0 = 0
        if start is not None:
            i0, leaf, ty = start
            if leaf.op == 'ptr':
                root, path = leaf.a[0], leaf.a[1:]
            else:
                val = leaf
            ty = deref_ty(ty)
            i0 += 1
        for ei in range(i0, len(p['p'])):
            e = p['p'][ei]
            if e == '*':
                cur = self.getp(st.r[root], path) if val is None else val
                cur = restrict(cur, st.ctx) if cur.op == 'sw' else cur
                if cur.op == 'ptr':
                    root, path, val = cur.a[0], cur.a[1:], None
                elif cur.op == 'sw' and any(l.op == 'ptr' for l in leaves(cur)):
                    return ('gate', cur, lambda leaf, ei=ei, ty=ty: self.place_ptr(fr, st, p, (ei, leaf, ty)))
                else:
                    # shared reference or box: transparent
                    if val is None and ty[0] == 'adt':
                        pass   # box: keep the memory path
                    else:
                        val = cur
                ty = deref_ty(ty)
                var = -1
            elif isinstance(e, dict):
                if 'dc' in e:
                    var = e['dc']
                    continue
                if 'f' in e:
                    ty2 = strip_ty(self.sty(fr, ty))
                    v = var
                    if v < 0 and ty2 is not None and ty2[0] == 'adt':
                        v = 0
                    if ty2 is not None and ty2[0] == 'adt' and ty2[1] == 'alloc::boxed::Box':
                        # elaborated box deref: Box -> Unique -> NonNull -> pointer
                        ty = fr.body.ty(e['t'])
                        var = -1
                        continue
                    if ty2 is not None and ty2[0] == 'adt' and ty2[1] in ('core::ptr::unique::Unique', 'core::ptr::non_null::NonNull', 'core::mem::maybe_uninit::MaybeUninit', 'core::mem::manually_drop::ManuallyDrop', 'core::mem::maybe_dangling::MaybeDangling'):
                        ty = fr.body.ty(e['t'])
                        var = -1
                        continue
                    st_ = pf(v, e['f'])
                    ty = fr.body.ty(e['t'])
                elif 'ix' in e:
                    ix = st.r[('L', fr.id, e['ix'])]
                    st_ = pi(ix)
                    ty = ty[1] if ty[0] in ('array', 'slice') else ('other',)
                elif 'ci' in e:
                    base = self.getp(st.r[root], path) if val is None else val
                    n = e['ci']
                    st_ = pi(sub(length(base), I(n)) if e['end'] else I(n))
                    ty = ty[1] if ty[0] in ('array', 'slice') else ('other',)
                elif 'sub' in e:
                    base = self.getp(st.r[root], path) if val is None else val
                    a, b = e['sub']
                    hi = sub(length(base), I(b)) if e['end'] else I(b)
                    val = slice_(base, I(a), hi)
                    continue
                else:
                    raise Unsupported('projection')
                var = -1
                if val is None:
                    path = path + (st_,)
                else:
                    val = self.getp(val, (st_,))
            else:
                raise Unsupported('projection')
        if val is not None:
            return ('val', val)
        return ('mem', root, path)

    def gate_read(self, st, r):
        if r[0] == 'gate':
            return lift1(lambda l: self.gate_read(st, r[2](l)), r[1])
        if r[0] == 'val':
            return r[1]
        if r[1] not in st.r:
            raise Unsupported('read of uninitialised root %r' % (r[1],))
        return self.getp(st.r[r[1]], r[2])

    def gate_ptr(self, st, r):
        if r[0] == 'gate':
            return lift1(lambda l: self.gate_ptr(st, r[2](l)), r[1])
        if r[0] == 'val':
            self.fid += 1
            root = ('C', self.fid)
            st.r[root] = r[1]
            return mk('ptr', root)
        return mk('ptr', r[1], *r[2])

    def rd_place(self, fr, st, p):
        ps = p['p']
        root = ('L', fr.id, p['l'])
        if not ps:
            v = st.r.get(root)
            if v is None:
                raise Unsupported('read of uninitialised local _%d in %s' % (p['l'], fr.body.key))
            return v
        r = self.place_ptr(fr, st, p)
        if r[0] == 'gate':
            return self.gate_read(st, r)
        if r[0] == 'val':
            v = r[1]
        else:
            if r[1] not in st.r:
                raise Unsupported('read of uninitialised root %r in %s' % (r[1], fr.body.key))
            v = self.getp(st.r[r[1]], r[2])
        return mark(v, self.place_ty(fr, p)) if v.op not in ('sw',) else v

    def wr_place(self, fr, st, p, v):
        root = ('L', fr.id, p['l'])
        if not p['p']:
            st.r[root] = v
            if root not in self.rootty:
                self.rootty[root] = self.sty(fr, fr.body.lty[p['l']])
            return
        if p['p'] == ['*']:
            cur = restrict(st.r[root], st.ctx)
            if cur.op in ('sw', 'ptr'):
                self.write(st, cur, v)
                return
        r = self.place_ptr(fr, st, p)
        if r[0] == 'gate':
            self.write(st, self.gate_ptr(st, r), v)
            return
        if r[0] == 'val':
            raise Unsupported('write through a shared value in %s: %s' % (fr.body.key, show(r[1])[:300]))
        root, path = r[1], r[2]
        if root not in st.r:
            # partial initialisation of a struct/tuple local
            ty = self.sty(fr, fr.body.lty[p['l']])
            n = len(ty[1]) if ty[0] == 'tuple' else t.STRUCTS.get(ty[1]) if ty[0] == 'adt' else None
            if n is None:
                raise Unsupported('partial init')
            st.r[root] = mk('tup', *([BOT] * n)) if ty[0] == 'tuple' else mk('adt', ty[1], 0, *([BOT] * n))
        base = self.expand_for(st.r[root], path, root)
        st.r[root] = self.setp(base, path, v)

    def const(self, fr, o):
        return self.cv(fr, o.get('v'), self.sty(fr, fr.body.ty(o['t'])), o.get('name'))

    def cv(self, fr, v, ty, name=None):
        if v is None:
            return mark(sym('const:%s' % (name,)), ty)
        if 'adt' in v:
            p = fr.body.adtkey(v['adt'])
            info = self.prog.adts.get(p)
            fts = [f['t'] for f in info['variants'][v['v']]['f']] if info else []
            fs = [self.cv(fr, x, fts[i] if i < len(fts) and fts[i] else ('other',)) for i, x in enumerate(v['f'])]
            return adt(p, v['v'], *fs)
        if 'i' in v:
            return I(int(v['i']))
        if 'b' in v:
            return B(v['b'])
        if 'f' in v:
            w = 32 if ty == ('float', 'f32') else 64
            return F(float(v['f'].replace('inf', 'inf').replace('NaN', 'nan')), w)
        if 's' in v:
            return S(v['s'])
        if 'ch' in v:
            return I(v['ch'])
        if 'ref' in v:
            return self.cv(fr, v['ref'], deref_ty(ty))
        if 'arr' in v:
            et = ty[1] if ty[0] in ('array', 'slice') else ('other',)
            return cat(*[one(self.cv(fr, x, et)) for x in v['arr']])
        if 'tup' in v:
            ts = ty[1] if ty[0] == 'tuple' else [('other',)] * len(v['tup'])
            return tup(*[self.cv(fr, x, y) for x, y in zip(v['tup'], ts)])
        if 'zst' in v:
            if ty[0] == 'fndef':
                return mk('fn', ty[1])
            if ty[0] == 'closure':
                return mk('clo', ty[1])
            return UNIT
        if 'static' in v:
            return sym('static:' + v['static'])
        return mark(sym('const:%s' % name), ty)

    def operand(self, fr, st, o):
        k = o['o']
        if k in ('copy', 'move'):
            return self.rd_place(fr, st, o['p'])
        if k == 'const':
            return self.const(fr, o)
        if k == 'fn':
            return self.fnval(fr, o)
        raise Unsupported('operand ' + k)

    def fnval(self, fr, o):
        c = self.resolve(fr, o)
        self.fnvals = getattr(self, 'fnvals', {})
        key = 'fn:%s:%s' % (c['name'], c['types'])
        self.fnvals[key] = c
        return mk('fn', key)

    # -------------------------------------------------------- rvalues
    def rvalue(self, fr, st, r, destty):
        k = r['r']
        if k == 'use':
            return self.operand(fr, st, r['a'])
        if k == 'ref':
            if r['mut']:
                x = self.place_ptr(fr, st, r['p'])
                if x[0] == 'gate':
                    return self.gate_ptr(st, x)
                if x[0] == 'val':
                    # &mut of a transparent value: only sound when never written; keep a cell
                    self.fid += 1
                    root = ('C', self.fid)
                    st.r[root] = x[1]
                    return mk('ptr', root)
                return mk('ptr', x[1], *x[2])
            pty = self.place_ty(fr, r['p'])
            if r['p']['p'] == ['*']:
                v = st.r[('L', fr.id, r['p']['l'])]
                if v.op == 'ptr' or (v.op == 'sw' and any(l.op == 'ptr' for l in leaves(v))):
                    return self.read(st, v)
            return self.rd_place(fr, st, r['p'])
        if k == 'rawptr':
            x = self.place_ptr(fr, st, r['p'])
            if x[0] == 'gate':
                return self.gate_ptr(st, x) if 'Mut' in r['kind'] else self.gate_read(st, x)
            if x[0] == 'val':
                return x[1]
            return mk('ptr', x[1], *x[2]) if 'Mut' in r['kind'] else self.rd_place(fr, st, r['p'])
        if k == 'repeat':
            x = self.operand(fr, st, r['a'])
            n = I(r['n'])
            return genf(n, lambda _: x)
        if k == 'bin':
            x, y, ty = self.operand(fr, st, r['a']), self.operand(fr, st, r['b']), self.op_ty(fr, r['a'])
            z = self.binop(r['op'], x, y, ty)
            if self.demands is not None and r['op'] in ('Add', 'Sub', 'Mul'):
                self.cur = pretty(fr.body)
                self.demand(st, Not(self.overflows(r['op'], z, x, y, ty)), 'overflow')
            return z
        if k == 'un':
            x = self.operand(fr, st, r['a'])
            ty = self.op_ty(fr, r['a'])
            if r['op'] == 'Not':
                if ty == ('bool',):
                    return Not(self.asbool(x))
                return lift1(lambda x: mk('bitnot', x), x)
            if r['op'] == 'Neg':
                return fneg(x) if ty[0] == 'float' else scale(x, -1)
            if r['op'] == 'PtrMetadata':
                return length(self.read(st, x))
            raise Unsupported('unop ' + r['op'])
        if k == 'cast':
            return self.cast(fr, st, r)
        if k == 'discr':
            ty = strip_ty(self.place_ty(fr, r['p']))
            x = self.rd_place(fr, st, r['p'])
            x = self.read(st, x)
            return self.discr(x, ty)
        if k == 'agg':
            fs = [self.operand(fr, st, o) for o in r['f']]
            kk = r['k']
            if kk == 'tuple':
                return tup(*fs)
            if kk == 'array':
                return cat(*[one(x) for x in fs])
            if kk == 'adt':
                p = fr.body.adtkey(r['p'])
                if p == 'alloc::boxed::Box':
                    return fs[0]
                return adt(p, r['v'], *fs)
            if kk == 'closure':
                key = self.prog.callee_key(fr.body, r['p'], True)
                self.cenv[key] = fr.tys
                return mk('clo', key, *fs)
            raise Unsupported('aggregate ' + kk)
        raise Unsupported('rvalue %s %s' % (k, r.get('d', '')))

    def asbool(self, x):
        for l in leaves(x):
            if l.op not in ('b',) and not l.b:
                l.b = True
        return x

    def discr(self, x, ty):
        if ty is None or ty[0] != 'adt':
            raise Unsupported('discriminant of %s' % (ty,))
        a = self.prog.adts[ty[1]]
        ds = [v['d'] for v in a['variants']]
        if ty[1] == ORDERING:
            ds = [-1, 0, 1]
        return case(x, len(ds), lambda i: I(ds[i]))

    def binop(self, op, a, b, ty):
        if op.endswith('WithOverflow'):
            return tup(self.binop(op[:-len('WithOverflow')], a, b, ty), FALSE)
        if op.endswith('Unchecked'):
            op = op[:-len('Unchecked')]
        while ty[0] == 'ref':
            ty = ty[1]
        k = ty[0]
        if k == 'float':
            if op in ('Add', 'Sub', 'Mul', 'Div'):
                return fbin('f' + op.lower(), a, b)
            if op in ('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne'):
                return fcmp(op.lower(), a, b)
            if op == 'Rem':
                return liftn(lambda a, b: mk('frem', a, b), a, b)
            raise Unsupported('float op ' + op)
        if k == 'bool':
            a, b = self.asbool(a), self.asbool(b)
            if op in ('Eq', 'Ne'):
                e = ite(a, b, Not(b))
                return e if op == 'Eq' else Not(e)
            if op == 'BitAnd':
                return And(a, b)
            if op == 'BitOr':
                return Or(a, b)
            if op == 'BitXor':
                return ite(a, Not(b), b)
            if op in ('Lt', 'Gt', 'Le', 'Ge'):
                ia, ib = ite(a, I(1), I(0)), ite(b, I(1), I(0))
                return self.icmp(op, ia, ib)
            raise Unsupported('bool op ' + op)
        if k in ('int', 'uint', 'char'):
            if op == 'Add':
                return add(a, b)
            if op == 'Sub':
                return sub(a, b)
            if op == 'Mul':
                return mul(a, b)
            if op == 'Div':
                return divi(a, b)
            if op == 'Rem':
                return remi(a, b)
            if op in ('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne'):
                return self.icmp(op, a, b)
            if op == 'Cmp':
                return ite(lt(a, b), adt(ORDERING, 0), ite(eqi(a, b), adt(ORDERING, 1), adt(ORDERING, 2)))
            if op in ('BitAnd', 'BitOr', 'BitXor', 'Shl', 'Shr'):
                return liftn(lambda a, b: bitop(op, a, b, ty), a, b)
        raise Unsupported('binop %s on %s' % (op, ty))

    def overflows(self, op, r, a, b, ty):
        """does checked arithmetic stop: subtraction below zero and integers of up to 16 bits (the wider ones are taken not to overflow)"""
        if ty[0] == 'uint' and op.startswith('Sub'):
            return lt(a, b)
        if ty[0] in ('int', 'uint') and ty[1][1:] in ('8', '16') and not op.startswith('Sh'):
            w = int(ty[1][1:])
            lo, hi = (0, 2 ** w - 1) if ty[0] == 'uint' else (-2 ** (w - 1), 2 ** (w - 1) - 1)
            return Not(And(le(I(lo), r), le(r, I(hi))))
        return FALSE

    def demand(self, st, cond, what):
        """the code panics unless cond holds"""
        if self.demands is None:
            return
        cond = restrict(cond, st.ctx)
        if cond is TRUE:
            self.met += 1
            return
        self.demands.append(Demand(cond, list(st.ctx.d.items()), what, self.cur))

    def icmp(self, op, a, b):
        if op == 'Lt':
            return lt(a, b)
        if op == 'Le':
            return le(a, b)
        if op == 'Gt':
            return lt(b, a)
        if op == 'Ge':
            return le(b, a)
        if op == 'Eq':
            return eqi(a, b)
        return Not(eqi(a, b))

    def cast(self, fr, st, r):
        x = self.operand(fr, st, r['a'])
        to = self.sty(fr, fr.body.ty(r['t']))
        fy = self.op_ty(fr, r['a'])
        kind = r['kind']
        if kind == 'IntToInt':
            if fy == ('bool',):
                return ite(self.asbool(x), I(1), I(0))
            if fy[0] == 'char':
                fy = ('uint', 'u32')
            if fy[0] == 'adt':
                return x
            if to[0] == 'char':
                return x
            return icast(x, fy[1], to[1])
        if kind == 'FloatToInt':
            return f2i(x, to[1])
        if kind == 'IntToFloat':
            return i2f(x, fy[1], to[1])
        if kind == 'FloatToFloat':
            return f2f(x, fy[1], to[1])
        return x

    # -------------------------------------------------------- statements
    def stmts(self, fr, st, b):
        for s in fr.body.blocks[b]['st']:
            self.steps += 1
            if s['s'] == '=':
                v = self.rvalue(fr, st, s['r'], None)
                if v.op not in ('sw', 'adt', 'tup', 'i', 'b') and not s['p']['p']:
                    mark(v, self.sty(fr, fr.body.lty[s['p']['l']]))
                self.wr_place(fr, st, s['p'], v)
            elif s['s'] == 'setd':
                raise Unsupported('set discriminant')
        if self.steps > self.maxsteps:
            raise Unsupported('step budget')

    # -------------------------------------------------------- regions
    def region(self, fr, b, st, stops, skip_first=False):
        """evaluate from block b until a block of `stops` (or return); -> Tree"""
        first = skip_first
        cfg = fr.cfg
        while True:
            if b in stops and not first:
                return leaf_tree(('at', b), st)
            if b in cfg.loops and not first:
                tree = self.loop(fr, b, st, stops)
                nxt = self.join(fr, tree, b, stops)
                if isinstance(nxt, Tree):
                    return nxt
                b, st = nxt
                continue
            first = False
            if b not in cfg.alive:
                # only panics from here
                self.cur = pretty(fr.body)
                self.demand(st, FALSE, 'panic')
                return DEAD
            self.stmts(fr, st, b)
            tt = fr.body.blocks[b]['t']
            k = tt['k']
            if k in ('goto', 'drop'):
                b = tt['to']
            elif k == 'return':
                return leaf_tree(('ret',), st)
            elif k in ('unreachable', 'resume', 'other'):
                return DEAD
            elif k == 'assert':
                v = self.asbool(self.operand(fr, st, tt['a']))
                if self.demands is not None:
                    self.cur = pretty(fr.body)
                    self.demand(st, v if tt['exp'] else Not(v), tt.get('msg'))
                c = st.ctx.assume(v, 1 if tt['exp'] else 0)
                if c is None:
                    return DEAD
                st.ctx = c
                b = tt['to']
            elif k == 'call':
                res = self.call(fr, st, tt)
                if res is None or tt['to'] is None:
                    return DEAD
                b = tt['to']
            elif k == 'switch':
                dd, targets = self.decide(fr, st, tt)
                if dd.op == 'leaf':
                    b = targets[dd.a[0]]
                    continue
                if dd is BOT:
                    return DEAD
                p = cfg.ipdom.get(b)
                used = _used(dd)
                st2 = stops | ({p} if p is not None and p >= 0 else set())
                subs = {}
                for i in used:
                    cond = ddmap(dd, lambda j: BOT if j is None else B(j == i))
                    c = st.ctx.assume(cond)
                    if c is None:
                        continue
                    if self.demands is not None and cond.op == 'sw':
                        # no single fact: kept as it is
                        c = c.add(cond, 1) or c
                    s2 = st.copy()
                    s2.ctx = c
                    subs[i] = self.region(fr, targets[i], s2, st2)
                tree = compose(dd, subs)
                if p is None or p < 0 or p in stops:
                    return tree
                nxt = self.join(fr, tree, b, stops, p, st.ctx)
                if isinstance(nxt, Tree):
                    return nxt
                b, st = nxt
            else:
                raise Unsupported('terminator ' + k)

    def join(self, fr, tree, b, stops, p=None, ctx=None):
        """continue from the common post-dominator p of the leaves; -> Tree, or (block, state)"""
        if p is None:
            # after a loop: common post-dominator of the exit targets
            tg = sorted(set(x[0][1] for i, x in enumerate(tree.leaves) if x[0][0] == 'at' and x[0][1] not in stops and i in set(_used(tree.dd))))
            if not tg:
                return tree
            if len(tg) == 1:
                p = tg[0]
            else:
                p = self.common_pdom(fr, tg, stops)
            st2 = stops | ({p} if p is not None and p >= 0 else set())
            subs = {}
            for i in _used(tree.dd):
                tgt, s = tree.leaves[i]
                if tgt[0] == 'at' and tgt[1] not in st2:
                    subs[i] = self.region(fr, tgt[1], s, st2)
                else:
                    subs[i] = leaf_tree(tgt, s)
            tree = compose(tree.dd, subs)
            if p is None or p < 0 or p in stops:
                return tree
        sel = {('at', p)}
        used = _used(tree.dd)
        at_p = [i for i in used if tree.leaves[i][0] in sel]
        if not at_p:
            return tree
        base = ctx or common_ctx([tree.leaves[i][1].ctx for i in at_p])
        st = merge(tree, sel, base)
        if len(at_p) == len(used):
            return (p, st)
        # some leaves went elsewhere (return / outer stop): evaluate the rest as a sub-tree
        sub_ = self.region(fr, p, st, stops, skip_first=False)
        cont = {}
        first = None
        leaves_ = [x for x in tree.leaves]
        n = len(leaves_)

        def f(i):
            if i is None:
                return DEADL
            if tree.leaves[i][0] in sel:
                return sub_dd
            return mk('leaf', i)
        sub_dd = ddmap(sub_.dd, lambda j: DEADL if j is None else mk('leaf', n + j))
        return Tree(ddmap(tree.dd, f), leaves_ + sub_.leaves)

    def common_pdom(self, fr, tg, stops):
        ip = fr.cfg.ipdom

        def chain(x):
            out = [x]
            while x in ip and ip[x] != x:
                x = ip[x]
                out.append(x)
                if x < 0:
                    break
            return out
        cs = [chain(x) for x in tg if x in fr.cfg.alive]
        if not cs:
            return None
        for x in cs[0]:
            if all(x in c for c in cs):
                return x
        return None

    def decide(self, fr, st, tt):
        v = restrict(self.operand(fr, st, tt['a']), st.ctx)
        ty = self.op_ty(fr, tt['a'])
        vals = [(int(a), b) for a, b in tt['v']]
        if ty[0] == 'int':
            w = {'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'isize': 64, 'i128': 128}[ty[1]]
            vals = [(a - (1 << w) if a >= (1 << (w - 1)) else a, b) for a, b in vals]
        if any(l.op == 'i' for l in leaves(v)):
            # discriminants of Ordering are emitted as unsigned
            vals = [(a - 256 if a == 255 and any(l.op == 'i' and l.a[0] == -1 for l in leaves(v)) else a, b) for a, b in vals]
        targets = [b for _, b in vals] + [tt['else']]
        uniq = list(dict.fromkeys(targets))
        L = {b: mk('leaf', i) for i, b in enumerate(uniq)}
        alive = fr.cfg.alive

        def tl(b):
            return L[b]
        if ty == ('bool',):
            v = self.asbool(v)
            m = dict(vals)
            f0 = tl(m.get(0, tt['else']))
            f1 = tl(m.get(1, tt['else']))
            return restrict2(ite(v, f1, f0), st.ctx), uniq

        def f(x):
            if x.op == 'i':
                for a, b in vals:
                    if a == x.a[0]:
                        return tl(b)
                return tl(tt['else'])
            if x.op in ('adt',):
                raise Unsupported('switch on adt')
            r = tl(tt['else'])
            for a, b in reversed(vals):
                r = ite(eqi(x, I(a)), tl(b), r)
            return r
        return restrict2(lift1(f, v), st.ctx), uniq

    # -------------------------------------------------------- loops
    def loop(self, fr, h, st, stops):
        self.loops += 1
        cfg = fr.cfg
        L = cfg.loops[h]
        exits = set()
        for x in L:
            for y in cfg.succ[x]:
                if y not in L:
                    exits.add(y)
        inner_stops = exits | {h}
        live = cfg.live_in()[h]
        st = st.copy()
        # drop dead locals of this frame (unless something live points at them)
        keep = set()
        work = [('L', fr.id, l) for l in live if ('L', fr.id, l) in st.r]
        work += [k for k in st.r if not (k[0] == 'L' and k[1] == fr.id)]
        while work:
            k = work.pop()
            if k in keep or k not in st.r:
                continue
            keep.add(k)
            for x in ptr_roots(st.r[k]):
                work.append(x)
        st.r = {k: v for k, v in st.r.items() if k in keep}

        def step(template):
            s = State(dict(template), st.ctx)
            tree = self.region(fr, h, s, inner_stops, skip_first=True)
            return tree
        roots0 = dict(st.r)
        if self.unroll and self.reaches(fr, L, self.unroll[0]):
            return self.rounds(fr, h, st, inner_stops, self.unroll[1])

        def ty_of(root):
            return self.rootty.get(root)
        return self.solve(roots0, step, lambda leaf: leaf[0] == ('at', h), st.ctx, ty_of)

    def reaches(self, fr, L, key):
        """some call of the loop leads to the function"""
        import flow
        at = {s.bb: s for s in flow.sites(fr.body)}
        ks = {b.key for x in L if x in at for b in flow.targets(self.prog, fr.body, at[x].op)}
        return key in ks or key in flow.reach(self.prog, ks)

    def rounds(self, fr, h, st, stops, n):
        """the executions that leave the loop in round n (counted from 0), followed round by round; the root GUARD collects the conditions"""
        g = TRUE
        here = ('at', h)
        for i in range(n + 1):
            tree = self.region(fr, h, st.copy(), stops, skip_first=True)
            last = i == n
            g = And(g, ddmap(tree.dd, lambda j: FALSE if j is None else B((tree.leaves[j][0] == here) != last)))
            if not last:
                st = merge(tree, {here}, st.ctx)
            if g is FALSE or st is None:
                self.notes.append('no round %d' % n)
                return Tree(BOT, [])
        self.notes.append('round %d' % n)
        out = []
        for tg, s in tree.leaves:
            s = s.copy()
            s.r[GUARD] = And(s.r.get(GUARD, TRUE), g)
            out.append((tg, s))
        return Tree(ddmap(tree.dd, lambda j: DEADL if j is None else BOT if tree.leaves[j][0] == here else mk('leaf', j)), out)

    def solve(self, roots0, step, is_back, ctx, ty_of, label='loop'):
        template = dict(roots0)
        phis = []       # [var, init]
        nxt = {}
        mark_ = None if self.demands is None else len(self.demands)
        for it in range(12):
            if mark_ is not None:
                # only those of the last pass are about the loop as it is
                del self.demands[mark_:]
            tree = step(template)
            used = _used(tree.dd)
            backs = [i for i in used if is_back(tree.leaves[i])]
            if not backs:
                if not phis:
                    return tree
            bset = set(backs)
            vals = {}
            for root in template:
                if root == OKR:
                    vs = ddmap(tree.dd, lambda i: FALSE if i is None else (tree.leaves[i][1].r[OKR] if i in bset else BOT))
                    vals[root] = vs
                    continue
                m = {i: tree.leaves[i][1].r.get(root) for i in backs}
                m = {i: v for i, v in m.items() if v is not None}
                if not m:
                    continue
                vs = list(m.values())
                if all(v is vs[0] for v in vs) and vs[0] is template[root]:
                    vals[root] = vs[0]
                else:
                    vals[root] = ddmap(tree.dd, lambda i: m.get(i, BOT) if i is not None else BOT)
            changed = [False]
            nxt = {}
            pset = {p: i for p, i in phis}

            def care(x):
                return ddmap(tree.dd, lambda i: x if i in bset else BOT)

            def match(tm, init, back, ty):
                """-> new template"""
                if back is BOT or tm is back or care(tm) is back:
                    if tm in pset:
                        nxt[tm] = tm
                    return tm
                if tm in pset:
                    nxt[tm] = back
                    return tm
                if back.op == 'adt' and back.a[0] in t.STRUCTS and tm.op != 'adt' and tm.op != 'sw':
                    tm2 = mk('adt', back.a[0], 0, *[mark(fld(tm, 0, i), self.fty(('adt', back.a[0], ()), 0, i)) for i in range(len(back.a) - 2)])
                    init2 = mk('adt', back.a[0], 0, *[fld(init, 0, i) for i in range(len(back.a) - 2)])
                    fs = []
                    for i in range(len(back.a) - 2):
                        fs.append(match(tm2.a[2 + i], init2.a[2 + i], back.a[2 + i], self.fty(('adt', back.a[0], ()), 0, i)))
                    changed[0] = True
                    return mk('adt', back.a[0], 0, *fs)
                if back.op == 'iter' and back.a[0] is tm and tm.op not in ('iter', 'sw', 'adt', 'tup'):
                    # an opaque iterator is the sequence of its items
                    changed[0] = True
                    return mk('iter', tm, match(I(0), I(0), back.a[1], ('uint', 'usize')))
                if tm.op == back.op and tm.op in ('adt', 'tup', 'iter', 'clo') and t._head(tm) == t._head(back) and len(tm.a) == len(back.a):
                    off = len(t._head(tm)) - 1
                    fs = []
                    for i in range(off, len(tm.a)):
                        ii = self_init(init, tm, i)
                        fs.append(match(tm.a[i], ii, back.a[i], self.cty(ty, tm, i - off)))
                    return mk(tm.op, *(tm.a[:off] + tuple(fs)))
                v = fresh('phi')
                mark(v, ty)
                if ty is None:
                    if tm.b or tm.op == 'b':
                        v.b = True
                phis.append((v, init))
                pset[v] = init
                changed[0] = True
                return v

            def self_init(init, tm, i):
                if init.op == tm.op:
                    return init.a[i]
                raise Unsupported('phi init shape')
            for root in list(template):
                if root in vals:
                    template[root] = match(template[root], roots0[root] if root in roots0 else template[root], vals[root],
                                           ty_of(root) if root not in (OKR, WORLD) else (('bool',) if root == OKR else None))
                    if template[root].op == 'iter' and roots0[root].op not in ('iter', 'sw'):
                        roots0[root] = mk('iter', roots0[root], I(0))
                    if template[root].op in ('adt',) and roots0[root].op != template[root].op and roots0[root].op != 'sw':
                        # the initial value is expanded the same way
                        roots0[root] = expand_like(roots0[root], template[root])
            if not changed[0]:
                break
        else:
            raise Unsupported('loop does not stabilise')
        if not backs:
            return tree
        return self.close_loop(tree, phis, nxt, bset, ctx, mark_)

    def cty(self, ty, tm, i):
        if ty is None:
            return None
        ty = strip_ty(ty)
        if tm.op == 'adt':
            a = self.prog.adts.get(tm.a[0])
            if a and tm.a[1] < len(a['variants']) and i < len(a['variants'][tm.a[1]]['f']):
                fty = a['variants'][tm.a[1]]['f'][i]['t']
                if fty is None and ty[0] == 'adt' and len(ty[2]) == 1:
                    return ty[2][0]
                return fty
            return None
        if tm.op == 'tup' and ty[0] == 'tuple':
            return ty[1][i]
        if tm.op == 'iter' and i == 1:
            return ('uint', 'usize')
        return None

    def close_loop(self, tree, phis, nxt, bset, ctx, since=None):
        k = fresh('k')
        k.nn = True
        sol = {}
        unsolved = [p for p, _ in phis]
        init = dict(phis)
        # sequences whose length does not change
        lm = {}
        for p in unsolved:
            ln = t._tab.get(('len', p))
            if ln is not None and p in nxt and nxt[p] is not p:
                l0 = length(init[p])
                if subst(length(nxt[p]), {ln: l0}) is l0:
                    lm[ln] = l0
        if lm:
            nxt = {p: subst(v, lm) for p, v in nxt.items()}
            bs = {i for i in bset}
            tree = Tree(subst(tree.dd, lm), [(tg, State({r: subst(v, lm) for r, v in s.r.items()}, s.ctx)) for tg, s in tree.leaves])
            bset = bs
        progress = True
        while unsolved and progress:
            progress = False
            for p in list(unsolved):
                nx = nxt.get(p, p)
                nx = subst(nx, sol) if sol else nx
                others = [q for q in unsolved if q is not p]
                if others and mentions(nx, others):
                    continue
                s = self.solve1(p, init[p], nx, k)
                if s is not None:
                    sol[p] = s
                    unsolved.remove(p)
                    progress = True
        if unsolved:
            # mutually dependent: one vector recurrence
            nxs = [subst(nxt.get(p, p), sol) for p in unsolved]
            # drop to the strongly needed subsets is not attempted: one vector
            lam = close([k] + unsolved, mk('vec', *nxs))
            inits = mk('vec', *[init[p] for p in unsolved])
            for j, p in enumerate(unsolved):
                r = mk('recn', j, k, inits, lam)
                r.b = p.b
                r.nn = p.nn
                sol[p] = r
            unsolved = []
        if since is not None:
            for d in self.demands[since:]:
                # in round k of the loop
                if lm:
                    d.cond, d.facts, d.gates = subst(d.cond, lm), [(subst(s, lm), x) for s, x in d.facts], [(subst(s, lm), x) for s, x in d.gates]
                d.cond, d.facts, d.gates = subst(d.cond, sol), [(subst(s, sol), x) for s, x in d.facts], [(subst(s, sol), x) for s, x in d.gates]
        dd = subst(tree.dd, sol)
        out_leaves = []

        def inst(i, kv, tag, cache={}):
            tgt, s = tree.leaves[i]
            m = dict()
            roots = {}
            for r, v in s.r.items():
                v2 = subst(v, sol)
                roots[r] = subst(v2, {k: kv})
            ns = State(roots, ctx)
            out_leaves.append((tgt, ns))
            return len(out_leaves) - 1

        def take(dd, kv):
            """exit diagram at iteration kv: back edges are impossible"""
            memo = {}

            def f(i):
                if i is None:
                    return DEADL
                if i in bset:
                    return BOT
                if i not in memo:
                    memo[i] = mk('leaf', inst(i, kv, None))
                return memo[i]
            d2 = ddmap(dd, f)
            return subst(d2, {k: kv})
        cont = ddmap(dd, lambda i: BOT if i is None else B(i in bset))
        if cont is TRUE:
            self.notes.append('loop without exit')
            return DEAD

        def finish(dd, cont):
            if cont is BOT or cont is TRUE:
                return BOT
            if cont is FALSE:
                return take(dd, I(0))
            bound = self.find_bound(cont, k)
            if bound is not None:
                atom, lab_exit, N = bound
                N0 = max0(N)
                p = cofactor(cont, atom, 1 - lab_exit)
                d_exit = take(cofactor(dd, atom, lab_exit), N0)
                if p is TRUE:
                    return d_exit
                lam = close([k], Not(p))
                found = anyf(N0, lam)
                K = firstf(N0, lam)
                d_in = take(cofactor(dd, atom, 1 - lab_exit), K)
                return ite(found, d_in, d_exit)
            K = mk('trip', close([k], cont))
            K.nn = True
            return take(dd, K)

        wm = {}

        def whole(cont):
            """the number of iterations as one diagram over invariant conditions, or None"""
            if cont in wm:
                return wm[cont]
            if len(wm) > 500:
                return None
            r = None
            free = [s for s in scrutinees(cont) if not mentions(s, [k])] if cont.op == 'sw' else []
            if cont is FALSE:
                r = I(0)
            elif free:
                s = min(free, key=lambda x: x.id)
                alt = []
                for i in range(t.arity(s)):
                    alt.append(whole(cofactor(cont, s, i)))
                    if alt[-1] is None:
                        break
                else:
                    r = switch(s, tuple(alt))
            elif cont is not TRUE and cont is not BOT:
                bound = self.find_bound(cont, k)
                if bound is not None and cofactor(cont, bound[0], 1 - bound[1]) is TRUE:
                    r = max0(bound[2])
            wm[cont] = r
            return r

        def split_(dd, cont, budget):
            """loops whose bound depends on an invariant condition: one closed form per alternative"""
            if cont.op == 'sw':
                free = [s for s in scrutinees(cont) if not mentions(s, [k])]
                if free and budget <= 0:
                    n = whole(cont)
                    if n is not None:
                        return take(dd, n)
                elif free:
                    s = min(free, key=lambda x: x.id)
                    return switch(s, tuple(split_(cofactor(dd, s, i), cofactor(cont, s, i), budget - 1) for i in range(t.arity(s))))
            return finish(dd, cont)
        return Tree(split_(dd, cont, 4), out_leaves)

    def find_bound(self, cont, k):
        atoms = []
        seen = set()

        def go(x):
            if x in seen:
                return
            seen.add(x)
            if x.op == 'sw':
                if x.a[0].op == 'ge0':
                    atoms.append(x.a[0])
                for c in x.a[1:]:
                    go(c)
            elif x.op == 'ge0':
                atoms.append(x)
        go(cont)
        for a in atoms:
            for lab in (0, 1):
                if cofactor(cont, a, 1 - lab) is FALSE:
                    n = t._steps(a.a[0], lab, k)
                    if n is not None:
                        return a, 1 - lab, n
            c, m = t._lin(a.a[0])
            ck = m.get(k)
            if ck not in (1, -1):
                continue
            rest = a.a[0] if False else t._mklin(c, {x: v for x, v in m.items() if x is not k})
            if mentions(rest, [k]):
                continue
            if ck == 1:
                # k + rest >= 0 : true from k = -rest on
                if cofactor(cont, a, 1) is FALSE:
                    return a, 1, scale(rest, -1)
            else:
                # rest - k >= 0 : false from k = rest + 1 on
                if cofactor(cont, a, 0) is FALSE:
                    return a, 0, add(rest, I(1))
        return None

    def solve1(self, p, init, nx, k):
        """closed form after k iterations of p := nx (which mentions only p, k and invariants)"""
        if nx is p:
            return init
        if not mentions(nx, [p]):
            if nx is init:
                return init
            if not mentions(nx, [k]):
                return ite(eqi(k, I(0)), init, nx)
            return ite(eqi(k, I(0)), init, subst(nx, {k: sub(k, I(1))}))
        if p.b:
            # monotone flags
            c1 = cofactor(nx, p, 1)
            c0 = cofactor(nx, p, 0)
            if not mentions(c1, [p]) and not mentions(c0, [p]):
                if c1 is TRUE:      # or-accumulation
                    return Or(init, anyf(k, close([k], c0)))
                if c0 is FALSE:     # and-accumulation
                    return And(init, Not(anyf(k, close([k], Not(c1)))))
        if p.op == 'var' and not p.b:
            scr = scrutinees(nx)
            free = not any(mentions(s, [p]) for s in scr)
            ls = leaves(nx)
            if free:
                # integers
                ok = True
                ds = {}
                for l in ls:
                    if l.op in ('lin', 'var') and (l is p or l.op == 'lin'):
                        c, m = t._lin(l)
                        if m.get(p) != 1:
                            ok = False
                            break
                        d = t._mklin(c, {x: v for x, v in m.items() if x is not p})
                        if mentions(d, [p]):
                            ok = False
                            break
                        ds[l] = d
                    else:
                        ok = False
                        break
                if ok and any(l is not p for l in ls):
                    d = lift1(lambda l: ds[l], nx)
                    if d.op != 'sw' and not mentions(d, [k]):
                        return add(init, mul(k, d))
                    return add(init, psum(k, close([k], d)))
                # appends
                ok = True
                ds = {}
                for l in ls:
                    if l is p:
                        ds[l] = NIL
                    elif l.op == 'cat' and l.a and l.a[0] is p and not any(mentions(x, [p]) for x in l.a[1:]):
                        ds[l] = cat(*l.a[1:])
                    else:
                        ok = False
                        break
                if ok:
                    d = lift1(lambda l: ds[l], nx)
                    return cat(init, flat(k, close([k], d)))
                # element stores at k + c
                ok = True
                for l in ls:
                    if l is p:
                        continue
                    if l.op == 'store' and l.a[0] is p and not mentions(l.a[1], [p]) and not mentions(l.a[2], [p]):
                        c, m = t._lin(l.a[1])
                        if m.get(k) == 1 and not mentions(t._mklin(c, {x: v for x, v in m.items() if x is not k}), [k]):
                            continue
                    elif l.op == 'store' and l.a[0] is p and not mentions(l.a[1], [p]):
                        c, m = t._lin(l.a[1])
                        # a[i] := f(a[i]) with i = k + c
                        if m.get(k) == 1 and not mentions(t._mklin(c, {x: v for x, v in m.items() if x is not k}), [k]):
                            if mentions_only_at(l.a[2], p, l.a[1]):
                                continue
                    ok = False
                    break
                offs = set(sub(l.a[1], k) for l in ls if l is not p) if ok else set()
                if ok and len(offs) == 1:
                    off = offs.pop()
                    n = length(init)

                    def at(j):
                        it = sub(j, off)
                        v = lift1(lambda l: elem(init, j) if l is p else subst(subst(l.a[2], {k: it}), {p: init}), subst_gates(nx, {k: it}))
                        return ite(And(le(off, j), lt(it, k)), v, elem(init, j))
                    return genf(n, at)
            r = self.solve_rest(p, init, nx, k)
            if r is not None:
                return r
        lam = close([k, p], nx)
        r = mk('fold', init, k, lam)
        r.b = p.b
        r.nn = p.nn
        return r

    def solve_rest(self, p, init, nx, k):
        """p := p without its first d items: the k-th rest is the end of init, of the length that the lengths' recurrence gives"""
        lp = t._tab.get(('len', p))
        if lp is None:
            return None
        r = fresh('rest')
        r.nn = True
        ds = {}
        for l in leaves(nx):
            if l is p:
                ds[l] = r
                continue
            if l is NIL:
                ds[l] = I(0)
                continue
            if l.op != 'gen':
                return None
            d = sub(lp, l.a[0])
            j = fresh('j')
            j.nn = True
            if open_(l.a[1], j) is not mk('elem', p, add(j, d)) and open_(l.a[1], j) is not elem(p, add(j, d)):
                return None
            ds[l] = subst(l.a[0], {lp: r})
            if mentions(ds[l], [p]):
                return None
        n2 = subst(lift1(lambda l: ds[l], nx), {lp: r})
        if mentions(n2, [p]):
            return None
        n0 = length(init)
        rk = self.solve1(r, n0, n2, k)
        off = sub(n0, rk)
        return genf(rk, lambda j: elem(init, add(j, off)))

    # -------------------------------------------------------- calls
    def resolve(self, fr, o):
        """operand of a call -> dict(name, types, body?, ...)"""
        types = [self.sty(fr, fr.body.ty(x)) for x in o['a']]
        name = strip_generics(o['pp'])
        if name.startswith(('std::slice::', 'alloc::slice::')):
            name = 'core::slice::' + name.split('::', 2)[2]
        r = {'name': name, 'types': types, 'o': o, 'body': None, 'trait': o.get('trait'), 'consts': o.get('c', []),
             'unit': fr.body.unit}
        if 'rp' in o:
            k = self.prog.callee_key(fr.body, o['rp'], o.get('rlocal', False))
            b = self.prog.bodies.get(k)
            if b is not None:
                r['body'] = b
                r['btypes'] = [self.sty(fr, fr.body.ty(x)) for x in o['ra']]
                return r
            r['rname'] = o['rp']
        if o.get('trait') and types:
            b = self.find_impl(o['trait'], o['p'].split('::')[-1], types[0], fr.body.unit)
            if b is not None:
                r['body'] = b
                r['btypes'] = None
        elif 'rp' not in o:
            k = self.prog.callee_key(fr.body, o['p'], True)
            b = self.prog.bodies.get(k) or self.prog.bodies.get(o['p'])
            if b is not None:
                r['body'] = b
                r['btypes'] = types
        return r

    def find_impl(self, trait, name, selfty, unit):
        s = selfty
        c = self.prog.method_index.get((trait, name), [])
        for b in c:
            if b.selfty == s or (b.selfty and s and b.selfty[0] == 'adt' and s[0] == 'adt' and b.selfty[1] == s[1]):
                return b
        return None

    def call(self, fr, st, tt):
        f = tt['f']
        if f['o'] != 'fn':
            fv = self.operand(fr, st, f)
            args = [self.operand(fr, st, a) for a in tt['a']]
            r = self.apply(st, fv, args)
        else:
            c = self.resolve(fr, f)
            c['at'] = tt.get('at')
            args = [self.operand(fr, st, a) for a in tt['a']]
            c['argtys'] = [self.op_ty(fr, a) for a in tt['a']]
            c['retty'] = self.place_ty(fr, tt['d'])
            c['fr'] = fr
            r = self.invoke(st, c, args, fr.depth)
        if r is None or r is BOT:
            return None
        if tt['to'] is None:
            return None
        if r.op not in ('sw', 'adt', 'tup', 'i', 'b'):
            mark(r, self.place_ty(fr, tt['d']))
        self.wr_place(fr, st, tt['d'], r)
        return r

    def invoke(self, st, c, args, depth=0):
        name = c['name']
        m = self.M.lookup(self, c)
        if m is not None:
            return m(self, st, args, c)
        b = c['body']
        if b is not None:
            bar = self.barriers.get(pretty(b))
            if bar is not None:
                return bar(self, st, args, c)
            if depth > 40:
                raise Unsupported('call depth')
            tys = {}
            if c.get('btypes'):
                for n_, ty in zip(b.generics, c['btypes']):
                    tys[n_] = ty
            else:
                # trait impl found by type: method generics follow the trait's own
                meth = c['types'][1:]
                for n_, ty in zip(b.generics[-len(meth):] if meth else [], meth):
                    tys[n_] = ty
            return self.inline(st, b, args, tys, depth + 1)
        return self.opaque(st, c, args)

    def inline(self, st, b, args, tys, depth):
        self.inlined[b.key] = self.inlined.get(b.key, 0) + 1
        self.fid += 1
        fr = Frame(b, self.fid, tys, depth)
        for i, a in enumerate(args):
            root = ('L', fr.id, i + 1)
            st.r[root] = a
            self.rootty[root] = self.sty(fr, b.lty[i + 1])
            mark(a, self.rootty[root])
        tree = self.region(fr, 0, st.copy(), set())
        ms = merge(tree, {('ret',)}, st.ctx)
        if ms is None:
            st.r[OKR] = FALSE
            return BOT
        rv = ms.r.get(('L', fr.id, 0), UNIT)
        st.r = {k: v for k, v in ms.r.items() if not (k[0] == 'L' and k[1] == fr.id)}
        st.ctx = ms.ctx
        return rv

    def apply(self, st, f, args):
        """call a function value with a list of arguments"""
        if f.op == 'sw':
            raise Unsupported('call of a gated function value')
        f = self.read(st, f) if f.op == 'ptr' else f
        if f.op == 'clo':
            return self.apply_clo(st, f, f, args)
        if f.op == 'fn':
            c = getattr(self, 'fnvals', {}).get(f.a[0])
            if c is None:
                # constructor functions appear as fn items
                raise Unsupported('call of unknown fn value %s' % f.a[0])
            c = dict(c)
            c.setdefault('argtys', [None] * len(args))
            c.setdefault('retty', None)
            return self.invoke(st, c, args, 1)
        raise Unsupported('call of %s' % f.op)

    def apply_clo(self, st, clo, envv, args):
        """envv: what is passed as the closure environment (value or pointer)"""
        b = self.prog.bodies.get(clo.a[0])
        if b is None:
            raise Unsupported('closure body ' + clo.a[0])
        ety = b.lty[1]
        if ety[0] == 'ref' and ety[2] and envv.op != 'ptr':
            self.fid += 1
            root = ('C', self.fid)
            st.r[root] = clo
            envv = mk('ptr', root)
            r = self.inline(st, b, [envv] + list(args), self.cenv.get(clo.a[0], {}), 1)
            nclo = st.r.pop(root, clo)
            if nclo is not clo and any(x is not y for x, y in zip(nclo.a, clo.a)):
                raise Unsupported('closure mutates its own captured value')
            return r
        if not (ety[0] == 'ref'):
            envv = clo
        return self.inline(st, b, [envv] + list(args), self.cenv.get(clo.a[0], {}), 1)

    def pure_apply(self, st, f, args):
        """apply a closure that must not change memory; -> value"""
        s2 = st.copy()
        before = dict(s2.r)
        r = self.apply(s2, f, args)
        if r is None:
            r = BOT
        for k, v in before.items():
            if k == OKR:
                continue
            if s2.r.get(k) is not v:
                raise Unsupported('closure with side effects on %r' % (k,))
        return r, s2.r[OKR]

    def lam(self, st, f, argf, n=None, nargs=1):
        """close a closure over an index variable: returns lam(k) = f(argf(k)) and records panics in OK"""
        k = fresh('k')
        k.nn = True
        s2 = st.copy()
        s2.r[OKR] = TRUE
        if self.demands is not None and n is not None:
            s2.ctx = s2.ctx.assume(lt(k, n)) or s2.ctx
        v, ok = self.pure_apply(s2, f, argf(k))
        if ok is not TRUE and n is not None:
            st.r[OKR] = And(st.r[OKR], Not(anyf(n, close([k], Not(ok)))))
        return close([k], v)

    def opaque(self, st, c, args):
        name = c['name']
        self.unknown[name] = self.unknown.get(name, 0) + 1
        return self.opaque_call(st, name, c, args)

    def opaque_call(self, st, name, c, args):
        contents = [self.deep(st, a) for a in args]
        if not name.startswith('~') and any(x.op == 'clo' for a in contents for x in subterms(a)):
            # the callee may run the closure: whatever that does is not followed
            self.notes.append('closure handed to ' + name)
            st.r[WORLD] = cat(st.r[WORLD], one(mk('eff', 'opaque', name)))
        tyk = tystr(c['retty']) if c.get('retty') else ''
        r = liftn(lambda *xs: mk('call', name, tyk, *xs), *contents, cap=8)
        for i, a in enumerate(args):
            for p in mut_ptrs(a):
                new = liftn(lambda *xs: mk('out', name, tyk, i, *xs), *contents, cap=8)
                ty = c['argtys'][i] if c.get('argtys') else None
                if ty is not None and ty[0] == 'ref':
                    mark(new, ty[1])
                self.write(st, p, new)
        if c.get('retty') is not None:
            mark(r, c['retty'])
        return r

    def deep(self, st, v):
        """replace pointers by their content"""
        if v.op == 'ptr' or (v.op == 'sw' and any(l.op == 'ptr' for l in leaves(v))):
            return self.deep(st, self.read(st, v))
        if v.op in ('adt', 'tup', 'clo'):
            na = tuple(self.deep(st, x) if type(x) is T else x for x in v.a)
            if all(x is y for x, y in zip(na, v.a)):
                return v
            return mk(v.op, *na)
        return v

    @staticmethod
    def opaque_barrier(ev, st, args, c):
        return ev.opaque_call(st, '~' + pretty(c['body']), c, args)

    # -------------------------------------------------------- entry
    rootty = {}

    def run(self, body, args, tys=None, st=None):
        """evaluate a function on symbolic arguments; -> (return value, final state)"""
        st = st or new_state()
        r = self.inline(st, body, args, tys or {}, 0)
        return r, st

    def cell(self, st, v, name, ty=None):
        """a memory cell holding v; returns a pointer (for &mut arguments)"""
        root = ('C', name)
        st.r[root] = v
        if ty is not None:
            self.rootty[root] = ty
        return mk('ptr', root)

    def expand_for(self, v, path, root):
        ty = self.rootty.get(root)
        return self._expand(v, path, ty)


def expand_like(init, tm):
    if tm.op == 'adt' and init.op not in ('adt', 'sw'):
        return mk('adt', tm.a[0], tm.a[1], *[expand_like(fld(init, tm.a[1], i), x) for i, x in enumerate(tm.a[2:])])
    return init


def scrutinees(v):
    out = []
    seen = set()

    def go(x):
        if x in seen:
            return
        seen.add(x)
        if x.op == 'sw':
            out.append(x.a[0])
            for c in x.a[1:]:
                go(c)
    go(v)
    return out


def subst_gates(v, m):
    """substitute in the scrutinees only, keep the leaves"""
    if v.op != 'sw':
        return v
    s = subst(v.a[0], m)
    return t.reswitch(s, len(v.a) - 1, tuple(subst_gates(c, m) for c in v.a[1:]))


def mentions_only_at(v, p, ix):
    """v mentions the sequence p only as elem(p, ix)"""
    e = mk('elem', p, ix)
    h = fresh('h')
    return not mentions(subst(v, {e: h}), [p])


def cofactor(v, s, i):
    """set the atom s to label i everywhere in the diagram v"""
    memo = {}

    def go(x):
        if x is s:
            return B(i)
        if x.op != 'sw':
            return x
        r = memo.get(x)
        if r is None:
            if x.a[0] is s:
                r = go(x.a[1 + i])
            else:
                r = switch(x.a[0], tuple(go(c) for c in x.a[1:]))
            memo[x] = r
        return r
    return go(v)


def restrict2(dd, ctx):
    """restrict a diagram with leaf terms"""
    return restrict(dd, ctx)


def common_ctx(cs):
    if not cs:
        return EMPTY
    d = {k: v for k, v in cs[0].d.items() if all(c.d.get(k) == v for c in cs[1:])}
    out = EMPTY
    for k, v in d.items():
        n = out.add(k, v)
        if n is not None:
            out = n
    return out


def ptr_roots(v):
    out = []
    seen = set()
    st = [v]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'ptr':
            out.append(x.a[0])
        if x.op == 'lin':
            continue
        if x.op in ('adt', 'tup', 'clo', 'sw', 'iter', 'gen', 'lam', 'ptr', 'one', 'cat', 'call', 'lcell'):
            st.extend(y for y in x.a if type(y) is T)
    return out


def mut_ptrs(v):
    if v.op == 'ptr':
        return [v]
    if v.op == 'sw':
        ls = leaves(v)
        if all(l.op == 'ptr' for l in ls):
            return [v]
        out = []
        for l in ls:
            out += mut_ptrs(l)
        return out
    if v.op in ('adt', 'tup', 'clo'):
        out = []
        for x in v.a:
            if type(x) is T:
                out += mut_ptrs(x)
        return out
    return []


def strip_ty(ty):
    while ty is not None and (ty[0] in ('ref', 'ptr') or (ty[0] == 'adt' and ty[1] == 'alloc::boxed::Box' and ty[2] and ty[2][0][0] != 'dyn' and False)):
        ty = ty[1]
    return ty


def deref_ty(ty):
    if ty[0] in ('ref', 'ptr'):
        return ty[1]
    if ty[0] == 'adt' and ty[1] == 'alloc::boxed::Box':
        return ty[2][0]
    return ty


def subst_ty(ty, m):
    if ty[0] == 'param':
        return m.get(ty[1], ty)
    if ty[0] == 'adt':
        return ('adt', ty[1], tuple(subst_ty(x, m) for x in ty[2]))
    if ty[0] in ('ref', 'ptr'):
        return (ty[0], subst_ty(ty[1], m), ty[2])
    if ty[0] == 'array':
        return ('array', subst_ty(ty[1], m), ty[2])
    if ty[0] == 'slice':
        return ('slice', subst_ty(ty[1], m))
    if ty[0] == 'tuple':
        return ('tuple', tuple(subst_ty(x, m) for x in ty[1]))
    return ty


def tystr(ty):
    if ty is None:
        return '?'
    k = ty[0]
    if k in ('int', 'uint', 'float'):
        return ty[1]
    if k == 'adt':
        n = ty[1]
        return n + ('<' + ','.join(tystr(x) for x in ty[2]) + '>' if ty[2] else '')
    if k in ('ref', 'ptr'):
        return '&' + tystr(ty[1])
    if k in ('array', 'slice'):
        return '[' + tystr(ty[1]) + ']'
    if k == 'tuple':
        return '(' + ','.join(tystr(x) for x in ty[1]) + ')'
    return ':'.join(str(x) for x in ty)


def bitop(op, a, b, ty):
    if a.op == 'i' and b.op == 'i':
        x, y = a.a[0], b.a[0]
        v = {'BitAnd': x & y, 'BitOr': x | y, 'BitXor': x ^ y, 'Shl': x << y if y < 200 else 0, 'Shr': x >> y}[op]
        lo, hi = RANGES[ty[1]]
        n = hi - lo + 1
        return I((v - lo) % n + lo)
    if op == 'Shl' and b.op == 'i':
        return mul(a, I(1 << b.a[0]))
    if op in ('BitAnd', 'BitOr', 'BitXor'):
        nm = op.lower()
        xs = []
        for x in (a, b):
            xs.extend(x.a if x.op == nm else (x,))
        xs = sorted(set(xs) if op != 'BitXor' else xs, key=lambda x: x.id)
        if op == 'BitOr':
            xs = [x for x in xs if not (x.op == 'i' and x.a[0] == 0)]
        if len(xs) == 1:
            return xs[0]
        r = mk(nm, *xs)
    else:
        r = mk(op.lower(), a, b)
    r.nn = ty[0] == 'uint'
    return r
