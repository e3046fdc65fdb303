"""A deque keeps three parallel arrays.  A node is used (datum set) or free (datum NULL).  The
invariant is local to each node, with a ghost rank per node: along the nexts links of used nodes
the rank grows by one from head to tail (so head reaches exactly len nodes, in order), along the
prevs links of free nodes it drops by one from freed (rank cap-len) to 1 (so no node is lost,
listed twice, or both used and free).  Entry states describe nodes on demand; at a return the
invariant is proved for an arbitrary node."""
from spec import *
from specs.tuple import heap_block

MAXV = VI(64, K(M64))
FREED0 = None


class D0:
    """the deque as it was on entry"""


def recs(st, d):
    return [(div8(o), v) for o, n, v in st.memo.get(d.R.id, ())]


def div8(e):
    return (e[0] // 8, tuple((t, c // 8) for t, c in e[1]))


def register(st, d, i, status, rank):
    st.memo[d.R.id] = st.memo.get(d.R.id, ()) + ((scale(i, 8), 8, ('node', status, rank)),)


def node(d, st, i):
    """[(state, status, rank)] of node i of the entry deque (i < cap)"""
    out = []
    for j, v in recs(st, d):
        if st.eq(i, j):
            return [(st, v[1], v[2])]
    rest = st.copy()
    for j, v in recs(st, d):
        s = rest.copy()
        if s.assume(EQ, sub(i, j)):
            out.append((s, v[1], v[2]))
        if not rest.assume(NE, sub(i, j)):
            return out
    s = rest.copy()
    r = newsym('rank', -(1 << 40), 1 << 62)
    if s.assume(GE, addc(sub(r, d.h), -1)) and s.assume(GE, addc(sub(d.t, r), -1)) and apart(d, s, 'u', r):
        register(s, d, i, 'u', r)
        out.append((s, 'u', r))
    s = rest.copy()
    q = newsym('frank', 1, 1 << 62)
    if s.assume(GE, addc(sub(d.F, q), -1)) and apart(d, s, 'f', q):
        register(s, d, i, 'f', q)
        out.append((s, 'f', q))
    return out


def apart(d, s, status, r):
    # no two nodes of a list share a rank
    return all(s.assume(NE, sub(r, v[2])) for j, v in recs(s, d) if v[1] == status)


def link(eng, d, s, i, status, rank, up):
    """[(state, value)]: the neighbour of node i whose rank is one higher (up) or lower"""
    here, back = (d.N, d.P) if up else (d.P, d.N)
    v = eng.memo_find(s, here, scale(i, 8), 8)
    if v is not None:
        return [(s, v)]
    want = addc(rank, 1 if up else -1)
    out = []
    if status == 'u':
        if s.eq(i, d.tail if up else d.head):
            return [(s, MAXV)]
    else:
        if up:
            return [(s, eng.unknown(s, T64))]
        s1 = s.copy()
        if s1.assume(EQ, addc(rank, -1)):
            out.append((s1, MAXV))
        s = s.copy()
        if not s.assume(GE, addc(rank, -2)):
            return out
    fresh = s.copy()
    alive = True
    for j, v in recs(s, d):
        if v[1] != status or s.eq(i, j):
            continue
        s1 = s.copy()
        if s1.assume(EQ, sub(v[2], want)):
            b = eng.memo_find(s1, back, scale(j, 8), 8)
            if status == 'f':
                out.append((s1, ('i', 64, j, 'u')))
            elif b is None or b[0] == 'i' and s1.assume(EQ, sub(b[2], i)):
                if b is None:
                    eng.memo_add(s1, back, scale(j, 8), 8, ('i', 64, i, 'u'))
                out.append((s1, ('i', 64, j, 'u')))
        if alive:
            alive = fresh.assume(NE, sub(v[2], want))
    if alive:
        n = newsym('n', 0, PTRDIFF)
        ok = fresh.assume(GE, addc(sub(d.cap, n), -1))
        for j, v in recs(fresh, d):
            ok = ok and fresh.assume(NE, sub(n, j))
        if status == 'u':
            ok = ok and fresh.assume(GE, addc(sub(want, d.h), -1)) and fresh.assume(GE, addc(sub(d.t, want), -1))
        else:
            ok = ok and fresh.assume(GE, addc(want, -1)) and fresh.assume(GE, addc(sub(d.F, want), -1))
        if ok:
            register(fresh, d, n, status, want)
            if status == 'u':
                eng.memo_add(fresh, back, scale(n, 8), 8, ('i', 64, i, 'u'))
            out.append((fresh, ('i', 64, n, 'u')))
    return out


def word_index(off):
    if off[0] % 8 or any(c % 8 for _, c in off[1]):
        return None
    return div8(off)


class DequeShape(Shape):
    struct = 'HarbolDeque'

    def fill(self, cx, st, rid, off, name, mode):
        p, S = cx.p, self.struct
        O = {f: addc(off, p.off(S, f)) for f in ('datum', 'nexts', 'prevs', 'cap', 'len', 'head', 'tail', 'freed')}
        if mode == 'out':
            for f in O:
                cx.put(st, rid, O[f], 8, NULLP if f in ('datum', 'nexts', 'prevs') else VI(64, ZERO))
            cx.g['deque'] = None
            return [st]
        plain = cx.opts.get('plain')
        out = []
        s = st.copy()
        for f in O:
            cx.put(s, rid, O[f], 8, NULLP if f in ('datum', 'nexts', 'prevs') else VI(64, ZERO) if f in ('cap', 'len') else MAXV)
        s.tags['deque'] = 'none'
        out.append(s)
        kinds = [(None, None)] if plain else [(n, f) for n in (0, 1, 2) for f in (True, False)]
        for n, free in kinds:
            if n == 0 and not free:
                continue
            s = st.copy()
            d = D0()
            d.capv, d.lenv = u64('cap', 1, PTRDIFF // 64), u64('len', 2, PTRDIFF // 64) if n == 2 else VI(64, K(n or 0))
            if plain:
                d.lenv = u64('len', 0, PTRDIFF // 64)
            d.cap, d.len = d.capv[2], d.lenv[2]
            s.cons.addrow(GE, sub(d.cap, d.len))
            d.F = sub(d.cap, d.len)
            d.h, d.t = ZERO, addc(d.len, -1)
            d.head = d.tail = d.freed = None
            sz = cx.ghost('datasize', 1, PTRDIFF)
            size = scale(d.cap, 8)

            def h_datum(eng, st2, b, off2, nb, t, rid2, d=d, sz=sz):
                i = word_index(off2)
                if nb != 8 or i is None or not st2.ge(addc(sub(d.cap, i), -1), ZERO):
                    return [(st2, eng.unknown(st2, t))]
                res = []
                for s1, status, r in ([(st2, 'u', None), (st2.copy(), 'f', None)] if plain else node(d, st2, i)):
                    v = eng.memo_find(s1, b, off2, 8)
                    if v is None:
                        v = NULLP
                        if status == 'u':
                            s1 = s1.copy()
                            b0 = Base('opaque')
                            v = VP(eng.new_region(s1, 'heap', sz, b0, name='node data', site='entry', b0=b0))
                    res.append((s1, v))
                return res

            def h_link(up):
                def h(eng, st2, b, off2, nb, t, rid2, d=d):
                    i = word_index(off2)
                    if plain or nb != 8 or i is None or not st2.ge(addc(sub(d.cap, i), -1), ZERO):
                        return [(st2, eng.unknown(st2, t))]
                    res = []
                    for s1, status, r in node(d, st2, i):
                        res += link(eng, d, s1, i, status, r, up)
                    return res
                return h
            d.R, d.D, d.N, d.P = Base('opaque'), Base('lazy', handler=h_datum), Base('lazy', handler=h_link(True)), Base('lazy', handler=h_link(False))
            d.datum = cx.region(s, 'heap', size, d.D, name=name + '->datum', of=rid)
            d.nexts = cx.region(s, 'heap', size, d.N, name=name + '->nexts', of=rid)
            d.prevs = cx.region(s, 'heap', size, d.P, name=name + '->prevs', of=rid)
            head = tail = freed = MAXV
            if plain:
                head, tail, freed = u64('head'), u64('tail'), u64('freed')
            else:
                if n:
                    head = tail = u64('head', 0, PTRDIFF)
                    if n == 2:
                        tail = u64('tail', 0, PTRDIFF)
                        s.cons.addrow(NE, sub(head[2], tail[2]))
                    d.head, d.tail = head[2], tail[2]
                    for x in {head[2], tail[2]}:
                        s.cons.addrow(GE, addc(sub(d.cap, x), -1))
                    register(s, d, d.head, 'u', d.h)
                    if n == 2:
                        register(s, d, d.tail, 'u', d.t)
                if free:
                    freed = u64('freed', 0, PTRDIFF)
                    d.freed = freed[2]
                    s.cons.addrow(GE, addc(sub(d.cap, d.freed), -1))
                    s.cons.addrow(GE, addc(d.F, -1))
                    for x in {head[2], tail[2]}:
                        if x[1]:
                            s.cons.addrow(NE, sub(d.freed, x))
                    register(s, d, d.freed, 'f', d.F)
                else:
                    s.cons.addrow(EQ, d.F)
            for f, v in (('datum', VP(d.datum)), ('nexts', VP(d.nexts)), ('prevs', VP(d.prevs)), ('cap', d.capv), ('len', d.lenv), ('head', head), ('tail', tail), ('freed', freed)):
                cx.put(s, rid, O[f], 8, v)
            s.tags['deque'] = 'd%s%s' % (n, free)
            cx.g.setdefault('deques', {})[s.tags['deque']] = d
            out.append(s)
        return out

    def d0(self, cx, st):
        return cx.g.get('deques', {}).get(st.tags.get('deque'))

    def check(self, cx, P, st, rid, off, name):
        if P.ok is False and P.objs.get(name) is not None and P.objs[name].mode == 'out':
            return
        fs = [(st.copy(), {})]
        for f in ('datum', 'nexts', 'prevs', 'cap', 'len', 'head', 'tail', 'freed'):
            fs = [(s2, dict(m, **{f: v})) for s, m in fs for s2, v in cx.fld(s, self.struct, f, rid, off)]
        for s, m in fs:
            Q = P.at(s)
            if any(v[0] == 'undef' for v in m.values()):
                Q.fail('inv', 'inv:uninit', '%s is left with uninitialised fields' % name)
                continue
            self.chk(cx, Q, s, m, name)

    def chk(self, cx, Q, st, m, name):
        eng = cx.eng
        d = None if cx.opts.get('plain') else self.d0(cx, st)
        U = {f: eng.toU(st, m[f]) for f in ('cap', 'len', 'head', 'tail', 'freed')}
        if m['datum'] == NULLP or m['nexts'] == NULLP or m['prevs'] == NULLP:
            Q.eq('inv', 'inv:null', U['cap'], ZERO, '%s: no storage but a capacity' % name)
            Q.eq('inv', 'inv:null-len', U['len'], ZERO, '%s: no storage but nodes' % name)
            for f in ('head', 'tail', 'freed'):
                Q.eq('inv', 'inv:null-' + f, U[f], K(M64), '%s: no storage but %s names a node' % (name, f))
            return
        for f in ('datum', 'nexts', 'prevs'):
            if not heap_block(st, m[f]):
                Q.fail('inv', 'inv:' + f, '%s: %s is not a live allocation' % (name, f))
                return
            if not Q.prove('inv', 'inv:size:' + f, sub(st.mem[m[f][1]].size, scale(U['cap'], 8)), '%s: the capacity exceeds the storage of %s' % (name, f)):
                return
        if len({m[f][1] for f in ('datum', 'nexts', 'prevs')}) != 3:
            Q.fail('inv', 'inv:distinct', '%s: two arrays share storage' % name)
            return
        Q.prove('inv', 'inv:len', sub(U['cap'], U['len']), '%s: more nodes than the capacity' % name)
        c = DCheck(cx, Q, d, m, U, name)
        # which end is which
        for f, n in (('head', U['len']), ('tail', U['len']), ('freed', sub(U['cap'], U['len']))):
            for R in Q.cases((EQ, n)):
                R.eq('inv', 'inv:none-' + f, U[f], K(M64), '%s: %s names a node although there is none' % (name, f))
            for R in Q.cases((GE, addc(n, -1))):
                R.prove('inv', 'inv:range-' + f, addc(sub(U['cap'], U[f]), -1), '%s: %s is not a node' % (name, f))
        c.ends()
        c.arbitrary()

    def logical_same(self, cx, P, o):
        d = self.d0(cx, P.st)
        if d is None:
            return P.st.eq(P.f1(o.name, 'len'), ZERO)
        return P.st.eq(P.f1(o.name, 'len'), d.len) and (d.head is None or P.st.eq(P.f1(o.name, 'head'), d.head) and P.st.eq(P.f1(o.name, 'tail'), d.tail))


class DCheck:
    def __init__(self, cx, Q, d, m, U, name):
        self.cx, self.Q, self.d, self.m, self.U, self.name = cx, Q, d, m, U, name
        self.eng = cx.eng

    def rd(self, st, f, k):
        t = TP if f == 'datum' else T64
        return self.cx.get(st, self.m[f][1], scale(k, 8), t)

    def now(self, st, k):
        """[(state, status, rank, old status)] of node k at the return"""
        d = self.d
        pre = []
        if d is None:
            pre = [(st, 'n', None)]
        else:
            s = st.copy()
            if s.assume(GE, addc(sub(d.cap, k), -1)):
                pre += node(d, s, k)
            s = st.copy()
            if s.assume(GE, sub(k, d.cap)):
                pre.append((s, 'n', None))
        out = []
        for s, old, r0 in pre:
            for s2, v in self.rd(s, 'datum', k):
                if v[0] != 'p' or v[1] < 0:
                    out.append((s2, '?', None, old))
                elif v[1] == 0:
                    q = r0 if old == 'f' else addc(d.F, 1) if old == 'u' else addc(sub(k, d.cap) if d is not None else k, 1)
                    if old == 'n' and d is not None:
                        q = add(q, d.F)
                    out.append((s2, 'f', q, old))
                elif old == 'u':
                    out.append((s2, 'u', r0, old))
                else:
                    h, t = (d.h, d.t) if d is not None else (ZERO, K(-1))
                    U = self.U
                    for s3 in self.cases(s2, EQ, sub(k, U['tail'])):
                        out.append((s3, 'u', addc(t, 1), old))
                    for s3 in self.cases(s2, NE, sub(k, U['tail'])):
                        for s4 in self.cases(s3, EQ, sub(k, U['head'])):
                            out.append((s4, 'u', addc(h, -1), old))
                        for s4 in self.cases(s3, NE, sub(k, U['head'])):
                            out.append((s4, '?', None, old))
        return out

    def cases(self, st, k, e):
        s = st.copy()
        return [s] if s.assume(k, e) else []

    def ends(self):
        """len nodes lie between head and tail, cap-len on the free list"""
        U, Q = self.U, self.Q
        self.h1 = self.t1 = None
        for R in Q.cases((GE, addc(U['len'], -1))):
            for s, a, ra, _ in self.now(R.st, U['head']):
                for s2, b, rb, _ in self.now(s, U['tail']):
                    P = R.at(s2)
                    if a != 'u' or b != 'u':
                        P.fail('inv', 'inv:ends', '%s: head or tail is not a stored node' % self.name)
                        continue
                    P.eq('inv', 'inv:count', sub(rb, ra), addc(U['len'], -1), '%s: the count is not the number of nodes from head to tail' % self.name)

    def arbitrary(self):
        U, Q = self.U, self.Q
        k = newsym('k', 0, PTRDIFF)
        cap, ln = U['cap'], U['len']
        for R in Q.cases((GE, addc(sub(cap, k), -1))):
            for s, status, r, old in self.now(R.st, k):
                P = R.at(s)
                if status == '?':
                    P.fail('inv', 'inv:orphan', '%s: a node holds data but is not linked' % self.name)
                elif status == 'u':
                    for s2, a, ra, _ in (self.now(s, U['head']) if s.ge(addc(ln, -1), ZERO) else []):
                        if a == 'u':
                            self.used(P.at(s2), s2, k, r, ra)
                    if not s.ge(addc(ln, -1), ZERO):
                        P.fail('inv', 'inv:lost', '%s: a node holds data although the deque is empty' % self.name)
                    if old == 'u':
                        for s2, v in self.rd(s.copy(), 'datum', k):
                            for s3, w in self.cx.get(s2, self.d.datum, scale(k, 8), TP, P.e.mem[self.d.datum].content):
                                if v != w or s3.mem[v[1]].live != 1 or isinstance(s3.mem[v[1]].content, Entry):
                                    P.at(s3).fail('content', 'data', '%s: the data of a kept node changed' % self.name)
                else:
                    self.free(P, s, k, r)

    def used(self, P, s, k, r, rh):
        U, nm = self.U, self.name
        rt = add(rh, addc(U['len'], -1))
        P.prove('inv', 'inv:order-lo', sub(r, rh), '%s: a stored node lies before the head' % nm)
        P.prove('inv', 'inv:order-hi', sub(rt, r), '%s: a stored node lies behind the tail' % nm)
        for f, end, bk, dr in (('prevs', 'head', 'nexts', -1), ('nexts', 'tail', 'prevs', 1)):
            for s1, v in self.rd(s.copy(), f, k):
                v = self.eng.toU(s1, v)
                for s2 in self.cases(s1, EQ, sub(k, U[end])):
                    P.at(s2).eq('inv', 'inv:end-' + f, v, K(M64), '%s: the %s has a neighbour beyond it' % (nm, end))
                for s2 in self.cases(s1, NE, sub(k, U[end])):
                    Q = P.at(s2)
                    Q.prove('inv', 'inv:only-' + end, addc(sub(r, rh), -1) if end == 'head' else addc(sub(rt, r), -1), '%s: another node ranks as %s' % (nm, end))
                    if not Q.prove('inv', 'inv:link-' + f, addc(sub(U['cap'], v), -1), '%s: a stored node has no %s neighbour' % (nm, 'following' if dr > 0 else 'preceding')):
                        continue
                    for s3, a, ra, _ in self.now(s2, v):
                        Q = P.at(s3)
                        if a != 'u':
                            Q.fail('inv', 'inv:link-free-' + f, '%s: a stored node is linked to a free one' % nm)
                            continue
                        Q.eq('inv', 'inv:link-order-' + f, ra, addc(r, dr), '%s: the order of the nodes is broken' % nm)
                        for s4, b in self.rd(s3.copy(), bk, v):
                            P.at(s4).eq('inv', 'inv:link-back-' + f, self.eng.toU(s4, b), k, '%s: two neighbours do not name each other' % nm)

    def free(self, P, s, k, q):
        U, nm = self.U, self.name
        F = sub(U['cap'], U['len'])
        P.prove('inv', 'inv:free-hi', sub(F, q), '%s: more free nodes than cap - len' % nm)
        for s1 in self.cases(s, NE, sub(k, U['freed'])):
            P.at(s1).prove('inv', 'inv:free-top', addc(sub(F, q), -1), '%s: a free node is not on the free list' % nm)
        for s1 in self.cases(s, EQ, sub(k, U['freed'])):
            P.at(s1).eq('inv', 'inv:free-count', q, F, '%s: the free list does not hold cap - len nodes' % nm)
        for s1, v in self.rd(s.copy(), 'prevs', k):
            v = self.eng.toU(s1, v)
            for s2 in self.cases(s1, EQ, addc(q, -1)):
                P.at(s2).eq('inv', 'inv:free-end', v, K(M64), '%s: the free list does not end' % nm)
            for s2 in self.cases(s1, GE, addc(q, -2)):
                Q = P.at(s2)
                if not Q.prove('inv', 'inv:free-link', addc(sub(U['cap'], v), -1), '%s: the free list loses nodes' % nm):
                    continue
                for s3, a, qa, _ in self.now(s2, v):
                    Q = P.at(s3)
                    if a != 'f':
                        Q.fail('inv', 'inv:free-used', '%s: a stored node is on the free list' % nm)
                        continue
                    Q.eq('inv', 'inv:free-order', qa, addc(q, -1), '%s: the free list is broken' % nm)
        k2 = newsym('k2', 0, PTRDIFF)
        s1 = s.copy()
        if s1.assume(GE, addc(sub(U['cap'], k2), -1)) and s1.assume(NE, sub(k2, k)):
            for s2, a, q2, _ in self.now(s1, k2):
                if a == 'f':
                    P.at(s2).prove('inv', 'inv:free-twice', sub(q, q2), '%s: the free list branches' % nm, NE)


DEQ = DequeShape()


def roles(cx, st, name, ty, fn, opts):
    d = cx.ghost('datasize', 1, PTRDIFF)
    if ty == 'struct HarbolDeque*':
        return [(s, VP(o.rid), o) for s, o in DEQ.new(cx, st, name, opts.get('mode', 'mut'))]
    if ty == 'struct HarbolDeque const*':
        return [(s, VP(o.rid), o) for s, o in DEQ.new(cx, st, name, 'const')]
    if ty in ('struct HarbolDeque**', 'struct HarbolDeque* const*'):
        return ref_role(cx, st, name, DEQ, 'mut')
    if name == 'datasize':
        return [(st, ('i', 64, d, 'u'), None)]
    if ty == 'void const*':
        rid = cx.region(st, 'param', d, Base('opaque'), name=name, const=True)
        return [(st, VP(rid), None)]
    if ty == 'void*':
        rid = cx.region(st, 'param', d, Base('opaque'), name=name)
        return [(st, VP(rid), None)]
    if ty == '_Bool*':
        rid = cx.region(st, 'param', K(1), Base('uninit'), name=name)
        return [(st, VP(rid), Obj(name, None, rid, ZERO, 'res'))]
    if name == 'init_size':
        return [(st, u64('init_size', 0, M64), None)]
    return scalar(cx, st, name, ty)


SPECS = {}
MODULE = 'deque'


def spec(name, **kw):
    V = dict(SOFT=100, MAXSTATES=200, MAXRET=200)
    kw['variants'] = [dict(V, **v) for v in kw.get('variants') or [{}]]
    SPECS['harbol_deque_' + name] = dict(roles=roles, **kw)


def A(P, i):
    return P.eng.toU(P.st, P.args[i])


def entry(P):
    return DEQ.d0(P.cx, P.st)


def data0(P, st, i):
    """the data pointer of entry node i"""
    d = entry(P)
    return P.cx.get(st.copy(), d.datum, scale(i, 8), TP, P.e.mem[d.datum].content)


def p_new(P):
    if P.ok:
        P.cx.opts = dict(P.cx.opts, plain=True)
        DEQ.check(P.cx, P, P.st, P.ret[1], P.ret[2], 'result')


def p_make(P):
    o = P.objs['res']
    for s, v in P.cx.get(P.st.copy(), o.rid, ZERO, {'k': 'i', 'b': 8}):
        if v[0] == 'undef':
            P.at(s).fail('status', 'res', 'does not report whether it succeeded')
            continue
        P.cx.opts = dict(P.cx.opts, plain=True)
        for Q in P.at(s).cases((GE, addc(P.eng.toU(s, v), -1))):
            DEQ.check(P.cx, Q, Q.st, P.sret, ZERO, 'result')


def p_empty_now(P):
    P.eq('count', 'len', P.f1('deque', 'len'), ZERO, 'must leave no nodes')


def p_init(P):
    if P.ok:
        P.eq('count', 'len', P.f1('deque', 'len'), ZERO, 'a new deque must hold no nodes')
        P.eq('count', 'cap', P.f1('deque', 'cap'), A(P, 1), 'a new deque must have the capacity asked for')


def p_clear(P):
    p_empty_now(P)
    P.eq('count', 'cap', P.f1('deque', 'cap'), ZERO, 'clearing must leave no capacity')


def p_free(P):
    o = [x for x in P.objs.values()][0]
    for s, v in P.cx.get(P.st.copy(), o.rid, o.off, TP):
        if v != NULLP:
            P.at(s).fail('inv', 'freed', 'freeing must reset the caller\'s pointer')


def p_add(end):
    def post(P):
        if not P.ok:
            return
        d = entry(P)
        l0 = d.len if d is not None else ZERO
        P.eq('count', 'len+1', P.f1('deque', 'len'), addc(l0, 1), 'adding must raise the count by one')
        P.eq('retval', 'index', P.retu(), P.f1('deque', end), 'the node returned is not the new %s' % end)
        t = P.f1('deque', 'datum')
        other = 'head' if end == 'tail' else 'tail'
        if d is not None and d.head is not None:
            P.eq('content', 'other', P.f1('deque', other), d.head if other == 'head' else d.tail, 'the other end of the deque changed')
        for s, v in P.cx.get(P.st.copy(), t[1], scale(P.retu(), 8), TP):
            if v[0] != 'p' or v[1] <= 0 or s.mem[v[1]].live != 1:
                P.at(s).fail('content', 'stored', 'the new node holds no data')
                continue
            P.at(s).same_bytes('content', 'value', v, ZERO, P.args[1][1], ZERO, P.cx.g['datasize'], 'the data stored is not that given')
    return post


def p_pop(end):
    def post(P):
        d = entry(P)
        n = d.len if d is not None else ZERO
        if not P.ok:
            P.eq('status', 'refuse', n, ZERO, 'refuses to pop from a deque that holds nodes')
            return
        if not P.prove('status', 'accept', addc(n, -1), 'pops from an empty deque'):
            return
        P.eq('count', 'len-1', P.f1('deque', 'len'), addc(n, -1), 'popping must lower the count by one')
        e = d.head if end == 'head' else d.tail
        other = 'tail' if end == 'head' else 'head'
        for Q in P.cases((GE, addc(n, -2))):
            Q.eq('content', 'other', Q.f1('deque', other), d.tail if end == 'head' else d.head, 'the other end of the deque changed')
        for s, v in P.cx.get(P.st.copy(), P.f1('deque', 'datum')[1], scale(e, 8), TP):
            if v != NULLP:
                P.at(s).fail('content', 'popped', 'the popped node keeps its data')
        for s, v in data0(P, P.st, e):
            if v[1] > 0:
                P.at(s).same_bytes('content', 'value', P.args[1], ZERO, v[1], ZERO, P.cx.g['datasize'], 'the data handed out is not that of the node popped')
    return post


def p_get(f):
    def post(P):
        P.eq('retval', f, P.retu(), P.f0('deque', f), 'does not return the %s' % f)
    return post


def p_isempty(P):
    (s, b), = P.eng.split(P.st, P.ret)[:1]
    for s, b in P.eng.split(P.st, P.ret):
        n = P.f0('deque', 'len')
        Q = P.at(s)
        if b:
            Q.eq('retval', 'empty', n, ZERO, 'reports a deque with nodes as empty')
        else:
            Q.prove('retval', 'nonempty', addc(n, -1), 'reports an empty deque as not empty')


def p_step(arr, up):
    def post(P):
        d = entry(P)
        n = A(P, 1)
        if d is None:
            P.eq('retval', 'range', P.retu(), K(M64), 'returns a node of an empty deque')
            return
        for Q in P.cases((GE, sub(n, d.cap))):
            Q.eq('retval', 'range', P.retu(), K(M64), 'returns a neighbour of a node that does not exist')
        for Q in P.cases((GE, addc(sub(d.cap, n), -1))):
            for s, status, r in node(d, Q.st, n):
                if status == 'u':
                    for s2, v in P.cx.get(s, d.nexts if up else d.prevs, scale(n, 8), T64, d.N if up else d.P):
                        P.at(s2).eq('retval', 'neighbour', P.eng.toU(s2, P.ret), P.eng.toU(s2, v), 'does not return the neighbour of the node')
    return post


def p_data(which):
    def post(P):
        d = entry(P)
        if d is None or which and d.head is None:
            if P.ret != NULLP:
                P.fail('retval', 'none', 'returns data of an empty deque')
            return
        n = d.head if which == 'head' else d.tail if which == 'tail' else A(P, 1)
        for Q in P.cases((GE, sub(n, d.cap))):
            if P.ret != NULLP:
                Q.fail('retval', 'range', 'returns data of a node that does not exist')
        for Q in P.cases((GE, addc(sub(d.cap, n), -1))):
            for s, v in data0(P, Q.st, n):
                if not val_same(P.eng, s, P.ret, v):
                    P.at(s).fail('retval', 'data', 'does not return the data of the node')
    return post


PL = [{'plain': True, 'PEEL': True}]
spec('new', post=p_new, variants=PL)
spec('init', post=p_init, variants=[{'mode': 'out', 'plain': True, 'PEEL': True}])
spec('make', post=p_make, variants=PL)
spec('clear', post=p_clear, variants=PL)
spec('free', post=p_free, variants=PL)
spec('reset', post=p_empty_now, variants=PL)
spec('count', post=p_get('len'))
spec('empty', post=p_isempty, status=status_none)
spec('head', post=p_get('head'))
spec('tail', post=p_get('tail'))
spec('next', post=p_step('nexts', True))
spec('prev', post=p_step('prevs', False))
spec('prepend', post=p_add('head'), status=status_sizemax, variants=[{'PEEL': True}])
spec('append', post=p_add('tail'), status=status_sizemax, variants=[{'PEEL': True}])
spec('pop_front', post=p_pop('head'))
spec('pop_back', post=p_pop('tail'))
spec('get_front', post=p_data('head'), status=status_none)
spec('get_back', post=p_data('tail'), status=status_none)
spec('get_data', post=p_data(None), status=status_none)
