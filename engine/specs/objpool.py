"""Fixed-block pool.  The free list threads through the free blocks (each holds the number of the
next free block).  Ghost status per block: handed out, or free with a rank; the top block has rank
free_blocks, each block of rank q > 1 names a free block of rank q-1, ranks are distinct.  So the
list holds exactly free_blocks different blocks and never one that is handed out."""
from spec import *
from specs.deque import div8

FIELDS = ('mem', 'next', 'size', 'objsize', 'free_blocks')


class Pool0:
    """the pool on entry"""


def recs(st, d):
    return [(o, v) for o, n, v in st.memo.get(d.R.id, ())]


def register(st, d, off, status, rank):
    st.memo[d.R.id] = st.memo.get(d.R.id, ()) + ((off, 8, ('node', status, rank)),)


def block(d, st, off):
    """[(state, status, rank)] of the entry block that starts at byte off"""
    out = []
    for j, v in recs(st, d):
        if st.eq(off, j):
            return [(st, v[1], v[2])]
    rest = st.copy()
    for j, v in recs(st, d):
        s = rest.copy()
        if s.assume(EQ, sub(off, j)):
            out.append((s, v[1], v[2]))
        if not rest.assume(NE, sub(off, j)):
            return out
    s = rest.copy()
    register(s, d, off, 'u', None)
    out.append((s, 'u', None))
    s = rest.copy()
    q = newsym('rank', 1, 1 << 62)
    if s.assume(GE, addc(sub(d.F, q), -1)) and all(s.assume(NE, sub(q, v[2])) for j, v in recs(s, d) if v[1] == 'f'):
        register(s, d, off, 'f', q)
        out.append((s, 'f', q))
    return out


def index_word(eng, d, s, rank):
    """[(state, block number)] held by a free block of that rank"""
    out = []
    s1 = s.copy()
    if s1.assume(EQ, addc(rank, -1)):
        out.append((s1, u64('idx')))
    s = s.copy()
    if not s.assume(GE, addc(rank, -2)):
        return out
    want = addc(rank, -1)
    for j, v in recs(s, d):
        if v[1] == 'f':
            s1 = s.copy()
            if s1.assume(EQ, sub(v[2], want)):
                n = newsym('n', 0, PTRDIFF)
                if s1.assume(EQ, sub(scale(n, d.os), j)):
                    out.append((s1, ('i', 64, n, 'u')))
            if not s.assume(NE, sub(v[2], want)):
                return out
    n = newsym('n', 0, PTRDIFF)
    if s.assume(GE, addc(sub(d.size, n), -1)) and all(s.assume(NE, sub(scale(n, d.os), j)) for j, v in recs(s, d)):
        register(s, d, scale(n, d.os), 'f', want)
        out.append((s, ('i', 64, n, 'u')))
    return out


class PoolShape(Shape):
    struct = 'HarbolObjPool'

    def fill(self, cx, st, rid, off, name, mode):
        os_ = cx.opts['os']
        O = {f: addc(off, cx.p.off(self.struct, f)) for f in FIELDS}

        def zero():
            s = st.copy()
            for f in FIELDS:
                cx.put(s, rid, O[f], 8, VI(64, ZERO))
            s.tags['pool'] = 'none'
            return s
        if mode == 'out':
            return [zero()]
        out = [zero()]
        for full in (True, False):
            s = st.copy()
            d = Pool0()
            d.os = os_
            sv, fv = u64('size', 0, PTRDIFF // os_), u64('free', 0 if full else 1, 0 if full else PTRDIFF // os_)
            d.size, d.F = sv[2], ZERO if full else fv[2]
            s.cons.addrow(GE, sub(d.size, d.F))
            nbytes = scale(d.size, os_)

            def h(eng, st2, b, off2, nb, t, rid2, d=d):
                if nb == 8 and st2.ge(off2, ZERO) and st2.ge(addc(sub(scale(d.size, d.os), off2), -8), ZERO) and aligned(st2, off2, d.os):
                    res = []
                    for s1, status, r in block(d, st2, off2):
                        if status == 'f':
                            for s2, v in index_word(eng, d, s1, r):
                                eng.memo_add(s2, b, off2, 8, v)
                                res.append((s2, v))
                        else:
                            v = eng.unknown(s1, t)
                            eng.memo_add(s1, b, off2, 8, v)
                            res.append((s1, v))
                    return res
                return [(st2, eng.unknown(st2, t))]
            d.R, d.B = Base('opaque'), Base('lazy', handler=h)
            d.mem = cx.region(s, 'heap', nbytes, d.B, name=name + '->mem', of=rid)
            nxt = VI(64, ZERO)
            if not full:
                t = newsym('top', 0, PTRDIFF)
                s.cons.addrow(GE, addc(sub(d.size, t), -1))
                register(s, d, scale(t, os_), 'f', d.F)
                nxt = ('i', 64, cx.eng.ptr_int(s, ('p', d.mem, scale(t, os_))), 'u')
            else:
                # a pool on an empty buffer keeps a next that is never followed
                nxt = u64('next')
            for f, v in (('mem', ('i', 64, cx.eng.ptr_int(s, VP(d.mem)), 'u')), ('next', nxt), ('size', sv), ('objsize', VI(64, K(os_))), ('free_blocks', fv if not full else VI(64, ZERO))):
                cx.put(s, rid, O[f], 8, v)
            s.tags['pool'] = 'full%s' % full
            cx.g.setdefault('pools', {})[s.tags['pool']] = d
            out.append(s)
        return out

    def d0(self, cx, st):
        return cx.g.get('pools', {}).get(st.tags.get('pool'))

    def check(self, cx, P, st, rid, off, name):
        if P.ok is False and P.objs.get(name) is not None and P.objs[name].mode == 'out':
            return
        fs = [(st.copy(), {})]
        for f in FIELDS:
            fs = [(s2, dict(m, **{f: v})) for s, m in fs for s2, v in cx.fld(s, self.struct, f, rid, off)]
        for s, m in fs:
            Q = P.at(s)
            if any(v[0] == 'undef' for v in m.values()):
                Q.fail('inv', 'inv:uninit', '%s is left with uninitialised fields' % name)
                continue
            self.chk(cx, Q, {f: cx.eng.toU(s, v) for f, v in m.items()}, name)

    def chk(self, cx, Q, U, name):
        st, eng = Q.st, cx.eng
        d = self.d0(cx, st)
        if st.eq(U['mem'], ZERO):
            for f in FIELDS:
                Q.eq('inv', 'inv:null-' + f, U[f], ZERO, '%s: no storage but a %s' % (name, f))
            return
        r = mem_region(eng, st, U['mem'])
        if r is None:
            Q.fail('inv', 'inv:mem', '%s: mem is not a live block' % name)
            return
        os_ = U['objsize']
        if os_[1] or os_[0] < 8 or os_[0] % 8:
            Q.fail('inv', 'inv:objsize', '%s: blocks cannot hold an aligned list index' % name)
            return
        os_ = os_[0]
        if not Q.prove('inv', 'inv:size', sub(st.mem[r].size, scale(U['size'], os_)), '%s: more blocks than the storage holds' % name):
            return
        if not Q.prove('inv', 'inv:free', sub(U['size'], U['free_blocks']), '%s: more free blocks than blocks' % name):
            return
        c = PCheck(cx, Q, d, r, os_, U, name)
        for R in Q.cases((GE, addc(U['free_blocks'], -1))):
            k = sub(U['next'], U['mem'])
            if not R.st.ge(k, ZERO) or not R.st.ge(sub(scale(U['size'], os_), addc(k, os_)), ZERO) or not aligned(R.st, k, os_):
                R.fail('inv', 'inv:top', '%s: next is not a block although blocks are free' % name)
                continue
            for s, status, q in c.now(R.st, k):
                if status != 'f':
                    R.at(s).fail('inv', 'inv:top-used', '%s: the next block is one that is handed out' % name)
                else:
                    R.at(s).eq('inv', 'inv:count', q, U['free_blocks'], '%s: the number of free blocks is wrong' % name)
        b = newsym('b', 0, PTRDIFF)
        for R in Q.cases((GE, addc(sub(U['size'], b), -1))):
            for s, status, q in c.now(R.st, scale(b, os_)):
                if status == 'f':
                    c.free(R.at(s), s, scale(b, os_), q)

    def logical_same(self, cx, P, o):
        return False


def mem_region(eng, st, e):
    for r, reg in st.mem.items():
        if r > 0 and reg.live == 1 and st.eq(e, eng.ptr_int(st, VP(r))):
            return r
    return None


def aligned(st, off, n):
    """off is provably a multiple of n"""
    if off[0] % n == 0 and all(c % n == 0 for _, c in off[1]):
        return True
    q = newsym('q', -(1 << 62), 1 << 62)
    r = newsym('r', 1, n - 1)
    if n == 1:
        return True
    s = st.copy()
    return not (s.assume(EQ, sub(off, add(scale(q, n), r))))


class PCheck:
    def __init__(self, cx, Q, d, r, os_, U, name):
        self.cx, self.Q, self.d, self.r, self.os, self.U, self.name = cx, Q, d, r, os_, U, name
        self.kind = cx.opts.get('pool')

    def now(self, st, off):
        """[(state, status, rank)] of the block at byte off at the return"""
        d, P, cx = self.d, self.Q, self.cx
        if d is None or self.kind == 'init':
            # a new pool: block i is i-th in line
            q = newsym('blk', 0, PTRDIFF)
            s = st.copy()
            return [(s, 'f', sub(self.U['size'], q))] if s.assume(EQ, sub(scale(q, self.os), off)) else []
        out = []
        for s, a, q in block(d, st.copy(), off):
            if self.kind == 'alloc' and P.ret is not None and P.ret[0] == 'p' and P.ret[1] == self.r:
                s1 = s.copy()
                if s1.assume(EQ, sub(P.ret[2], off)):
                    out.append((s1, 'u', None))
                if s.assume(NE, sub(P.ret[2], off)):
                    out.append((s, a, q))
            elif self.kind == 'free' and cx.g['freed'].get(s.tags.get('free')) is not None:
                f = cx.g['freed'][s.tags['free']]
                s1 = s.copy()
                if s1.assume(EQ, sub(f, off)):
                    out.append((s1, 'f', addc(d.F, 1)))
                if s.assume(NE, sub(f, off)):
                    out.append((s, a, q))
            else:
                out.append((s, a, q))
        return out

    def free(self, P, s, off, q):
        U, nm, cx = self.U, self.name, self.cx
        P.prove('inv', 'inv:free-hi', sub(U['free_blocks'], q), '%s: more free blocks than counted' % nm)
        for s1 in self.cases(s, NE, sub(add(U['mem'], off), U['next'])):
            P.at(s1).prove('inv', 'inv:free-top', addc(sub(U['free_blocks'], q), -1), '%s: a free block is not on the free list' % nm)
        for s1 in self.cases(s, GE, addc(q, -2)):
            for s2, v in cx.get(s1, self.r, off, T64):
                Q = P.at(s2)
                if v[0] != 'i' or not Q.prove('inv', 'inv:free-link', addc(sub(U['size'], cx.eng.toU(s2, v)), -1), '%s: the free list leaves the pool' % nm):
                    continue
                for s3, a, qa in self.now(s2, scale(cx.eng.toU(s2, v), self.os)):
                    Q = P.at(s3)
                    if a != 'f':
                        Q.fail('inv', 'inv:free-used', '%s: a block that is handed out is on the free list' % nm)
                    else:
                        Q.eq('inv', 'inv:free-order', qa, addc(q, -1), '%s: the free list is broken' % nm)

    def cases(self, st, k, e):
        s = st.copy()
        return [s] if s.assume(k, e) else []


POOL = PoolShape()


def roles(cx, st, name, ty, fn, opts):
    os_ = opts['os']
    if ty == 'struct HarbolObjPool*':
        return [(s, VP(o.rid), o) for s, o in POOL.new(cx, st, name, opts.get('mode', 'mut'))]
    if name == 'objsize':
        return [(st, VI(64, K(opts.get('objsize', os_))), None)]
    if name == 'len':
        if 'buffer' in fn.base:
            return [(st, ('i', 64, cx.ghost('buflen', 0, PTRDIFF // os_), 'u'), None)]
        return [(st, u64('len'), None)]
    if name == 'buf':
        rid = cx.region(st, 'param', scale(cx.ghost('buflen', 0, PTRDIFF // os_), os_), Base('opaque'), name=name)
        return [(st, VP(rid), None)]
    if ty == '_Bool*':
        rid = cx.region(st, 'param', K(1), Base('uninit'), name=name)
        return [(st, VP(rid), Obj(name, None, rid, ZERO, 'res'))]
    if ty == 'void*':
        return [(s, v, None) for s, v in pointers(cx, st)]
    if ty in ('void**', 'void* const*'):
        out = []
        for s, v in pointers(cx, st):
            rid = cx.region(s, 'param', K(8), Base('opaque'), name=name)
            cx.put(s, rid, 0, 8, v)
            out.append((s, VP(rid), None))
        return out
    return scalar(cx, st, name, ty)


def pointers(cx, st):
    """what a caller may hand back: NULL, memory of its own, a block it was given (not yet freed),
    an address inside a block, an address next to the pool"""
    fr = cx.g.setdefault('freed', {})
    s = st.copy()
    s.tags['free'] = 'null'
    out = [(s, NULLP)]
    s = st.copy()
    s.tags['free'] = 'foreign'
    rid = cx.region(s, 'heap', cx.ghost('flen', 1, PTRDIFF), Base('opaque'), name='foreign', noleak=True)
    d = POOL.d0(cx, st)
    if d is None:
        out.append((s, VP(rid)))
    else:
        # two blocks of memory do not overlap
        a, b = cx.eng.addr(s, rid), cx.eng.addr(s, d.mem)
        for e in (sub(sub(b, a), cx.ghost('flen')), sub(sub(a, b), scale(d.size, d.os))):
            s2 = s.copy()
            if s2.assume(GE, e) and s2.assume(NE, sub(a, b)):
                out.append((s2, VP(rid)))
    d = POOL.d0(cx, st)
    if d is None:
        return out
    s = st.copy()
    b = newsym('blk', 0, PTRDIFF)
    if s.assume(GE, addc(sub(d.size, b), -1)):
        off = scale(b, d.os)
        for s2, a, q in block(d, s, off):
            # F blocks are free and this one is not
            if a == 'u' and s2.assume(GE, addc(sub(d.size, d.F), -1)):
                s2.tags['free'] = 'block' + s2.tags['pool']
                fr[s2.tags['free']] = off
                out.append((s2, ('p', d.mem, off)))
    s = st.copy()
    b, r = newsym('blk', 0, PTRDIFF), newsym('in', 1, d.os - 1)
    if s.assume(GE, addc(sub(d.size, b), -1)):
        s.tags['free'] = 'inside'
        out.append((s, ('p', d.mem, add(scale(b, d.os), r))))
    s = st.copy()
    s.tags['free'] = 'end'
    out.append((s, ('p', d.mem, scale(d.size, d.os))))
    return out


SPECS = {}
MODULE = 'objpool'


def spec(name, pool=None, sizes=(8, 24), **kw):
    kw['variants'] = [dict(v, os=o, pool=pool) for o in sizes for v in kw.get('variants') or [{}]]
    SPECS['harbol_objpool_' + name] = dict(roles=roles, **kw)


def A(P, i):
    return P.eng.toU(P.st, P.args[i])


def made(P, get):
    P.eq('count', 'size', get('size'), A(P, 2 + P.shift), 'the pool does not have the number of blocks asked for')
    P.eq('count', 'free', get('free_blocks'), A(P, 2 + P.shift), 'not every block of a new pool is free')
    P.prove('count', 'objsize', sub(get('objsize'), A(P, 1 + P.shift)), 'the blocks are smaller than asked for')


def p_init(shift):
    def post(P):
        P.shift = shift
        if P.ok:
            made(P, lambda f: P.f1('objpool', f))
    return post


def p_make(shift):
    def post(P):
        POOL.check(P.cx, P, P.st, P.sret, ZERO, 'result')
        for s, v in P.cx.get(P.st.copy(), P.objs['res'].rid, ZERO, {'k': 'i', 'b': 8}):
            if v[0] == 'undef':
                P.at(s).fail('status', 'res', 'does not report whether it succeeded')
                continue
            for Q in P.at(s).cases((GE, addc(P.eng.toU(s, v), -1))):
                Q.shift = shift
                made(Q, lambda f: P.eng.toU(Q.st, P.cx.fld(Q.st.copy(), POOL.struct, f, P.sret, ZERO)[0][1]))
    return post


def p_alloc(P):
    F0, os_ = P.f0('objpool', 'free_blocks'), P.cx.opts['os']
    d = POOL.d0(P.cx, P.st)
    if not P.ok:
        P.eq('status', 'refuse', F0, ZERO, 'refuses although blocks are free')
        return
    if d is None or P.ret[1] != d.mem:
        P.fail('retval', 'outside', 'the block is not part of the pool')
        return
    P.prove('retval', 'lo', P.ret[2], 'the block lies before the pool')
    P.prove('retval', 'hi', sub(scale(d.size, os_), addc(P.ret[2], os_)), 'the block lies behind the pool')
    if not aligned(P.st, P.ret[2], os_):
        P.fail('retval', 'align', 'the block does not start at a block boundary')
        return
    for s, a, q in block(d, P.st.copy(), P.ret[2]):
        if a != 'f':
            P.at(s).fail('retval', 'used', 'a block that is handed out is handed out again')
    P.eq('count', 'free', P.f1('objpool', 'free_blocks'), addc(F0, -1), 'the number of free blocks does not drop by one')
    P.zero_bytes('content', 'zero', P.ret, ZERO, K(os_), 'the block handed out is not zeroed')


def p_free(P):
    kind = P.st.tags.get('free', '')
    F0, F1 = P.f0('objpool', 'free_blocks'), P.f1('objpool', 'free_blocks')
    if kind.startswith('block'):
        P.eq('count', 'free', F1, addc(F0, 1), 'a block given back is not counted as free')
    else:
        P.eq('count', 'ignore', F1, F0, 'a pointer that is not a block changes the pool')
        P.eq('count', 'ignore-next', P.f1('objpool', 'next'), P.f0('objpool', 'next'), 'a pointer that is not a block changes the pool')
    if P.args[1][0] == 'p' and P.entry.fn.base.endswith('cleanup'):
        for s, v in P.cx.get(P.st.copy(), P.args[1][1], P.args[1][2], TP):
            if v != NULLP:
                P.at(s).fail('retval', 'null', "the caller's pointer is not reset")


def p_clear(P):
    P.eq('inv', 'cleared', P.f1('objpool', 'mem'), ZERO, 'clearing must drop the memory')


ODD = [{'objsize': n} for n in (0, 1, 7)]
spec('init', pool='init', post=p_init(0), variants=[{'mode': 'out'}, {'mode': 'out', 'objsize': 5}, {'mode': 'out', 'objsize': 0}, {'mode': 'out', 'objsize': M64}])
spec('make', pool='init', post=p_make(0), variants=[{}, {'objsize': 5}])
spec('init_from_buffer', pool='init', post=p_init(1), variants=[{'mode': 'out'}])
spec('from_buffer', pool='init', post=p_make(1))
spec('clear', pool='init', post=p_clear)
spec('alloc', pool='alloc', post=p_alloc)
spec('free', pool='free', post=p_free, status=status_none)
spec('cleanup', pool='free', post=p_free, status=status_none)
