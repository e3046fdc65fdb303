"""Region (bump) allocator and double-ended stack: margins stay inside the storage, each block
handed out lies in the part that was free before and is taken out of it, refusals change nothing."""
from spec import *
from specs.tuple import heap_block


class ArenaShape(Shape):
    """mem NULL and everything 0, or margins in order inside one block of at least size bytes"""

    def __init__(self, struct, lo, hi):
        self.struct, self.lo, self.hi = struct, lo, hi

    def fill(self, cx, st, rid, off, name, mode):
        S = self.struct
        fs = ['mem', 'size'] + ([self.lo] if self.lo else []) + [self.hi]
        O = {f: addc(off, cx.p.off(S, f)) for f in fs}

        def zero(s):
            for f in fs:
                cx.put(s, rid, O[f], 8, NULLP if f == 'mem' else VI(64, ZERO))
        s0 = st.copy()
        zero(s0)
        if mode == 'out':
            return [s0]
        s = st.copy()
        size = u64('size', 1, PTRDIFF)
        hi = u64(self.hi, 0, PTRDIFF)
        s.cons.addrow(GE, sub(size[2], hi[2]))
        cx.put(s, rid, O['mem'], 8, VP(cx.region(s, 'heap', size[2], Base('opaque'), name=name + '->mem', of=rid)))
        cx.put(s, rid, O['size'], 8, size)
        cx.put(s, rid, O[self.hi], 8, hi)
        if self.lo:
            lo = u64(self.lo, 0, PTRDIFF)
            s.cons.addrow(GE, sub(hi[2], lo[2]))
            cx.put(s, rid, O[self.lo], 8, lo)
        return [s0, s]

    def check(self, cx, P, st, rid, off, name):
        if P.ok is False and P.objs.get(name) is not None and P.objs[name].mode == 'out':
            return
        fs = [(st.copy(), {})]
        for f in ('mem', 'size', self.hi) + ((self.lo,) if self.lo else ()):
            fs = [(s2, dict(m, **{f: v})) for s, m in fs for s2, v in cx.fld(s, self.struct, f, rid, off)]
        for s, m in fs:
            Q = P.at(s)
            if any(v[0] == 'undef' for v in m.values()):
                Q.fail('inv', 'inv:uninit', '%s is left with uninitialised fields' % name)
                continue
            U = {f: cx.eng.toU(s, v) for f, v in m.items() if f != 'mem'}
            if m['mem'] == NULLP:
                Q.eq('inv', 'inv:null', U['size'], ZERO, '%s: no storage but a size' % name)
            elif not self.backed(s, m['mem']):
                Q.fail('inv', 'inv:mem', '%s: mem is not a live block' % name)
                continue
            else:
                Q.prove('inv', 'inv:size', sub(s.mem[m['mem'][1]].size, U['size']), '%s: the size exceeds the storage' % name)
            Q.prove('inv', 'inv:hi', sub(U['size'], U[self.hi]), '%s: the upper margin lies outside the storage' % name)
            if self.lo:
                Q.prove('inv', 'inv:order', sub(U[self.hi], U[self.lo]), '%s: the margins cross' % name)

    def backed(self, s, v):
        return v[0] == 'p' and v[1] > 0 and s.mem[v[1]].live == 1 and s.eq(v[2], ZERO)


BI = ArenaShape('HarbolBiStack', 'front', 'back')
RE = ArenaShape('HarbolRegion', None, 'offs')


def roles(cx, st, name, ty, fn, opts):
    for sh in (BI, RE):
        if ty == 'struct %s*' % sh.struct:
            return [(s, VP(o.rid), o) for s, o in sh.new(cx, st, name, opts.get('mode', 'mut'))]
        if ty in ('struct %s const*' % sh.struct, 'struct %s' % sh.struct):
            return [(s, VP(o.rid), o) for s, o in sh.new(cx, st, name, 'const')]
    if ty == 'void*':
        # a buffer of the size given with it
        rid = cx.region(st, 'param', cx.ghost('buflen', 0, PTRDIFF), Base('opaque'), name=name)
        return [(st, VP(rid), None)]
    if ty == '_Bool*':
        rid = cx.region(st, 'param', K(1), Base('uninit'), name=name)
        return [(st, VP(rid), Obj(name, None, rid, ZERO, 'res'))]
    if 'from_buffer' in fn.base:
        return [(st, ('i', 64, cx.ghost('buflen', 0, PTRDIFF), 'u'), None)]
    return [(st, u64(name), None)]


SPECS = {}
MODULE = 'arena'


def spec(name, **kw):
    SPECS['harbol_' + name] = dict(roles=roles, **kw)


def A(P, i):
    return P.eng.toU(P.st, P.args[i])


def obj(P):
    return [o for o in P.objs.values() if o.shape is not None][0]


def sfield(P, sh, f):
    (s, v), = P.cx.fld(P.st.copy(), sh.struct, f, P.sret, ZERO)[:1]
    return P.eng.toU(P.st, v) if v[0] == 'i' else v


def fresh_margins(P, sh, get, n):
    P.eq('count', 'size', get('size'), n, 'the arena does not have the size asked for')
    P.eq('count', 'hi', get(sh.hi), n, 'a new arena must be empty')
    if sh.lo:
        P.eq('count', 'lo', get(sh.lo), ZERO, 'a new arena must be empty')


def p_bi_init(P):
    if P.ok:
        fresh_margins(P, BI, lambda f: P.f1('bistk', f), A(P, 1))
        P.zero_bytes('content', 'zero', P.f1('bistk', 'mem'), ZERO, A(P, 1), 'new memory is not zeroed')
    else:
        P.at(P.st)


def p_bi_make(P):
    BI.check(P.cx, P, P.st, P.sret, ZERO, 'result')
    o = P.objs['res']
    for s, v in P.cx.get(P.st.copy(), o.rid, ZERO, {'k': 'i', 'b': 8}):
        if v[0] == 'undef':
            P.at(s).fail('status', 'res', 'does not report whether it succeeded')
            continue
        for Q in P.at(s).cases((GE, addc(P.eng.toU(s, v), -1))):
            Q.sret = P.sret
            fresh_margins(Q, BI, lambda f: sfield(Q, BI, f), A(P, 1))
        for Q in P.at(s).cases((EQ, P.eng.toU(s, v))):
            Q.sret = P.sret
            if sfield(Q, BI, 'mem') != NULLP:
                Q.fail('status', 'res-false', 'reports failure but holds memory')


def p_from_buffer(sh):
    def post(P):
        sh.check(P.cx, P, P.st, P.sret, ZERO, 'result')
        n = P.cx.ghost('buflen')
        for Q in P.cases((GE, addc(n, -1))):
            Q.sret = P.sret
            fresh_margins(Q, sh, lambda f: sfield(Q, sh, f), n)
            v = sfield(Q, sh, 'mem')
            b = [a for a in P.args if a[0] == 'p' and a[1] > 0 and a[1] != P.sret][0]
            if v != b:
                Q.fail('retval', 'buffer', 'does not use the buffer given')
    return post


def p_re_make(P):
    RE.check(P.cx, P, P.st, P.sret, ZERO, 'result')
    if sfield(P, RE, 'mem') != NULLP:
        fresh_margins(P, RE, lambda f: sfield(P, RE, f), A(P, 1))
        P.zero_bytes('content', 'zero', sfield(P, RE, 'mem'), ZERO, A(P, 1), 'new memory is not zeroed')


def p_alloc(sh, end):
    """end: 'lo' or 'hi' margin the block is cut from"""
    def post(P):
        n = obj(P).name
        hi0 = P.f0(n, sh.hi)
        lo0 = P.f0(n, sh.lo) if sh.lo else ZERO
        size = A(P, 1)
        room = sub(hi0, lo0)
        if not P.ok:
            if P.f0(n, 'mem') != NULLP and not zero_only(P, size):
                # granting may need up to a word more than asked for, and a request for nothing may be refused
                P.prove('status', 'refuse', addc(sub(size, room), 8), 'refuses a request although there is room')
            return
        hi1 = P.f1(n, sh.hi)
        lo1 = P.f1(n, sh.lo) if sh.lo else ZERO
        r = P.ret
        m = P.f1(n, 'mem')
        if r[1] != m[1]:
            P.fail('retval', 'outside', 'the block is not part of the arena')
            return
        a, b = r[2], add(r[2], size)
        if end == 'lo':
            P.eq('count', 'other', hi1, hi0, 'the other margin moved')
            P.prove('retval', 'below', sub(a, lo0), 'the block overlaps memory handed out before')
            P.prove('retval', 'taken', sub(lo1, b), 'the block is not taken out of the free part')
            P.prove('retval', 'grow', sub(lo1, lo0), 'the margin moved backwards')
        else:
            P.eq('count', 'other', lo1, lo0, 'the other margin moved')
            P.prove('retval', 'above', sub(hi0, b), 'the block overlaps memory handed out before')
            P.prove('retval', 'taken', sub(a, hi1), 'the block is not taken out of the free part')
            P.prove('retval', 'grow', sub(hi0, hi1), 'the margin moved backwards')
        if sh is RE:
            P.zero_bytes('content', 'zero', r, ZERO, size, 'the block handed out is not zeroed')
    return post


def zero_only(P, size):
    return P.st.eq(size, ZERO)


def p_reset(front, back):
    def post(P):
        n = obj(P).name
        if P.f0(n, 'mem') == NULLP:
            return
        P.eq('count', 'front', P.f1(n, 'front'), ZERO if front else P.f0(n, 'front'), 'the front margin is not as promised')
        P.eq('count', 'back', P.f1(n, 'back'), P.f0(n, 'size') if back else P.f0(n, 'back'), 'the back margin is not as promised')
        P.eq('count', 'size', P.f1(n, 'size'), P.f0(n, 'size'), 'the size changed')
    return post


def p_clear(P):
    o = obj(P)
    if P.f1(o.name, 'mem') != NULLP:
        P.fail('inv', 'cleared', 'clearing must drop the memory')
    P.eq('count', 'cleared', P.f1(o.name, 'size'), ZERO, 'clearing must leave no room')


def p_margins(P):
    P.eq('retval', 'margins', P.retu(), sub(P.f0('bistk', 'back'), P.f0('bistk', 'front')), 'does not return the room left')


def p_resize(P):
    if P.ok:
        fresh_margins(P, BI, lambda f: P.f1('bistk', f), A(P, 1))


def p_remaining(P):
    o = obj(P)
    P.eq('retval', 'remaining', P.retu(), P.f0(o.name, 'offs'), 'does not return the room left')


spec('bistack_init', post=p_bi_init, why=lambda P: [(EQ, A(P, 1))], variants=[{'mode': 'out'}])
spec('bistack_make', post=p_bi_make)
spec('bistack_make_from_buffer', post=p_from_buffer(BI))
spec('bistack_clear', post=p_clear)
spec('bistack_alloc_front', why=[True], post=p_alloc(BI, 'lo'))
spec('bistack_alloc_back', why=[True], post=p_alloc(BI, 'hi'))
spec('bistack_reset_front', post=p_reset(True, False))
spec('bistack_reset_back', post=p_reset(False, True))
spec('bistack_reset_all', post=p_reset(True, True))
spec('bistack_get_margins', post=p_margins, status=status_none)
spec('bistack_resize', why=lambda P: [(EQ, A(P, 1))], post=p_resize)
spec('region_make', post=p_re_make)
spec('region_make_from_buffer', post=p_from_buffer(RE))
spec('region_clear', post=p_clear)
spec('region_alloc', why=[True], post=p_alloc(RE, 'hi'))
spec('region_remaining', post=p_remaining, status=status_none)


# ------------------------------------------------------------------ the heap built on a region
# Its free lists live inside the memory they manage; only the functions that do not walk them are
# analysed here.
class MemPoolShape(Shape):
    struct = 'HarbolMemPool'

    def fill(self, cx, st, rid, off, name, mode):
        o = cx.p.off(self.struct, 'stack')
        for i in range(0, o, 8):
            cx.put(st, rid, addc(off, i), 8, VI(64, ZERO) if mode == 'out' else ('i', 64, newsym('l', 0, M64), 'u'))
        return RE.fill(cx, st, rid, addc(off, o), name + '->stack', mode)

    def check(self, cx, P, st, rid, off, name):
        if P.ok is False and P.objs.get(name) is not None and P.objs[name].mode == 'out':
            return
        RE.check(cx, P, st, rid, addc(off, cx.p.off(self.struct, 'stack')), name + '->stack')


MP = MemPoolShape()


def mp_roles(cx, st, name, ty, fn, opts):
    if ty == 'struct HarbolMemPool*':
        return [(s, VP(o.rid), o) for s, o in MP.new(cx, st, name, opts.get('mode', 'mut'))]
    return roles(cx, st, name, ty, fn, opts)


def mp_stack(P, rid, off):
    return lambda f: (lambda v: P.eng.toU(P.st, v) if v[0] == 'i' else v)(P.cx.fld(P.st.copy(), RE.struct, f, rid, addc(off, P.cx.p.off('HarbolMemPool', 'stack')))[0][1])


def p_mp(n):
    """a pool reported as made has all the memory asked for"""
    def post(P):
        if P.sret is not None:
            MP.check(P.cx, P, P.st, P.sret, ZERO, 'result')
            out = []
            for s, v in P.cx.get(P.st.copy(), P.objs['res'].rid, ZERO, {'k': 'i', 'b': 8}):
                if v[0] == 'undef':
                    P.at(s).fail('status', 'res', 'does not report whether it succeeded')
                else:
                    out += P.at(s).cases((GE, addc(P.eng.toU(s, v), -1)))
            rid = P.sret
        else:
            out, rid = [P] if P.ok else [], P.args[0][1]
        for Q in out:
            get = mp_stack(Q, rid, ZERO)
            if get('mem') == NULLP:
                Q.fail('status', 'made', 'reports success without memory')
            else:
                fresh_margins(Q, RE, get, A(Q, n))
    return post


def p_mp_clear(P):
    if mp_stack(P, P.args[0][1], ZERO)('mem') != NULLP:
        P.fail('inv', 'cleared', 'clearing must drop the memory')
    for o in range(0, P.cx.p.size('HarbolMemPool'), 8):
        for s, v in P.cx.get(P.st.copy(), P.args[0][1], o, T64):
            if v[0] == 'undef' or not s.eq(P.eng.toU(s, v), ZERO):
                P.at(s).fail('inv', 'lists', 'clearing must drop every list')
                return


for _n, _kw in {'init': dict(post=p_mp(1), why=lambda P: [(EQ, A(P, 1))], variants=[{'mode': 'out'}]), 'make': dict(post=p_mp(1)),
                'init_from_buffer': dict(post=p_mp(2), why=lambda P: [(GE, sub(K(P.cx.p.size('HarbolMemNode')), A(P, 2)))], variants=[{'mode': 'out'}]), 'make_from_buffer': dict(post=p_mp(2)),
                'clear': dict(post=p_mp_clear)}.items():
    SPECS['harbol_mempool_' + _n] = dict(roles=mp_roles, **_kw)
