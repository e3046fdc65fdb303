from spec import *


class ArrayShape(Shape):
    """table: NULL (then cap == len == 0) or one block of cap*datasize bytes; len <= cap"""
    struct = 'HarbolArray'

    def fill(self, cx, st, rid, off, name, mode):
        eng, p = cx.eng, cx.p
        T, C, L = (p.off(self.struct, f) for f in ('table', 'cap', 'len'))
        d = cx.ghost('datasize', 1, PTRDIFF)
        if mode == 'out':
            # what an initialiser accepts: an empty structure
            for f in (T,):
                cx.put(st, rid, f, 8, NULLP)
            cx.put(st, rid, C, 8, VI(64, ZERO))
            cx.put(st, rid, L, 8, VI(64, ZERO))
            return [st]
        out = []
        s = st.copy()
        cx.put(s, rid, T, 8, NULLP)
        cx.put(s, rid, C, 8, VI(64, ZERO))
        cx.put(s, rid, L, 8, VI(64, ZERO))
        out.append(s)
        s = st.copy()
        cap, ln = u64(name + '.cap', 1, PTRDIFF), u64(name + '.len', 0, PTRDIFF)
        s.cons.addrow(GE, sub(cap[2], ln[2]))
        size = mul(cap[2], d)
        s.cons.addrow(GE, sub(K(PTRDIFF), size))
        t = cx.region(s, 'heap', size, Base('opaque'), name=name + '->table', of=rid, noleak=(mode == 'shell'))
        cx.put(s, rid, T, 8, VP(t))
        cx.put(s, rid, C, 8, cap)
        cx.put(s, rid, L, 8, ln)
        out.append(s)
        return out

    def check(self, cx, P, st, rid, off, name):
        d = cx.ghost('datasize', 1, PTRDIFF)
        for s1, t in cx.fld(st.copy(), self.struct, 'table', rid, off):
            for s2, cap in cx.fld(s1, self.struct, 'cap', rid, off):
                for s3, ln in cx.fld(s2, self.struct, 'len', rid, off):
                    Q = P.at(s3)
                    if 'undef' in (t[0], cap[0], ln[0]):
                        Q.fail('inv', 'inv:uninit', '%s is left with uninitialised fields' % name)
                        continue
                    c, l = cx.eng.toU(s3, cap), cx.eng.toU(s3, ln)
                    Q.prove('inv', 'inv:len<=cap', sub(c, l), '%s: length may exceed capacity' % name)
                    if t[0] == 'p' and t[1] == 0:
                        Q.prove('inv', 'inv:null-cap', neg(c), '%s: no storage but a non-zero capacity' % name)
                        continue
                    if t[0] != 'p' or t[1] <= 0:
                        Q.fail('inv', 'inv:table', '%s: storage pointer is not an allocation' % name)
                        continue
                    r = s3.mem[t[1]]
                    if r.live != 1 or not (r.kind == 'heap' or r.attr.get('asheap')) or not s3.eq(t[2], ZERO):
                        Q.fail('inv', 'inv:table', '%s: storage pointer is stale' % name)
                        continue
                    Q.prove('inv', 'inv:storage', sub(r.size, mul(c, d)), '%s: capacity exceeds the storage' % name)


    def logical_same(self, cx, P, o):
        """same elements; the capacity may have grown"""
        l0, l1 = P.f0(o.name, 'len'), P.f1(o.name, 'len')
        return P.st.eq(l0, l1) and bytes_same(P, P.f0(o.name, 'table'), P.f1(o.name, 'table'), mul(l0, cx.ghost('datasize', 1, PTRDIFF)))


ARR = ArrayShape()
REF = None


def roles(cx, st, name, ty, fn, opts):
    d = cx.ghost('datasize', 1, PTRDIFF)
    if ty == 'struct HarbolArray*':
        mode = 'mut'
        if fn.base == 'harbol_array_init':
            mode = 'out'
        return [(s, VP(o.rid), o) for s, o in ARR.new(cx, st, name, mode)]
    if ty == 'struct HarbolArray const*':
        out = []
        prev = cx.args_so_far.get('vecA')
        if name == 'vecB' and prev is not None:
            if opts.get('alias'):
                return [(st, VP(prev.rid), None)]
        return [(s, VP(o.rid), o) for s, o in ARR.new(cx, st, name, 'const')]
    if ty.startswith('struct HarbolArray* const*') or ty == 'struct HarbolArray**':
        return ref_role(cx, st, name, ARR, 'shell' if fn.base.endswith('_free') else 'mut')
    if name == 'datasize' or name == 'element_size':
        return [(st, ('i', 64, d, 'u'), None)]
    if ty == 'void const*':
        rid = cx.region(st, 'param', d, Base('opaque'), name=name, const=True)
        return [(st, VP(rid), None)]
    if ty == 'void*' and name == 'buf':
        cap, ln = u64('cap', 1, PTRDIFF), u64('len', 0, PTRDIFF)
        cx.g['bufcap'], cx.g['buflen'] = cap[2], ln[2]
        st.cons.addrow(GE, sub(cap[2], ln[2]))
        st.cons.addrow(GE, sub(K(PTRDIFF), mul(cap[2], d)))
        rid = cx.region(st, 'heap', mul(cap[2], d), Base('opaque'), name=name, noleak=True)
        return [(st, VP(rid), None)]
    if ty == 'void*':
        rid = cx.region(st, 'param', d, Base('opaque'), name=name)
        return [(st, VP(rid), None)]
    if name == 'cap' and 'bufcap' in cx.g:
        return [(st, ('i', 64, cx.g['bufcap'], 'u'), None)]
    if name == 'len' and 'buflen' in cx.g:
        return [(st, ('i', 64, cx.g['buflen'], 'u'), None)]
    if ty == '_Bool*':
        rid = cx.region(st, 'param', ONE, Base('opaque'), name=name)
        return [(st, VP(rid), None)]
    return scalar(cx, st, name, ty)


SPECS = {}
MODULE = 'array'


def spec(name, **kw):
    SPECS['harbol_array_' + name] = dict(roles=roles, **kw)


def sret_array(P):
    ARR.check(P.cx, P, P.st, P.sret, ZERO, 'result')


def ret_array(P):
    if P.ok:
        ARR.check(P.cx, P, P.st, P.ret[1], P.ret[2], 'result')



# ---- what each operation promises about the length, the result and the stored bytes
D = lambda P: P.cx.g['datasize']


def keeps(P, o, n=None, key='keep'):
    """the first len elements are still there, unchanged"""
    t0, t1 = P.f0(o, 'table'), P.f1(o, 'table')
    l0 = P.f0(o, 'len') if n is None else n
    if t0[1] == 0:
        return
    P.same_bytes('content', key, t1, ZERO, t0[1], ZERO, mul(l0, D(P)), '%s: stored elements changed or lost' % o)


def same_len(P, o='vec'):
    P.eq('count', 'len', P.f1(o, 'len'), P.f0(o, 'len'), '%s: the length changed' % o)


def p_insert(P):
    if P.ok:
        l0 = P.f0('vec', 'len')
        P.eq('count', 'len+1', P.f1('vec', 'len'), addc(l0, 1), 'a stored element must raise the length by exactly one')
        keeps(P, 'vec')
        val = [a for a in P.args][1]
        P.same_bytes('content', 'stored', P.f1('vec', 'table'), mul(l0, D(P)), val[1], ZERO, D(P), 'the element stored at the end is not the one given')
    else:
        for Q in P.cases((GE, addc(sub(P.f0('vec', 'cap'), P.f0('vec', 'len')), -1)), ):
            if P.f0('vec', 'table')[1] != 0:
                Q.fail('status', 'refused', 'refuses an element although there is room')


def p_append(P):
    p_insert(P)
    if P.ok:
        P.eq('count', 'index', P.retu(), P.f0('vec', 'len'), 'the index returned is not that of the new element')


def p_fill(P):
    if P.ok:
        P.eq('count', 'len=cap', P.f1('vec', 'len'), P.f0('vec', 'cap'), 'filling must make the length equal the capacity')
        P.eq('count', 'cap', P.f1('vec', 'cap'), P.f0('vec', 'cap'), 'filling must not change the capacity')


def elem_ptr(P, idx, what):
    t = P.f0('vec', 'table')
    if P.ret[0] != 'p' or P.ret[1] != t[1]:
        P.fail('retval', 'elem', what)
    else:
        P.eq('retval', 'elem', P.ret[2], mul(idx, D(P)), what)


def p_pop(P):
    if P.ok:
        l0 = P.f0('vec', 'len')
        P.eq('count', 'len-1', P.f1('vec', 'len'), addc(l0, -1), 'removing the last element must lower the length by exactly one')
        elem_ptr(P, addc(l0, -1), 'the popped element is not the last one')
        keeps(P, 'vec')
    else:
        nonempty_fail(P)


def nonempty_fail(P):
    for Q in P.cases((GE, addc(P.f0('vec', 'len'), -1))):
        Q.fail('status', 'refused', 'fails although there are elements')


def p_pop_ex(P):
    if P.ok:
        l0 = P.f0('vec', 'len')
        P.eq('count', 'len-1', P.f1('vec', 'len'), addc(l0, -1), 'removing the last element must lower the length by exactly one')
        t = P.f0('vec', 'table')
        P.same_bytes('content', 'value', P.args[1], ZERO, t[1], mul(addc(l0, -1), D(P)), D(P), 'the value handed out is not the last element')
        keeps(P, 'vec', addc(l0, -1))
    else:
        nonempty_fail(P)


def p_peek(P):
    if P.ok:
        elem_ptr(P, addc(P.f0('vec', 'len'), -1), 'the peeked element is not the last one')
    else:
        nonempty_fail(P)


def p_peek_ex(P):
    if P.ok:
        t = P.f0('vec', 'table')
        P.same_bytes('content', 'value', P.args[1], ZERO, t[1], mul(addc(P.f0('vec', 'len'), -1), D(P)), D(P), 'the value handed out is not the last element')
    else:
        nonempty_fail(P)


def in_range(P, idx):
    """accepted exactly when the index is below the length"""
    l0 = P.f0('vec', 'len')
    if P.ok:
        P.prove('status', 'range', addc(sub(l0, idx), -1), 'accepts an index outside the elements')
    else:
        for Q in P.cases((GE, addc(sub(l0, idx), -1))):
            Q.fail('status', 'range', 'refuses a valid index')


def A(P, i):
    return P.eng.toU(P.st, P.args[i])


def p_get(P):
    in_range(P, A(P, 1))
    if P.ok:
        elem_ptr(P, A(P, 1), 'the element returned is not the one at the index')


def p_get_ex(P):
    in_range(P, A(P, 1))
    if P.ok:
        P.same_bytes('content', 'value', P.args[2], ZERO, P.f0('vec', 'table')[1], mul(A(P, 1), D(P)), D(P), 'the value handed out is not the element at the index')


def p_set(P):
    in_range(P, A(P, 1))
    same_len(P)
    if P.ok:
        i = A(P, 1)
        t0, t1 = P.f0('vec', 'table'), P.f1('vec', 'table')
        P.same_bytes('content', 'value', t1, mul(i, D(P)), P.args[2][1], ZERO, D(P), 'the element stored is not the one given')
        P.same_bytes('content', 'before', t1, ZERO, t0[1], ZERO, mul(i, D(P)), 'elements before the index changed')
        P.same_bytes('content', 'after', t1, ZERO, t0[1], ZERO, mul(P.f0('vec', 'len'), D(P)), 'elements after the index changed', lo=mul(addc(i, 1), D(P)))


def p_index_of(P):
    r = P.retu()
    for Q in P.cases((GE, sub(K(M64 - 1), r))):
        Q.prove('retval', 'index', addc(sub(P.f0('vec', 'len'), r), -1), 'the index returned is not that of an element')
        Q.prove('retval', 'start', sub(r, A(P, 3)), 'the index returned lies before the starting point')


def p_count(P):
    P.prove('retval', 'count', sub(P.f0('vec', 'len'), P.retu()), 'counts more elements than are stored')


def removed(P, idx, want):
    """elements [idx, idx+want) are gone (clipped to the length), the others moved down in order"""
    l0, l1 = P.f0('vec', 'len'), P.f1('vec', 'len')
    t0, t1 = P.f0('vec', 'table'), P.f1('vec', 'table')
    if t0[1] == 0:
        return
    d = D(P)
    P.same_bytes('content', 'before', t1, ZERO, t0[1], ZERO, mul(idx, d), 'elements before the removed ones changed')
    for Q in P.cases((GE, sub(l0, add(idx, want)))):
        Q.eq('count', 'len-n', l1, sub(l0, want), 'the length must drop by the number of elements removed')
        Q.same_bytes('content', 'after', t1, mul(idx, d), t0[1], mul(add(idx, want), d), mul(sub(sub(l0, idx), want), d), 'the elements after the removed ones are not kept in order')
    for Q in P.cases((GE, addc(sub(add(idx, want), l0), -1))):
        Q.eq('count', 'len=idx', l1, idx, 'removing past the end must keep exactly the elements before the index')


def amount(P, idx, n):
    # an amount of 0 removes one element
    for Q in P.cases((GE, addc(n, -1))):
        removed(Q, idx, n)
    for Q in P.cases((EQ, n)):
        removed(Q, idx, ONE)


def p_shift_up(P):
    if P.ok:
        P.prove('status', 'range', addc(sub(P.f0('vec', 'len'), A(P, 1)), -1), 'accepts an index outside the elements')
        amount(P, A(P, 1), A(P, 3))
    else:
        in_range(P, A(P, 1))


def p_del_index(P):
    in_range(P, A(P, 1))
    if P.ok:
        removed(P, A(P, 1), ONE)


def p_del_range(P):
    if P.ok:
        amount(P, A(P, 1), A(P, 3))
    else:
        in_range(P, A(P, 1))


def p_del_val(P):
    if P.ok:
        P.eq('count', 'len-1', P.f1('vec', 'len'), addc(P.f0('vec', 'len'), -1), 'removing one element must lower the length by exactly one')


def p_wipe(P):
    P.eq('count', 'len=0', P.f1('vec', 'len'), ZERO, 'wiping must leave no elements')
    P.eq('count', 'cap', P.f1('vec', 'cap'), P.f0('vec', 'cap'), 'wiping must keep the capacity')
    t = P.f1('vec', 'table')
    if t[1]:
        P.zero_bytes('content', 'zeroed', t, ZERO, mul(P.f0('vec', 'cap'), D(P)), 'wiping must zero the storage')


def p_clear(P):
    P.eq('count', 'len=0', P.f1('vec', 'len'), ZERO, 'clearing must leave no elements')
    P.eq('count', 'cap=0', P.f1('vec', 'cap'), ZERO, 'clearing must leave no capacity')
    if P.f1('vec', 'table') != NULLP:
        P.fail('inv', 'null', 'clearing must drop the storage')


def p_resize(P):
    """the elements that still fit survive"""
    l0, l1 = P.f0('vec', 'len'), P.f1('vec', 'len')
    P.prove('count', 'len<=', sub(l0, l1), 'changing the capacity must not invent elements')
    for Q in P.cases((GE, sub(P.f1('vec', 'cap'), l0))):
        Q.eq('count', 'len', l1, l0, 'changing the capacity lost elements that fit')
    keeps(P, 'vec', l1)


def p_grow(P):
    p_resize(P)
    if P.ok:
        P.prove('status', 'grew', addc(sub(P.f1('vec', 'cap'), P.f0('vec', 'cap')), -1), 'reports growth although the capacity did not grow')
    same_len(P)


def p_shrink(P):
    p_resize(P)
    same_len(P)


def p_add(P):
    if P.ok:
        lb = P.f0('vecB', 'len') if 'vecB' in P.objs else P.f0('vecA', 'len')
        la = P.f0('vecA', 'len')
        P.eq('count', 'len+n', P.f1('vecA', 'len'), add(la, lb), 'the length must grow by the number of elements added')
        keeps(P, 'vecA')
        src = P.f0('vecB', 'table') if 'vecB' in P.objs else P.f0('vecA', 'table')
        P.same_bytes('content', 'added', P.f1('vecA', 'table'), mul(la, D(P)), src[1], ZERO, mul(lb, D(P)), 'the elements added are not those of the source')


def p_copy(P):
    if P.ok and 'vecB' in P.objs:
        l1, lb, ca = P.f1('vecA', 'len'), P.f0('vecB', 'len'), P.f0('vecA', 'cap')
        for Q in P.cases((GE, sub(ca, lb))):
            Q.eq('count', 'len', l1, lb, 'a copy that fits must have the length of its source')
        P.same_bytes('content', 'copied', P.f1('vecA', 'table'), ZERO, P.f0('vecB', 'table')[1], ZERO, mul(l1, D(P)), 'the elements copied are not those of the source')
    elif P.ok:
        same_len(P, 'vecA')
        keeps(P, 'vecA')


def p_swap(P):
    same_len(P)


def p_getter(f):
    def post(P):
        P.eq('retval', f, P.retu(), P.f0('vec', f), 'reports something else than the %s' % f)
    return post


def p_empty(P):
    l0 = P.f0('vec', 'len')
    if P.ok:
        P.eq('retval', 'empty', l0, ZERO, 'reports empty although there are elements')
    else:
        P.prove('retval', 'empty', addc(l0, -1), 'reports elements although there are none')


def p_full(P):
    l0, c0 = P.f0('vec', 'len'), P.f0('vec', 'cap')
    if P.ok:
        P.prove('retval', 'full', sub(l0, c0), 'reports full although there is room')
    else:
        P.prove('retval', 'full', addc(sub(c0, l0), -1), 'reports room although there is none')


def p_diff(f):
    def post(P):
        a, b, r = P.f0('vecA', f), P.f0('vecB', f), P.retu()
        for Q in P.cases((GE, sub(a, b))):
            Q.eq('retval', 'diff', r, sub(a, b), 'wrong difference')
        for Q in P.cases((GE, sub(b, a))):
            Q.eq('retval', 'diff', r, sub(b, a), 'wrong difference')
    return post


spec('data')
spec('cap', post=p_getter('cap'))
spec('len', post=p_getter('len'))
spec('empty', post=p_empty)
spec('full', post=p_full)
spec('len_diff', post=p_diff('len'))
spec('cap_diff', post=p_diff('cap'))
spec('peek', post=p_peek)
spec('peek_ex', post=p_peek_ex)
spec('get', post=p_get)
spec('get_ex', post=p_get_ex)
spec('item_count', post=p_count)
spec('index_of', post=p_index_of)
spec('grow', post=p_grow)
spec('resize', post=p_resize)
spec('shrink', post=p_shrink)
spec('wipe', post=p_wipe)
spec('clear', post=p_clear)
spec('insert', post=p_insert)
spec('fill', post=p_fill)
spec('pop', post=p_pop)
spec('pop_ex', post=p_pop_ex)
spec('set', post=p_set)
spec('swap', post=p_swap)
spec('shift_up', post=p_shift_up)
spec('del_by_index', post=p_del_index)
spec('del_by_range', post=p_del_range)
spec('del_by_val', post=p_del_val)
spec('append', status=status_sizemax, post=p_append)
spec('add', variants=[{}, {'alias': 1}], post=p_add)
spec('copy', variants=[{}, {'alias': 1}], post=p_copy)
spec('init')
spec('make', post=sret_array)
spec('make_from_array', post=sret_array)
spec('new', post=ret_array)
spec('new_from_array', post=ret_array)
spec('free', dead=('*',))
spec('cleanup')
