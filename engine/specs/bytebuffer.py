from spec import *
from specs.str import cstr_arg, file_role, slen


class BufShape(Shape):
    """table: NULL (then cap == len == 0) or one block of at least cap bytes; len <= cap"""
    struct = 'HarbolByteBuf'

    def fill(self, cx, st, rid, off, name, mode):
        T, C, L = (cx.p.off(self.struct, f) for f in ('table', 'cap', 'len'))
        s = st.copy()
        for f in (T, C, L):
            cx.put(s, rid, addc(off, f), 8, NULLP if f == T else VI(64, ZERO))
        if mode == 'out':
            return [s]
        out = [s]
        s = st.copy()
        cap, ln = u64(name + '.cap', 0, PTRDIFF), u64(name + '.len', 0, PTRDIFF)
        s.cons.addrow(GE, sub(cap[2], ln[2]))
        t = cx.region(s, 'heap', cap[2], Base('opaque'), name=name + '->table', of=rid)
        cx.put(s, rid, addc(off, T), 8, VP(t))
        cx.put(s, rid, addc(off, C), 8, cap)
        cx.put(s, rid, addc(off, L), 8, ln)
        return out + [s]

    def check(self, cx, P, st, rid, off, name):
        for s1, t in cx.fld(st.copy(), self.struct, 'table', rid, off):
            for s2, cap in cx.fld(s1, self.struct, 'cap', rid, off):
                for s3, ln in cx.fld(s2, self.struct, 'len', rid, off):
                    Q = P.at(s3)
                    if 'undef' in (t[0], cap[0], ln[0]):
                        Q.fail('inv', 'inv:uninit', '%s is left with uninitialised fields' % name)
                        continue
                    c, l = cx.eng.toU(s3, cap), cx.eng.toU(s3, ln)
                    Q.prove('inv', 'inv:len<=cap', sub(c, l), '%s: length may exceed capacity' % name)
                    if t[0] == 'p' and t[1] == 0:
                        Q.prove('inv', 'inv:null-cap', neg(c), '%s: no storage but a non-zero capacity' % name)
                        continue
                    if t[0] != 'p' or t[1] <= 0:
                        Q.fail('inv', 'inv:table', '%s: storage pointer is not an allocation' % name)
                        continue
                    r = s3.mem[t[1]]
                    if r.live != 1 or r.kind != 'heap' or not s3.eq(t[2], ZERO):
                        Q.fail('inv', 'inv:table', '%s: storage pointer is stale' % name)
                        continue
                    Q.prove('inv', 'inv:storage', sub(r.size, c), '%s: capacity exceeds the storage' % name)

    def logical_same(self, cx, P, o):
        l0, l1 = P.f0(o.name, 'len'), P.f1(o.name, 'len')
        return P.st.eq(l0, l1) and bytes_same(P, P.f0(o.name, 'table'), P.f1(o.name, 'table'), l0)


BUF = BufShape()


def roles(cx, st, name, ty, fn, opts):
    if ty == 'struct HarbolByteBuf*':
        return [(s, VP(o.rid), o) for s, o in BUF.new(cx, st, name, 'mut')]
    if ty == 'struct HarbolByteBuf const*':
        prev = cx.args_so_far.get('bufA')
        if name == 'bufB' and prev is not None and opts.get('alias'):
            return [(st, VP(prev.rid), None)]
        return [(s, VP(o.rid), o) for s, o in BUF.new(cx, st, name, 'const')]
    if ty in ('struct HarbolByteBuf**', 'struct HarbolByteBuf* const*'):
        return ref_role(cx, st, name, BUF, 'mut')
    if ty == 'char const*':
        return cstr_arg(cx, st, name, null=False)
    if ty in ('struct _IO_FILE*', 'FILE*'):
        return file_role(cx, st, name)
    if ty == 'void const*':
        n = cx.ghost('objsize', 0, PTRDIFF)
        rid = cx.region(st, 'param', n, Base('opaque'), name=name, const=True)
        return [(st, VP(rid), None)]
    if name in ('size', 'len') and 'objsize' in cx.g:
        return [(st, ('i', 64, cx.g['objsize'], 'u'), None)]
    return scalar(cx, st, name, ty)


SPECS = {}
MODULE = 'bytebuffer'


def spec(name, **kw):
    SPECS['harbol_bytebuffer_' + name] = dict(roles=roles, **kw)


def A(P, i):
    return P.eng.toU(P.st, P.args[i])


def src_of(P):
    return 'bufB' if 'bufB' in P.objs else 'bufA'


def keeps(P, o, n=None):
    t0, t1 = P.f0(o, 'table'), P.f1(o, 'table')
    if t0[1]:
        P.same_bytes('content', 'keep', t1, ZERO, t0[1], ZERO, P.f0(o, 'len') if n is None else n, '%s: bytes stored before were altered' % o)


def p_new(P):
    if P.ok:
        BUF.check(P.cx, P, P.st, P.ret[1], P.ret[2], 'result')


def p_make(P):
    BUF.check(P.cx, P, P.st, P.sret, ZERO, 'result')


def p_get(f):
    def post(P):
        P.eq('retval', f, P.retu(), P.f0('buf', f), 'does not return the %s' % f)
    return post


def p_buffer(P):
    if P.ret != P.f0('buf', 'table'):
        P.fail('retval', 'table', 'does not return the storage')


def p_insert(n):
    def post(P):
        l0 = P.f0('buf', 'len')
        if P.ok:
            P.eq('count', 'len+n', P.f1('buf', 'len'), addc(l0, n), 'inserting must raise the length by the size of the value')
            keeps(P, 'buf')
            v = P.args[1]
            t = P.f1('buf', 'table')
            if v[0] == 'i' and t[1] > 0:
                P.entry.obligations += 1
                rs = P.eng.read(P.st.copy(), P.st.mem[t[1]].content, l0, n, {'k': 'i', 'b': 8 * n}, t[1])
                if not all(val_same(P.eng, s, w, v) for s, w in rs):
                    P.fail('content', 'value', 'the bytes inserted are not those of the value')
    return post


def p_cstr(P):
    if P.ok:
        l0, n = P.f0('buf', 'len'), slen(P, 1)
        P.eq('count', 'len+n', P.f1('buf', 'len'), addc(add(l0, n), 1), 'inserting a string must raise the length by its size with the terminator')
        keeps(P, 'buf')
        P.same_bytes('content', 'text', P.f1('buf', 'table'), l0, P.args[1][1], ZERO, addc(n, 1), 'the bytes inserted are not those of the string')


def p_obj(P):
    if P.ok:
        l0, n = P.f0('buf', 'len'), A(P, 2)
        P.eq('count', 'len+n', P.f1('buf', 'len'), add(l0, n), 'inserting must raise the length by the number of bytes')
        keeps(P, 'buf')
        P.same_bytes('content', 'data', P.f1('buf', 'table'), l0, P.args[1][1], ZERO, n, 'the bytes inserted are not those given')


def p_zeros(P):
    if P.ok:
        l0, n = P.f0('buf', 'len'), A(P, 1)
        P.eq('count', 'len+n', P.f1('buf', 'len'), add(l0, n), 'inserting must raise the length by the number of bytes')
        keeps(P, 'buf')
        t = P.f1('buf', 'table')
        if t[1] > 0:
            P.zero_bytes('content', 'zeros', t, l0, n, 'the bytes inserted are not zero')


def p_del(P):
    l0, l1, idx, n = P.f0('buf', 'len'), P.f1('buf', 'len'), A(P, 1), A(P, 2)
    if not P.ok:
        for Q in P.cases((GE, addc(sub(l0, idx), -1))):
            Q.fail('status', 'range', 'refuses a valid index')
        return
    P.prove('status', 'range', addc(sub(l0, idx), -1), 'accepts an index outside the bytes')
    t0, t1 = P.f0('buf', 'table'), P.f1('buf', 'table')
    if not t0[1]:
        return
    keeps(P, 'buf', idx)
    for R, m in [(Q, n) for Q in P.cases((GE, addc(n, -1)))] + [(Q, ONE) for Q in P.cases((EQ, n))]:
        for Q in R.cases((GE, sub(l0, add(idx, m)))):
            Q.eq('count', 'len-n', l1, sub(l0, m), 'the length must drop by the number of bytes removed')
            Q.same_bytes('content', 'after', t1, idx, t0[1], add(idx, m), sub(sub(l0, idx), m), 'the bytes after the removed ones are not kept in order')
        for Q in R.cases((GE, addc(sub(add(idx, m), l0), -1))):
            Q.eq('count', 'len=idx', l1, idx, 'removing past the end must keep exactly the bytes before the index')


def p_append(P):
    if P.ok:
        src = 'bufB' if 'bufB' in P.objs else 'bufA'
        la, lb = P.f0('bufA', 'len'), P.f0(src, 'len')
        P.eq('count', 'len+n', P.f1('bufA', 'len'), add(la, lb), 'the length must grow by that of the appended buffer')
        keeps(P, 'bufA')
        P.same_bytes('content', 'added', P.f1('bufA', 'table'), la, P.f0(src, 'table')[1], ZERO, lb, 'the bytes appended are not those of the source')


def p_copy(P):
    if P.ok and 'bufB' in P.objs:
        lb = P.f0('bufB', 'len')
        P.eq('count', 'len', P.f1('bufA', 'len'), lb, 'a copy must have the length of its source')
        if P.f0('bufB', 'table')[1]:
            P.same_bytes('content', 'copied', P.f1('bufA', 'table'), ZERO, P.f0('bufB', 'table')[1], ZERO, lb, 'the bytes copied are not those of the source')
    elif P.ok:
        P.eq('count', 'len', P.f1('bufA', 'len'), P.f0('bufA', 'len'), 'copying a buffer onto itself changed it')
        keeps(P, 'bufA')


def p_file(P):
    if P.ok:
        P.prove('count', 'len', sub(P.f1('buf', 'len'), P.f0('buf', 'len')), 'reading a file must not drop bytes')
        keeps(P, 'buf')


def p_clear(P):
    P.eq('count', 'len', P.f1('buf', 'len'), ZERO, 'clearing must leave no length')
    P.eq('count', 'cap', P.f1('buf', 'cap'), ZERO, 'clearing must leave no capacity')
    if P.f1('buf', 'table') != NULLP:
        P.fail('inv', 'null', 'clearing must drop the storage')


def p_free(P):
    o = [x for x in P.objs.values()][0]
    for s, v in P.cx.get(P.st.copy(), o.rid, o.off, TP):
        if v != NULLP:
            P.at(s).fail('inv', 'freed', 'freeing must reset the caller\'s pointer')


AL = [{}, {'alias': True}]
spec('new', post=p_new)
spec('make', post=p_make)
spec('clear', post=p_clear)
spec('free', post=p_free)
spec('cap', post=p_get('cap'))
spec('len', post=p_get('len'))
spec('get_buffer', post=p_buffer, status=status_none)
for n, k in (('byte', 1), ('int16', 2), ('int32', 4), ('int64', 8), ('ptr', 8), ('float32', 4), ('float64', 8), ('floatmax', 16)):
    spec('insert_' + n, post=p_insert(k))
spec('insert_cstr', post=p_cstr)
spec('insert_obj', post=p_obj, why=lambda P: [(EQ, A(P, 2))])
spec('insert_zeros', post=p_zeros, why=lambda P: [(EQ, A(P, 1)), (GE, addc(add(A(P, 1), P.f0('buf', 'len')), -PTRDIFF))])
spec('del', post=p_del, why=lambda P: [(GE, sub(A(P, 1), P.f0('buf', 'len')))])
spec('to_file', why=lambda P: [P.f0('buf', 'table') == NULLP])
spec('insert_from_file', post=p_file)
spec('insert_from_filename', post=p_file)
spec('append', post=p_append, why=lambda P: [P.f0(src_of(P), 'table') == NULLP, (EQ, P.f0(src_of(P), 'len'))], variants=AL)
spec('copy', post=p_copy, why=lambda P: [P.f0(src_of(P), 'table') == NULLP, (EQ, P.f0(src_of(P), 'len'))], variants=AL)
