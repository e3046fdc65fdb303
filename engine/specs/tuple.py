from spec import *


class TupleShape(Shape):
    """fields: array of (size << 16 | offset) words with offset + size <= len, datum: NULL (len 0)
    or a block of len bytes"""
    struct = 'HarbolTuple'

    def fill(self, cx, st, rid, off, name, mode):
        p = cx.p
        if mode == 'out':
            return [st.copy()]
        o = {f: addc(off, p.off(self.struct, f)) for f in ('fields', 'datum', 'len')}
        a = {f: add(o['fields'], K(p.off('HarbolArray', f))) for f in ('table', 'cap', 'len')}
        out = []
        s = st.copy()
        for k in (a['table'], o['datum']):
            cx.put(s, rid, k, 8, NULLP)
        for k in (a['cap'], a['len'], o['len']):
            cx.put(s, rid, k, 8, VI(64, ZERO))
        out.append(s)
        s = st.copy()
        cap, n, ln = u64('cap', 1, PTRDIFF // 4), u64('nfields', 0, PTRDIFF // 4), u64('len', 0, PTRDIFF)
        s.cons.addrow(GE, sub(cap[2], n[2]))

        def field(eng, st2, b, off2, nb, t, rid2):
            v, ok = elem(eng, st2, b, off2, nb, n[2], ln[2])
            return [(st2, v if ok else eng.unknown(st2, t))]
        tb = cx.region(s, 'heap', scale(cap[2], 4), Base('lazy', handler=field), name=name + '->fields.table', of=rid)
        d = cx.region(s, 'heap', ln[2], Base('opaque'), name=name + '->datum', owner=rid)
        cx.put(s, rid, a['table'], 8, VP(tb))
        cx.put(s, rid, a['cap'], 8, cap)
        cx.put(s, rid, a['len'], 8, n)
        cx.put(s, rid, o['datum'], 8, VP(d))
        cx.put(s, rid, o['len'], 8, ln)
        out.append(s)
        return out

    def check(self, cx, P, st, rid, off, name):
        if P.ok is False and P.objs.get(name) is not None and P.objs[name].mode == 'out':
            return
        F = addc(off, cx.p.off(self.struct, 'fields'))
        for s1, d in cx.fld(st.copy(), self.struct, 'datum', rid, off):
            for s2, ln in cx.fld(s1, self.struct, 'len', rid, off):
                for s3, t in cx.fld(s2, 'HarbolArray', 'table', rid, F):
                    for s4, n in cx.fld(s3, 'HarbolArray', 'len', rid, F):
                        for s5, cap in cx.fld(s4, 'HarbolArray', 'cap', rid, F):
                            self.chk(cx, P.at(s5), s5, d, ln, t, n, cap, name)

    def chk(self, cx, Q, st, d, ln, t, n, cap, name):
        if 'undef' in (d[0], ln[0], t[0], n[0], cap[0]):
            Q.fail('inv', 'inv:uninit', '%s is left with uninitialised fields' % name)
            return
        l, n, c = (cx.eng.toU(st, x) for x in (ln, n, cap))
        if d == NULLP:
            Q.prove('inv', 'inv:null', l, '%s: no data but a length' % name, EQ)
        elif not heap_block(st, d):
            Q.fail('inv', 'inv:datum', '%s: data is not a live allocation' % name)
        else:
            Q.prove('inv', 'inv:size', sub(st.mem[d[1]].size, l), '%s: length exceeds the data' % name)
        Q.prove('inv', 'inv:fields', sub(c, n), '%s: more fields than the table holds' % name)
        if t == NULLP:
            Q.prove('inv', 'inv:nofields', c, '%s: no field table but a capacity' % name, EQ)
        elif not heap_block(st, t):
            Q.fail('inv', 'inv:table', '%s: field table is not a live allocation' % name)
        else:
            Q.prove('inv', 'inv:table', sub(st.mem[t[1]].size, scale(c, 4)), '%s: field table capacity exceeds its storage' % name)


def heap_block(st, p):
    if p[0] != 'p' or p[1] <= 0:
        return False
    r = st.mem[p[1]]
    return r.live == 1 and r.kind == 'heap' and st.eq(p[2], ZERO)


def elem(eng, st, b, off, nb, n, ln):
    """a field word below the number of fields; anything above it"""
    if nb != 4 or not st.ge(addc(scale(n, 4), -4), off):
        return None, False
    sz, fo = newsym('fsize', 0, 65535), newsym('foff', 0, 65535)
    st.cons.addrow(GE, sub(ln, add(sz, fo)))
    return ('i', 32, add(scale(sz, 65536), fo), 'u'), True


TUP = TupleShape()


def roles(cx, st, name, ty, fn, opts):
    if ty == 'struct HarbolTuple*':
        return [(s, VP(o.rid), o) for s, o in TUP.new(cx, st, name, opts.get('mode', 'mut'))]
    if ty == 'struct HarbolTuple const*':
        return [(s, VP(o.rid), o) for s, o in TUP.new(cx, st, name, 'const')]
    if ty in ('struct HarbolTuple**', 'struct HarbolTuple* const*'):
        return ref_role(cx, st, name, TUP, 'mut')
    if name == 'len':
        if 'n' in opts:
            cx.g['nlen'] = K(opts['n'])
            return [(st, VI(64, K(opts['n'])), None)]
        return [(st, ('i', 64, cx.ghost('nlen', 0, PTRDIFF // 8), 'u'), None)]
    if ty == 'unsigned long const*':
        n = cx.g['nlen']
        rid = cx.region(st, 'param', scale(n, 8) if n[1] or n[0] else K(8), Base('opaque'), name=name, const=True)
        return [(st, VP(rid), None)]
    if ty == 'void*' and name in ('val', 'field'):
        rid = cx.region(st, 'param', K(65535), Base('opaque'), name=name, const=True)
        return [(st, VP(rid), None)]
    if ty == 'void*':
        # the caller's structure has room for the tuple
        t = cx.args_so_far.get('tuple')
        (s, n), = cx.fld(st.copy(), 'HarbolTuple', 'len', t.rid)[:1]
        rid = cx.region(st, 'param', n[2], Base('opaque'), name=name)
        return [(st, VP(rid), None)]
    if ty == '_Bool*':
        rid = cx.region(st, 'param', K(1), Base('uninit'), name=name)
        return [(st, VP(rid), Obj(name, None, rid, ZERO, 'res'))]
    return scalar(cx, st, name, ty)


SPECS = {}
MODULE = 'tuple'


def spec(name, **kw):
    SPECS['harbol_tuple_' + name] = dict(roles=roles, **kw)


def layout(P, rid, off):
    cx = P.cx
    F = addc(off, cx.p.off('HarbolTuple', 'fields'))
    (s, n), = cx.fld(P.st.copy(), 'HarbolArray', 'len', rid, F)[:1]
    want = cx.g['nlen']
    P.eq('count', 'fields', P.eng.toU(P.st, n), want, 'the number of fields is not the number of sizes given')
    pk = [a for a, x in zip(P.args, [x for x in P.entry.fn.args]) if a[0] == 'i' and a[1] == 1]
    (s, b), = cx.get(P.st.copy(), rid, addc(off, cx.p.off('HarbolTuple', 'len') + 8), T8_)[:1]
    if pk and b[0] == 'i':
        bit = P.eng.modpow2(P.st, P.eng.toU(P.st, b), 1, 8)[0]
        P.eq('content', 'packed', P.eng.toU(P.st, bit), P.eng.toU(P.st, pk[0]), 'the packed flag is not the one given')
    if want[1]:
        return
    (s, t), = cx.fld(P.st.copy(), 'HarbolArray', 'table', rid, F)[:1]
    (s, ln), = cx.fld(P.st.copy(), 'HarbolTuple', 'len', rid, off)[:1]
    end = ZERO
    st = P.st
    src = [a for a in P.args if a[0] == 'p' and st.mem[a[1]].attr.get('name') in ('sizes', 'arg1')][0]
    for i in range(want[0]):
        (st, v), = cx.get(st.copy(), t[1], K(4 * i), T32)[:1]
        (st, z), = cx.get(st.copy(), src[1], K(8 * i), T64)[:1]
        Q = P.at(st)
        if v[0] != 'i':
            Q.fail('content', 'field', 'a field is not described')
            continue
        v = P.eng.toU(st, v)
        low = P.eng.lowpart(st, v, 65536)
        fo = low if low is not None else v
        sz = sub(v, fo)
        Q.prove('content', 'fieldsize', sub(sz, scale(P.eng.toU(st, z), 65536)), 'a field has another size than the one given', EQ)
        sz = P.eng.toU(st, z)
        Q.prove('content', 'overlap', sub(fo, end), 'a field may overlap the one before it')
        Q.prove('content', 'inside', sub(P.eng.toU(st, ln), add(fo, sz)), 'a field may reach past the tuple')
        end = add(fo, sz)


def p_init(P):
    if P.ok:
        layout(P, P.objs['tuple'].rid, ZERO)


def p_new(P):
    if P.ok:
        TUP.check(P.cx, P, P.st, P.ret[1], P.ret[2], 'result')
        layout(P, P.ret[1], P.ret[2])


def p_create(P):
    o = P.objs['res']
    for s, v in P.cx.get(P.st.copy(), o.rid, ZERO, {'k': 'i', 'b': 8}):
        if v[0] == 'undef':
            P.at(s).fail('status', 'res', 'does not report whether it succeeded')
            continue
        TUP.check(P.cx, P.at(s), s, P.sret, ZERO, 'result')
        for Q in P.at(s).cases((GE, addc(P.eng.toU(s, v), -1))):
            layout(Q, P.sret, ZERO)


def p_clear(P):
    if P.f1('tuple', 'datum') != NULLP:
        P.fail('inv', 'null', 'clearing must drop the data')
    P.eq('count', 'len', P.f1('tuple', 'len'), ZERO, 'clearing must leave no length')


def p_free(P):
    o = [x for x in P.objs.values()][0]
    for s, v in P.cx.get(P.st.copy(), o.rid, o.off, TP):
        if v != NULLP:
            P.at(s).fail('inv', 'freed', 'freeing must reset the caller\'s pointer')


def e_field(P, i):
    """the field word at index i as it was on entry: (state list of (Q, size, offset, inside?))"""
    cx = P.cx
    F = K(cx.p.off('HarbolTuple', 'fields'))
    r = P.objs['tuple'].rid
    (s, t), = cx.fld(P.e.copy(), 'HarbolArray', 'table', r, F)[:1]
    (s, n), = cx.fld(P.e.copy(), 'HarbolArray', 'len', r, F)[:1]
    out = []
    idx = P.eng.toU(P.st, P.args[1])
    for Q in P.cases((GE, sub(idx, P.eng.toU(P.st, n)))):
        out.append((Q, None, None))
    if t != NULLP:
        for Q in P.cases((GE, addc(sub(P.eng.toU(P.st, n), idx), -1))):
            for s2, v in P.eng.read(Q.st.copy(), P.e.mem[t[1]].content, scale(idx, 4), 4, T32, t[1]):
                if v[0] == 'i':
                    v = P.eng.toU(s2, v)
                    lo = P.eng.lowpart(s2, v, 65536)
                    if lo is not None:
                        hi = sub(v, lo)
                        out.append((Q.at(s2), (hi[0] // 65536, tuple((x, c // 65536) for x, c in hi[1])), lo))
    return out


def p_get(P):
    for Q, sz, fo in e_field(P, 1):
        if sz is None:
            if P.ok:
                Q.fail('retval', 'range', 'returns a field for an index outside the tuple')
            continue
        if not P.ok:
            for R in Q.cases((GE, addc(sub(P.f0('tuple', 'len'), fo), -1))):
                R.fail('retval', 'refuse', 'refuses a field of the tuple')
        elif P.ret[0] == 'p':
            if P.ret[1] != P.f0('tuple', 'datum')[1]:
                Q.fail('retval', 'where', 'returns something outside the data')
            else:
                Q.eq('retval', 'offset', P.ret[2], fo, 'returns another place than the field\'s offset')


def p_set(P):
    if P.ok:
        p_get(P)
        for Q, sz, fo in e_field(P, 1):
            if sz is None:
                continue
            d = P.f0('tuple', 'datum')
            Q.same_bytes('content', 'value', d, fo, P.args[2][1], ZERO, sz, 'the field does not hold the value given')
            Q.same_bytes('content', 'before', d, ZERO, d[1], ZERO, fo, 'bytes before the field were altered')
            e = add(fo, sz)
            Q.same_bytes('content', 'after', d, e, d[1], e, sub(P.f0('tuple', 'len'), e), 'bytes after the field were altered')


def p_size(P):
    for Q, sz, fo in e_field(P, 1):
        if sz is None:
            Q.eq('retval', 'range', P.retu(), ZERO, 'reports a size for an index outside the tuple')
        else:
            for R in Q.cases((GE, addc(P.f0('tuple', 'len'), -1))):
                R.eq('retval', 'size', P.retu(), sz, 'reports another size than the field\'s')


def p_len(P):
    P.eq('retval', 'len', P.retu(), P.f0('tuple', 'len'), 'does not return the size of the tuple')


def p_fields(P):
    cx = P.cx
    (s, n), = cx.fld(P.e.copy(), 'HarbolArray', 'len', P.objs['tuple'].rid, K(cx.p.off('HarbolTuple', 'fields')))[:1]
    P.eq('retval', 'fields', P.retu(), P.eng.toU(P.st, n), 'does not return the number of fields')


def p_struct(P):
    n = P.f0('tuple', 'len')
    if P.ok:
        P.same_bytes('content', 'bytes', P.args[1], ZERO, P.f0('tuple', 'datum')[1], ZERO, n, 'the structure does not hold the tuple\'s bytes')
    else:
        for Q in P.cases((GE, addc(n, -1))):
            Q.fail('status', 'refuse', 'refuses a tuple that holds data')


BIG = dict(MAXSTATES=600, MAXRET=600, SOFT=600)
N = [{'mode': 'out'}] + [dict(BIG, mode='out', n=k) for k in (0, 1, 2, 3, 4)]
spec('new', post=p_new, variants=[{}, dict(BIG, n=1)])
spec('create', post=p_create, variants=[{}, dict(BIG, n=1)])
spec('init', post=p_init, variants=N, cost=20)
spec('clear', post=p_clear)
spec('free', post=p_free)
spec('len', post=p_len)
spec('fields', post=p_fields)
spec('get', post=p_get)
spec('set', post=p_set)
spec('field_size', post=p_size)
spec('packed')
spec('to_struct', post=p_struct)
