from spec import *


class VarShape(Shape):
    """data: NULL, or one block of at least size bytes"""
    struct = 'HarbolVariant'

    def fill(self, cx, st, rid, off, name, mode):
        F = {f: addc(off, cx.p.off(self.struct, f)) for f in ('data', 'size', 'align_or_len', 'tag')}
        if mode == 'out':
            return [st.copy()]
        out = []
        for null in (True, False):
            s = st.copy()
            n = u64(name + '.size', 0, PTRDIFF)
            if null:
                n = VI(64, ZERO)
                d = NULLP
            else:
                d = VP(cx.region(s, 'heap', n[2], Base('opaque'), name=name + '->data', of=rid))
            cx.put(s, rid, F['data'], 8, d)
            cx.put(s, rid, F['size'], 8, n)
            cx.put(s, rid, F['align_or_len'], 8, u64('align'))
            cx.put(s, rid, F['tag'], 4, fresh_i(32, name + '.tag'))
            out.append(s)
        return out

    def check(self, cx, P, st, rid, off, name):
        if P.ok is False and P.objs.get(name) is not None and P.objs[name].mode == 'out':
            return
        for s1, d in cx.fld(st.copy(), self.struct, 'data', rid, off):
            for s2, n in cx.fld(s1, self.struct, 'size', rid, off):
                Q = P.at(s2)
                if 'undef' in (d[0], n[0]):
                    Q.fail('inv', 'inv:uninit', '%s is left with uninitialised fields' % name)
                    continue
                if d[0] == 'p' and d[1] == 0:
                    continue
                if d[0] != 'p' or d[1] <= 0:
                    Q.fail('inv', 'inv:data', '%s: data is not an allocation' % name)
                    continue
                r = s2.mem[d[1]]
                if r.live != 1 or r.kind != 'heap' or not s2.eq(d[2], ZERO):
                    Q.fail('inv', 'inv:data', '%s: data pointer is stale' % name)
                    continue
                Q.prove('inv', 'inv:size', sub(r.size, cx.eng.toU(s2, n)), '%s: the recorded size exceeds the storage' % name)
                for s3, tg in cx.fld(s2.copy(), self.struct, 'tag', rid, off):
                    if tg[0] == 'undef':
                        P.at(s3).fail('inv', 'inv:uninit', '%s is left without a tag' % name)


VAR = VarShape()


def roles(cx, st, name, ty, fn, opts):
    if ty == 'struct HarbolVariant*':
        return [(s, VP(o.rid), o) for s, o in VAR.new(cx, st, name, opts.get('mode', 'mut'))]
    if ty == 'struct HarbolVariant const*':
        return [(s, VP(o.rid), o) for s, o in VAR.new(cx, st, name, 'const')]
    if ty in ('struct HarbolVariant**', 'struct HarbolVariant* const*'):
        return ref_role(cx, st, name, VAR, 'mut')
    if ty == 'void const*':
        n = cx.ghost('datasize', 0, PTRDIFF)
        if opts.get('alias'):
            # the value is the variant's own data
            v = [o for o in cx.args_so_far.values()][0]
            (s, d), = cx.fld(st.copy(), 'HarbolVariant', 'data', v.rid)[:1]
            if d[0] != 'p' or d[1] == 0 or not s.assume(EQ, sub(n, s.mem[d[1]].size)):
                return []
            return [(s, d, None)]
        rid = cx.region(st, 'param', n, Base('opaque'), name=name, const=True)
        return [(st, VP(rid), None)]
    if name == 'datasize':
        return [(st, ('i', 64, cx.ghost('datasize'), 'u'), None)]
    if ty == '_Bool*':
        rid = cx.region(st, 'param', K(1), Base('uninit'), name=name)
        return [(st, VP(rid), Obj(name, None, rid, ZERO, 'res'))]
    return scalar(cx, st, name, ty)


SPECS = {}
MODULE = 'variant'


def spec(name, **kw):
    SPECS['harbol_variant_' + name] = dict(roles=roles, **kw)


def A(P, i):
    return P.eng.toU(P.st, P.args[i])


def holds_value(P, rid, off, vi, ni, ti=None):
    cx = P.cx
    (s, d), = cx.fld(P.st.copy(), 'HarbolVariant', 'data', rid, off)[:1]
    (s, n), = cx.fld(s, 'HarbolVariant', 'size', rid, off)[:1]
    P.eq('count', 'size', P.eng.toU(P.st, n), A(P, ni), 'the recorded size is not that of the value')
    P.same_bytes('content', 'value', d, ZERO, P.args[vi][1], P.args[vi][2], A(P, ni), 'the bytes held are not those of the value')
    if ti is not None:
        (s, t), = cx.fld(P.st.copy(), 'HarbolVariant', 'tag', rid, off)[:1]
        if not val_same(P.eng, P.st, t, P.args[ti]):
            P.fail('content', 'tag', 'the tag stored is not the one given')


def p_init(P):
    if P.ok:
        holds_value(P, P.objs['variant'].rid, ZERO, 1, 2, 3)


def p_new(P):
    if P.ok:
        VAR.check(P.cx, P, P.st, P.ret[1], P.ret[2], 'result')
        holds_value(P, P.ret[1], P.ret[2], 0, 1, 2)


def p_make(P):
    o = P.objs['res']
    for s, v in P.cx.get(P.st.copy(), o.rid, ZERO, {'k': 'i', 'b': 8}):
        if v[0] == 'undef':
            P.at(s).fail('status', 'res', 'does not report whether it succeeded')
            continue
        for s2, v2 in [(s, v)]:
            VAR.check(P.cx, P.at(s2), s2, P.sret, ZERO, 'result')
            for Q in P.at(s2).cases((GE, addc(P.eng.toU(s2, v2), -1))):
                holds_value(Q, P.sret, ZERO, 1, 2, 3)


def p_set(P):
    if P.ok:
        holds_value(P, P.objs['variant'].rid, ZERO, 1, 2)
    P.eq('content', 'tag', P.f1('variant', 'tag'), P.f0('variant', 'tag'), 'setting the value must keep the tag')


def p_clear(P):
    if P.f1('variant', 'data') != NULLP:
        P.fail('inv', 'null', 'clearing must drop the data')
    P.eq('count', 'size', P.f1('variant', 'size'), ZERO, 'clearing must leave no size')


def p_get(f):
    def post(P):
        v = P.f0('variant', f)
        if f == 'data':
            if not val_same(P.eng, P.st, P.ret, v):
                P.fail('retval', 'data', 'does not return the data')
        elif f == 'tag':
            P.eq('retval', 'tag', P.eng.toU(P.st, P.ret), v, 'does not return the tag')
        else:
            P.eq('retval', f, P.retu(), v, 'does not return the %s' % f)
    return post


def p_free(P):
    o = [x for x in P.objs.values()][0]
    for s, v in P.cx.get(P.st.copy(), o.rid, o.off, TP):
        if v != NULLP:
            P.at(s).fail('inv', 'freed', 'freeing must reset the caller\'s pointer')


spec('new', post=p_new)
spec('make', post=p_make)
spec('init', post=p_init, variants=[{'mode': 'out'}])
spec('clear', post=p_clear)
spec('free', post=p_free)
spec('data', post=p_get('data'), status=status_none)
spec('size', post=p_get('size'))
spec('tag', post=p_get('tag'))
spec('set', post=p_set, variants=[{}, {'alias': True}])
