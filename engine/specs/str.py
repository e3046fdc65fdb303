from spec import *


class StrShape(Shape):
    """cstr: NULL (then len == 0) or one block of more than len bytes with a NUL at index len"""
    struct = 'HarbolString'

    def fill(self, cx, st, rid, off, name, mode):
        C, L = (cx.p.off(self.struct, f) for f in ('cstr', 'len'))
        s0 = st.copy()
        cx.put(s0, rid, addc(off, C), 8, NULLP)
        cx.put(s0, rid, addc(off, L), 8, VI(64, ZERO))
        if mode == 'out':
            return [s0]
        s = st.copy()
        ln = u64(name + '.len', 0, PTRDIFF - 1)
        size = newsym(name + '.size', 1, PTRDIFF)
        s.cons.addrow(GE, addc(sub(size, ln[2]), -1))
        base = Base('strbuf' if cx.opts.get('embedded') else 'cstr', len=ln[2])
        t = cx.region(s, 'heap', size, base, name=name + '->cstr', of=rid, noleak=(mode == 'shell'))
        cx.put(s, rid, addc(off, C), 8, VP(t))
        cx.put(s, rid, addc(off, L), 8, ln)
        return [s0, s]

    def check(self, cx, P, st, rid, off, name):
        for s1, t in cx.fld(st.copy(), self.struct, 'cstr', rid, off):
            for s2, ln in cx.fld(s1, self.struct, 'len', rid, off):
                Q = P.at(s2)
                if 'undef' in (t[0], ln[0]):
                    Q.fail('inv', 'inv:uninit', '%s is left with uninitialised fields' % name)
                    continue
                l = cx.eng.toU(s2, ln)
                if t[0] == 'p' and t[1] == 0:
                    Q.prove('inv', 'inv:null-len', neg(l), '%s: no text but a non-zero length' % name)
                    continue
                if t[0] != 'p' or t[1] <= 0:
                    Q.fail('inv', 'inv:cstr', '%s: the text is not an allocation' % name)
                    continue
                r = s2.mem[t[1]]
                if r.live != 1 or r.kind != 'heap' or not s2.eq(t[2], ZERO):
                    Q.fail('inv', 'inv:cstr', '%s: the text pointer is stale' % name)
                    continue
                if not Q.prove('inv', 'inv:size', addc(sub(r.size, l), -1), '%s: the text has no room for its length and the terminator' % name):
                    continue
                P.entry.obligations += 1
                if not is_zero_at(cx.eng, s2, r.content, l, t[1]):
                    Q.fail('inv', 'inv:nul', '%s: no NUL terminator at the stored length' % name)
                elif not cx.opts.get('embedded') and not cx.opts.get('noclean') and not getattr(self, 'loose', False):
                    no_nul(Q, t, ZERO, l, name)


    def logical_same(self, cx, P, o):
        l0, l1 = P.f0(o.name, 'len'), P.f1(o.name, 'len')
        return P.st.eq(l0, l1) and bytes_same(P, P.f0(o.name, 'cstr'), P.f1(o.name, 'cstr'), l0)


def no_nul(Q, t, lo, l, name):
    """no byte of [lo, l) is NUL: the stored length is what strlen reports"""
    Q.entry.obligations += 1
    s = Q.st.copy()
    k = newsym('k', 0, PTRDIFF)
    if not (s.assume(GE, sub(k, lo)) and s.assume(GE, addc(sub(l, k), -1))):
        return
    eng = Q.eng
    eng.silent += 1
    try:
        good = all(w[0] == 'i' and s2.cons.prove_ne(eng.toU(s2, w), ZERO)
                   for s2, w in eng.read(s, s.mem[t[1]].content, add(t[2], k), 1, T8_, t[1]))
    finally:
        eng.silent -= 1
    if not good:
        Q.fail('inv', 'inv:strlen', '%s: the stored length is not the length of the text' % name)


STR = StrShape()


def cstr_arg(cx, st, name, null=True):
    out = []
    if null:
        out.append((st.copy(), NULLP, None))
    ln = newsym('strlen(%s)' % name, 0, PTRDIFF - 1)
    rid = cx.region(st, 'param', addc(ln, 1), Base('cstr', len=ln), name=name, const=True)
    cx.g['len:' + name] = ln
    out.append((st, VP(rid), None))
    return out


def va_arg_role(cx, st, name):
    rid = cx.region(st, 'param', K(24), Base('opaque'), name=name)
    a = cx.region(st, 'user', None, Base('opaque'), name='variadic arguments')
    cx.put(st, rid, 0, 4, VI(32, K(48)))
    cx.put(st, rid, 4, 4, VI(32, K(304)))
    cx.put(st, rid, 8, 8, VP(a))
    cx.put(st, rid, 16, 8, VP(a))
    return [(st, VP(rid), None)]


def file_role(cx, st, name):
    rid = cx.region(st, 'file', None, Base('opaque'), name=name, noleak=True)
    return [(st, VP(rid), None)]


NONNULL = {'fmt', 'to_replace', 'with', 'occurrence', 'filename'}


def roles(cx, st, name, ty, fn, opts):
    if ty == 'struct HarbolString*':
        mode = 'out' if fn.base in ('harbol_string_init', 'harbol_string_copy_cstr_init') else 'mut'
        return [(s, VP(o.rid), o) for s, o in STR.new(cx, st, name, mode)]
    if ty == 'struct HarbolString const*':
        prev = cx.args_so_far.get('strA')
        if name == 'strB' and prev is not None and opts.get('alias'):
            return [(st, VP(prev.rid), None)]
        return [(s, VP(o.rid), o) for s, o in STR.new(cx, st, name, 'const')]
    if ty in ('struct HarbolString* const*', 'struct HarbolString**'):
        return ref_role(cx, st, name, STR, 'mut')
    if ty in ('char const*', 'char*') and 'out' not in name:
        return cstr_arg(cx, st, name, null=name not in NONNULL)
    if ty == 'struct __va_list_tag*':
        return va_arg_role(cx, st, name)
    if ty in ('struct _IO_FILE*', 'FILE*'):
        return file_role(cx, st, name)
    if ty == '_Bool*':
        rid = cx.region(st, 'param', ONE, Base('opaque'), name=name)
        return [(st, VP(rid), None)]
    if name == 'offsets':
        n = cx.ghost('offsets_len', 0, PTRDIFF >> 3)
        rid = cx.region(st, 'param', scale(n, 8), Base('opaque'), name=name)
        return [(st, VP(rid), None)]
    if name == 'offsets_len':
        return [(st, ('i', 64, cx.ghost('offsets_len', 0, PTRDIFF >> 3), 'u'), None)]
    return scalar(cx, st, name, ty)


SPECS = {}
MODULE = 'str'
CLEAN, EMB = {}, {'embedded': True}


def spec(name, **kw):
    kw.setdefault('variants', [CLEAN, EMB])
    SPECS['harbol_string_' + name] = dict(roles=roles, **kw)


def slen(P, i):
    a = P.args[i]
    return P.e.mem[a[1]].content.len if a[0] == 'p' and a[1] > 0 else ZERO


def A(P, i):
    return P.eng.toU(P.st, P.args[i])


def clean(P):
    return not P.cx.opts.get('embedded')


def text0(P, o):
    return P.f0(o, 'cstr')


def keeps(P, o, n=None, key='keep'):
    t0, t1 = P.f0(o, 'cstr'), P.f1(o, 'cstr')
    if t0[1] == 0:
        return
    P.same_bytes('content', key, t1, ZERO, t0[1], ZERO, P.f0(o, 'len') if n is None else n, '%s: the text before the change was altered' % o)


def same_len(P, o='str'):
    P.eq('count', 'len', P.f1(o, 'len'), P.f0(o, 'len'), '%s: the length changed' % o)


def is_text(P, t, lexp, arg, n, what):
    """t holds exactly the argument string"""
    P.eq('count', 'len', lexp, n, '%s: the length is not that of the text' % what)
    P.same_bytes('content', 'text', t, ZERO, arg[1], ZERO, n, '%s: the text is not the one given' % what)


def p_assign(o):
    def post(P):
        a = P.args[-1] if P.sret is None else P.args[1]
        if P.ok and a[1] > 0:
            is_text(P, P.f1(o, 'cstr'), P.f1(o, 'len'), a, slen(P, 1), o)
        elif P.ok:
            P.fail('status', 'nulltext', 'reports success without a text')
    return post


def p_new(P):
    if not P.ok:
        return
    STR.check(P.cx, P, P.st, P.ret[1], P.ret[2], 'result')
    a = P.args[0]
    (s, t), = P.cx.fld(P.st.copy(), 'HarbolString', 'cstr', P.ret[1])
    (s, l), = P.cx.fld(s, 'HarbolString', 'len', P.ret[1])
    l = P.eng.toU(s, l)
    if a[1] > 0:
        P.eq('count', 'len', l, slen(P, 0), 'the new string does not have the length of its text')
        if t[1] > 0:
            P.same_bytes('content', 'text', t, ZERO, a[1], ZERO, slen(P, 0), 'the new string does not hold the text given')
    else:
        P.eq('count', 'len', l, ZERO, 'a string made of nothing must be empty')


def p_make(P):
    t, l = P.ret[1]
    l = P.eng.toU(P.st, l)
    n = slen(P, 0)
    rid = P.args[1][1]
    for s2, r in P.cx.get(P.st.copy(), rid, 0, {'k': 'i', 'b': 8}):
        Q = P.at(s2)
        if r[0] == 'undef':
            Q.fail('status', 'res', 'the result flag is not set')
            continue
        if t[1] > 0:
            Q.prove('status', 'res', addc(P.eng.toU(s2, r), -1), 'the flag reports failure although the string was made')
            Q.same_bytes('content', 'text', t, ZERO, P.args[0][1], ZERO, n, 'the new string does not hold the text given')
            Q.eq('count', 'len', l, n, 'the new string does not have the length of its text')
            if not is_zero_at(P.eng, s2, s2.mem[t[1]].content, l, t[1]):
                Q.fail('inv', 'inv:nul', 'no NUL terminator at the stored length')
        else:
            Q.eq('status', 'res', P.eng.toU(s2, r), ZERO, 'the flag reports success although the string was not made')
            Q.eq('count', 'len', l, ZERO, 'no text but a non-zero length')


def p_clear(P):
    P.eq('count', 'len', P.f1('str', 'len'), ZERO, 'clearing must leave no length')
    if P.f1('str', 'cstr') != NULLP:
        P.fail('inv', 'null', 'clearing must drop the text')


def p_free(P):
    o = P.objs['strref']
    for s, v in P.cx.get(P.st.copy(), o.rid, o.off, TP):
        if v != NULLP:
            P.at(s).fail('inv', 'freed', 'freeing must reset the caller\'s pointer')


def p_ret_text(P):
    if P.ret != P.f0('str', 'cstr'):
        P.fail('retval', 'cstr', 'does not return the text')


def p_len(P):
    P.eq('retval', 'len', P.retu(), P.f0('str', 'len'), 'does not return the length')


def p_add_char(P):
    if P.ok:
        l0 = P.f0('str', 'len')
        P.eq('count', 'len+1', P.f1('str', 'len'), addc(l0, 1), 'appending a character must raise the length by one')
        keeps(P, 'str')
        byte_is(P, P.f1('str', 'cstr'), l0, P.args[1], 'the appended character is not the one given')


def byte_is(P, t, off, v, msg):
    P.entry.obligations += 1
    eng = P.eng
    eng.silent += 1
    try:
        good = t[1] > 0 and all(val_same(eng, s, eng.trunc(s, v, 8) if v[1] != 8 else v, w) for s, w in eng.read(P.st.copy(), P.st.mem[t[1]].content, add(t[2], off), 1, T8_, t[1]))
    finally:
        eng.silent -= 1
    if not good:
        P.fail('content', 'char', msg)


def p_add_rep(P):
    if P.ok:
        l0 = P.f0('str', 'len')
        P.eq('count', 'len+n', P.f1('str', 'len'), add(l0, A(P, 2)), 'appending characters must raise the length by their number')
        keeps(P, 'str')
        k = newsym('k', 0, PTRDIFF)
        for Q in P.cases((GE, addc(sub(A(P, 2), k), -1))):
            byte_is(Q, P.f1('str', 'cstr'), add(l0, k), P.args[1], 'an appended character is not the one given')


def p_add_str(P):
    if P.ok:
        src = 'strB' if 'strB' in P.objs else 'strA'
        la, lb = P.f0('strA', 'len'), P.f0(src, 'len')
        P.eq('count', 'len+n', P.f1('strA', 'len'), add(la, lb), 'the length must grow by that of the appended string')
        keeps(P, 'strA')
        P.same_bytes('content', 'added', P.f1('strA', 'cstr'), la, P.f0(src, 'cstr')[1], ZERO, lb, 'the text appended is not that of the source')


def p_add_cstr(P):
    if P.ok:
        la, lb = P.f0('str', 'len'), slen(P, 1)
        P.eq('count', 'len+n', P.f1('str', 'len'), add(la, lb), 'the length must grow by that of the appended text')
        if clean(P):
            keeps(P, 'str')
            P.same_bytes('content', 'added', P.f1('str', 'cstr'), la, P.args[1][1], ZERO, lb, 'the text appended is not the one given')


def p_copy_str(P):
    if P.ok and 'strB' in P.objs:
        lb = P.f0('strB', 'len')
        P.eq('count', 'len', P.f1('strA', 'len'), lb, 'a copy must have the length of its source')
        P.same_bytes('content', 'text', P.f1('strA', 'cstr'), ZERO, P.f0('strB', 'cstr')[1], ZERO, lb, 'the copy does not hold the text of its source')
    elif P.ok:
        same_len(P, 'strA')
        keeps(P, 'strA')


def p_format(P):
    r = P.eng.toS(P.st, P.ret)
    for Q in P.cases((GE, r)):
        n = r
        # clear keeps nothing, otherwise the text is appended
        for cl in (1, 0):
            for Q2 in Q.cases((EQ, addc(A(P, 1), -cl))):
                old = ZERO if cl else P.f0('str', 'len')
                Q2.eq('count', 'len', Q2.f1('str', 'len'), add(old, n), 'the length must be that of the text kept and the text formatted')
                if not cl:
                    keeps(Q2, 'str')


def fmt_status(eng, st, v, dt):
    out = []
    e = eng.toS(st, v)
    s = st.copy()
    if s.assume(GE, addc(neg(e), -1)):
        out.append((s, v, False))
    s = st.copy()
    if s.assume(GE, e):
        out.append((s, v, True))
    return out


def p_empty(P):
    if clean(P):
        l0 = P.f0('str', 'len')
        if P.ok:
            P.eq('retval', 'empty', l0, ZERO, 'reports empty although there is text')
        else:
            P.prove('retval', 'empty', addc(l0, -1), 'reports text although there is none')


def p_read(P):
    if P.ok:
        pass


def p_case_map(P):
    same_len(P)
    if not P.ok:
        keeps(P, 'str')


def p_reverse(P):
    same_len(P)


def p_count(P):
    P.prove('retval', 'count', sub(addc(P.f0('str', 'len'), 1), P.retu()), 'counts more than there are characters')


def p_count_cstr(P):
    P.prove('retval', 'count', sub(P.f0('str', 'len'), P.retu()), 'counts more than there are characters')
    if P.f0('str', 'cstr')[1]:
        P.prove('retval', 'count-overlap', sub(P.f0('str', 'len'), mul(P.retu(), slen(P, 1))), 'counts occurrences that overlap: together they are longer than the text')


def p_rm(P):
    r = P.retu()
    P.prove('retval', 'count', sub(P.f0('str', 'len'), r), 'reports more removals than there are characters')
    if clean(P):
        P.eq('count', 'len-n', P.f1('str', 'len'), sub(P.f0('str', 'len'), r), 'the length must drop by the number of characters removed')


def p_find(P):
    r = P.retu()
    for Q in P.cases((GE, sub(K(M64 - 1), r))):
        Q.prove('retval', 'index', sub(P.f0('str', 'len'), r), 'the index lies outside the text')
        if P.f0('str', 'cstr')[1]:
            byte_is_at(Q, P.f0('str', 'cstr'), r, P.args[1], 'the character at the returned index is not the one searched for')


def byte_is_at(Q, t, off, v, msg):
    byte_is(Q, t, off, v, msg)


def p_replace_range(P):
    """text[lower..upper] (clipped to the last character) is replaced"""
    l0, lo, up = P.f0('str', 'len'), A(P, 1), A(P, 2)
    if not P.ok:
        return
    P.prove('status', 'range', addc(sub(l0, lo), -1), 'accepts a range that starts outside the text')
    w = slen(P, 3)
    t0, t1 = P.f0('str', 'cstr'), P.f1('str', 'cstr')
    P.same_bytes('content', 'before', t1, ZERO, t0[1], ZERO, lo, 'the text before the range was altered')
    if t1[1] <= 0:
        return
    P.same_bytes('content', 'with', t1, lo, P.args[3][1], ZERO, w, 'the replacement is not in the place of the range')
    for Q in P.cases((GE, addc(sub(l0, up), -1))):
        Q.eq('count', 'len', P.f1('str', 'len'), sub(add(l0, w), addc(sub(up, lo), 1)), 'the length does not account for the replaced range')
        Q.same_bytes('content', 'after', t1, add(lo, w), t0[1], addc(up, 1), sub(l0, addc(up, 1)), 'the text after the range was altered')
    for Q in P.cases((GE, sub(up, l0))):
        Q.eq('count', 'len', P.f1('str', 'len'), add(lo, w), 'replacing to the end must keep only the text before the range and the replacement')


def p_offsets(P):
    pass


AL = [CLEAN, EMB, {'alias': True}, {'alias': True, 'embedded': True}]
spec('new', post=p_new, variants=[CLEAN])
spec('make', post=p_make, variants=[CLEAN])
spec('init', post=p_assign('str'), variants=[CLEAN])
spec('clear', post=p_clear)
spec('free', post=p_free, dead=('*strref',))
spec('cstr', post=p_ret_text, status=status_none)
spec('mut_cstr', post=p_ret_text, status=status_none)
spec('len', post=p_len)


def no_nul_char(cx, st, args, objs, fn):
    if not st.assume(NE, cx.eng.toU(st, args[1])):
        return None
    return st


spec('add_char', post=p_add_char, pre=no_nul_char)
spec('add_char_rep', post=p_add_rep, pre=no_nul_char)
spec('add_str', post=p_add_str, variants=AL)
spec('add_cstr', post=p_add_cstr)
spec('copy_str', post=p_copy_str, variants=AL)
spec('copy_cstr', post=p_assign('str'))
spec('format', post=p_format, status=fmt_status, fail_exempt=())
spec('format_va', post=p_format, status=fmt_status)
spec('scan', status=status_none)
spec('scan_va', status=status_none)
spec('cmpcstr', status=status_none)
spec('cmpstr', status=status_none, variants=AL)
spec('empty', post=p_empty)
spec('is_palindrome')
spec('read_from_file', variants=[EMB])
spec('read_file', variants=[EMB])
spec('replace_char', post=p_case_map)


def not_shorter(cx, st, args, objs, fn):
    """the bounds for a replacement shorter than what it replaces rest on the search finding again
    what it counted; only the other case is decided"""
    w, r = st.mem[args[2][1]].content.len, st.mem[args[1][1]].content.len
    return st if st.assume(GE, sub(w, r)) else None


def p_replace_cstr(P):
    if P.ok:
        P.prove('count', 'len>=', sub(P.f1('str', 'len'), P.f0('str', 'len')), 'a longer replacement must not shorten the text')


spec('replace_cstr', pre=not_shorter, post=p_replace_cstr, variants=[{'noclean': True}, EMB])
spec('count_char', post=p_count)
spec('count_cstr', post=p_count_cstr)
spec('cstr_offsets', post=p_offsets)
spec('upper', post=p_case_map)
spec('lower', post=p_case_map)
spec('reverse', post=p_reverse)
spec('rm_char', post=p_rm)
spec('trim_spaces', post=p_rm)
spec('find_char', post=p_find)
spec('replace_range', post=p_replace_range)
