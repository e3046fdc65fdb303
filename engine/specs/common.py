"""The inline helpers of the common header and the header-only random generator."""
from spec import *
from specs.str import cstr_arg, va_arg_role, file_role
from specs.tuple import heap_block
from models import strlen_of, is_zero_at

SPECS = {}
MODULE = 'common'


def spec(name, roles=None, **kw):
    SPECS[name] = dict(roles=roles or plain, **kw)


def A(P, i):
    return P.eng.toU(P.st, P.args[i])


def plain(cx, st, name, ty, fn, opts):
    return scalar(cx, st, name, ty)


def N(cx, name):
    return ('i', 64, cx.ghost(name, 0, PTRDIFF), 'u')


def outvar(cx, st, name, n=8, base='uninit'):
    rid = cx.region(st, 'param', K(n), Base(base), name=name)
    return [(st, VP(rid), Obj(name, None, rid, ZERO, 'res'))]


def deref(P, i, t=T64):
    """what argument i points to now"""
    return P.cx.get(P.st.copy(), P.args[i][1], P.args[i][2], t)


# ------------------------------------------------------------------ copies of data
def data_roles(cx, st, name, ty, fn, opts):
    if name == 'bytes' or name == 'len':
        return [(st, N(cx, 'n'), None)]
    if name == 'data' or name == 'src' and not opts.get('c0'):
        rid = cx.region(st, 'param', cx.ghost('n', 0, PTRDIFF), Base('opaque'), name=name, const=True)
        return [(st, VP(rid), None)]
    if name == 'dest':
        rid = cx.region(st, 'param', cx.ghost('n', 0, PTRDIFF), Base('opaque'), name=name)
        return [(st, VP(rid), None)]
    if name == 'c' and opts.get('c0'):
        return [(st, VI(32, ZERO), None)]
    if name == 'cstr' or name == 'src' and opts.get('c0'):
        L = newsym('strlen', 0, PTRDIFF - 1)
        if name == 'src':
            out = []
            L = cx.ghost('L', 0, PTRDIFF - 1)
            for k in (0, 1):
                s = st.copy()
                n = cx.ghost('n', 0, PTRDIFF)
                # the text ends inside the data, or only behind it
                if not (s.assume(GE, addc(sub(n, L), -1)) if k else s.assume(EQ, sub(n, L))):
                    continue
                rid = cx.region(s, 'param', n if k else addc(L, 1), Base('cstr', len=L), name=name, const=True)
                out.append((s, VP(rid), None))
            return out
        if not st.assume(GE, sub(cx.ghost('n', 0, PTRDIFF), L)):
            return []
        cx.g['L'] = L
        rid = cx.region(st, 'param', addc(L, 1), Base('cstr', len=L), name=name, const=True)
        return [(st, VP(rid), None)]
    return scalar(cx, st, name, ty)


def p_dup(P):
    if P.ok:
        if not heap_block(P.st, P.ret):
            P.fail('retval', 'block', 'does not return a block of its own')
            return
        P.prove('retval', 'size', sub(P.st.mem[P.ret[1]].size, A(P, 1)), 'the copy is too small')
        P.same_bytes('content', 'copy', P.ret, ZERO, P.args[0][1], P.args[0][2], A(P, 1), 'the copy differs from the data')


def p_dupcstr(P):
    if P.ok:
        if not heap_block(P.st, P.ret):
            P.fail('retval', 'block', 'does not return a block of its own')
            return
        P.same_bytes('content', 'copy', P.ret, ZERO, P.args[1][1], P.args[1][2], addc(P.cx.g['L'], 1), 'the copy differs from the text')


def p_mempcpy(P):
    P.same_bytes('content', 'copy', P.args[0], ZERO, P.args[1][1], P.args[1][2], A(P, 2), 'the copy differs from the data')
    if not (P.ret[0] == 'p' and P.ret[1] == P.args[0][1] and P.st.eq(P.ret[2], add(P.args[0][2], A(P, 2)))):
        P.fail('retval', 'end', 'does not return the place after the copy')


def p_memccpy(P):
    if P.cx.opts.get('c0'):
        L, n = P.cx.g['L'], A(P, 3)
        for Q in P.cases((GE, addc(sub(n, L), -1))):
            if P.ret[0] != 'p' or P.ret[1] != P.args[0][1] or not Q.st.eq(P.ret[2], addc(L, 1)):
                Q.fail('retval', 'end', 'does not return the place after the first byte looked for')
        for Q in P.cases((EQ, sub(n, L))):
            if P.ret != NULLP:
                Q.fail('retval', 'absent', 'returns a place although the byte looked for does not occur')
    if P.ret == NULLP:
        P.same_bytes('content', 'copy', P.args[0], ZERO, P.args[1][1], P.args[1][2], A(P, 3), 'the copy differs from the data')
        return
    if P.ret[0] != 'p' or P.ret[1] != P.args[0][1]:
        P.fail('retval', 'end', 'does not return a place in the copy')
        return
    P.prove('retval', 'end', sub(A(P, 3), P.ret[2]), 'returns a place behind the data')
    P.same_bytes('content', 'copy', P.args[0], ZERO, P.args[1][1], P.args[1][2], P.ret[2], 'the copy differs from the data')


spec('dup_data', data_roles, post=p_dup)
spec('dup_cstr', data_roles, post=p_dupcstr)
spec('harbol_mempcpy', data_roles, post=p_mempcpy, status=status_none)
spec('harbol_memccpy', data_roles, post=p_memccpy, status=status_none, variants=[{}, {'c0': 1}])


# ------------------------------------------------------------------ resizing
def re_roles(cx, st, name, ty, fn, opts):
    d = cx.ghost('element_size', 0, PTRDIFF)
    old = cx.ghost('old_size', 0, PTRDIFF)
    if name == 'arr':
        out = [(st.copy(), NULLP, None)]
        st.cons.addrow(GE, sub(K(PTRDIFF), mul(d, old)))
        st.cons.addrow(GE, mul(d, old))
        rid = cx.region(st, 'heap', mul(old, d), Base('opaque'), name=name, noleak=True)
        out.append((st, VP(rid), None))
        return out
    if name in ('element_size', 'old_size'):
        return [(st, ('i', 64, cx.ghost(name, 0, PTRDIFF), 'u'), None)]
    return scalar(cx, st, name, ty)


def p_recalloc(P):
    d, new, old = A(P, 2), A(P, 1), A(P, 3)
    arr = P.args[0]
    if P.ok is False:
        if arr != NULLP and (P.st.mem[arr[1]].live != 1 or not content_same(P.eng, P.e, P.st, arr[1])):
            P.fail('status', 'lost', 'reports failure but the old storage was released or changed')
        return
    if not heap_block(P.st, P.ret):
        P.fail('retval', 'block', 'does not return an allocation')
        return
    P.prove('retval', 'size', sub(P.st.mem[P.ret[1]].size, mul(d, new)), 'the new storage is too small')
    if arr != NULLP and P.ret[1] != arr[1] and P.st.mem[arr[1]].live == 1:
        P.fail('leak', 'old', 'the old storage is kept although there is new storage')
    if arr == NULLP:
        P.zero_bytes('content', 'zero', P.ret, ZERO, mul(d, new), 'new storage is not zeroed')
        return
    for Q in P.cases((GE, sub(old, new))):
        Q.same_bytes('content', 'kept', P.ret, ZERO, arr[1], ZERO, mul(d, new), 'the elements kept changed')
    for Q in P.cases((GE, addc(sub(new, old), -1))):
        Q.same_bytes('content', 'kept', P.ret, ZERO, arr[1], ZERO, mul(d, old), 'the elements kept changed')
        Q.zero_bytes('content', 'zero', P.ret, mul(d, old), mul(d, sub(new, old)), 'the elements added are not zeroed')


spec('harbol_recalloc', re_roles, post=p_recalloc)


def rs_roles(cx, st, name, ty, fn, opts):
    ln = cx.ghost('oldlen', 0, PTRDIFF - 1)
    if name == 'cstr':
        out = []
        s = st.copy()
        if s.assume(EQ, ln):
            out.append((s, NULLP, None))
        rid = cx.region(st, 'heap', addc(ln, 1), Base('cstr', len=ln), name=name, noleak=True)
        out.append((st, VP(rid), None))
        return out
    if name == 'bytes':
        return [(st, VI(64, ONE), None)]
    if name == 'len':
        rid = cx.region(st, 'param', K(8), Base('opaque'), name=name)
        cx.put(st, rid, 0, 8, ('i', 64, ln, 'u'))
        return [(st, VP(rid), Obj(name, None, rid, ZERO, 'mut'))]
    return scalar(cx, st, name, ty)


def p_resize_string(P):
    old = P.cx.g['oldlen']
    for s, v in deref(P, 2):
        Q = P.at(s)
        Q.eq('count', 'len', P.eng.toU(s, v), A(P, 3) if P.ok else old, 'the length must become the one asked for exactly when resizing succeeds')
    if not P.ok:
        if P.args[0] != NULLP and P.st.mem[P.args[0][1]].live != 1:
            P.fail('status', 'lost', 'reports failure but the old text was released')
        return
    new = A(P, 3)
    if not heap_block(P.st, P.ret):
        P.fail('retval', 'block', 'does not return an allocation')
        return
    if not P.prove('retval', 'size', addc(sub(P.st.mem[P.ret[1]].size, new), -1), 'the new text has no room for its terminator'):
        return
    for Q in P.cases((GE, sub(new, old))):
        if not is_zero_at(P.eng, Q.st, Q.st.mem[P.ret[1]].content, new, P.ret[1]):
            Q.fail('content', 'nul', 'the grown text is not terminated')
        if P.args[0] != NULLP:
            Q.same_bytes('content', 'kept', P.ret, ZERO, P.args[0][1], ZERO, old, 'the text changed')
    for Q in P.cases((GE, sub(old, new))):
        if P.args[0] != NULLP:
            Q.same_bytes('content', 'kept', P.ret, ZERO, P.args[0][1], ZERO, new, 'the text changed')


spec('harbol_resize_string', rs_roles, post=p_resize_string)


# ------------------------------------------------------------------ several buffers at once
SIZES = (1, 8, 4)


def buf_start(kind):
    def pre(cx, st, args, objs, fn):
        n = cx.opts['n']
        cx.g['bufs'] = []
        va = []
        olds = cx.ghost('old', 0, PTRDIFF // 8)
        for k in range(n):
            w = SIZES[k % 3]
            rid = cx.region(st, 'param', K(8), Base('opaque'), name='*buf%d' % k)
            if kind == 'calloc':
                old = None
                cx.put(st, rid, 0, 8, NULLP)
            elif cx.opts.get('null'):
                old = None
                cx.put(st, rid, 0, 8, NULLP)
            else:
                old = cx.region(st, 'heap', scale(olds, w), Base('opaque'), name='buf%d' % k, noleak=True)
                cx.put(st, rid, 0, 8, VP(old))
            cx.g['bufs'].append((rid, w, old))
            if kind == 'cleanup' and cx.opts.get('stop') == k:
                # a missing variable ends the list
                cx.g['bufs'].pop()
                va.append(NULLP)
                break
            va.append(VP(rid))
            if kind != 'cleanup':
                va.append(VI(64, K(w)))
        cx.g['va'] = va
        return st
    return pre


def buf_roles(cx, st, name, ty, fn, opts):
    if name == 'n_buffers':
        return [(st, VI(64, K(opts['n'])), None)]
    if name == 'old_size':
        v = ('i', 64, cx.ghost('old', 0, PTRDIFF // 8), 'u')
        if opts.get('null') and not st.assume(EQ, v[2]):
            return []
        return [(st, v, None)]
    return scalar(cx, st, name, ty)


def va(cx, st):
    return cx.g['va']


def buf_values(P):
    out = [(P.st.copy(), [])]
    for rid, w, old in P.cx.g['bufs']:
        out = [(s2, vs + [v]) for s, vs in out for s2, v in P.cx.get(s, rid, ZERO, TP)]
    return out


def p_multi_calloc(P):
    for s, vs in buf_values(P):
        Q = P.at(s)
        for (rid, w, old), v in zip(P.cx.g['bufs'], vs):
            if not P.ok:
                if v != NULLP:
                    Q.fail('inv', 'null', 'reports failure but a buffer is left behind')
                continue
            if not heap_block(s, v):
                Q.fail('inv', 'block', 'reports success but a buffer is missing')
                continue
            Q.prove('inv', 'size', sub(s.mem[v[1]].size, scale(A(P, 0), w)), 'a buffer is too small')
            Q.zero_bytes('content', 'zero', v, ZERO, scale(A(P, 0), w), 'a new buffer is not zeroed')
        if P.ok and len({v[1] for v in vs}) != len(vs):
            Q.fail('inv', 'shared', 'two buffers share storage')
        if not P.ok:
            for r in s.mem.values():
                if r.kind == 'heap' and r.live == 1 and r.attr.get('site') != 'entry':
                    Q.fail('leak', 'lost', 'a buffer allocated here is never freed')


def p_multi_recalloc(P):
    new, old0 = A(P, 0), A(P, 1)
    for s, vs in buf_values(P):
        Q = P.at(s)
        for (rid, w, old), v in zip(P.cx.g['bufs'], vs):
            if not P.ok:
                if v != (NULLP if old is None else VP(old)) or old is not None and s.mem[old].live != 1:
                    Q.fail('status', 'lost', 'reports failure but a buffer was replaced or released')
                continue
            if not heap_block(s, v):
                Q.fail('inv', 'block', 'reports success but a buffer is missing')
                continue
            Q.prove('inv', 'size', sub(s.mem[v[1]].size, scale(new, w)), 'a buffer is too small')
            if old is None:
                continue
            if v != VP(old) and s.mem[old].live == 1:
                Q.fail('leak', 'old', 'an old buffer is never freed')
            for R in Q.cases((GE, sub(old0, new))):
                R.same_bytes('content', 'kept', v, ZERO, old, ZERO, scale(new, w), 'the contents of a buffer changed')
            for R in Q.cases((GE, sub(new, old0))):
                R.same_bytes('content', 'kept', v, ZERO, old, ZERO, scale(old0, w), 'the contents of a buffer changed')
                R.zero_bytes('content', 'zero', v, scale(old0, w), scale(sub(new, old0), w), 'the part added to a buffer is not zeroed')


def p_multi_cleanup(P):
    for s, vs in buf_values(P):
        for (rid, w, old), v in zip(P.cx.g['bufs'], vs):
            if v != NULLP:
                P.at(s).fail('inv', 'null', 'the variable of a freed buffer is not reset')
            if old is not None and s.mem[old].live == 1:
                P.at(s).fail('leak', 'kept', 'a buffer given is not freed')


spec('harbol_multi_calloc', buf_roles, pre=buf_start('calloc'), varargs=va, post=p_multi_calloc, variants=[{'n': k} for k in (0, 1, 2, 3)])
spec('harbol_multi_recalloc', buf_roles, pre=buf_start('recalloc'), varargs=va, post=p_multi_recalloc, variants=[{'n': k, 'null': z} for k in (1, 2, 3) for z in (0, 1)])
spec('harbol_multi_cleanup', buf_roles, pre=buf_start('cleanup'), varargs=va, post=p_multi_cleanup, variants=[{'n': k, 'null': z} for k in (0, 1, 2, 3) for z in (0, 1)] + [{'n': 3, 'stop': k} for k in (0, 1, 2)])


def cl_roles(cx, st, name, ty, fn, opts):
    out = []
    for k in (0, 1):
        s = st.copy()
        rid = cx.region(s, 'param', K(8), Base('opaque'), name=name)
        if k:
            h = cx.region(s, 'heap', newsym('n', 0, PTRDIFF), Base('opaque'), name='*' + name, noleak=True)
        cx.put(s, rid, 0, 8, VP(h) if k else NULLP)
        s.tags['h'] = h if k else 0
        out.append((s, VP(rid), None))
    return out


def p_cleanup(P):
    for s, v in deref(P, 0, TP):
        if v != NULLP:
            P.at(s).fail('inv', 'null', 'the variable of the freed buffer is not reset')
        if s.tags['h'] and s.mem[s.tags['h']].live == 1:
            P.at(s).fail('leak', 'kept', 'the buffer is not freed')


spec('harbol_cleanup', cl_roles, post=p_cleanup)


def shift_roles(cx, st, name, ty, fn, opts):
    d, n = cx.ghost('elem', 1, PTRDIFF), cx.ghost('count', 0, PTRDIFF)
    if name == 'buf':
        st.cons.addrow(GE, sub(K(PTRDIFF), mul(d, n)))
        st.cons.addrow(GE, mul(d, n))
        rid = cx.region(st, 'param', mul(n, d), Base('opaque'), name=name)
        cx.g['bufs'] = [(rid, d)]
        return [(st, VP(rid), None)]
    if name == 'len':
        rid = cx.region(st, 'param', K(8), Base('opaque'), name=name)
        cx.put(st, rid, 0, 8, ('i', 64, n, 'u'))
        return [(st, VP(rid), Obj(name, None, rid, ZERO, 'mut'))]
    if name == 'datasize':
        return [(st, ('i', 64, d, 'u'), None)]
    if name == 'n_buffers':
        return [(st, VI(64, K(opts['n'])), None)]
    return scalar(cx, st, name, ty)


def p_shift(li):
    """the elements behind those removed move up, nothing else moves, the tail is zeroed"""
    def post(P):
        a = P.args
        n = P.cx.g['count']
        idx = A(P, 2 if li == 1 else 1)
        amt0 = A(P, 4 if li == 1 else 2)
        for s, v in P.cx.get(P.st.copy(), a[li][1], ZERO, T64):
            now = P.eng.toU(s, v)
            if not P.ok:
                P.at(s).eq('count', 'len', now, n, 'a refused removal changed the count')
                P.at(s).prove('status', 'refuse', sub(idx, n), 'refuses to remove elements that exist')
                for rid, w in P.cx.g['bufs']:
                    if not content_same(P.eng, P.e, s, rid):
                        P.at(s).fail('failmod', 'bytes', 'a refused removal changed the buffer')
                continue
            P.at(s).prove('status', 'accept', addc(sub(n, idx), -1), 'removes elements that do not exist')
            for zero in (0, 1):
                s1 = s.copy()
                if not (s1.assume(EQ, amt0) if zero else s1.assume(GE, addc(amt0, -1))):
                    continue
                amt = ONE if zero else amt0
                for part in (0, 1):
                    s2 = s1.copy()
                    left = sub(n, idx)
                    if not s2.assume(GE, addc(sub(left, amt), -1) if not part else sub(amt, left)):
                        continue
                    want = sub(n, amt) if not part else idx
                    Q = P.at(s2)
                    Q.eq('count', 'len', now, want, 'the count left is wrong')
                    for rid, w in P.cx.g['bufs']:
                        W = (lambda e: mul(e, w)) if isinstance(w, tuple) else (lambda e: scale(e, w))
                        Q.same_bytes('content', 'front', VP(rid), ZERO, rid, ZERO, W(idx), 'elements in front of those removed changed')
                        if not part:
                            Q.same_bytes('content', 'moved', VP(rid), W(idx), rid, W(add(idx, amt)), W(sub(want, idx)), 'elements behind those removed were not moved up')
                            Q.zero_bytes('content', 'zero', VP(rid), W(want), W(amt), 'the places left are not zeroed')
                        else:
                            Q.zero_bytes('content', 'zero', VP(rid), W(want), W(left), 'the places left are not zeroed')
    return post


def mshift_start(cx, st, args, objs, fn):
    cx.g['bufs'] = []
    cx.g['va'] = []
    n = cx.ghost('count', 0, PTRDIFF)
    st.cons.addrow(GE, sub(K(PTRDIFF // 8), n))
    for k in range(cx.opts['n']):
        w = SIZES[k]
        rid = cx.region(st, 'param', scale(n, w), Base('opaque'), name='buf%d' % k)
        cx.g['bufs'].append((rid, w))
        cx.g['va'] += [VP(rid), VI(64, K(w))]
    return st


spec('array_shift_up', shift_roles, post=p_shift(1))
spec('multi_array_shift_up', shift_roles, pre=mshift_start, varargs=va, post=p_shift(0), variants=[{'n': k} for k in (1, 2)])


# ------------------------------------------------------------------ hashes, tests, searches
def key_roles(cx, st, name, ty, fn, opts):
    if name == 'key':
        if fn.base == 'string_hash':
            return cstr_arg(cx, st, name, null=False)
        rid = cx.region(st, 'param', cx.ghost('n', 0, PTRDIFF), Base('opaque'), name=name, const=True)
        return [(st, VP(rid), None)]
    if name == 'len':
        return [(st, N(cx, 'n'), None)]
    if name == 'p' or name == 'ptr':
        rid = cx.region(st, 'param', None, Base('opaque'), name=name)
        return [(st.copy(), NULLP, None), (st, VP(rid), None)]
    return scalar(cx, st, name, ty)


for _h in ('string_hash', 'array_hash', 'int_hash', 'float_hash', 'ptr_hash', 'is_ptr_aligned'):
    spec(_h, key_roles, status=status_none)


def sw_start(cx, st, args, objs, fn):
    cx.g['va'] = []
    for k in range(cx.opts['n']):
        (st, v, _), = cstr_arg(cx, st, 'arg%d' % k, null=False)
        cx.g['va'].append(v)
    cx.g['va'].append(NULLP)
    return st


def sw_roles(cx, st, name, ty, fn, opts):
    return cstr_arg(cx, st, name, null=False)


def p_switch(P):
    """the first string that compared equal"""
    want = None
    for k in range(P.cx.opts['n']):
        eq = [z for z, _, (x, y) in P.st.memo.get(('scmp',), ()) if {x, y} == {P.args[0], P.cx.g['va'][k]}]
        if eq and P.st.eq(eq[-1], ZERO):
            want = k
            break
        if not eq or not P.st.cons.prove_ne(eq[-1], ZERO):
            if P.st.eq(P.retu(), K(M64)) or not P.st.ge(K(k - 1), P.retu()):
                P.fail('retval', 'skipped', 'passes over a string it did not compare')
            return
    P.eq('retval', 'index', P.retu(), K(M64 if want is None else want), 'does not return the first string that is equal')


spec('cstr_switch', sw_roles, pre=sw_start, varargs=va, post=p_switch, status=status_none, variants=[{'n': k} for k in (0, 1, 2, 3)])


def p_between(signed):
    def post(P):
        f = P.eng.toS if signed else P.eng.toU
        val, mx, mn = (f(P.st, P.args[i]) for i in range(3))
        for s, b in P.eng.split(P.st, P.ret):
            Q = P.at(s)
            if b:
                Q.prove('retval', 'low', sub(val, mn), 'accepts a value below the minimum')
                Q.prove('retval', 'high', sub(mx, val), 'accepts a value above the maximum')
            else:
                for R in Q.cases((GE, sub(val, mn)), (GE, sub(mx, val))):
                    R.fail('retval', 'inside', 'refuses a value between the bounds')
    return post


def bound_pre(signed):
    def pre(cx, st, args, objs, fn):
        f = cx.eng.toS if signed else cx.eng.toU
        return st if st.assume(GE, sub(f(st, args[1]), f(st, args[2]))) else None
    return pre


spec('is_uint_in_bounds', pre=bound_pre(False), post=p_between(False), status=status_none)
spec('is_uintptr_in_bounds', pre=bound_pre(False), post=p_between(False), status=status_none)


# ------------------------------------------------------------------ integers
def p_align(P):
    size, al, r = A(P, 0), P.cx.opts['align'], P.retu()
    P.prove('retval', 'least', sub(r, size), 'the aligned size is smaller than the size')
    P.prove('retval', 'most', addc(sub(addc(size, al), r), -1), 'the aligned size is larger than needed')
    multiple(P, r, al)


def multiple(P, r, al):
    """r is a multiple of al: terms are replaced by what equations say of them"""
    def go(e, depth):
        bad = [t for t, c in e[1] if c % al]
        if not bad:
            return e[0] % al == 0
        if depth == 0:
            return False
        x = bad[0]
        k = dict(e[1])[x]
        for kind, row in P.st.cons.rows:
            c = dict(row[1]).get(x) if kind == EQ else None
            if c in (1, -1) and go(sub(e, scale(row, k * c)), depth - 1):
                return True
        return False
    if not go(r, 6):
        P.fail('retval', 'multiple', 'the aligned size is no multiple of the alignment')


def p_pad(P):
    size, al, r = A(P, 0), P.cx.opts['align'], P.retu()
    P.prove('retval', 'most', sub(K(al - 1), r), 'the padding is larger than needed')
    multiple(P, add(size, r), al)


def al_roles(cx, st, name, ty, fn, opts):
    if name == 'align':
        return [(st, VI(64, K(opts['align'])), None)]
    return [(st, u64(name, 0, PTRDIFF), None)]


spec('harbol_align_size', al_roles, post=p_align, status=status_none, variants=[{'align': 1 << k} for k in range(0, 13)])
spec('harbol_pad_size', al_roles, post=p_pad, status=status_none, variants=[{'align': 1 << k} for k in range(0, 13)])


def x_roles(cx, st, name, ty, fn, opts):
    k = opts['k']
    lo, hi = (0, 0) if k is None else (1 << k, (1 << k + 1) - 1)
    lo, hi = opts.get('lo', lo), opts.get('hi', hi)
    return [(st, ('i', 64, newsym('x', lo, hi) if lo < hi else K(lo), 'u'), None)]


BITS = [{'k': None}] + [{'k': k} for k in range(64)]


def tens():
    out = [{'k': None}]
    for k in range(64):
        cuts = [1 << k] + [10 ** d for d in range(1, 20) if 1 << k < 10 ** d < 1 << k + 1] + [1 << k + 1]
        out += [{'k': k, 'lo': a, 'hi': b - 1} for a, b in zip(cuts, cuts[1:])]
    return out


def p_int(f):
    def post(P):
        P.eq('retval', 'value', P.retu(), K(f(P.cx.opts)), 'wrong result for the numbers from %s' % (P.cx.opts.get('lo', 1 << P.cx.opts['k']) if P.cx.opts['k'] is not None else 0))
    return post


def log10_(o):
    return 0 if o['k'] is None else len(str(o['lo'])) - 1


spec('int_log2', x_roles, variants=BITS, status=status_none, post=p_int(lambda o: o['k'] or 0))
spec('base_2_digits', x_roles, variants=BITS, status=status_none, post=p_int(lambda o: 0 if o['k'] is None else o['k'] + 1))
spec('base_2_num_chars', x_roles, variants=BITS, status=status_none, post=p_int(lambda o: 1 if o['k'] is None else o['k'] + 2))
spec('int_log10', x_roles, variants=tens(), status=status_none, post=p_int(log10_))
spec('base_10_digits', x_roles, variants=tens(), status=status_none, post=p_int(lambda o: log10_(o) + 1))
spec('base_10_num_chars_uint', x_roles, variants=tens(), status=status_none, post=p_int(lambda o: log10_(o) + 2))


def sx_roles(cx, st, name, ty, fn, opts):
    lo, hi = opts.get('lo', 0), min(opts.get('hi', 0), (1 << 63) - 1)
    if opts['neg']:
        lo, hi = -hi, -lo
    return [(st, ('i', 64, newsym('x', lo, hi) if lo < hi else K(lo), 's'), None)]


spec('base_10_num_chars_int', sx_roles, variants=[dict(o, neg=g) for o in tens() if (o['k'] or 0) < 63 for g in (0, 1)], status=status_none, post=p_int(lambda o: log10_(o) + 3))


def b_roles(cx, st, name, ty, fn, opts):
    return [(st, VI(64, K(opts['n'])) if opts['n'] < 9 else u64('bytes', 9), None)]


spec('bytes_bitmask', b_roles, variants=[{'n': k} for k in range(10)], status=status_none, post=p_int(lambda o: (1 << 8 * min(o['n'], 8)) - 1))
SPECS['bytes_bitmask']['post'] = lambda P: P.eq('retval', 'mask', P.retu(), K((1 << 8 * min(P.cx.opts['n'], 8)) - 1), 'the mask does not cover exactly %d bytes' % P.cx.opts['n'])


# ------------------------------------------------------------------ text and files
def text_roles(cx, st, name, ty, fn, opts):
    if name in ('fmt', 'file_name'):
        return cstr_arg(cx, st, name, null=False)
    if name == 'file':
        return file_role(cx, st, name)
    if name in ('bytes', 'len'):
        return outvar(cx, st, name)
    return scalar(cx, st, name, ty)


def p_text(P):
    if not P.ok:
        return
    if not heap_block(P.st, P.ret):
        P.fail('retval', 'block', 'does not return an allocation')
        return
    P.entry.obligations += 1
    r = P.st.mem[P.ret[1]]
    P.eng.silent += 1
    try:
        n = [1 for s, k in strlen_of(P.eng, P.st.copy(), P.ret, 'text')]
    finally:
        P.eng.silent -= 1
    w = [(z, n) for z, _, (rid, off, n) in P.st.memo.get(('fmt',), ()) if rid == P.ret[1] and P.st.eq(off, ZERO)]
    if not w:
        P.fail('content', 'text', 'the text returned was never formatted')
    else:
        P.prove('content', 'cut', addc(sub(w[-1][1], w[-1][0]), -1), 'the text returned may be cut short')


def p_buffer(P):
    if not P.ok:
        return
    if not heap_block(P.st, P.ret):
        P.fail('retval', 'block', 'does not return an allocation')
        return
    r = P.st.mem[P.ret[1]]
    for s, v in deref(P, 1):
        if v[0] == 'undef':
            P.at(s).fail('count', 'bytes', 'does not report how many bytes were read')
            continue
        Q = P.at(s)
        Q.prove('count', 'bytes', addc(sub(r.size, P.eng.toU(s, v)), -1), 'reports more bytes than the buffer holds before its terminator')
        P.entry.obligations += 1
        if not is_zero_at(P.eng, s, r.content, addc(r.size, -1), P.ret[1]):
            Q.fail('content', 'nul', 'the text read is not terminated')


spec('sprintf_alloc', text_roles, post=p_text)
spec('make_buffer_from_file', text_roles, post=p_buffer)
spec('make_buffer_from_binary', text_roles, post=p_buffer)
spec('make_buffer_from_text', text_roles, post=p_buffer)
spec('get_file_size', text_roles, status=status_none)


# ------------------------------------------------------------------ intrusive lists
def node(cx, st, name, words):
    rid = cx.region(st, 'param', K(8 * words), Base('opaque'), name=name)
    return rid


def var(cx, st, name, v):
    rid = cx.region(st, 'param', K(8), Base('opaque'), name=name)
    cx.put(st, rid, 0, 8, v)
    return rid


def list_roles(words):
    """a list of nodes 0..m-1 (its inner part only where it matters) with head and tail variables"""
    def roles(cx, st, name, ty, fn, opts):
        if 'nodes' not in st.tags:
            m = opts['m']
            ns = [node(cx, st, 'node%d' % k, words) for k in range(m)]
            for k, r in enumerate(ns):
                # the part of the list between the first and the last two nodes is left open
                cx.put(st, r, 0, 8, VP(ns[k + 1]) if k + 1 < m else NULLP)
                if words > 1:
                    cx.put(st, r, 8, 8, VP(ns[k - 1]) if k else NULLP)
            st.tags['nodes'] = tuple(ns)
            st.tags['head'] = var(cx, st, 'head', VP(ns[0]) if m else NULLP)
            st.tags['tail'] = var(cx, st, 'tail', VP(ns[-1]) if m else NULLP)
            st.tags['new'] = node(cx, st, 'node', words)
        ns = st.tags['nodes']
        v = {'h': VP(st.tags['head']), 't': NULLP if opts.get('notail') else VP(st.tags['tail']), 'n1': VP(ns[opts.get('at', 0)]) if ns else None,
             'n2': VP(st.tags['new']), 'n': VP(ns[opts['at']]) if opts.get('rm') else VP(st.tags['new'])}[name]
        return [(st, v, None)]
    return roles


def p_list(words, where, hasvars=True):
    def post(P):
        e, st = P.e, P.st
        o = P.cx.opts
        ns = list(e.tags['nodes'])
        new = e.tags['new']
        if where == 'head':
            want = [new] + ns
        elif where == 'tail':
            want = ns + [new]
        elif where == 'after':
            want = ns[:o['at'] + 1] + [new] + ns[o['at'] + 1:]
        else:
            want = ns[:o['at']] + ns[o['at'] + 1:]
        for k, r in enumerate(want):
            links = [(0, want[k + 1] if k + 1 < len(want) else None, 'next')]
            if words > 1:
                links.append((8, want[k - 1] if k else None, 'previous'))
            for off, w, what in links:
                P.entry.obligations += 1
                for s, v in P.cx.get(st.copy(), r, off, TP):
                    if v != (NULLP if w is None else VP(w)):
                        P.at(s).fail('content', what, 'the %s link of node %d of the resulting list is wrong' % (what, k))
        for f, w in (('head', want[0] if want else None), ('tail', want[-1] if want else None)):
            if not hasvars or f == 'tail' and o.get('notail'):
                continue
            P.entry.obligations += 1
            for s, v in P.cx.get(st.copy(), e.tags[f], ZERO, TP):
                if v != (NULLP if w is None else VP(w)):
                    P.at(s).fail('content', f, 'the %s variable does not name the %s of the resulting list' % (f, f))
    return post


for _n, _w in (('harbol_link', 1), ('harbol_bilink', 2)):
    _h = [{'m': m, 'notail': t} for m in range(4) for t in (0, 1)]
    spec(_n + '_add_to_head', list_roles(_w), post=p_list(_w, 'head'), variants=_h, status=status_none)
    spec(_n + '_add_to_tail', list_roles(_w), post=p_list(_w, 'tail'), variants=[{'m': m} for m in range(4)], status=status_none)
    spec(_n + '_add_after', list_roles(_w), post=p_list(_w, 'after', False), variants=[{'m': m, 'at': k} for m in range(1, 5) for k in range(m)], status=status_none)
spec('harbol_bilink_remove', list_roles(2), post=p_list(2, 'rm'), variants=[{'m': m, 'at': k, 'rm': 1} for m in range(1, 6) for k in range(m)], status=status_none)


def acc_roles(words):
    def roles(cx, st, name, ty, fn, opts):
        if name == 'p':
            rid = node(cx, st, 'p', words)
            return [(st, VP(rid), None)]
        rid = node(cx, st, 'n', words)
        return [(st.copy(), NULLP, None), (st, VP(rid), None)]
    return roles


def p_acc(off, kind):
    def post(P):
        p = P.args[0]
        if kind == 'ref':
            if P.ret != VP(p[1], K(off)):
                P.fail('retval', 'ref', 'does not return the place of the link')
            return
        for s, v in P.cx.get(P.st.copy(), p[1], off, TP):
            if v != (P.ret if kind == 'get' else P.args[1]):
                P.at(s).fail('retval' if kind == 'get' else 'content', 'link', 'reads or writes another link')
    return post


for _n, _f, _w in (('harbol_link', 'a', 1), ('harbol_bilink', 'b', 2), ('harbol_trilink', 'c', 3)):
    spec('%s_get_%s' % (_n, _f), acc_roles(_w), post=p_acc(8 * _w - 8, 'get'), status=status_none)
    spec('%s_get_%s_ref' % (_n, _f), acc_roles(_w), post=p_acc(8 * _w - 8, 'ref'), status=status_none)
    spec('%s_set_%s' % (_n, _f), acc_roles(_w), post=p_acc(8 * _w - 8, 'set'), status=status_none)


# ------------------------------------------------------------------ random numbers
def mt_roles(cx, st, name, ty, fn, opts):
    if name == 'rand':
        rid = cx.region(st, 'param', K(cx.p.size('MTRand')), Base('opaque'), name=name)
        return [(st, VP(rid), None)]
    return scalar(cx, st, name, ty)


def p_mt(P):
    rid = P.sret if P.sret is not None else P.args[0][1]
    for s, v in P.cx.fld(P.st.copy(), 'MTRand', 'index', rid):
        if v[0] == 'undef':
            P.at(s).fail('inv', 'index', 'the position is not initialised')
            continue
        P.at(s).prove('inv', 'index', sub(K(cx_len(P)), P.eng.toU(s, v)), 'the position lies behind the state')
        k = newsym('k', 0, PTRDIFF)
        for Q in P.at(s).cases((GE, sub(K(cx_len(P) - 1), k))):
            for s2, w in P.cx.get(Q.st.copy(), rid, scale(k, 8), T64):
                if w[0] == 'undef':
                    P.at(s2).fail('uninit', 'state', 'a word of the state is not initialised')


def cx_len(P):
    return (P.cx.p.size('MTRand') - 8) // 8


spec('_MT_SeedRand', mt_roles, post=p_mt)
spec('MT_SeedRand', mt_roles, post=p_mt)
spec('MT_GenRand_UInt', mt_roles, post=p_mt, status=status_none)
spec('MT_GenRand_F64', mt_roles, post=p_mt, status=status_none)
