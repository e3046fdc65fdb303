"""Models of the C library functions the code calls, and heap queries shared by the analyses."""
from dom import *
from interp import *
from prog import AnalysisError

T8 = {'k': 'i', 'b': 8}


def _ctype_table():
    tab = {}
    for c in range(-128, 256):
        m = 0
        if 0 <= c < 128:
            ch = chr(c)
            if 'A' <= ch <= 'Z':
                m |= 0x100 | 0x400 | 0x8 | 0x8000 | 0x4000
            if 'a' <= ch <= 'z':
                m |= 0x200 | 0x400 | 0x8 | 0x8000 | 0x4000
            if '0' <= ch <= '9':
                m |= 0x800 | 0x8 | 0x8000 | 0x4000
            if ch in '0123456789abcdefABCDEF':
                m |= 0x1000
            if c in (9, 10, 11, 12, 13, 32):
                m |= 0x2000
            if c == 32:
                m |= 0x4000 | 0x1
            if c == 9:
                m |= 0x1
            if c < 32 or c == 127:
                m |= 0x2
            if 33 <= c <= 126 and not (m & 0x8):
                m |= 0x4 | 0x8000 | 0x4000
        tab[c] = m
    return tab


CTYPE = _ctype_table()


def ptr(eng, st, v):
    if v[0] == 'i':
        r = eng.region_of_addr(st, v[2])
        if r:
            return VP(*r)
        if v[2] == ZERO:
            return NULLP
    return v


# ------------------------------------------------------------------ strings in memory
def is_zero_at(eng, st, content, z, rid):
    eng.silent += 1
    try:
        s = st.copy()
        res = eng.read(s, content, z, 1, T8, rid)
        return bool(res) and all(v[0] == 'i' and s2.eq(v[2], ZERO) for s2, v in res)
    finally:
        eng.silent -= 1


def zero_positions(eng, st, rid, content=None, depth=0):
    r = st.mem[rid]
    c0 = content if content is not None else r.content
    cands = []
    ends = []
    c = c0
    while isinstance(c, Entry):
        if c.kind == 'st':
            if c.val[0] == 'i' and c.n == ONE and st.eq(c.val[2], ZERO):
                cands.append(c.off)
            elif c.val[0] == 'i' and c.val[2] == ZERO:
                cands.append(c.off)
            ends.append(add(c.off, c.n))
        elif c.kind == 'fill':
            if c.val == 0:
                cands.append(c.off)
                cands.append(addc(add(c.off, c.n), -1))
            ends.append(add(c.off, c.n))
        elif c.kind == 'cp':
            if depth < 4:
                for z in zero_positions(eng, st, rid, c.src, depth + 1):
                    cands.append(add(sub(z, c.srcoff), c.off))
            ends.append(add(c.off, c.n))
        c = c.prev
    for o, n, v in st.memo.get(c.id, ()):
        if n == 1 and v[0] == 'i' and v[2] == ZERO:
            cands.append(o)
    if c.kind == 'zero':
        cands.append(ZERO)
        cands += ends
        if r.size is not None:
            cands.append(addc(r.size, -1))
    elif c.kind in ('cstr', 'strbuf'):
        cands.append(c.len)
    elif c.kind == 'bytes':
        zs = sorted(o for o, b in c.bytes.items() if b == 0)
        cands += [K(o) for o in zs[:4]]
        if zs:
            cands.append(K(zs[-1]))
    out = []
    seen = set()
    for z in cands:
        if z in seen:
            continue
        seen.add(z)
        if r.size is not None and content is None and not (st.ge(z, ZERO) and st.ge(addc(r.size, -1), z)):
            continue
        if content is not None or is_zero_at(eng, st, c0, z, rid):
            out.append(z)
    return out


def clean_cstr(r):
    return not isinstance(r.content, Entry) and r.content.kind in ('cstr',)


def all_nonzero(eng, st, content, lo, hi, rid):
    s = st.copy()
    k = newsym('k', 0, PTRDIFF)
    if not (s.assume(GE, sub(k, lo)) and s.assume(GE, addc(sub(hi, k), -1))):
        return True
    eng.silent += 1
    old, eng.RDEPTH = eng.RDEPTH, 4
    try:
        return all(v[0] == 'i' and s2.cons.prove_ne(eng.toU(s2, v), ZERO) for s2, v in eng.read(s, content, k, 1, T8, rid))
    finally:
        eng.silent -= 1
        eng.RDEPTH = old


def strlen_of(eng, st, v, what='string'):
    """-> list of (state, length expr); reports when no terminator is known"""
    v = ptr(eng, st, v)
    st = eng.access(st, v, ONE, 'r', ' in %s' % what)
    if st is None:
        return []
    rid, off = v[1], v[2]
    r = st.mem[rid]
    if r.size is None:
        return [(st, newsym('len', 0, PTRDIFF))]
    c = r.content
    if not isinstance(c, Entry):
        if c.kind == 'cstr' and st.ge(c.len, off):
            return [(st, sub(c.len, off))]
        if c.kind == 'bytes' and not off[1]:
            o = off[0]
            while o in c.bytes and c.bytes[o]:
                o += 1
            if o in c.bytes:
                return [(st, K(o - off[0]))]
    key = None
    if not isinstance(c, Entry):
        key = ('strlen', c.id, off)
    elif r.attr.get('const'):
        key = ('strlen', 'const', rid, off)
    if key in st.tags:
        return [(st, st.tags[key])]
    zs = [z for z in zero_positions(eng, st, rid) if st.ge(z, off)]
    if not zs:
        eng.report('unterm', '%s is read as a string but no terminator is known inside it (%s)' % (r.attr.get('name', r.kind), what), st, 'unterm:' + what)
        n = newsym('len', 0, PTRDIFF)
        st = st.copy()
        st.assume(GE, addc(sub(r.size, add(off, n)), -1))
        return [(st, n)]
    if isinstance(c, Entry):
        for z in zs[:4]:
            if all_nonzero(eng, st, c, off, z, rid):
                return [(st, sub(z, off))]
    st = st.copy()
    n = newsym('len', 0, PTRDIFF)
    for z in zs:
        st.cons.addrow(GE, sub(sub(z, off), n))
    # byte off+n is the terminator
    b = content_base(c)
    if not isinstance(c, Entry) and b.kind in ('strbuf', 'opaque', 'cstr'):
        eng.memo_add(st, b, add(off, n), 1, VI(8, ZERO))
    if key:
        st.tags[key] = n
    return [(st, n)]


def lit_bytes(eng, st, v):
    """bytes of a constant string operand, or None"""
    if v[0] != 'p' or v[1] <= 0:
        return None
    r = st.mem.get(v[1])
    if r is None or isinstance(r.content, Entry) or r.content.kind != 'bytes' or v[2][1]:
        return None
    o = v[2][0]
    out = []
    while o in r.content.bytes:
        b = r.content.bytes[o]
        out.append(b)
        if b == 0:
            return out
        o += 1
    return None


# ------------------------------------------------------------------ allocation
def alloc(eng, st, size, kind='heap', base='uninit', **attr):
    """fork: failure / success"""
    out = []
    if not (eng.ONEFAIL and st.tags.get('why')):
        s0 = st.copy()
        s0.trail = s0.trail[-11:] + ('alloc fails',)
        s0.tags['why'] = 1
        out.append((s0, NULLP))
    s1 = st.copy()
    if s1.assume(GE, sub(K(PTRDIFF), size)):
        rid = eng.new_region(s1, kind, size, Base(base), fresh=True, fn=eng.stack[-1][0].base if eng.stack else '?', line=eng.stack[-1][1].get('l', 0) if eng.stack else 0, **attr)
        out.append((s1, VP(rid)))
    return out


def iv(eng, st, v):
    v = eng.unwrap(st, eng.as_int(st, v, 64))
    return eng.toU(st, v)


def m_malloc(eng, st, a, i):
    return alloc(eng, st, iv(eng, st, a[0]))


def m_calloc(eng, st, a, i):
    x, y = iv(eng, st, a[0]), iv(eng, st, a[1])
    return alloc(eng, st, mul(x, y), base='zero')


def m_realloc(eng, st, a, i):
    p = ptr(eng, st, a[0])
    n = iv(eng, st, a[1])
    if p[0] == 'p' and p[1] == 0:
        return alloc(eng, st, n)
    if not check_free(eng, st, p, 'realloc'):
        return []
    rid = p[1]
    out = []
    s0 = st.copy()
    s0.trail = s0.trail[-11:] + ('realloc fails',)
    s0.tags['why'] = 1
    out.append((s0, NULLP))
    # realloc(p, 0) frees p and returns NULL
    sz = st.copy()
    if sz.assume(EQ, n):
        sz.mem[rid] = sz.mem[rid].with_(live=0)
        sz.trail = sz.trail[-11:] + ('realloc(p, 0) frees p',)
        out.append((sz, NULLP))
    old = st.mem[rid]
    s1 = st.copy()
    if s1.assume(GE, addc(n, -1)) and s1.assume(GE, sub(K(PTRDIFF), n)):
        alts = []
        if s1.ge(n, old.size):
            alts.append((s1, old.size))
        elif s1.ge(old.size, n):
            alts.append((s1, n))
        else:
            sa = s1.copy()
            if sa.assume(GE, sub(n, old.size)):
                alts.append((sa, old.size))
            sb = s1.copy()
            if sb.assume(GE, addc(sub(old.size, n), -1)):
                alts.append((sb, n))
        for s, m in alts:
            src = s.mem[rid].content
            at = {k: v for k, v in old.attr.items() if k in ('name', 'elem', 'owner')}
            nr = eng.new_region(s, 'heap', n, Base('uninit'), fresh=True, fn=eng.stack[-1][0].base, line=eng.stack[-1][1].get('l', 0), moved_from=rid, **at)
            s.mem[nr] = s.mem[nr].with_(content=Entry('cp', ZERO, m, None, s.mem[nr].content, src, ZERO))
            s.mem[rid] = s.mem[rid].with_(live=0)
            out.append((s, VP(nr)))
    return out


def check_free(eng, st, p, what):
    eng.site('free')
    if p[0] == 'undef':
        eng.report('uninit', '%s of an uninitialised pointer' % what, st, 'free-uninit')
        return False
    if p[0] != 'p' or p[1] < 0:
        eng.report('badfree', '%s of something that is not a pointer to an allocation' % what, st, 'badfree')
        return False
    r = st.mem.get(p[1])
    if r is None:
        eng.report('badfree', '%s of a dangling pointer' % what, st, 'badfree')
        return False
    if r.live == 0:
        eng.report('dfree', '%s of memory already freed (allocated at %s)' % (what, r.attr.get('site', '?')), st, 'dfree')
        return False
    if r.kind == 'user0' and r.attr.get('ownedptr'):
        return True
    if r.kind != 'heap' or r.live == 2:
        eng.report('badfree', '%s of memory that was not allocated by malloc (%s)' % (what, r.attr.get('name', r.kind)), st, 'badfree:' + str(r.attr.get('name', r.kind)))
        return False
    if not st.eq(p[2], ZERO):
        eng.report('badfree', '%s of an interior pointer' % what, st, 'badfree-interior')
        return False
    return True


def m_free(eng, st, a, i):
    p = ptr(eng, st, a[0])
    if p[0] == 'p' and p[1] == 0:
        return [(st, None)]
    if not check_free(eng, st, p, 'free'):
        return []
    r = st.mem[p[1]]
    st.mem[p[1]] = r.with_(live=0)
    return [(st, None)]


# ------------------------------------------------------------------ block operations
def m_memcpy(eng, st, a, i):
    d, s, n = ptr(eng, st, a[0]), ptr(eng, st, a[1]), iv(eng, st, a[2])
    st = eng.access(st, s, n, 'r')
    if st is None:
        return []
    st = eng.access(st, d, n, 'w')
    if st is None:
        return []
    st = st.copy()
    if d[0] == 'p' and s[0] == 'p' and d[1] > 0 and s[1] > 0 and not (st.eq(n, ZERO)):
        if d[1] == s[1] and 'memcpy' in i.get('f', 'memcpy'):
            # memcpy needs disjoint ranges
            if not (st.ge(d[2], add(s[2], n)) or st.ge(s[2], add(d[2], n)) or st.eq(d[2], s[2])):
                eng.report('overlap', 'memcpy between ranges that may overlap', st, 'overlap')
        if not n[1] and n[0] <= 512 and not s[2][1] and not d[2][1]:
            copy_cells(eng, st, d, s, n[0])
        else:
            eng.copyrange(st, d[1], d[2], n, s[1], s[2])
    return [(st, a[0])]


def copy_cells(eng, st, d, s, n):
    """small constant-size copy: cell by cell, so that later lookups stay exact"""
    src = st.mem[s[1]].content
    cells = {}
    c = src
    only = True
    while isinstance(c, Entry):
        if c.kind == 'st' and not c.off[1]:
            o = c.off[0] - s[2][0]
            if 0 <= o and o + c.n[0] <= n:
                if not any(x < o + c.n[0] and o < x + y[0] for x, y in cells.items()):
                    cells[o] = (c.n[0], c.val)
            elif o < n and o + c.n[0] > 0:
                only = False
        elif c.kind == 'fill' and not c.off[1] and not c.n[1] and c.val == 0:
            only = False
        else:
            only = False
        c = c.prev
    covered = sum(x[0] for x in cells.values())
    eng.copyrange(st, d[1], d[2], K(n), s[1], s[2])
    if only:
        for o, (m, v) in sorted(cells.items()):
            eng.write(st, d[1], addc(d[2], o), m, v)
        if covered == n:
            # the block copy underneath is fully overwritten: drop it
            lst = []
            c = st.mem[d[1]].content
            while isinstance(c, Entry) and c.kind == 'st':
                lst.append(c)
                c = c.prev
            if isinstance(c, Entry) and c.kind == 'cp' and c.off == d[2] and c.n == K(n):
                x = c.prev
                for e in reversed(lst):
                    x = Entry('st', e.off, e.n, e.val, x)
                st.mem[d[1]] = st.mem[d[1]].with_(content=x)


def m_memset(eng, st, a, i):
    d, n = ptr(eng, st, a[0]), iv(eng, st, a[2])
    st = eng.access(st, d, n, 'w')
    if st is None:
        return []
    st = st.copy()
    v = a[1]
    b = v[2][0] & 255 if v[0] == 'i' and not v[2][1] else eng.trunc(st, v, 8) if v[0] == 'i' else None
    if d[0] == 'p' and d[1] > 0 and not st.eq(n, ZERO):
        eng.fill(st, d[1], d[2], n, b)
    return [(st, a[0])]


def m_memcmp(eng, st, a, i):
    n = iv(eng, st, a[2])
    for p in (a[0], a[1]):
        st = eng.access(st, ptr(eng, st, p), n, 'r')
        if st is None:
            return []
    a0, a1 = ptr(eng, st, a[0]), ptr(eng, st, a[1])
    if a0[1] == a1[1] and st.eq(a0[2], a1[2]):
        return [(st, VI(32, ZERO))]
    if a0[1] > 0 and a1[1] > 0 and st.mem[a0[1]].content is st.mem[a1[1]].content and st.eq(a0[2], a1[2]):
        return [(st, VI(32, ZERO))]
    if st.eq(n, K(8)) and (lazy_base(st, a0) or lazy_base(st, a1)):
        return cmp_words(eng, st, a0, a1)
    return cmp_result(st, a0, a1, n)


def lazy_base(st, p):
    if p[1] <= 0:
        return False
    c = st.mem[p[1]].content
    while isinstance(c, Entry):
        c = c.prev
    return getattr(c, 'kind', None) == 'lazy'


def cmp_words(eng, st, a0, a1):
    """two words: pointers are equal exactly when they name the same place"""
    out = []
    t = {'k': 'p'}
    for s1, x in eng.read(st.copy(), st.mem[a0[1]].content, a0[2], 8, t, a0[1]) if a0[1] > 0 else [(st, UNDEF)]:
        for s2, y in eng.read(s1.copy(), s1.mem[a1[1]].content, a1[2], 8, t, a1[1]) if a1[1] > 0 else [(s1, UNDEF)]:
            if x[0] == 'p' and y[0] == 'p' and x[1] >= 0 and y[1] >= 0:
                if x[1] == y[1] and s2.eq(x[2], y[2]):
                    out.append((s2, VI(32, ZERO)))
                    continue
                if x[1] != y[1] or s2.ne(x[2], y[2]):
                    out.append((s2, VI(32, K(1))))
                    continue
            out += cmp_result(s2, a0, a1, K(8))
    return out


def cmp_result(st, a0, a1, n):
    v = fresh_i(32, 'cmp', 's')
    st = st.copy()
    st.memo[('cmp',)] = st.memo.get(('cmp',), ()) + ((v[2], 'cmp', (a0, a1, n)),)
    return [(st, v)]


def m_memchr(eng, st, a, i):
    n = iv(eng, st, a[2])
    p = ptr(eng, st, a[0])
    st = eng.access(st, p, n, 'r')
    if st is None:
        return []
    if a[1][0] == 'i' and a[1][2] == ZERO and p[1] > 0 and content_base(st.mem[p[1]].content).kind in ('cstr', 'strbuf'):
        out = []
        for s, L in strlen_n(eng, st, a[0], n, 'memchr'):
            s1 = s.copy()
            if s1.assume(GE, addc(sub(n, L), -1)):
                out.append((s1, VP(p[1], add(p[2], L))))
            if s.assume(GE, sub(L, n)):
                out.append((s, NULLP))
        return out
    s0 = st.copy()
    s0.trail = s0.trail[-11:] + ('memchr: absent',)
    out = [(s0, NULLP)]
    s1 = st.copy()
    k = newsym('at', 0, PTRDIFF)
    if s1.assume(GE, addc(sub(n, k), -1)):
        s1.trail = s1.trail[-11:] + ('memchr: found',)
        out.append((s1, VP(p[1], add(p[2], k))))
    return out


# ------------------------------------------------------------------ str*
def m_strlen(eng, st, a, i):
    return [(s, VI(64, n, 'u')) for s, n in strlen_of(eng, st, a[0], 'strlen')]


def m_strcpy(eng, st, a, i):
    out = []
    for s, n in strlen_of(eng, st, a[1], 'strcpy'):
        d, src = ptr(eng, s, a[0]), ptr(eng, s, a[1])
        s = eng.access(s, d, addc(n, 1), 'w')
        if s is None:
            continue
        s = s.copy()
        if d[1] > 0:
            eng.copyrange(s, d[1], d[2], addc(n, 1), src[1], src[2])
            eng.write(s, d[1], add(d[2], n), 1, VI(8, ZERO))
        out.append((s, a[0]))
    return out


def m_strncpy(eng, st, a, i):
    out = []
    n = iv(eng, st, a[2])
    d, src = ptr(eng, st, a[0]), ptr(eng, st, a[1])
    for s, L in strlen_n(eng, st, a[1], n, 'strncpy'):
        s = eng.access(s, d, n, 'w')
        if s is None:
            continue
        s = s.copy()
        if d[1] <= 0:
            out.append((s, a[0]))
            continue
        for k, s2 in ((0, s.copy()), (1, s)):
            # cut at n bytes, or the rest is filled with NUL
            if L is None:
                if k:
                    continue
            elif not s2.assume(GE, sub(L, n) if not k else addc(sub(n, L), -1)):
                continue
            m = L if k else n
            eng.copyrange(s2, d[1], d[2], m, src[1], src[2])
            if k:
                eng.fill(s2, d[1], add(d[2], L), sub(n, L), 0)
            out.append((s2, a[0]))
    return out


def m_strnlen(eng, st, a, i):
    out = []
    n = iv(eng, st, a[1])
    for s, L in strlen_n(eng, st, a[0], n, 'strnlen'):
        if L is None:
            out.append((s, VI(64, n, 'u')))
            continue
        s1 = s.copy()
        if s1.assume(GE, sub(n, L)):
            out.append((s1, VI(64, L, 'u')))
        if s.assume(GE, addc(sub(L, n), -1)):
            out.append((s, VI(64, n, 'u')))
    return out


def m_strdup(eng, st, a, i):
    out = []
    for s, L in strlen_of(eng, st, a[0], 'strdup'):
        src = ptr(eng, s, a[0])
        for s2, r in alloc(eng, s, addc(L, 1)):
            if r[1] > 0:
                s2 = s2.copy()
                eng.copyrange(s2, r[1], ZERO, addc(L, 1), src[1], src[2])
                eng.write(s2, r[1], L, 1, VI(8, ZERO))
            out.append((s2, r))
    return out


def m_strspn(eng, st, a, i):
    """a number of characters of the text"""
    out = []
    for s, L in strlen_of(eng, st, a[0], 'strspn'):
        for s2, _ in strlen_of(eng, s, a[1], 'strspn'):
            s2 = s2.copy()
            k = newsym('span', 0, PTRDIFF)
            if s2.assume(GE, sub(L, k)):
                out.append((s2, VI(64, k, 'u')))
    return out


def m_strpbrk(eng, st, a, i):
    out = []
    for s, L in strlen_of(eng, st, a[0], 'strpbrk'):
        for s2, _ in strlen_of(eng, s, a[1], 'strpbrk'):
            p = ptr(eng, s2, a[0])
            out.append((s2.copy(), NULLP))
            k = newsym('at', 0, PTRDIFF)
            s2 = s2.copy()
            if s2.assume(GE, addc(sub(L, k), -1)):
                out.append((s2, VP(p[1], add(p[2], k))))
    return out


def m_stpcpy(eng, st, a, i):
    out = []
    for s, n in strlen_of(eng, st, a[1], 'stpcpy'):
        for s2, _ in m_strcpy(eng, s, a, i):
            d = ptr(eng, s2, a[0])
            out.append((s2, VP(d[1], add(d[2], n))))
    return out


def m_mempcpy(eng, st, a, i):
    n = iv(eng, st, a[2])
    out = []
    for s, _ in m_memcpy(eng, st, a, i):
        d = ptr(eng, s, a[0])
        out.append((s, VP(d[1], add(d[2], n))))
    return out


def m_bzero(eng, st, a, i):
    return m_memset(eng, st, [a[0], VI(32, ZERO), a[1]], i)


def m_reallocarray(eng, st, a, i):
    n = mul(iv(eng, st, a[1]), iv(eng, st, a[2]))
    out = []
    big = st.copy()
    if big.assume(GE, addc(n, -PTRDIFF - 1)):
        big.tags['why'] = 1
        out.append((big, NULLP))
    if st.assume(GE, sub(K(PTRDIFF), n)):
        out += m_realloc(eng, st, [a[0], ('i', 64, n, 'u')], i)
    return out


def m_overflow(op):
    def f(eng, st, a, i):
        t = i['t']['e'][0]['t']
        b = t['b']
        signed = i['f'].startswith('llvm.s')
        x, y = (eng.toS(st, v) if signed else eng.toU(st, v) for v in (eng.as_int(st, a[0], b), eng.as_int(st, a[1], b)))
        e = {'add': add, 'sub': sub, 'mul': mul}[op](x, y)
        lo, hi = (-(1 << (b - 1)), (1 << (b - 1)) - 1) if signed else (0, (1 << b) - 1)
        out = []
        s = st.copy()
        if s.assume(GE, addc(e, -lo)) and s.assume(GE, sub(K(hi), e)):
            out.append((s, ('agg', [('i', b, e, 's' if signed else 'u'), VI(1, ZERO)])))
        for c in (addc(e, -hi - 1), addc(neg(e), lo - 1)):
            s = st.copy()
            if s.assume(GE, c):
                out.append((s, ('agg', [fresh_i(b, 'wrapped'), VI(1, ONE)])))
        return out
    return f


def m_putc(k):
    def f(eng, st, a, i):
        if k is not None and not check_file(eng, st, a[k]):
            return []
        return [(st, fresh_i(32, 'r', 's'))]
    return f


def m_atox(eng, st, a, i):
    return m_strtox(eng, st, [a[0], NULLP], i)


def strlen_n(eng, st, v, n, what):
    """length of a string that may be cut at n bytes: list of (state, len or None)"""
    v = ptr(eng, st, v)
    if v[0] == 'p' and v[1] > 0:
        r = st.mem.get(v[1])
        if r is not None and r.live == 1 and r.size is not None:
            zs = [z for z in zero_positions(eng, st, v[1]) if st.ge(z, v[2])]
            if not zs:
                # then the n bytes must be there
                s = eng.access(st, v, n, 'r')
                return [] if s is None else [(s, None)]
    return strlen_of(eng, st, v, what)


def m_strcat(eng, st, a, i):
    out = []
    for s, dl in strlen_of(eng, st, a[0], 'strcat'):
        for s2, n in strlen_of(eng, s, a[1], 'strcat'):
            d, src = ptr(eng, s2, a[0]), ptr(eng, s2, a[1])
            at = VP(d[1], add(d[2], dl))
            s2 = eng.access(s2, at, addc(n, 1), 'w')
            if s2 is None:
                continue
            s2 = s2.copy()
            eng.copyrange(s2, d[1], at[2], addc(n, 1), src[1], src[2])
            eng.write(s2, d[1], add(at[2], n), 1, VI(8, ZERO))
            out.append((s2, a[0]))
    return out


def m_strncat(eng, st, a, i):
    out = []
    k = iv(eng, st, a[2])
    for s, dl in strlen_of(eng, st, a[0], 'strncat'):
        for s2, L in strlen_n(eng, s, a[1], k, 'strncat'):
            alts = []
            if L is None:
                alts = [(s2, k)]
            elif s2.ge(k, L):
                alts = [(s2, L)]
            elif s2.ge(L, k):
                alts = [(s2, k)]
            else:
                sa = s2.copy()
                if sa.assume(GE, sub(k, L)):
                    alts.append((sa, L))
                sb = s2.copy()
                if sb.assume(GE, addc(sub(L, k), -1)):
                    alts.append((sb, k))
            for s3, n in alts:
                d, src = ptr(eng, s3, a[0]), ptr(eng, s3, a[1])
                at = VP(d[1], add(d[2], dl))
                s3 = eng.access(s3, at, addc(n, 1), 'w')
                if s3 is None:
                    continue
                s3 = s3.copy()
                eng.copyrange(s3, d[1], at[2], n, src[1], src[2])
                eng.write(s3, d[1], add(at[2], n), 1, VI(8, ZERO))
                out.append((s3, a[0]))
    return out


def m_strcmp(eng, st, a, i):
    return str_compare(eng, st, a[0], a[1], None)


def m_strncmp(eng, st, a, i):
    return str_compare(eng, st, a[0], a[1], iv(eng, st, a[2]))


def str_compare(eng, st, p, q, n):
    p, q = ptr(eng, st, p), ptr(eng, st, q)
    if n is not None and st.eq(n, ZERO):
        return [(st, VI(32, ZERO))]
    lp, lq = lit_bytes(eng, st, p), lit_bytes(eng, st, q)
    states = [(st, ())]
    for x, l in ((p, lp), (q, lq)):
        if l is not None:
            states = [(s, ls + (K(bytes(l).split(b'\0')[0].__len__()),)) for s, ls in states]
            continue
        ns = []
        for s, ls in states:
            if n is None:
                other = lq if x is p else lp
                ns += [(y, ls + (k,)) for y, k in strlen_of(eng, s, x, 'strcmp')]
            else:
                ns += [(y, ls + (k,)) for y, k in strlen_n(eng, s, x, n, 'strncmp')]
        states = ns
    out = []
    for s, (la, lb) in states:
        lit, oth = (lp, q) if lp is not None else (lq, p)
        ne = s.copy()
        r = fresh_i(32, 'cmp', 's')
        if lp is not None and lq is not None and (n is None or not n[1]):
            m = max(len(lp), len(lq)) if n is None else n[0]
            a_ = bytes(lp).split(b'\0')[0][:m]
            b_ = bytes(lq).split(b'\0')[0][:m]
            if a_ == b_:
                out.append((s, VI(32, ZERO)))
            else:
                ne.assume(NE, r[2])
                out.append((ne, r))
            continue
        if lit is None or (n is not None and n[1]):
            if n is None:
                s = s.copy()
                s.memo[('scmp',)] = s.memo.get(('scmp',), ()) + ((r[2], 'scmp', (p, q)),)
            elif la is not None and lb is not None:
                # equal texts of n characters, or the same shorter text
                long_ = [(GE, sub(la, n)), (GE, sub(lb, n))]
                short = [(EQ, sub(la, lb)), (GE, addc(sub(n, la), -1))]
                for cs in (long_, short):
                    e = s.copy()
                    if all(e.assume(k, x) for k, x in cs):
                        out.append((e, VI(32, ZERO)))
                ne.assume(NE, r[2])
                s = ne
            out.append((s, r))
            continue
        m = len(lit) if n is None else min(n[0], len(lit))
        ne.assume(NE, r[2])
        out.append((ne, r))
        # equal: every compared byte equals the literal's
        eqs = [s.copy()]
        for k in range(min(m, 24)):
            nx = []
            for e in eqs:
                reg = e.mem[oth[1]]
                if reg.size is None:
                    nx.append(e)
                    continue
                pos = addc(oth[2], k)
                eng.silent += 1
                try:
                    res = eng.read(e, reg.content, pos, 1, T8, oth[1])
                finally:
                    eng.silent -= 1
                for e2, v in res:
                    e2 = e2.copy()
                    if v[0] == 'i' and e2.assume(EQ, addc(eng.toU(e2, v), -lit[k])):
                        nx.append(e2)
            eqs = eng.reduce(nx, None, 4) if len(nx) > 4 else nx
        for e in eqs:
            out.append((e, VI(32, ZERO)))
    return out


def m_strchr(eng, st, a, i, last=False):
    out = []
    c = a[1]
    for s, L in strlen_of(eng, st, a[0], 'strchr'):
        p = ptr(eng, s, a[0])
        lit = lit_bytes(eng, s, p)
        if lit is not None and c[0] == 'i' and len(lit) <= 48:
            # one of a fixed set of characters
            cu = eng.toU(s, eng.trunc(s, c, 8) if c[1] > 8 and c[2][1] else c)
            if not cu[1]:
                cu = K(cu[0] & 255)
            none, seen = s.copy(), set()
            for k, b in enumerate(lit if not last else reversed(lit)):
                if b in seen:
                    continue
                seen.add(b)
                s1 = s.copy()
                if s1.assume(EQ, addc(cu, -b)):
                    out.append((s1, VP(p[1], addc(p[2], k if not last else len(lit) - 1 - k))))
                if none is not None and not none.assume(NE, addc(cu, -b)):
                    none = None
            if none is not None:
                out.append((none, NULLP))
            continue
        s0 = s.copy()
        ok0 = True
        if c[0] == 'i':
            cu = eng.toU(s0, c)
            # the terminator itself is always found
            ok0 = s0.assume(NE, cu)
        if ok0:
            s0.trail = s0.trail[-11:] + ('strchr: absent',)
            out.append((s0, NULLP))
        s1 = s.copy()
        k = newsym('at', 0, PTRDIFF)
        if s1.assume(GE, sub(L, k)):
            if c[0] == 'i' and s1.cons.prove_ne(eng.toU(s1, c), ZERO):
                if not s1.assume(GE, addc(sub(L, k), -1)):
                    continue
            reg = s1.mem[p[1]]
            b = reg.content
            if not isinstance(b, Entry) and b.kind in ('cstr', 'strbuf', 'opaque') and c[0] == 'i':
                eng.memo_add(s1, b, add(p[2], k), 1, eng.trunc(s1, c, 8))
            s1.trail = s1.trail[-11:] + ('strchr: found',)
            out.append((s1, VP(p[1], add(p[2], k))))
    return out


def m_strstr(eng, st, a, i):
    out = []
    for s, L in strlen_of(eng, st, a[0], 'strstr'):
        for s2, N in strlen_of(eng, s, a[1], 'strstr'):
            p, q = ptr(eng, s2, a[0]), ptr(eng, s2, a[1])
            key = None
            if p[1] > 0 and q[1] > 0:
                # the same search in the same bytes gives the same answer
                key = ('strstr', id(s2.mem[p[1]].content), p, id(s2.mem[q[1]].content), q)
                eng.pinned = getattr(eng, 'pinned', []) + [s2.mem[p[1]].content, s2.mem[q[1]].content]
                if key in s2.tags:
                    out.append((s2, s2.tags[key]))
                    continue
            s0 = s2.copy()
            s0.tags[key] = NULLP
            s0.trail = s0.trail[-11:] + ('strstr: absent',)
            out.append((s0, NULLP))
            s1 = s2.copy()
            k = newsym('at', 0, PTRDIFF)
            if s1.assume(GE, sub(L, add(k, N))):
                r = VP(p[1], add(p[2], k))
                s1.tags[key] = r
                s1.trail = s1.trail[-11:] + ('strstr: found',)
                out.append((s1, r))
    return out


def m_strtox(eng, st, a, i):
    out = []
    t = i['t']
    for s, L in strlen_of(eng, st, a[0], 'strto*'):
        e = ptr(eng, s, a[1])
        v = fterm('strto', a[0][1], a[0][2], s.mem[a[0][1]].content if a[0][1] in s.mem else 0, eng.tsize(t)) if t['k'] == 'f' else fresh_i(t['b'], 'num')
        if e[1] == 0:
            out.append((s, v))
            continue
        p = ptr(eng, s, a[0])
        k = newsym('used', 0, PTRDIFF)
        s = s.copy()
        s.cons.addrow(GE, sub(L, k))
        s = eng.store(s, e, VP(p[1], add(p[2], k)), {'k': 'p'})
        if s is not None:
            out.append((s, v))
    return out


# ------------------------------------------------------------------ formatted output
def fmt_check(eng, st, f):
    """the format must be a NUL-terminated string"""
    return [s for s, _ in strlen_of(eng, st, f, 'format')]


def m_snprintf(eng, st, a, i):
    """the same format with the same arguments always yields the same text: the count is tied to the
    generation of the va_list"""
    out = []
    n = iv(eng, st, a[1])
    isva = i.get('f', '').startswith('v') and len(a) == 4
    for s in fmt_check(eng, st, a[2]):
        d = ptr(eng, s, a[0])
        key = None
        if isva and a[3][0] == 'p':
            vk = ('va', a[3][1], a[3][2])
            if vk in s.tags:
                key = ('fmt', repr(a[2]), repr(s.tags[vk]))
                s = s.copy()
                s.tags.pop(vk)
        known = s.tags.get(key) if key else None
        alts = []
        if known is not None:
            alts = [(s, known)]
        else:
            # an encoding error, or a count
            e = s.copy()
            if not (d[1] == 0 or e.eq(n, ZERO)):
                e = eng.access(e, d, n, 'w')
                if e is None:
                    continue
                e = e.copy()
                eng.fill(e, d[1], d[2], n, None)
            e.trail = e.trail[-11:] + ('formatting fails',)
            e.tags['why'] = 1
            out.append((e, VI(32, K((1 << 32) - 1))))
            r = newsym('cnt', 0, (1 << 31) - 1)
            s = s.copy()
            if key:
                s.tags[key] = r
            alts = [(s, r)]
        for s, r in alts:
            v = ('i', 32, r, 'b')
            for case in (1, 2, 0):
                s2 = s.copy()
                if case == 0:
                    if s2.assume(EQ, n):
                        out.append((s2, v))
                    continue
                if not s2.assume(GE, addc(n, -1)):
                    continue
                if case == 1:
                    if not s2.assume(GE, addc(sub(n, r), -1)):
                        continue
                    z = r
                else:
                    if not s2.assume(GE, sub(r, n)):
                        continue
                    z = addc(n, -1)
                s2 = eng.access(s2, d, addc(z, 1), 'w')
                if s2 is None:
                    continue
                s2 = s2.copy()
                if d[1] > 0:
                    s2.memo[('fmt',)] = s2.memo.get(('fmt',), ()) + ((r, 'fmt', (d[1], d[2], n)),)
                    txt = Base('cstr', len=z)
                    s2.mem[d[1]] = s2.mem[d[1]].with_(content=Entry('cp', d[2], addc(z, 1), None, s2.mem[d[1]].content, txt, ZERO))
                    eng.write(s2, d[1], add(d[2], z), 1, VI(8, ZERO))
                out.append((s2, v))
    return out


def m_printf_like(nargs_before_fmt, ret=True):
    def f(eng, st, a, i):
        for k in range(nargs_before_fmt):
            r = check_file(eng, st, a[k])
            if not r:
                return []
        return [(s, fresh_i(32, 'cnt', 's', -1)) for s in fmt_check(eng, st, a[nargs_before_fmt])]
    return f


def check_file(eng, st, v):
    if v[0] != 'p':
        return True
    if v[1] == 0:
        eng.report('null', 'NULL stream passed to a stdio function', st, 'nullfile')
        return False
    if v[1] < 0:
        return True
    r = st.mem[v[1]]
    if r.kind == 'file' and r.live == 0:
        eng.report('uaf', 'stream used after it was closed', st, 'closedfile')
        return False
    return True


def m_fputs(eng, st, a, i):
    if not check_file(eng, st, a[1]):
        return []
    return [(s, fresh_i(32, 'r', 's')) for s, _ in strlen_of(eng, st, a[0], 'fputs')]


def m_fputs1(eng, st, a, i):
    return [(s, fresh_i(32, 'r', 's')) for s, _ in strlen_of(eng, st, a[0], 'puts')]


def m_fopen(eng, st, a, i):
    out = []
    for s, _ in strlen_of(eng, st, a[0], 'fopen'):
        s0 = s.copy()
        s0.trail = s0.trail[-11:] + ('fopen fails',)
        s0.tags['why'] = 1
        out.append((s0, NULLP))
        s1 = s.copy()
        rid = eng.new_region(s1, 'file', None, Base('opaque'), fresh=True, name='stream')
        out.append((s1, VP(rid)))
    return out


def m_fclose(eng, st, a, i):
    p = a[0]
    if not check_file(eng, st, p):
        return []
    if p[0] == 'p' and p[1] > 0 and st.mem[p[1]].kind == 'file':
        st.mem[p[1]] = st.mem[p[1]].with_(live=0)
    return [(st, fresh_i(32, 'r', 's'))]


def m_fread(eng, st, a, i):
    if not check_file(eng, st, a[3]):
        return []
    sz, n = iv(eng, st, a[1]), iv(eng, st, a[2])
    tot = mul(sz, n)
    d = ptr(eng, st, a[0])
    st = eng.access(st, d, tot, 'w')
    if st is None:
        return []
    st = st.copy()
    if d[1] > 0:
        eng.fill(st, d[1], d[2], tot, None)
    r = newsym('got', 0, M64)
    less = st.copy()
    less.tags['why'] = 1
    out = [(st, ('i', 64, n, 'u'))]
    if less.assume(GE, addc(sub(n, r), -1)):
        out.append((less, ('i', 64, r, 'u')))
    return out


def m_fwrite(eng, st, a, i):
    if not check_file(eng, st, a[3]):
        return []
    sz, n = iv(eng, st, a[1]), iv(eng, st, a[2])
    st = eng.access(st, ptr(eng, st, a[0]), mul(sz, n), 'r')
    if st is None:
        return []
    r = newsym('put', 0, M64)
    less = st.copy()
    less.tags['why'] = 1
    out = [(st, ('i', 64, n, 'u'))]
    if less.assume(GE, addc(sub(n, r), -1)):
        out.append((less, ('i', 64, r, 'u')))
    return out


def m_file_int(k):
    def f(eng, st, a, i):
        if not check_file(eng, st, a[k]):
            return []
        t = i.get('t', {'k': 'v'})
        if t['k'] == 'v':
            return [(st, None)]
        bad = st.copy()
        bad.tags['why'] = 1
        if i.get('f') in ('ftell', 'ftello'):
            # an empty file is a reason as well
            empty = bad.copy()
            return [(bad, VI(t['b'], K(2 ** t['b'] - 1))), (empty, VI(t['b'], ZERO)), (st, fresh_i(t['b'], 'fpos', 's', 1))]
        return [(bad, VI(t['b'], K(2 ** t['b'] - 1))), (st, fresh_i(t['b'], 'fpos', 's', 0))] if t['b'] > 1 else [(st, fresh_i(t['b'], 'fpos'))]
    return f


def m_fresh(eng, st, a, i):
    t = i['t'] if 't' in i else {'k': 'v'}
    return [(st, None if t['k'] == 'v' else eng.unknown(st, t))]


def m_float(eng, st, a, i):
    for x in a:
        if x[0] == 'undef':
            eng.report('uninit', 'an uninitialised value is passed to %s' % i.get('f'), st, 'uninit')
    if all(x[0] == 'f' for x in a):
        return [(st, fterm(fname(i.get('f', '?')), *[x[1] for x in a]))]
    return [(st, ('f', Syms.new('fl', None, None)))]


def fname(f):
    """the function of long double a call computes, whichever way it is spelled"""
    if f.startswith('llvm.'):
        return f.split('.')[1]
    return f[:-1] if f.endswith('l') and f not in ('ceil', ) else f


def m_ctype_b(eng, st, a, i):
    rid = eng.gl.get('#ctype')
    if rid is None:
        rid = eng.gl['#ctype'] = eng.nextrid
        eng.nextrid += 2
        b = Base('bytes', cells={}, bytes={})
        for c, m in CTYPE.items():
            b.cells[(256 + 2 * c, 2)] = VI(16, K(m))
        eng.ctype_base = b
        eng.ctype_ptr = Base('bytes', cells={(0, 8): VP(rid + 1, K(256))}, bytes={})
    if rid not in st.mem:
        st.mem[rid + 1] = Region(rid + 1, 'str', K(768), eng.ctype_base, 1, {'const': True, 'name': 'character class table'})
        st.mem[rid] = Region(rid, 'str', K(8), eng.ctype_ptr, 1, {'const': True, 'name': 'ctype'})
    return [(st, VP(rid))]


def m_errno(eng, st, a, i):
    rid = eng.new_region(st, 'stack', K(4), Base('opaque'), fid=-1, name='errno')
    return [(st, VP(rid))]


def m_case(eng, st, a, i):
    v = a[0]
    r = fresh_i(32, 'ch', 's', -128, 255)
    if v[0] == 'i' and st.eq(v[2], ZERO):
        return [(st, VI(32, ZERO))]
    if v[0] == 'i' and st.cons.prove_ne(v[2], ZERO):
        st.assume(NE, r[2])
    return [(st, r)]


def m_va_start(eng, st, a, i):
    p = a[0]
    va = st.env.get('#va')
    key = '#varegion'
    rid = st.env.get(key)
    if rid is None:
        if va is None:
            rid = eng.new_region(st, 'user', None, Base('opaque'), name='variadic arguments')
        else:
            rid = eng.new_region(st, 'stack', K(8 * len(va)), Base('uninit'), fid=st.env['#fid'], name='variadic arguments')
            for k, v in enumerate(va):
                if v[0] == 'i' and v[1] < 64:
                    v = VI(64, v[2], v[3])
                eng.write(st, rid, K(8 * k), 8, v)
        st.env[key] = rid
    T32, TP = {'k': 'i', 'b': 32}, {'k': 'p'}
    for off, v, t in ((0, VI(32, K(48)), T32), (4, VI(32, K(304)), T32), (8, VP(rid), TP), (16, VP(rid), TP)):
        st = eng.store(st, VP(p[1], addc(p[2], off)), v, t)
        if st is None:
            return []
    st.res = dict(st.res)
    if (p[1], p[2]) in st.res:
        eng.report('vaend', 'va_start on a va_list that was not ended', st, 'va_restart')
    st.res[(p[1], p[2])] = ('va', i.get('l', 0))
    st.tags[('va', p[1], p[2])] = (rid, 0)
    return [(st, None)]


def m_va_copy(eng, st, a, i):
    d, s = a[0], a[1]
    st = eng.access(st, s, K(24), 'r')
    if st is None:
        return []
    st = eng.access(st, d, K(24), 'w')
    if st is None:
        return []
    st = st.copy()
    for off, t in ((0, {'k': 'i', 'b': 32}), (4, {'k': 'i', 'b': 32}), (8, {'k': 'p'}), (16, {'k': 'p'})):
        r = eng.read(st, st.mem[s[1]].content, addc(s[2], off), eng.tsize(t), t, s[1])
        st, v = r[0]
        eng.write(st, d[1], addc(d[2], off), eng.tsize(t), v)
    st.res = dict(st.res)
    st.res[(d[1], d[2])] = ('va', i.get('l', 0))
    vk = ('va', s[1], s[2])
    if vk not in st.tags:
        st.tags[vk] = (s[1], eng.nextrid)
        eng.nextrid += 1
    st.tags[('va', d[1], d[2])] = st.tags[vk]
    return [(st, None)]


def m_va_end(eng, st, a, i):
    p = a[0]
    st.res = dict(st.res)
    st.tags.pop(('va', p[1], p[2]), None)
    own = p[0] == 'p' and p[1] > 0 and st.mem[p[1]].attr.get('fid') == st.env.get('#fid')
    if (p[1], p[2]) in st.res and own:
        del st.res[(p[1], p[2])]
    else:
        eng.report('vaend', 'va_end on a va_list that is not open here', st, 'va_end2')
    return [(st, None)]


def m_ctlz(eng, st, a, i):
    v = iv(eng, st, a[0])
    if not v[1] and v[0] > 0:
        return [(st, VI(64, K(64 - v[0].bit_length())))]
    if v[1]:
        # between two powers of two
        lo = hi = None
        for k in range(64):
            if st.ge(v, K(1 << k)):
                lo = k
            else:
                break
        if lo is not None:
            for k in range(lo + 1, 65):
                if st.ge(K((1 << k) - 1), v):
                    hi = k
                    break
            if hi == lo + 1:
                return [(st, VI(64, K(63 - lo)))]
            return [(st, fresh_i(64, 'clz', 'u', 0 if hi is None else 64 - hi, 63 - lo))]
    if st.ge(v, ONE):
        return [(st, fresh_i(64, 'clz', 'u', 0, 63))]
    if not v[1] and v[0] == 0:
        return [(st, VI(64, K(64)))]
    return [(st, fresh_i(64, 'clz', 'u', 0, 64))]


def m_abs(eng, st, a, i):
    b = a[0][1] if a[0][0] == 'i' else i['t']['b']
    if a[0][0] != 'i':
        return [(st, fresh_i(b, 'abs', 'u', 0, 1 << (b - 1)))]
    x = eng.toS(st, a[0])
    out = []
    for e, y in ((x, x), (addc(neg(x), -1), neg(x))):
        s = st.copy()
        if s.assume(GE, e):
            out.append((s, ('i', b, y, 'u')))
    return out


def m_noreturn(eng, st, a, i):
    return []


def m_next_pow_of_2(eng, st, a, i):
    """the smallest power of two above x (1 for 0); 0 when x >= 2^63.  The rule pow2 in rules.py
    proves this of the source on every run."""
    x = iv(eng, st, a[0])
    if not x[1]:
        v = 1
        while v <= x[0]:
            v <<= 1
        return [(st, VI(64, K(v & M64)))]
    out = []
    s1 = st.copy()
    if s1.assume(GE, addc(x, -1)) and s1.assume(GE, sub(K(PTRDIFF), x)):
        r = newsym('pow2', 2, 1 << 63)
        s1.cons.addrow(GE, addc(sub(r, x), -1))
        s1.cons.addrow(GE, sub(scale(x, 2), r))
        out.append((s1, ('i', 64, r, 'u')))
    s0 = st.copy()
    if s0.assume(EQ, x):
        out.append((s0, VI(64, ONE)))
    s2 = st.copy()
    if s2.assume(GE, addc(x, -(1 << 63))):
        out.append((s2, VI(64, ZERO)))
    return out


def m_stat(eng, st, a, i):
    out = []
    for s, _ in strlen_of(eng, st, a[0], 'stat'):
        s0 = s.copy()
        out.append((s0, VI(32, K((1 << 32) - 1))))
        p = ptr(eng, s, a[1])
        s1 = eng.access(s, p, K(144), 'w')
        if s1 is not None:
            s1 = s1.copy()
            eng.fill(s1, p[1], p[2], K(144), None)
            out.append((s1, VI(32, ZERO)))
    return out


def m_getcwd(eng, st, a, i):
    n = iv(eng, st, a[1])
    p = ptr(eng, st, a[0])
    st = eng.access(st, p, n, 'w')
    if st is None:
        return []
    s0 = st.copy()
    eng.fill(s0, p[1], p[2], n, None)
    s1 = s0.copy()
    z = newsym('cwdlen', 0, PTRDIFF)
    s1.cons.addrow(GE, addc(sub(n, z), -1))
    eng.write(s1, p[1], add(p[2], z), 1, VI(8, ZERO))
    return [(s0, NULLP), (s1, a[0])]


def m_handle_open(name):
    def f(eng, st, a, i):
        out = []
        sts = [st]
        if a and a[0][0] == 'p' and a[0][1] > 0:
            sts = [s for s, _ in strlen_of(eng, st, a[0], name)]
        for s in sts:
            s0 = s.copy()
            s0.trail = s0.trail[-11:] + (name + ' fails',)
            s0.tags['why'] = 1
            out.append((s0, NULLP))
            s1 = s.copy()
            rid = eng.new_region(s1, 'file', None, Base('opaque'), fresh=True, name=name + ' handle', res=name)
            out.append((s1, VP(rid)))
        return out
    return f


def m_handle_close(name):
    def f(eng, st, a, i):
        p = a[0]
        if p[0] == 'p' and p[1] == 0:
            eng.report('null', '%s of a NULL handle' % name, st, 'nullhandle')
            return []
        if p[0] == 'p' and p[1] > 0:
            r = st.mem[p[1]]
            if r.kind == 'file':
                if r.live == 0:
                    eng.report('dfree', '%s of a handle already closed' % name, st, 'dclose')
                    return []
                st.mem[p[1]] = r.with_(live=0)
        return [(st, fresh_i(32, 'r', 's'))]
    return f


def m_readdir(eng, st, a, i):
    s0 = st.copy()
    s1 = st.copy()
    L = newsym('dnamelen', 1, 255)
    b = Base('lazy', handler=dirent_read, len=L)
    rid = eng.new_region(s1, 'user', K(280), b, name='dirent')
    s1.mem[rid] = s1.mem[rid].with_(kind='param')
    return [(s0, NULLP), (s1, VP(rid))]


def dirent_read(eng, st, b, off, n, t, rid):
    return [(st, eng.unknown(st, t))]


def m_dlsym(eng, st, a, i):
    s1 = st.copy()
    rid = eng.new_region(s1, 'user0', None, Base('opaque'), name='plugin symbol', nonnull=True)
    return [(st.copy(), NULLP), (s1, VP(rid))]


def m_stacksave(eng, st, a, i):
    return [(st, eng.unknown(st, {'k': 'p'}))]


def m_nop(eng, st, a, i):
    return [(st, None)]


def m_scope_start(eng, st, a, i):
    p = a[-1]
    if p[0] == 'p' and p[1] > 0 and st.mem[p[1]].kind == 'stack':
        st.mem[p[1]] = st.mem[p[1]].with_(live=1, content=Base('uninit'))
    return [(st, None)]


def m_scope_end(eng, st, a, i):
    p = a[-1]
    if p[0] == 'p' and p[1] > 0 and st.mem[p[1]].kind == 'stack':
        eng.end_of_life(st, p[1], (eng.p.fn(st.env['#fn']), i))
    return [(st, None)]


TABLE = {
    'llvm.lifetime.start.p0': m_scope_start, 'llvm.lifetime.end.p0': m_scope_end,
    'malloc': m_malloc, 'calloc': m_calloc, 'realloc': m_realloc, 'free': m_free,
    'llvm.memcpy.p0.p0.i64': m_memcpy, 'memcpy': m_memcpy, 'llvm.memmove.p0.p0.i64': m_memcpy, 'memmove': m_memcpy,
    'llvm.memset.p0.i64': m_memset, 'memset': m_memset, 'memcmp': m_memcmp, 'memchr': m_memchr,
    'strlen': m_strlen, 'strcpy': m_strcpy, 'strncpy': m_strncpy, 'strcat': m_strcat, 'strncat': m_strncat,
    'strcmp': m_strcmp, 'strncmp': m_strncmp, 'strchr': m_strchr, 'strrchr': m_strchr, 'strstr': m_strstr,
    'strtoll': m_strtox, 'strtoull': m_strtox, 'strtoul': m_strtox, 'strtol': m_strtox, 'strtold': m_strtox, 'strtod': m_strtox, 'strtof': m_strtox,
    'snprintf': m_snprintf, 'vsnprintf': m_snprintf,
    'fprintf': m_printf_like(1), 'vfprintf': m_printf_like(1), 'printf': m_printf_like(0),
    'fputs': m_fputs, 'fopen': m_fopen, 'fclose': m_fclose, 'fread': m_fread, 'fwrite': m_fwrite,
    'fseek': m_file_int(0), 'ftell': m_file_int(0), 'rewind': m_file_int(0), 'fflush': m_file_int(0),
    '__ctype_b_loc': m_ctype_b, '__errno_location': m_errno, 'tolower': m_case, 'toupper': m_case,
    'llvm.va_start': m_va_start, 'llvm.va_end': m_va_end, 'llvm.va_copy': m_va_copy,
    'llvm.ctlz.i64': m_ctlz, 'llvm.abs.i64': m_abs, 'llvm.abs.i32': m_abs, 'labs': m_abs, 'llabs': m_abs, 'abs': m_abs,
    'rand': m_fresh, 'srand': m_fresh, 'time': m_fresh, '__isoc99_vsscanf': m_fresh,
    'stat': m_stat, 'getcwd': m_getcwd, 'opendir': m_handle_open('opendir'), 'closedir': m_handle_close('closedir'),
    'readdir': m_readdir, 'dlopen': m_handle_open('dlopen'), 'dlclose': m_handle_close('dlclose'), 'dlsym': m_dlsym,
    'strnlen': m_strnlen, 'strdup': m_strdup, '__strdup': m_strdup, 'strcspn': m_strspn, 'strspn': m_strspn, 'strpbrk': m_strpbrk,
    'stpcpy': m_stpcpy, 'mempcpy': m_mempcpy, 'bzero': m_bzero, 'reallocarray': m_reallocarray,
    'fputc': m_putc(1), 'putc': m_putc(1), '_IO_putc': m_putc(1), 'putchar': m_putc(None), 'puts': m_fputs1, 'feof': m_putc(0), 'ferror': m_putc(0),
    'fgetc': m_putc(0), 'getc': m_putc(0), 'clearerr': m_file_int(0),
    'atoi': m_atox, 'atol': m_atox, 'atoll': m_atox, 'atof': m_atox,
    'llvm.stacksave.p0': m_stacksave, 'llvm.stackrestore.p0': m_nop,
    'next_pow_of_2': m_next_pow_of_2,
    'exit': m_noreturn, 'abort': m_noreturn,
}
for _n in ('add', 'sub', 'mul'):
    for _s in ('u', 's'):
        for _b in (8, 16, 32, 64):
            TABLE['llvm.%s%s.with.overflow.i%d' % (_s, _n, _b)] = m_overflow(_n)
for _n in ('acos', 'asin', 'atan', 'cos', 'exp', 'exp2', 'log10', 'log2', 'log', 'pow', 'sin', 'tan', 'sqrt', 'cbrt', 'sinh', 'cosh', 'tanh', 'atan2',
           'ceil', 'floor', 'fabs', 'round', 'trunc', 'rint', 'nearbyint', 'fmod', 'copysign', 'fmax', 'fmin', 'hypot', 'fdim'):
    for _s in ('', 'f', 'l'):
        TABLE.setdefault(_n + _s, m_float)
    for _s in ('f32', 'f64', 'f80'):
        TABLE.setdefault('llvm.%s.%s' % (_n, _s), m_float)


class Models:
    def __init__(self):
        self.table = dict(TABLE)

    def find(self, name):
        return self.table.get(name)

    ptr = staticmethod(ptr)
    zero_positions = staticmethod(zero_positions)
    is_zero_at = staticmethod(is_zero_at)

    def unknown_call(self, eng, st, i, args, fp):
        """call of a user-supplied function"""
        hook = getattr(self, 'callback', None)
        if hook:
            return hook(eng, st, i, args, fp)
        t = i.get('t', {'k': 'v'})
        return [(st, None if t['k'] == 'v' else eng.unknown(st, t))]

    def check_leaks_at(self, eng, st, where, inst, extra_roots=()):
        roots = list(st.env.values()) if where == 'loop' else []
        if where == 'loop':
            fn = inst[0]
        vals = []
        for e in ([st.env] if where == 'loop' else []) + list(st.parents):
            vals += [v for k, v in e.items() if not isinstance(k, str) and isinstance(v, tuple)]
            if '#va' in e and e['#va']:
                vals += list(e['#va'])
        vals += list(extra_roots)
        for rid, r in st.mem.items():
            if r.kind in ('param', 'global', 'user') or (r.kind == 'stack' and r.live == 1 and where == 'loop'):
                vals.append(VP(rid))
        seen = set(eng.reach(st, vals))
        for rid, r in st.mem.items():
            if r.live == 1 and rid not in seen and r.kind in ('heap', 'file') and not r.attr.get('noleak'):
                if r.kind == 'heap':
                    eng.report('leak', 'memory allocated at %s is lost (%s)' % (r.attr.get('site', 'entry'), where), st, 'leak:%s' % r.attr.get('site', '?').split(':')[0] + ':' + r.attr.get('name', ''), inst=inst)
                else:
                    eng.report('resleak', '%s opened at %s is never closed on this path' % (r.attr.get('name'), r.attr.get('site', '?')), st, 'resleak', inst=inst)
