"""Ordered hash map.  Entry i (i < len) owns a key block of keylens[i] bytes and a value block of
datalens[i] bytes; every bucket is SIZE_MAX or the number of an entry.  Entries are described on
demand; at a return an arbitrary entry and an arbitrary bucket are checked."""
from spec import *
from specs.deque import word_index
from specs.tuple import heap_block

PTRS = ('datum', 'keys', 'buckets', 'hashes', 'keylens', 'datalens')
FIELDS = PTRS + ('cap', 'len', 'seed')
MAXV = VI(64, K(M64))


def array_hash(eng, st, args, i):
    """the hash of the same bytes is the same number (the loop itself is analysed on its own)"""
    n, seed = eng.toU(st, args[1]), eng.toU(st, args[2])
    p = eng.models.ptr(eng, st, args[0])
    st = eng.access(st.copy(), p, n, 'r')
    if st is None:
        return []
    c = st.mem[p[1]].content if p[1] > 0 else None
    for k, (m, sd, off), v in st.memo.get(('hash',), ()):
        if k is c and st.eq(m, n) and st.eq(sd, seed) and st.eq(off, p[2]):
            return [(st, v)]
    v = u64('hash')
    st.memo[('hash',)] = st.memo.get(('hash',), ()) + ((c, (n, seed, p[2]), v),)
    return [(st, v)]


class Map0:
    """the map as it was on entry"""


class Rec:
    def __init__(self, key, data, klen, dlen, hash_):
        self.key, self.data, self.klen, self.dlen, self.hash = key, data, klen, dlen, hash_

    def __eq__(self, o):
        return isinstance(o, Rec) and self.__dict__ == o.__dict__

    def __hash__(self):
        return hash((self.key, self.data))

    def __getitem__(self, i):
        return 'rec'


def entry_(d, eng, st, i):
    """[(state, record)] of entry i of the entry map (i < len)"""
    out = []
    lst = st.memo.get(d.R.id, ())
    for o, n, r in lst:
        if st.eq(o, i):
            return [(st, r)]
    rest = st.copy()
    for o, n, r in lst:
        s = rest.copy()
        if s.assume(EQ, sub(i, o)):
            out.append((s, r))
        if not rest.assume(NE, sub(i, o)):
            return out
    s = rest
    kl, dl = u64('keylen', 0, PTRDIFF), u64('datalen', 0, PTRDIFF)
    b0, b1 = Base('opaque'), Base('opaque')
    key = eng.new_region(s, 'heap', kl[2], b0, name='entry key', site='entry', b0=b0)
    data = eng.new_region(s, 'heap', dl[2], b1, name='entry value', site='entry', b0=b1)
    r = Rec(key, data, kl, dl, u64('hash'))
    s.memo[d.R.id] = s.memo.get(d.R.id, ()) + ((i, 'e', r),)
    for f, v in (('keys', VP(key)), ('datum', VP(data)), ('keylens', kl), ('datalens', dl), ('hashes', r.hash)):
        if eng.memo_find(s, d.base[f], scale(i, 8), 8) is None:
            eng.memo_add(s, d.base[f], scale(i, 8), 8, v)
    out.append((s, r))
    return out


class MapShape(Shape):
    struct = 'HarbolMap'

    def fill(self, cx, st, rid, off, name, mode):
        O = {f: addc(off, cx.p.off(self.struct, f)) for f in FIELDS}
        s = st.copy()
        for f in FIELDS:
            cx.put(s, rid, O[f], 8, NULLP if f in PTRS else VI(64, ZERO))
        if mode == 'out':
            return [s]
        s.tags['map'] = 'none'
        cx.put(s, rid, O['seed'], 8, u64('seed'))
        out = [s]
        s = st.copy()
        d = Map0()
        cap, ln = u64('cap', 0, PTRDIFF // 64), u64('len', 0, PTRDIFF // 64)
        d.cap, d.len = cap[2], ln[2]
        s.cons.addrow(GE, sub(d.cap, d.len))
        d.R = Base('opaque')
        size = scale(d.cap, 8)

        def field(get):
            def h(eng, st2, b, off2, nb, t, rid2, d=d):
                i = word_index(off2)
                if nb != 8 or i is None:
                    return [(st2, eng.unknown(st2, t))]
                res = []
                s2 = st2.copy()
                if s2.assume(GE, addc(sub(d.len, i), -1)):
                    res += [(s3, get(r)) for s3, r in entry_(d, eng, s2, i)]
                s2 = st2.copy()
                if s2.assume(GE, sub(i, d.len)):
                    v = eng.memo_find(s2, b, off2, 8)
                    if v is None:
                        v = eng.unknown(s2, t)
                        eng.memo_add(s2, b, off2, 8, v)
                    res.append((s2, v))
                return res
            return Base('lazy', handler=h)

        def buckets(eng, st2, b, off2, nb, t, rid2, d=d):
            if nb != 8 or word_index(off2) is None:
                return [(st2, eng.unknown(st2, t))]
            v = eng.memo_find(st2, b, off2, 8)
            if v is not None:
                return [(st2, v)]
            res = []
            for v in (MAXV, u64('bkt', 0, PTRDIFF)):
                s2 = st2.copy()
                if v[2][1] and not s2.assume(GE, addc(sub(d.len, v[2]), -1)):
                    continue
                eng.memo_add(s2, b, off2, 8, v)
                res.append((s2, v))
            return res
        bases = {'datum': field(lambda r: VP(r.data)), 'keys': field(lambda r: VP(r.key)), 'hashes': field(lambda r: r.hash),
                 'keylens': field(lambda r: r.klen), 'datalens': field(lambda r: r.dlen), 'buckets': Base('lazy', handler=buckets)}
        d.base = bases
        d.reg = {}
        for f in PTRS:
            d.reg[f] = cx.region(s, 'heap', size, bases[f], name=name + '->' + f, of=rid)
            cx.put(s, rid, O[f], 8, VP(d.reg[f]))
        d.seed = u64('seed')
        for f, v in (('cap', cap), ('len', ln), ('seed', d.seed)):
            cx.put(s, rid, O[f], 8, v)
        if cx.opts.get('ghost'):
            # an entry picked beforehand
            d.g = newsym('g', 0, PTRDIFF)
            if not s.assume(GE, addc(sub(d.len, d.g), -1)):
                return out
            (s, r), = entry_(d, cx.eng, s, d.g)
            for rid in (r.key, r.data):
                s.mem[rid] = s.mem[rid].with_(attr=dict(s.mem[rid].attr, split=True))
        s.tags['map'] = 'some'
        cx.g.setdefault('maps', {})[s.tags['map']] = d
        out.append(s)
        return out

    def d0(self, cx, st):
        return cx.g.get('maps', {}).get(st.tags.get('map'))

    def check(self, cx, P, st, rid, off, name):
        if P.ok is False and P.objs.get(name) is not None and P.objs[name].mode == 'out':
            return
        fs = [(st.copy(), {})]
        for f in FIELDS:
            fs = [(s2, dict(m, **{f: v})) for s, m in fs for s2, v in cx.fld(s, self.struct, f, rid, off)]
        for s, m in fs:
            Q = P.at(s)
            if any(v[0] == 'undef' for v in m.values()):
                Q.fail('inv', 'inv:uninit', '%s is left with uninitialised fields' % name)
                continue
            self.chk(cx, Q, s, m, name)

    def chk(self, cx, Q, st, m, name):
        eng = cx.eng
        cap, ln = eng.toU(st, m['cap']), eng.toU(st, m['len'])
        if any(m[f] == NULLP for f in PTRS):
            Q.eq('inv', 'inv:null', cap, ZERO, '%s: no storage but a capacity' % name)
            Q.eq('inv', 'inv:null-len', ln, ZERO, '%s: no storage but entries' % name)
            for f in PTRS:
                if m[f] != NULLP:
                    Q.fail('inv', 'inv:null-part', '%s: only part of the storage is there' % name)
            return
        for f in PTRS:
            if not heap_block(st, m[f]):
                Q.fail('inv', 'inv:' + f, '%s: %s is not a live allocation' % (name, f))
                return
            if not Q.prove('inv', 'inv:size:' + f, sub(st.mem[m[f][1]].size, scale(cap, 8)), '%s: the capacity exceeds the storage of %s' % (name, f)):
                return
        if len({m[f][1] for f in PTRS}) != 6:
            Q.fail('inv', 'inv:distinct', '%s: two arrays share storage' % name)
            return
        if not Q.prove('inv', 'inv:len', sub(cap, ln), '%s: more entries than the capacity' % name):
            return
        # an arbitrary bucket
        b = newsym('b', 0, PTRDIFF)
        for R in Q.cases((GE, addc(sub(cap, b), -1))):
            for s, v in cx.get(R.st, m['buckets'][1], scale(b, 8), T64):
                if v[0] != 'i':
                    R.at(s).fail('inv', 'inv:bucket', '%s: a bucket is not initialised' % name)
                elif not s.eq(eng.toU(s, v), K(M64)):
                    R.at(s).prove('inv', 'inv:bucket', addc(sub(ln, eng.toU(s, v)), -1), '%s: a bucket names an entry that does not exist' % name)
        self.entries(cx, Q, st, m, ln, name)

    def entries(self, cx, Q, st, m, ln, name):
        """an arbitrary entry"""
        eng = cx.eng
        d = self.d0(cx, st)
        k = newsym('k', 0, PTRDIFF)
        for R in Q.cases((GE, addc(sub(ln, k), -1))):
            for s, e0 in self.origin(cx, R, d, k):
                if e0 is None:
                    self.fresh(cx, R.at(s), m, k, name)
                    continue
                fs = [(s.copy(), {})]
                for f in PTRS:
                    if f != 'buckets':
                        fs = [(s3, dict(mm, **{f: v})) for s2, mm in fs for s3, v in cx.get(s2, m[f][1], scale(k, 8), TP if f in ('keys', 'datum') else T64)]
                for s2, v in fs:
                    for s3, r in entry_(d, eng, s2.copy(), e0):
                        Z = R.at(s3)
                        self.kept(cx, Z, s3, v, r, k, name)

    def kept(self, cx, Z, s3, v, r, k, name):
        eng = cx.eng
        if v['keys'] != VP(r.key):
            Z.fail('content', 'key', '%s: the key of a kept entry changed place or was lost' % name)
            return
        if s3.mem[r.key].live != 1 or isinstance(s3.mem[r.key].content, Entry):
            Z.fail('content', 'key-bytes', '%s: the key of a kept entry was freed or overwritten' % name)
        if not val_same(eng, s3, v['keylens'], r.klen):
            Z.fail('content', 'keylen', '%s: the key length of a kept entry changed' % name)
        if not val_same(eng, s3, v['hashes'], r.hash):
            Z.fail('content', 'hash', '%s: the hash of a kept entry changed' % name)
        new = cx.g.get('newval')
        if new is not None and Z.ok and any(s3.eq(e, k) for e in new(Z)) and v['datum'] != VP(r.data):
            dv, n, src = v['datum'], Z.eng.toU(s3, v["datalens"]), Z.args[-2]
            if not heap_block(s3, dv):
                Z.fail('content', 'value', '%s: the entry set holds no value' % name)
                return
            Z.eq('content', 'datalen', n, Z.eng.toU(s3, Z.args[-1]), '%s: the length of the value set is not that given' % name)
            Z.same_bytes('content', 'value', dv, ZERO, src[1], src[2], n, '%s: the value set is not that given' % name)
            return
        if v['datum'] != VP(r.data) or s3.mem[r.data].live != 1 or isinstance(s3.mem[r.data].content, Entry):
            Z.fail('content', 'value', '%s: the value of a kept entry changed' % name)
        if not val_same(eng, s3, v['datalens'], r.dlen):
            Z.fail('content', 'datalen', '%s: the value length of a kept entry changed' % name)

    def origin(self, cx, R, d, k):
        """[(state, entry-map index or None for a new entry)] of entry k now"""
        n0 = d.len if d is not None else ZERO
        out = []
        rm = cx.g.get('removed')
        if rm is not None and R.ok:
            for e, j in ((addc(sub(rm(R), k), -1), k), (sub(k, rm(R)), addc(k, 1))):
                s = R.st.copy()
                if s.assume(GE, e):
                    out.append((s, j))
            return out
        s = R.st.copy()
        if s.assume(GE, addc(sub(n0, k), -1)):
            out.append((s, k))
        s = R.st.copy()
        if s.assume(GE, sub(k, n0)):
            out.append((s, None))
        return out

    def fresh(self, cx, Z, m, k, name):
        """an entry that was not there before: the key and value given"""
        eng, st = cx.eng, Z.st
        a = Z.args
        if len(a) != 5:
            Z.fail('inv', 'inv:extra', '%s: an entry appears from nowhere' % name)
            return
        fs = [(st.copy(), {})]
        for f in PTRS:
            if f != 'buckets':
                fs = [(s3, dict(mm, **{f: v})) for s2, mm in fs for s3, v in cx.get(s2, m[f][1], scale(k, 8), TP if f in ('keys', 'datum') else T64)]
        for s, v in fs:
            Q = Z.at(s)
            for f, l, src, n in (('keys', 'keylens', a[1], a[2]), ('datum', 'datalens', a[3], a[4])):
                if not heap_block(s, v[f]):
                    Q.fail('content', 'new:' + f, '%s: the new entry has no %s block of its own' % (name, f))
                    continue
                Q.eq('content', 'new:' + l, eng.toU(s, v[l]), eng.toU(s, n), '%s: the length stored for the new entry (%s) is not that given' % (name, l))
                Q.same_bytes('content', 'new:' + f, v[f], ZERO, src[1], src[2], eng.toU(s, n), '%s: the new entry (%s) is not a copy of what was given' % (name, f))
            if v['keys'] == v['datum']:
                Q.fail('content', 'new:alias', '%s: key and value of the new entry share memory' % name)
            if v['hashes'][0] == 'undef':
                Q.fail('content', 'new:hash', '%s: the new entry has no hash' % name)

    def logical_same(self, cx, P, o):
        """a failed operation may have grown the storage; the entries stay"""
        d = self.d0(cx, P.st)
        return P.st.eq(P.f1(o.name, 'len'), d.len if d is not None else ZERO)


MAP = MapShape()


def roles(cx, st, name, ty, fn, opts):
    if ty == 'struct HarbolMap*':
        return [(s, VP(o.rid), o) for s, o in MAP.new(cx, st, name, opts.get('mode', 'mut'))]
    if ty == 'struct HarbolMap const*':
        return [(s, VP(o.rid), o) for s, o in MAP.new(cx, st, name, 'const')]
    if ty in ('struct HarbolMap**', 'struct HarbolMap* const*'):
        return ref_role(cx, st, name, MAP, 'mut')
    if name in ('key', 'desired_key', 'val'):
        n = cx.ghost('keylen_given' if name != 'val' else 'datasize_given', 0, PTRDIFF)
        rid = cx.region(st, 'param', n, Base('opaque'), name=name, const=True)
        return [(st, VP(rid), None)]
    if name == 'keylen' and ty == 'unsigned long*':
        rid = cx.region(st, 'param', K(8), Base('uninit'), name=name)
        return [(st, VP(rid), Obj(name, None, rid, ZERO, 'res'))]
    if name in ('keylen', 'datasize'):
        return [(st, ('i', 64, cx.ghost(name + '_given', 0, PTRDIFF), 'u'), None)]
    if ty == '_Bool*':
        rid = cx.region(st, 'param', K(1), Base('uninit'), name=name)
        return [(st, VP(rid), Obj(name, None, rid, ZERO, 'res'))]
    return scalar(cx, st, name, ty)


SPECS = {}
MODULE = 'map'


def spec(name, setup=None, **kw):
    def pre(cx, st, args, objs, fn):
        cx.g.pop('removed', None)
        cx.g.pop('newval', None)
        if setup:
            setup(cx, args)
        return st
    SPECS['harbol_map_' + name] = dict(roles=roles, pre=pre, contracts={'array_hash': array_hash}, **kw)


def A(P, i):
    return P.eng.toU(P.st, P.args[i])


def d0(P):
    return MAP.d0(P.cx, P.st)


def p_made(n, shift=0):
    def post(P):
        if P.sret is not None:
            MAP.check(P.cx, P, P.st, P.sret, ZERO, 'result')
            for s, v in P.cx.get(P.st.copy(), P.objs['res'].rid, ZERO, {'k': 'i', 'b': 8}):
                if v[0] == 'undef':
                    P.at(s).fail('status', 'res', 'does not report whether it succeeded')
                    continue
                for Q in P.at(s).cases((GE, addc(P.eng.toU(s, v), -1))):
                    caps(Q, P.sret, ZERO, n)
        elif P.ok and P.ret[0] == 'p':
            MAP.check(P.cx, P, P.st, P.ret[1], P.ret[2], 'result')
            caps(P, P.ret[1], P.ret[2], n)
        elif P.ok:
            caps(P, P.args[0][1], ZERO, n)
    return post


def caps(P, rid, off, n):
    for f, w, msg in (('cap', A(P, n), 'a new map must have the capacity asked for'), ('len', ZERO, 'a new map must be empty')):
        for s, v in P.cx.fld(P.st.copy(), MAP.struct, f, rid, off):
            P.at(s).eq('count', f, P.eng.toU(s, v), w, msg)


def all_dropped(P):
    d = d0(P)
    if d is not None and hasattr(d, 'g'):
        dropped(P, d.g, ('key', 'value'))


def p_clear(P):
    for f in ('len', 'cap'):
        P.eq('count', f, P.f1('map', f), ZERO, 'clearing must leave nothing')
    for f in PTRS:
        if P.f1('map', f) != NULLP:
            P.fail('inv', 'cleared', 'clearing must drop the storage')
    all_dropped(P)


def p_free(P):
    o = [x for x in P.objs.values()][0]
    for s, v in P.cx.get(P.st.copy(), o.rid, o.off, TP):
        if v != NULLP:
            P.at(s).fail('inv', 'freed', 'freeing must reset the caller\'s pointer')
    all_dropped(P)


def compared(P, st, a, b, n):
    """the n bytes at a and b were compared and found equal"""
    if st.eq(n, ZERO):
        return True
    for z, _, (x, y, m) in st.memo.get(('cmp',), ()):
        for p, q in ((x, y), (y, x)):
            if ptr_same(st, p, a) and ptr_same(st, q, b) and st.eq(z, ZERO) and st.eq(m, n):
                return True
    return False


def is_entry(P, st, i, key, n, what):
    """entry i of the map holds exactly the bytes given"""
    d = d0(P)
    Q = P.at(st)
    if d is None:
        Q.fail('retval', 'none', 'finds an entry in an empty map')
        return
    if not Q.prove('retval', 'range', addc(sub(d.len, i), -1), 'returns an entry that does not exist'):
        return
    for s, r in entry_(d, P.eng, st.copy(), i):
        own, ln = (r.key, r.klen) if what == 'key' else (r.data, r.dlen)
        R = P.at(s)
        R.eq('retval', 'length', ln[2], n, 'the entry found has a %s of another length' % what)
        if not compared(P, s, VP(own), key, n):
            R.fail('retval', 'match', 'the entry found was not compared with the %s asked for' % what)


def p_index(P):
    if not P.ok and matched(P):
        P.fail('retval', 'missed', 'reports no entry although one was compared and found equal')
    if P.ok:
        is_entry(P, P.st, P.retu(), P.args[1], A(P, 2), 'key')


def p_has(P):
    """some entry was compared and found equal"""
    for s, b in P.eng.split(P.st, P.ret):
        if not b and matched(P.at(s)):
            P.at(s).fail('retval', 'missed', 'reports no key although an entry was compared and found equal')
        if b and not any(s.eq(z, ZERO) for z, _, _ in s.memo.get(('cmp',), ())) and not s.eq(A(P, 2), ZERO):
            P.at(s).fail('retval', 'match', 'reports a key without having found it')


def p_idxval(P):
    if P.ok:
        is_entry(P, P.st, P.retu(), P.args[1], A(P, 2), 'val')


def data_entry(P, st, ret, what):
    """the index of the entry whose key/value block is returned"""
    d = d0(P)
    for o, n, r in st.memo.get(d.R.id, ()) if d is not None else ():
        if ret == VP(r.key if what == 'key' else r.data):
            return o, r
    return None, None


def p_keyval(P):
    if not P.ok:
        return
    i, r = data_entry(P, P.st, P.ret, 'key')
    if r is None:
        P.fail('retval', 'key', 'does not return the key of an entry')
        return
    is_entry(P, P.st, i, P.args[1], A(P, 2), 'val')
    for s, v in P.cx.get(P.st.copy(), P.objs['keylen'].rid, ZERO, T64):
        if v[0] == 'undef' or not s.eq(P.eng.toU(s, v), r.klen[2]):
            P.at(s).fail('retval', 'keylen', 'does not report the length of the key found')


def p_keyget(P):
    if not P.ok and matched(P):
        P.fail('retval', 'missed', 'reports no value although an entry was compared and found equal')
    if not P.ok:
        return
    i, r = data_entry(P, P.st, P.ret, 'val')
    if r is None:
        P.fail('retval', 'value', 'does not return the value of an entry')
        return
    is_entry(P, P.st, i, P.args[1], A(P, 2), 'key')


def p_idxget(P):
    d = d0(P)
    n = d.len if d is not None else ZERO
    for Q in P.cases((GE, sub(A(P, 1), n))):
        if P.ret != NULLP:
            Q.fail('retval', 'range', 'returns the value of an entry that does not exist')
    for Q in P.cases((GE, addc(sub(n, A(P, 1)), -1))):
        for s, r in entry_(d, P.eng, Q.st.copy(), A(P, 1)):
            if P.ret != VP(r.data):
                P.at(s).fail('retval', 'value', 'does not return the value of the entry')


def p_insert(P):
    d = d0(P)
    n = d.len if d is not None else ZERO
    P.eq('count', 'len', P.f1('map', 'len'), addc(n, 1) if P.ok else n, 'insertion must raise the count by one exactly when it succeeds')
    if P.ok and not bucketed(P, n):
        P.fail('inv', 'bucketed', 'the new entry is in no bucket')


def bucketed(P, i):
    """some bucket holds i"""
    for s, b in P.cx.fld(P.st.copy(), 'HarbolMap', 'buckets', P.args[0][1], ZERO):
        if not heap_block(s, b):
            return False
        c, hit = s.mem[b[1]].content, False
        while isinstance(c, Entry) and not hit:
            hit = c.kind == 'st' and c.n == K(8) and c.val[0] == 'i' and s.eq(P.eng.toU(s, c.val), i) and all(
                v[0] == 'i' and s2.eq(P.eng.toU(s2, v), i) for s2, v in P.cx.get(s.copy(), b[1], c.off, T64))
            c = c.prev
        if not hit:
            return False
    return True


def p_keyset(P):
    d = d0(P)
    n = d.len if d is not None else ZERO
    P.prove('count', 'len', sub(P.f1('map', 'len'), n), 'setting a key must not lose entries')
    P.prove('count', 'len', sub(addc(n, 1), P.f1('map', 'len')), 'setting a key must add at most one entry')
    for Q in P.cases((EQ, sub(P.f1('map', 'len'), n))):
        if P.ok:
            for e in matched(Q):
                if value_set(Q, e):
                    dropped(Q, e, ('value',))
        if P.ok and not any(value_set(Q, e) for e in matched(Q)):
            Q.fail('content', 'value', 'reports success but the entry with the key holds no new value')
    for Q in P.cases((GE, addc(sub(P.f1('map', 'len'), n), -1))):
        if not P.ok:
            Q.fail('status', 'grown', 'reports failure but added an entry')


def value_set(P, i):
    """entry i holds a value block that was not there before"""
    eng, d = P.eng, d0(P)
    for s, p in P.cx.fld(P.st.copy(), 'HarbolMap', 'datum', P.args[0][1], ZERO):
        if not heap_block(s, p):
            return False
        for s2, r in entry_(d, eng, s, i):
            for s3, v in P.cx.get(s2, p[1], scale(i, 8), TP):
                if v == VP(r.data) or not heap_block(s3, v):
                    return False
    return True


def dropped(P, i, parts):
    """the blocks entry i had were freed"""
    d = d0(P)
    if d is None:
        return
    for s, r in entry_(d, P.eng, P.st.copy(), i):
        for f, rid in (('key', r.key), ('value', r.data)):
            if f in parts and s.mem[rid].live == 1:
                P.at(s).fail('leak', 'entry ' + f, 'the %s of the entry %s is never freed' % (f, 'removed' if 'key' in parts else 'set'))


def p_idxset(P):
    d = d0(P)
    n = d.len if d is not None else ZERO
    P.eq('count', 'len', P.f1('map', 'len'), n, 'setting an entry must not change the count')
    if P.ok:
        P.prove('status', 'accept', addc(sub(n, A(P, 1)), -1), 'sets an entry that does not exist')
        dropped(P, A(P, 1), ('value',))
        if not value_set(P, A(P, 1)):
            P.fail('content', 'value', 'reports success but the entry holds no new value')


def p_rm(P):
    d = d0(P)
    n = d.len if d is not None else ZERO
    P.eq('count', 'len', P.f1('map', 'len'), addc(n, -1) if P.ok else n, 'removal must lower the count by one exactly when it succeeds')


    if P.ok and P.cx.g.get('removed') is not None:
        dropped(P, P.cx.g['removed'](P), ('key', 'value'))


def p_keyrm(P):
    p_rm(P)         # that a key which is there is removed: mapfind.py


def p_idxrm(P):
    p_rm(P)
    d = d0(P)
    n = d.len if d is not None else ZERO
    if not P.ok:
        P.prove('status', 'refuse', sub(A(P, 1), n), 'refuses to remove an entry that exists')


def p_rehash(P):
    d = d0(P)
    P.eq('count', 'len', P.f1('map', 'len'), d.len if d is not None else ZERO, 'rehashing must keep the entries')
    if P.ok:
        P.eq('count', 'cap', P.f1('map', 'cap'), A(P, 1), 'the new capacity is not the one asked for')


def removed(cx, args):
    cx.g['removed'] = lambda P: P.eng.toU(P.st, args[1])


def removed_key(cx, args):
    def which(P):
        d = d0(P)
        for z, _, (x, y, m) in reversed(P.st.memo.get(('cmp',), ())):
            if P.st.eq(z, ZERO):
                for o, n, r in P.st.memo.get(d.R.id, ()):
                    if VP(r.key) in (x, y):
                        return o
        for o, n, r in P.st.memo.get(d.R.id, ()):
            if P.st.mem[r.key].live != 1:
                return o
        return K(M64 // 2)
    cx.g['removed'] = which


def newval(cx, args):
    cx.g['newval'] = lambda P: [P.eng.toU(P.st, args[1])]


def matched(P):
    """the entries whose key was compared with the given one and found equal"""
    d = d0(P)
    return [o for o, n, r in P.st.memo.get(d.R.id, ()) if P.st.eq(r.klen[2], A(P, 2)) and compared(P, P.st, VP(r.key), P.args[1], A(P, 2))] if d is not None else []


def newval_key(cx, args):
    cx.g['newval'] = matched


spec('new', post=p_made(0))
spec('make', post=p_made(1))
spec('init', post=p_made(1), variants=[{'mode': 'out'}])
spec('clear', post=p_clear, variants=[{}, {'ghost': 1}])
spec('free', post=p_free, variants=[{}, {'ghost': 1}])
spec('has_key', post=p_has, status=status_none)
spec('rehash', post=p_rehash)
spec('insert', post=p_insert)
spec('get_entry_index', post=p_index, status=status_sizemax)
spec('key_val', post=p_keyval)
spec('idx_val', post=p_idxval, status=status_sizemax)
spec('key_get', post=p_keyget)
spec('idx_get', post=p_idxget, status=status_none)
spec('key_set', setup=newval_key, post=p_keyset)
spec('idx_set', setup=newval, post=p_idxset)
spec('key_rm', setup=removed_key, post=p_keyrm)
spec('idx_rm', setup=removed, post=p_idxrm)
