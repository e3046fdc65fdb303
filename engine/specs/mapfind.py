"""Finding keys in an ordered hash map.  The tables are given bucket by bucket: every table of up to four
buckets in which each entry can be reached from the bucket of its hash over buckets in use.  Keys, values and
hashes are arbitrary; of a hash only its remainder by the number of buckets is fixed."""
import itertools
from spec import *
from interp import content_base
from models import cmp_result
from specs.map import PTRS

SPECS = {}
MODULE = 'mapfind'
O = {}


def probe(cap, home, place):
    """a table: bucket -> entry; each entry reachable from its home bucket"""
    for i, h in enumerate(home):
        b = h
        while place.get(b) != i:
            if b not in place or (b + 1) % cap == h:
                return False
            b = (b + 1) % cap
    return True


def tables(caps, lens, mod=None):
    """[(cap, homes, {bucket: entry})]"""
    out = []
    for cap in caps:
        m = mod or cap
        for L in lens:
            if L > cap:
                continue
            for hs in itertools.product(range(m), repeat=L):
                for bs in itertools.permutations(range(cap), L):
                    p = {b: i for i, b in enumerate(bs)}
                    if probe(cap, [h % cap for h in hs], p):
                        out.append((cap, hs, p, m))
    return out


class Table:
    def __init__(self, **kw):
        self.__dict__.update(kw)


class FindShape(Shape):
    struct = 'HarbolMap'

    def fill(self, cx, st, rid, off, name, mode):
        eng, p = cx.eng, cx.p
        eng.find = T = []
        opts = cx.opts
        out = []
        for cap, hs, place, m in opts['tables']:
            L = len(hs)
            for g in opts['keys'](L):
                for kh in (range(m) if g is None and not opts.get('plain') else (0,)):
                    s = st.copy()
                    t = Table(cap=cap, len=L, place=place, mod=m, g=g, ents=[], n=len(T))
                    hash_ = lambda r: ('i', 64, addc(scale(newsym('q', 0, (M64 - m) // m), m), r), 'u')
                    seed = u64('seed')
                    for i, h in enumerate(hs):
                        kl = u64('keylen', 1, PTRDIFF)
                        dl = u64('datalen', 0, PTRDIFF)
                        key = eng.new_region(s, 'heap', kl[2], Base('opaque'), name='key', site='entry')
                        dat = eng.new_region(s, 'heap', dl[2], Base('opaque'), name='value', site='entry')
                        t.ents.append(dict(key=key, dat=dat, kl=kl, dl=dl, hash=hash_(h), base=content_base(s.mem[key].content)))
                    t.seed = seed
                    t.kl = t.ents[g]['kl'] if g is not None else u64('keylen', 1, PTRDIFF)
                    t.hash = t.ents[g]['hash'] if g is not None else hash_(kh)
                    t.key = eng.new_region(s, 'param', t.kl[2], Base('opaque'), name='key asked for', const=True)
                    t.base = content_base(s.mem[t.key].content)
                    T.append(t)
                    s.tags['table'] = t.n
                    for f in PTRS:
                        r = cx.region(s, 'heap', K(8 * cap), Base('opaque'), name=name + '->' + f, of=rid)
                        cx.put(s, rid, addc(off, p.off(self.struct, f)), 8, VP(r))
                        if f == 'buckets':
                            for b in range(cap):
                                cx.put(s, r, K(8 * b), 8, VI(64, K(place.get(b, M64))))
                            continue
                        for i in range(cap):
                            if i >= L:
                                v = NULLP if f in ('keys', 'datum') else VI(64, ZERO)
                            else:
                                e = t.ents[i]
                                v = {'keys': VP(e['key']), 'datum': VP(e['dat']), 'hashes': e['hash'], 'keylens': e['kl'], 'datalens': e['dl']}[f]
                            cx.put(s, r, K(8 * i), 8, v)
                    for f, v in (('cap', VI(64, K(cap))), ('len', VI(64, K(L))), ('seed', seed)):
                        cx.put(s, rid, addc(off, p.off(self.struct, f)), 8, v)
                    out.append(s)
        return out

    def check(self, cx, P, st, rid, off, name):
        pass


FIND = FindShape()


def table(eng, st):
    return eng.find[st.tags['table']]


def whose(eng, st, p):
    """which key the bytes at p are: the number of an entry, 'k' for the one asked for, or None"""
    if p[0] != 'p' or p[1] <= 0 or not st.eq(p[2], ZERO):
        return None
    t = table(eng, st)
    c = st.mem[p[1]].content
    while isinstance(c, Entry) and c.kind == 'cp' and st.eq(c.off, ZERO) and c.src is not None and st.eq(c.srcoff, ZERO):
        c = c.src
    if c is t.base or c is st.mem[t.key].content:
        return 'k'
    for i, e in enumerate(t.ents):
        if c is e['base']:
            return i
    return None


def c_hash(eng, st, a, i):
    p = eng.models.ptr(eng, st, a[0])
    n = eng.toU(st, a[1])
    s = eng.access(st, p, n, 'r')
    if s is None:
        return []
    t = table(eng, s)
    w = whose(eng, s, p)
    e = t.ents[w] if isinstance(w, int) else None
    kl, h = (e['kl'], e['hash']) if e else (t.kl, t.hash)
    if w is not None and s.eq(n, kl[2]) and s.eq(eng.toU(s, a[2]), t.seed[2]):
        return [(s, h)]
    return [(s, u64('hash'))]


def c_memcmp(eng, st, a, i):
    x, y = eng.models.ptr(eng, st, a[0]), eng.models.ptr(eng, st, a[1])
    n = eng.toU(st, a[2])
    t = table(eng, st)
    w = [whose(eng, st, x), whose(eng, st, y)]
    L = [None if z is None else (t.kl if z == 'k' else t.ents[z]['kl']) for z in w]
    if None in w or not all(st.eq(n, z[2]) for z in L):
        return None
    same = w[0] == w[1] or 'k' in w and t.g is not None and t.g in w
    return [(st.copy(), VI(32, ZERO if same else ONE))]


def roles(cx, st, name, ty, fn, opts):
    if ty.startswith('struct HarbolMap*') or ty.startswith('struct HarbolMap const*'):
        return [(s, VP(o.rid), o) for s, o in FIND.new(cx, st, name, 'const' if 'const*' in ty else 'mut')]
    t = table(cx.eng, st)
    if ty == 'void const*' and name != 'val':
        return [(st, VP(t.key), None)]
    if name == 'keylen':
        return [(st, t.kl, None)]
    if ty == 'void const*':
        rid = cx.region(st, 'param', cx.ghost('valsize', 1, PTRDIFF), Base('opaque'), name='val', const=True)
        return [(st, VP(rid), None)]
    if name in ('datasize', 'datalen'):
        return [(st, ('i', 64, cx.ghost('valsize', 1, PTRDIFF), 'u'), None)]
    if name in ('n', 'index'):
        return [(st.copy(), VI(64, K(k)), None) for k in range(t.len)]
    if name == 'new_size':
        return [(st.copy(), VI(64, K(k)), None) for k in range(max(1, t.len), 5) if t.mod % k == 0]
    return scalar(cx, st, name, ty)


def reachable(P, want):
    """the map holds the entries want (in this order), each to be found from its bucket"""
    eng, cx = P.eng, P.cx
    rid = P.args[0][1]
    U = lambda v: eng.toU(P.st, v)
    get = lambda f: cx.get(P.st.copy(), rid, K(cx.p.off('HarbolMap', f)), TP if f in PTRS else T64)[0][1]
    cap, ln = get('cap'), get('len')
    P.entry.obligations += 2
    if cap[0] == 'undef' or U(cap)[1] or ln[0] == 'undef' or not P.st.eq(U(ln), K(len(want))):
        P.fail('count', 'len', 'the map does not hold as many entries as it should')
        return
    cap = U(cap)[0]
    arr = {f: get(f) for f in PTRS}
    at = lambda f, i: cx.get(P.st.copy(), arr[f][1], addc(arr[f][2], 8 * i), TP if f in ('keys', 'datum') else T64)[0][1]
    used = [at('buckets', b) for b in range(cap)]
    if any(v[0] == 'undef' or U(v)[1] for v in used):
        P.fail('inv', 'bucket', 'a bucket holds nothing known')
        return
    used = [U(v)[0] for v in used if U(v)[0] != M64]
    if len(used) > len(want):
        P.fail('inv', 'stale', 'a bucket stays in use for an entry that is no longer there')
        return
    for i, w in enumerate(want):
        P.entry.obligations += 3
        k, h = at('keys', i), at('hashes', i)
        t = table(eng, P.st)
        if whose(eng, P.st, k) != w and not (w == 'k' and t.g is not None and whose(eng, P.st, k) == t.g):
            P.fail('content', 'key', 'an entry does not hold the key it should')
            return
        hw = t.hash if w == 'k' else t.ents[w]['hash']
        kl = t.kl if w == 'k' else t.ents[w]['kl']
        if not val_same(eng, P.st, h, hw) or not val_same(eng, P.st, at('keylens', i), kl):
            P.fail('content', 'hash', 'an entry does not have the hash or the length of its key')
            return
        b = hw[2][0] % cap if all(c % cap == 0 for _, c in hw[2][1]) else None
        if b is None:
            return
        for _ in range(cap):
            v = at('buckets', b)
            if v[0] == 'undef' or U(v)[1]:
                P.fail('inv', 'bucket', 'a bucket holds nothing known')
                return
            if U(v)[0] == i:
                break
            if U(v)[0] == M64:
                P.fail('inv', 'reach', 'an entry cannot be found: a bucket on the way to it is empty')
                return
            b = (b + 1) % cap
        else:
            P.fail('inv', 'reach', 'an entry is in no bucket')
            return


def found(how):
    def post(P):
        t = table(P.eng, P.st)
        P.entry.obligations += 1
        r = P.ret
        want = {'index': VI(64, K(M64 if t.g is None else t.g)), 'has': VI(1, K(int(t.g is not None))),
                'val': NULLP if t.g is None else VP(t.ents[t.g]['dat'])}[how]
        ok = ptr_same(P.st, r, want) if how == 'val' else r[0] == 'i' and P.st.eq(P.eng.toU(P.st, r), P.eng.toU(P.st, want))
        if how == 'has' and r[0] == 'cond':
            ok = all(bool(b) == (t.g is not None) for s, b in P.eng.split(P.st.copy(), r))
        if not ok:
            P.fail('retval', 'found', 'a key that is in the map is not found' if t.g is not None else 'a key that is not in the map is found')
        reachable(P, list(range(t.len)))
    return post


def p_insert(P):
    t = table(P.eng, P.st)
    for s, ok in P.eng.split(P.st.copy(), P.ret):
        Q = P.at(s)
        if ok and t.g is not None:
            Q.fail('status', 'twice', 'a key that is in the map is inserted again')
        elif not ok and t.g is None and not s.tags.get('why'):
            Q.fail('status', 'why', 'refuses a key that is not in the map')
        else:
            reachable(Q, list(range(t.len)) + (['k'] if ok else []))


def p_rm(which):
    def post(P):
        t = table(P.eng, P.st)
        n = t.g if which == 'key' else P.eng.toU(P.st, P.args[1])[0]
        for s, ok in P.eng.split(P.st.copy(), P.ret):
            Q = P.at(s)
            if bool(ok) != (n is not None):
                Q.fail('status', 'rm', 'removes a key that is not in the map' if ok else 'does not remove a key that is in the map')
                continue
            reachable(Q, [i for i in range(t.len) if i != n])
    return post


def p_rehash(P):
    t = table(P.eng, P.st)
    for s, ok in P.eng.split(P.st.copy(), P.ret):
        Q = P.at(s)
        if not ok and not s.tags.get('why'):
            Q.fail('status', 'why', 'refuses a size that holds all entries')
        reachable(Q, list(range(t.len)))


def p_set(P):
    t = table(P.eng, P.st)
    for s, ok in P.eng.split(P.st.copy(), P.ret):
        Q = P.at(s)
        if not ok and not s.tags.get('why'):
            Q.fail('status', 'why', 'refuses to set a key')
        if t.g is not None:
            reachable(Q, list(range(t.len)))
        else:
            reachable(Q, list(range(t.len)) + (['k'] if ok else []))


BOTH = lambda L: [None] + list(range(L))
MISS = lambda L: [None]
CON = {'array_hash': c_hash, 'memcmp': c_memcmp, 'bcmp': c_memcmp}


def spec(name, post, sets, plain=False):
    v = [dict(tables=sets[i:i + 40], keys=k, plain=plain, SOFT=100, MAXSTATES=200, MAXRET=200) for sets, k in sets for i in range(0, len(sets), 40)]
    SPECS['harbol_map_' + name] = dict(roles=roles, post=post, contracts=CON, variants=v, status=status_none, why=lambda P: [True], nofail=True)


FULL = tables((1, 2, 3), (0, 1, 2, 3)) + tables((4,), (0, 1, 2))
spec('get_entry_index', found('index'), [(FULL, BOTH)])
spec('has_key', found('has'), [(tables((1, 2, 3), (0, 1, 2, 3)), BOTH)])
spec('key_get', found('val'), [(tables((1, 2, 3), (0, 1, 2, 3)), BOTH)])
spec('insert', p_insert, [([t for t in FULL if len(t[1]) < t[0]], BOTH), (tables((1, 2), (1, 2), 4), MISS)])
spec('key_set', p_set, [([t for t in FULL if len(t[1]) < t[0]], BOTH)])
spec('key_rm', p_rm('key'), [(tables((1, 2, 3), (0, 1, 2, 3)), BOTH)])
spec('idx_rm', p_rm('idx'), [([t for t in FULL + tables((4,), (3,)) if t[1]], MISS)], plain=True)
spec('rehash', p_rehash, [(tables((1, 2, 4), (0, 1, 2), 4), MISS), (tables((2, 3), (0, 1, 2), 6), MISS), (tables((3,), (3,)), MISS)], plain=True)
