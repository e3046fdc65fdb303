"""Loop invariants: the header state is generalised (changed SSA values and memory cells become
symbols), then the largest inductive subset of a finite family of linear facts about those
symbols is computed by iteration (join + widening on templates)."""
import os
from math import gcd
from dom import *
import dom
from interp import *
from prog import AnalysisError

DEBUG = os.environ.get('VERIF_LOOPS')


class Disj:
    def __init__(self, base):
        self.base = base
        self.mark = len(Syms.lb)
        self.phis = {}       # id -> slot
        self.cells = {}      # (rid, off, n) -> slot
        self.dirty = {}      # rid -> Base
        self.heap = {}       # rid -> size sym
        self.dead = set()
        self.pool = []       # alive rows
        self.seen = set()
        self.nul = {}        # rid -> [exprs]
        self.facts = {}      # rid -> [(kind, lo, hi, extra)]: what is known of ranges of the bytes
        self.factseen = set()
        self.hcontent = {}   # rid -> content of the header state last instantiated
        self.initmap = None
        self.start = None
        self.bodyruns = 0
        self.refound = 0
        self.bodyfacts = 0
        self.kept = set()    # cells tracked on top of a dirty region
        self.gen = 0         # bumped on every widening
        self.loads = {}      # phi id -> (rid, offset, bytes, bits, how): its value is that of a cell of memory
        self.noload = set()


def mkslot(eng, v, split=False):
    """slot descriptor for value v: (kind, value with slot symbols, [sym ids])"""
    if v is None or v[0] == 'undef':
        return ('undef', UNDEF, ())
    if v[0] == 'i':
        if v[1] <= 8 and not v[2][1] and v[2][0] in (0, 1) and split:
            return ('k', v, ())
        if v[1] == 1:
            s = newsym('L', 0, 1)
            return ('i', ('i', 1, s, 'u'), (s,))
        sg = v[3] if v[3] == 's' else 'u'
        x = fresh_i(v[1], 'L', sg)
        return ('i', x, (x[2],))
    if v[0] == 'cond':
        s = newsym('L', 0, 1)
        return ('cond', ('i', 1, s, 'u'), (s,))
    if v[0] == 'p':
        if v[1] <= 0:
            return ('null', v, ())
        s = newsym('Lo', -(1 << 62), 1 << 62)
        return ('p', VP(v[1], s), (s,))
    if v[0] == 'f':
        return ('f', ('f', Syms.new('fl', None, None)), ())
    if v[0] == 'agg':
        return ('undef', UNDEF, ())
    return ('undef', UNDEF, ())


def same_shape(eng, slot, v, X, rho):
    """match value v (in X) with slot; returns mapping {sym: expr} or None (shape differs)"""
    k, sv, ss = slot
    if k in ('undef', 'load'):
        return {}
    if k == 'k':
        # a flag: one header state per value
        if v is not None and v[0] == 'i' and not v[2][1]:
            if v[2][0] == sv[2][0]:
                return {}
            if v[2][0] in (0, 1):
                return 'other'
        return 'general' if v is not None and v[0] in ('i', 'cond') else 'undef'
    if v is None or v[0] == 'undef':
        return 'undef'
    if k == 'i':
        if v[0] == 'cond':
            return 'opaque'
        if v[0] != 'i' or v[1] != sv[1]:
            return None
        s = next(iter(syms_of(ss[0])))
        if sv[3] == 's':
            return {s: eng.toS(X, v)}
        return {s: eng.toU(X, v)}
    if k == 'cond':
        return {}
    if k == 'null':
        if v[0] == 'p' and v[1] <= 0:
            return {}
        return None
    if k == 'p':
        if v[0] != 'p' or v[1] <= 0:
            return None
        r = v[1]
        if rho.get(sv[1], sv[1]) != r:
            return ('region', sv[1], r)
        s = next(iter(syms_of(ss[0])))
        return {s: v[2]}
    if k == 'f':
        return {} if v[0] == 'f' else None
    return None


def instantiate(eng, fn, H):
    st = instantiate_(eng, fn, H)
    out = [st]
    for k, ld in H.loads.items():
        if H.phis[k][0] != 'load':
            continue
        nxt = []
        for s in out:
            for s2, v in load_value(eng, s, ld, ld[0], {}):
                s2.env = dict(s2.env)
                s2.env[k] = v
                nxt.append(s2)
        out = nxt
    return out


# a variable that holds what was read from memory: "c = text[i]" at the end of every round
def load_value(eng, st, ld, rid, m):
    _, off, n, bits, how = ld
    out = []
    for s, v in eng.read(st.copy(), st.mem[rid].content, subst(off, m), n, {'k': 'i', 'b': 8 * n}, rid):
        if v[0] == 'i' and how != 'id':
            v = ('i', bits, eng.toS(s, v), 's') if how == 's' else ('i', bits, eng.toU(s, v), 'u')
        out.append((s, v))
    return out


def load_same(eng, X, ld, rid, m, v):
    if v is None or v[0] != 'i' or v[1] != ld[3] or rid not in X.mem or X.mem[rid].live != 1:
        return False
    try:
        rs = load_value(eng, X, ld, rid, m)
    except AnalysisError:
        return False
    # the state is only asked; forks of the read are cases of it
    return bool(rs) and all(w[0] == 'i' and (w == v or s.eq(eng.toU(s, w), eng.toU(s, v))) for s, w in rs)


def find_load(eng, H, X, k, v, m):
    """a cell that held the value at loop entry, and holds it now, at a fixed distance from a slot"""
    if v[0] != 'i' or not v[2][1] or v[1] not in (8, 16, 32):
        return None
    s0 = H.s0 if H.s0 is not None else H.base
    init = start_values(eng, H)
    v0 = s0.env.get(k)
    if v0 is None or v0[0] != 'i':
        return None
    own = syms_of(H.phis[k][1][2])
    hits = []
    for rid, r in X.mem.items():
        if r.live != 1 or rid not in s0.mem or s0.mem[rid].live != 1 or rid in H.heap or rid in getattr(H, 'generic', {}):
            continue
        for off, n, w in X.memo.get(content_base(r.content).id, ()):
            if not isinstance(n, int) or n > 2 or 8 * n > v[1] or not isinstance(w, tuple) or w[0] != 'i' or not w[2][1]:
                continue
            if 8 * n == v[1]:
                how = 'id' if w[2] == v[2] else None
            elif w[2] == v[2]:
                how = 'u' if w[3] != 's' else 's'
                if X.cons.prove_ge(sub(K((1 << (8 * n - 1)) - 1), w[2])):
                    how = 's'
            else:
                how = 's' if any(x == w[2] and b == 8 * n and y == v[2] for x, b, y in X.memo.get(('toS',), ())) else None
            if how:
                hits.append((rid, off, n, how))
    for rid, off, n, how in hits[:6]:
        for sl in all_slots(H):
            x = next(iter(syms_of(sl)))
            if x not in m or x not in init or x in own:
                continue
            d = sub(off, m[x])
            if any(y >= H.mark for y in syms_of(d)):
                continue
            hows = ('s', 'u') if how in ('s', 'u') else ('id',)
            for how2 in hows:
                ld = (rid, add(sl, d), n, v[1], how2)
                if load_same(eng, s0, ld, rid, init, v0) and load_same(eng, X, ld, rid, m, v):
                    return ld
    return None


def instantiate_(eng, fn, H):
    st = H.base.copy()
    for k, slot in H.phis.items():
        st.env[k] = slot[1]
    for rid in H.dead:
        if rid in st.mem:
            st.mem[rid] = st.mem[rid].with_(live=0, content=Base('opaque'))
    for rid, szs in H.heap.items():
        r = st.mem[rid]
        at = dict(r.attr)
        at.pop('addr', None)
        st.mem[rid] = r.with_(size=szs, content=Base('opaque'), attr=at)
        st.cons.addrow(GE, sub(K(PTRDIFF), szs))
    for rid, b in H.dirty.items():
        eng.set_content(st, rid, b)
    for (rid, off, n), slot in H.cells.items():
        if rid in H.dirty:
            continue
        eng.write(st, rid, K(off), n, slot[1])
    for k, e in H.pool:
        st.cons.addrow(k, e)
    for rid, lst in H.facts.items():
        for fa in sorted(lst, key=lambda fa: {'nz': -1, 'wr': 1, 'wl': 2}.get(fa[0], 0)):
            e = fact_entry(eng, st, H, rid, fa)
            if e is not None:
                e.fact = True
                eng.set_content(st, rid, e)
    for rid, lst in H.nul.items():
        if any(fa[0] in ('wr', 'wl') for fa in H.facts.get(rid, ())):
            continue
        for e in lst:
            e = Entry('st', e, ONE, VI(8, ZERO), st.mem[rid].content)
            e.fact = True
            eng.set_content(st, rid, e)
    for k in sorted(H.kept):
        if k[0] in st.mem and k in H.cells:
            eng.write(st, k[0], K(k[1]), k[2], H.cells[k][1])
    H.hcontent = {rid: st.mem[rid].content for rid in H.dirty if rid in st.mem}
    return st


# ------------------------------------------------------------------ ranges of bytes
# (same, lo, hi)            bytes are those at loop entry
# (nz, lo, hi)              no byte is NUL
# (val, lo, hi, v)          every byte is v
# (copy, lo, hi, (c, d, r)) byte k is byte k+d of the content c (of region r)
def fact_entry(eng, st, H, rid, fa):
    kind, lo, hi, ex = fa
    n = sub(hi, lo)
    if not st.cons.prove_ge(n) or st.cons.prove_ge(neg(n)):
        return None
    prev = st.mem[rid].content
    if kind == 'same':
        return Entry('cp', lo, n, None, prev, H.base.mem[rid].content, lo)
    if kind == 'nz':
        return Entry('cp', lo, n, None, prev, Base('cstr', len=hi), lo)
    if kind == 'val':
        return Entry('fill', lo, n, ex, prev)
    if kind == 'copy':
        return Entry('cp', lo, n, None, prev, ex[0], add(lo, ex[1]))
    if kind in ('wl', 'wr'):
        return Entry(kind, lo, n, ex, prev)


def fact_holds(eng, H, X, rid, xrid, fa, m):
    kind, lo, hi, ex = fa
    lo, hi = subst(lo, m), subst(hi, m)
    r = X.mem.get(xrid)
    if r is None or r.live != 1:
        return False
    if X.cons.prove_ge(sub(lo, hi)):
        return True
    if not X.cons.prove_ge(lo) or (r.size is not None and not X.cons.prove_ge(sub(r.size, hi))):
        return False
    if kind == 'same' and r.content is H.base.mem[rid].content:
        return True
    s = X.copy()
    k = newsym('k', 0, PTRDIFF)
    if kind == 'wl':
        g, ex = ex
        if not (s.assume(GE, sub(scale(k, g), lo)) and s.assume(GE, addc(sub(hi, scale(k, g)), -1))):
            return True
        eng.RDEPTH = 5
        try:
            for s2, v in eng.read(s, r.content, scale(k, g), 8, {'k': 'i', 'b': 64}, xrid):
                if v[0] != 'i' or not s2.eq(eng.toU(s2, v), add(k, subst(ex, m))):
                    return False
        except AnalysisError:
            return False
        finally:
            eng.RDEPTH = 2
        return True
    if kind == 'wr':
        if not (s.assume(GE, sub(scale(k, 8), lo)) and s.assume(GE, addc(sub(hi, scale(k, 8)), -1))):
            return True
        ex = subst(ex, m)
        eng.RDEPTH = 5
        try:
            for s2, v in eng.read(s, r.content, scale(k, 8), 8, {'k': 'i', 'b': 64}, xrid):
                if v[0] != 'i':
                    return False
                v = eng.toU(s2, v)
                if not s2.eq(v, K(M64)) and not s2.ge(addc(sub(ex, v), -1), ZERO):
                    return False
        except AnalysisError:
            return False
        finally:
            eng.RDEPTH = 2
        return True
    if not (s.assume(GE, sub(k, lo)) and s.assume(GE, addc(sub(hi, k), -1))):
        return True
    T = {'k': 'i', 'b': 8}

    def want(s):
        if kind in ('same', 'copy'):
            src, d, sr = (H.base.mem[rid].content, ZERO, rid) if kind == 'same' else (ex[0], subst(ex[1], m), ex[2])
            return eng.read(s, src, add(k, d), 1, T, sr)
        return [(s, VI(8, K(ex)) if isinstance(ex, int) else ex)]

    def have(s):
        return eng.read(s, r.content, k, 1, T, xrid)

    def agree(s, w, v):
        if kind in ('same', 'copy') and v == UNDEF and w == UNDEF:
            return True
        if v[0] != 'i':
            return False
        if kind == 'nz':
            return s.cons.prove_ne(eng.toU(s, v), ZERO)
        return v == w or w[0] == 'i' and s.eq(eng.toU(s, v), eng.toU(s, w))

    eng.RDEPTH = 5
    try:
        if all(agree(s2, w, v) for s1, w in want(s.copy()) for s2, v in have(s1.copy())):
            return True
        # the place read decides which byte of the source is meant
        return kind == 'copy' and all(agree(s2, w, v) for s1, v in have(s.copy()) for s2, w in want(s1.copy()))
    except AnalysisError:
        return False
    finally:
        eng.RDEPTH = 2


def start_values(eng, H):
    """what the slots of a further disjunct were when the loop was entered"""
    if H.start is None:
        H.start = (-1, {})
    if H.start[0] != H.gen:
        d = {}
        s0 = H.s0 if H.s0 is not None else H.base

        def put(slot, v):
            ss = list(syms_of(slot[2][0])) if slot[0] in ('i', 'p') and slot[2] else []
            if len(ss) == 1 and v is not None and v[0] == slot[0] and (v[0] == 'i' or v[1] == slot[1][1]):
                d[ss[0]] = v[2]
        for k, slot in H.phis.items():
            put(slot, s0.env.get(k))
        for (rid, off, n), slot in H.cells.items():
            if rid in s0.mem:
                put(slot, content_cells(s0.mem[rid].content).get((off, n)))
        H.start = (H.gen, d)
    return H.start[1]


def fact_candidates(eng, H, X, m, rho):
    """(rid, fact) proposals from a back state"""
    out = []
    slots = []
    for sl in list(H.phis.values()) + [v for k, v in H.cells.items() if k[0] not in H.dirty or k in H.kept]:
        if sl[0] == 'i' and sl[1][1] == 64:
            slots.append((None, sl[2][0]))
        elif sl[0] == 'p':
            slots.append((sl[1][1], sl[2][0]))
    slots = slots[:8]
    inv = lambda e: all(x < H.mark for x in syms_of(e))
    slotsyms = {next(iter(syms_of(s))) for s in all_slots(H)}
    headexpr = lambda e: all(x < H.mark or x in slotsyms for x in syms_of(e))
    inits = [H.initmap or {}] + ([start_values(eng, H)] if H.s0 is not None else [])
    for rid in H.dirty:
        reg = H.base.mem.get(rid)
        x = X.mem.get(rho.get(rid, rid))
        if reg is None or x is None:
            continue
        size = K(1 << 63) if reg.size is None else reg.size
        cand = []
        for r, s in slots:
            if r is not None and r != rid:
                continue
            for e in (s, addc(s, 1)):
                cand.append(('same', ZERO, e, None))
                cand.append(('same', e, size, None))
            cand.append(('nz', ZERO, s, None))
        b = content_base(reg.content)
        zs = eng.models.zero_positions(eng, H.base, rid)
        for z in zs[:3]:
            if inv(z):
                cand.append(('nz', ZERO, z, None))
                cand.append(('same', z, size, None))
                cand.append(('same', addc(z, 1), size, None))
        ends = []
        if any(k[0] == rid for k in H.cells):
            # fields that lie between those the loop writes
            z = reg.content
            mine = [(k[1], k[1] + k[2]) for k in H.cells if k[0] == rid]
            fixed = set()
            while isinstance(z, Entry) and len(fixed) < 40:
                if not z.off[1] and not z.n[1]:
                    lo, hi = z.off[0], z.off[0] + z.n[0]
                    if not any(a < hi and lo < b for a, b in mine):
                        fixed.add((lo, hi))
                    if z.kind != 'st' and hi not in ends:
                        ends.append(hi)
                z = z.prev
            for lo, hi in sorted(fixed):
                cand.append(('same', K(lo), K(hi), None))
        c = x.content
        head = H.hcontent.get(rid)
        ents = []
        while isinstance(c, Entry) and c is not head:
            ents.append(c)
            c = c.prev
        if c is not head:
            ents = []
        for e, init in [(e, init) for e in ents[:6] for init in inits]:
            o, n = e.off, e.n
            if e.kind == 'st' and e.n == K(8) and e.val[0] == 'i' and o[1] and o[0] % 8 == 0 and all(k % 8 == 0 for _, k in o[1]):
                w = eng.toU(X, e.val)
                bounds = []
                if w == K(M64):
                    bounds = [ZERO]
                elif len(w[1]) == 1 and w[1][0][1] == 1:
                    for rk, row in X.cons.rows:
                        if rk == GE:
                            for t, k in row[1]:
                                if t == w[1][0][0] and k == -1:
                                    b = add(row, addc(w, 1))
                                    if inv(b) and b not in bounds and len(b[1]) == 1:
                                        bounds.append(b)
                for b in bounds[:4]:
                    cand.append(('wr', ZERO, size, b))
                    if headexpr(o):
                        cand.append(('wr', subst(o, init), o, b))
            if not headexpr(o) or not headexpr(n):
                continue
            for y in (o, add(o, n)):
                cand.append(('same', ZERO, y, None))
                cand.append(('same', y, size, None))
                for z in ends[:3]:
                    cand.append(('same', y, K(z), None))
            o0 = subst(o, init)
            n0 = subst(n, init)
            up, down = (o0, o), (add(o, n), add(o0, n0))
            if inv(o0) and inv(n0):
                cand.append(('same', ZERO, o0, None))
                cand.append(('same', add(o0, n0), size, None))
            v = None
            if e.kind == 'st' and e.n == ONE and e.val[0] == 'i':
                if inv(e.val[2]):
                    v = e.val
                    if not v[2][1]:
                        v = v[2][0] & 255
            elif e.kind == 'st' and e.n == K(8) and (e.val == NULLP or e.val[0] == 'i' and e.val[2] == ZERO):
                v = 0
            elif e.kind == 'st' and e.n == K(8) and e.val[0] == 'i' and e.val[2][1] and o[1] and o[0] % 8 == 0 and all(k % 8 == 0 for _, k in o[1]):
                g = 0
                for k in [o[0]] + [k for _, k in o[1]]:
                    g = gcd(g, k)
                ex = sub(eng.toU(X, e.val), (o[0] // g, tuple((x, k // g) for x, k in o[1])))
                if not inv(ex) and headexpr(ex) and inv(subst(ex, init)) and X.eq(ex, subst(ex, init)):
                    # two slots that keep their distance
                    ex = subst(ex, init)
                if inv(ex):
                    cand.append(('wl', up[0], up[1], (g, ex)))
            elif e.kind == 'fill' and e.val is not None:
                v = e.val
            if v is not None:
                cand.append(('val', up[0], up[1], v))
                cand.append(('val', down[0], down[1], v))
            srcs = []
            if e.kind == 'cp':
                srcs.append((e.src, e.srcoff, rid))
            elif e.kind == 'st' and e.n == ONE and e.val[0] == 'i' and len(e.val[2][1]) == 1:
                for bid, lst in X.memo.items():
                    for (xo, xn, xv) in lst:
                        if xn == 1 and xv[0] == 'i' and xv[2] == e.val[2]:
                            for r2, g in H.base.mem.items():
                                if g.live == 1 and content_base(g.content).id == bid:
                                    srcs.append((g.content, xo, r2))
            for src, so, r2 in srcs[:3]:
                if not headexpr(so):
                    continue
                d = sub(so, o)
                d0 = subst(d, init)
                if inv(d0):
                    cand.append(('copy', up[0], up[1], (src, d0, r2)))
                    if len(o[1]) == 1 and o[1][0][1] == 1 and up[0] != K(o[0]):
                        cand.append(('copy', K(o[0]), up[1], (src, d0, r2)))
                    cand.append(('copy', down[0], down[1], (src, d0, r2)))
            if e.kind == 'st' and e.n == ONE:
                cand.append(('nz', up[0], up[1], None))
        for fa in cand:
            key = (rid, fa[0], fa[1], fa[2], repr(fa[3]) if fa[0] != 'copy' else (id(fa[3][0]), fa[3][1]))
            if key in H.factseen:
                continue
            H.factseen.add(key)
            out.append((rid, fa))
    return out


def content_cells(c):
    d = {}
    while isinstance(c, Entry):
        if c.kind == 'st' and not c.off[1]:
            d.setdefault((c.off[0], c.n[0]), c.val)
        c = c.prev
    return d


def diff_content(eng, x, y):
    """cells changed going from content x to y, or None when unbounded"""
    if x is y:
        return {}
    bx, by = content_base(x), content_base(y)
    chain = set()
    c = x
    while True:
        chain.add(id(c))
        if not isinstance(c, Entry):
            break
        c = c.prev
    c = y
    new = []
    while isinstance(c, Entry) and id(c) not in chain:
        new.append(c)
        c = c.prev
    if id(c) in chain:
        # entries of x above the common suffix were compacted away when they are const cells
        d = {}
        z = x
        while isinstance(z, Entry) and z is not c:
            if not (z.kind == 'st' and not z.off[1]):
                return None
            d[(z.off[0], z.n[0])] = 1
            z = z.prev
        for e in new:
            if not (e.kind == 'st' and not e.off[1]):
                return None
            d[(e.off[0], e.n[0])] = 1
        cx, cy = content_cells(x), content_cells(y)
        return {k: 1 for k in d if repr(cx.get(k)) != repr(cy.get(k))}
    return None


def match(eng, H, X, allow_widen=True):
    """-> ('ok', X', mapping, rho) | ('widen',) after having widened H | ('no',)"""
    X = X.copy()
    rho = {}
    m = {}
    # pointer slots fix the region correspondence of generalised regions first
    pend = [(slot, X.env.get(k), ('phi', k)) for k, slot in H.phis.items()]
    for (rid, off, n), slot in H.cells.items():
        if rid in H.dirty and (rid, off, n) not in H.kept:
            continue
        r = X.mem.get(rid)
        if r is None:
            continue
        if rid in H.dirty:
            v = None
            try:
                rs = eng.read(X.copy(), r.content, K(off), n, slot_type(slot, n), rid)
                if len(rs) == 1 and rs[0][1][0] in ('i', 'p'):
                    X, v = rs[0]
            except AnalysisError:
                pass
            if v is None or (v[0] == 'i') != (slot[0] == 'i'):
                if not allow_widen:
                    return ('no',)
                H.kept.discard((rid, off, n))
                H.gen += 1
                return ('widen',)
            pend.append((slot, v, ('cell', (rid, off, n))))
            continue
        v = content_cells(r.content).get((off, n))
        if v is None:
            rs = eng.read(X, r.content, K(off), n, slot_type(slot, n), rid)
            if len(rs) == 1:
                X, v = rs[0]
        pend.append((slot, v, ('cell', (rid, off, n))))
    for slot, v, key in pend:
        if slot[0] == 'p' and slot[1][1] in H.heap and v is not None and v[0] == 'p' and v[1] > 0:
            rho[slot[1][1]] = v[1]
    for slot, v, key in pend:
        r = same_shape(eng, slot, v, X, rho)
        if r is None:
            if slot[0] == 'null' and v is not None and v[0] == 'p':
                return ('no',)
            if slot[0] == 'p' and v is not None and v[0] == 'p':
                return ('no',)
            if not allow_widen:
                return ('no',)
            setslot(H, key, ('undef', UNDEF, ()))
            H.gen += 1
            return ('widen',)
        if r == 'undef':
            setslot(H, key, ('undef', UNDEF, ()))
            H.gen += 1
            return ('widen',)
        if r == 'opaque':
            continue
        if r == 'other' and not getattr(H, 'nosplit', False):
            return ('no',)
        if r in ('general', 'other'):
            if not allow_widen:
                return ('no',)
            setslot(H, key, mkslot(eng, slot[1]))
            H.gen += 1
            return ('widen',)
        if isinstance(r, tuple):
            _, hr, xr = r
            a, b = H.base.mem.get(hr), X.mem.get(xr)
            if a is None or b is None:
                return ('no',)
            # a clean instance of the same class of lazily described objects
            ca, cb = a.attr.get('cls'), b.attr.get('cls')
            if ca is not None and ca == cb and b.live == 1:
                if hr in getattr(H, 'generic', {}):
                    if xr_clean(b):
                        rho[hr] = xr
                        s = next(iter(syms_of(slot[2][0])))
                        m[s] = v[2]
                        continue
                    return ('no',)
                if allow_widen and xr_clean(b):
                    make_generic(eng, H, key, slot, a)
                    return ('widen',)
                return ('no',)
            if a.kind == 'heap' and b.kind == 'heap' and b.live == 1 and hr not in H.heap and a.attr.get('cls') is None:
                if not allow_widen:
                    return ('no',)
                H.heap[hr] = newsym('Lsz', 0, PTRDIFF)
                H.gen += 1
                return ('widen',)
            return ('no',)
        m.update(r)
    for k, slot in H.phis.items():
        if slot[0] == 'load':
            ld = H.loads[k]
            if not load_same(eng, X, ld, rho.get(ld[0], ld[0]), m, X.env.get(k)):
                if not allow_widen:
                    return ('no',)
                H.noload.add(k)
                setslot(H, ('phi', k), mkslot(eng, H.base.env.get(k)))
                H.gen += 1
                return ('widen',)
    # heap
    for rid, r in H.base.mem.items():
        if r.kind in ('func', 'str', 'file') and r.live:
            if r.kind != 'file' or (rid in X.mem and X.mem[rid].live == r.live):
                continue
        if rid in getattr(H, 'generic', {}):
            continue
        x = X.mem.get(rho.get(rid, rid))
        if x is None:
            continue
        if rid in H.heap:
            m[next(iter(syms_of(H.heap[rid])))] = x.size
            if x.live != 1:
                return ('no',)
            continue
        if rid in H.dead:
            continue
        if x.live != r.live:
            if r.live == 2 or (r.kind == 'stack' and r.attr.get('fid') != X.env.get('#fid')):
                continue
            if not allow_widen or r.attr.get('split'):
                return ('no',)
            H.dead.add(rid)
            H.gen += 1
            return ('widen',)
        if r.live != 1:
            continue
        if rid in H.dirty:
            continue
        d = diff_content(eng, r.content, x.content)
        if d is None:
            if not allow_widen:
                return ('no',)
            if os.environ.get('VERIF_LOOPS'):
                print('   dirty', rid, r.kind, r.attr.get('name'))
            H.dirty[rid] = Base('opaque')
            if r.kind != 'heap' and r.size is not None and not r.size[1]:
                keep_cells(eng, H, rid, r, x)
            if H.s0 is not None and rid in H.s0.mem and H.s0.mem[rid].live == 1:
                # facts about the bytes are stated against the content at loop entry
                H.base.mem[rid] = r.with_(content=H.s0.mem[rid].content)
            H.gen += 1
            return ('widen',)
        grew = False
        for off, n in d:
            if (rid, off, n) not in H.cells:
                if not allow_widen:
                    return ('no',)
                rs = eng.read(H.base.copy(), r.content, K(off), n, cell_type(x.content, off, n), rid)
                v = rs[0][1] if len(rs) == 1 else None
                if v is None:
                    xv = content_cells(x.content).get((off, n))
                    v = xv if xv[0] == 'i' else None
                if v is not None and v[0] == 'p' and v[1] <= 0:
                    xv = content_cells(x.content).get((off, n))
                    if xv is not None and xv[0] == 'p' and xv[1] > 0:
                        return ('no',)
                H.cells[(rid, off, n)] = mkslot(eng, v)
                grew = True
        if grew:
            H.gen += 1
            return ('widen',)
    if allow_widen:
        for k, slot in H.phis.items():
            if slot[0] == 'i' and k not in H.noload and X.env.get(k) is not None:
                ld = find_load(eng, H, X, k, X.env[k], m)
                if ld is not None:
                    H.loads[k] = ld
                    setslot(H, ('phi', k), ('load', UNDEF, ()))
                    H.gen += 1
                    return ('widen',)
    # string terminators of generalised contents
    return ('ok', X, m, rho)


def keep_cells(eng, H, rid, r, x):
    """fields written at fixed offsets stay tracked although other bytes of the region are not"""
    seen = set()
    c = r.content
    while isinstance(c, Entry):
        seen.add(id(c))
        c = c.prev
    ks = [k for k in H.cells if k[0] == rid]
    c = x.content
    while isinstance(c, Entry) and id(c) not in seen:
        if c.kind == 'st' and not c.off[1] and not c.n[1] and c.n[0] >= 4 and c.val is not None and c.val[0] in ('i', 'p'):
            k = (rid, c.off[0], c.n[0])
            if k not in ks:
                ks.append(k)
        c = c.prev
    for k in ks[:8]:
        if k[2] < 4:
            continue
        if k not in H.cells:
            v = content_cells(x.content)[(k[1], k[2])]
            try:
                rs = eng.read(H.base.copy(), r.content, K(k[1]), k[2], {'k': 'p'} if v[0] == 'p' else {'k': 'i', 'b': 8 * k[2]}, rid)
            except AnalysisError:
                continue
            if len(rs) != 1 or rs[0][1][0] != v[0]:
                continue
            H.cells[k] = mkslot(eng, rs[0][1])
        if H.cells[k][0] in ('i', 'p', 'null'):
            H.kept.add(k)
            if DEBUG: print("   kept", k, r.attr.get("name"), H.cells[k], r.size)


def xr_clean(r):
    return not isinstance(r.content, Entry)


def make_generic(eng, H, key, slot, a):
    """the slot now stands for any object of a's class"""
    st = H.base
    rid = eng.nextrid
    eng.nextrid += 1
    at = dict(a.attr)
    at.pop('addr', None)
    b0 = content_base(a.content)
    nb = Base(b0.kind, **{k: v for k, v in b0.__dict__.items() if k not in ('id', 'kind')})
    H.base = st.copy()
    H.base.mem[rid] = Region(rid, a.kind, a.size, nb, 1, at)
    if not hasattr(H, 'generic'):
        H.generic = {}
    H.generic[rid] = key
    s = newsym('Lo', -(1 << 62), 1 << 62)
    setslot(H, key, ('p', VP(rid, s), (s,)))
    H.gen += 1


def slot_type(slot, n):
    if slot[0] in ('p', 'null'):
        return {'k': 'p'}
    if slot[0] == 'f':
        return {'k': 'f', 'st': n, 'sz': n}
    return {'k': 'i', 'b': 8 * n}


def cell_type(c, off, n):
    v = content_cells(c).get((off, n))
    if v is None:
        return {'k': 'i', 'b': 8 * n}
    if v[0] == 'p':
        return {'k': 'p'}
    if v[0] == 'f':
        return {'k': 'f', 'st': n, 'sz': n}
    return {'k': 'i', 'b': 8 * n}


def setslot(H, key, slot):
    if key[0] == 'phi':
        H.phis[key[1]] = slot
    else:
        H.cells[key[1]] = slot


def all_slots(H):
    out = []
    for s in list(H.phis.values()) + [v for k, v in H.cells.items() if k[0] not in H.dirty or k in H.kept]:
        out += list(s[2])
    out += list(H.heap.values())
    return out


def gen_init(eng, H, X, m):
    """candidate rows from the state X that entered (slot values in m)"""
    rows = []

    def put(k, e):
        if e[1] and (k, e) not in H.seen:
            H.seen.add((k, e))
            rows.append((k, e))
    slots = [(s, m.get(next(iter(syms_of(s))))) for s in all_slots(H)]
    slots = [(s, e) for s, e in slots if e is not None]
    for s, e in slots:
        put(GE, sub(s, e))
        put(GE, sub(e, s))
        put(GE, s)
        put(GE, addc(s, -1))
        put(NE, s)
        # upper bounds known for the initial value
        ss = syms_of(e)
        if len(e[1]) == 1 and len(e[1][0][0]) == 1 and abs(e[1][0][1]) == 1:
            x = e[1][0][0][0]
            for k, row in X.cons.rows:
                if k != NE and x in syms_of(row) and len(row[1]) <= 4:
                    put(k, subst(row, {x: scale(addc(s, -e[0]), e[1][0][1])}))
    lens = []
    for rid, r in H.base.mem.items():
        if r.live == 1 and r.kind in ('heap', 'param', 'stack'):
            b = content_base(r.content)
            if b.kind in ('cstr', 'strbuf') and b.len[1] and b.len not in lens:
                lens.append(b.len)
            elif b.kind == 'lazy' and hasattr(b, 'count') and b.count not in lens:
                lens.append(b.count)
            # a terminator written at the end of a buffer, a byte marked in a text
            c = r.content
            for _ in range(4):
                if not isinstance(c, Entry):
                    break
                if c.kind == 'st' and c.off[1] and c.n == ONE and c.val[0] == 'i' and not c.val[2][1] and (r.kind == 'param' or not c.val[2][0]) and c.off not in lens:
                    lens.append(c.off)
                c = c.prev
            if r.kind == 'heap' and not (b.kind in ('cstr', 'strbuf') or b.kind == 'lazy' and hasattr(b, 'count')):
                if b.kind == 'zero' and r.size is not None and r.size[1] and addc(r.size, -1) not in lens:
                    lens.append(addc(r.size, -1))
    for z in lens[:6]:
        for s, e in slots:
            put(GE, sub(z, s))
    # pointers stay inside their object
    for slot in list(H.phis.values()) + list(H.cells.values()):
        if slot[0] == 'p':
            r = H.base.mem.get(slot[1][1])
            if r is None:
                continue
            o = slot[1][2]
            put(GE, o)
            size = H.heap.get(slot[1][1], r.size)
            if size is not None:
                put(GE, sub(size, o))
                put(GE, addc(sub(size, o), -1))
            b = content_base(r.content)
            if b.kind in ('cstr', 'strbuf'):
                put(GE, sub(b.len, o))
    if 3 <= len(slots) <= 6:
        for a, ea in slots:
            for i in range(len(slots)):
                for j in range(i + 1, len(slots)):
                    (b, eb), (c, ec) = slots[i], slots[j]
                    d = sub(ea, add(eb, ec))
                    if a is not b and a is not c and not d[1]:
                        put(EQ, sub(sub(a, add(b, c)), d))
    for i in range(len(slots)):
        for j in range(len(slots)):
            if i == j:
                continue
            (a, ea), (b, eb) = slots[i], slots[j]
            if i < j:
                d = sub(ea, eb)
                if len(d[1]) <= 1:
                    put(EQ, sub(sub(a, b), d))
                    put(EQ, sub(add(a, b), add(ea, eb)))
            put(GE, sub(a, b))
            d = sub(ea, eb)
            if len(d[1]) <= 2:
                put(GE, sub(sub(a, b), d))
            if len(slots) <= 6 and len(add(ea, eb)[1]) <= 3 and i < j:
                put(GE, sub(add(ea, eb), add(a, b)))
    return rows


def gen_back(eng, H, X, m):
    """candidate rows from a back state: its constraints projected on the new slot values"""
    slots = [(s, m.get(next(iter(syms_of(s))))) for s in all_slots(H)]
    slots = [(s, e) for s, e in slots if e is not None]
    rows = []
    prim = {}
    eqs = []
    seed = set()
    for s, e in slots:
        p = newsym('P', Syms.lb[next(iter(syms_of(s)))], Syms.ub[next(iter(syms_of(s)))])
        prim[next(iter(syms_of(p)))] = s
        eqs.append((EQ, sub(p, e)))
        seed |= syms_of(e)
    if not seed:
        return []
    cone = X.cons.cone(seed)
    if len(cone) > 70:
        direct = [r for r in X.cons.rows if syms_of(r[1]) & seed]
        cone = direct[:70]
    slotsyms = {next(iter(syms_of(s))) for s, _ in slots}
    keep = set(prim)
    for k, e in cone:
        for t, _ in e[1]:
            for x in t:
                if x < H.mark:
                    keep.add(x)
    for k, e in eqs:
        for x in syms_of(e):
            if x < H.mark:
                keep.add(x)
    rows_ = cone + eqs
    if any(len(t_) > 1 for _, e in cone for t_, _k in e[1]):
        # a symbol under a product is expressed through the slot that tracks it
        for _, e in eqs:
            c = [t_[0] for t_, k in e[1] if len(t_) == 1 and abs(k) == 1 and t_[0] not in keep]
            if len(c) != 1 or any(len(t_) > 1 for t_, _k in e[1]):
                continue
            x = c[0]
            k = [k for t_, k in e[1] if t_ == (x,)][0]
            by = {x: scale(sub(e, scale(S(x), k)), -k)}
            rows_ = [(kk, subst(r, by)) for kk, r in rows_]
    pr = fm_project(rows_, keep)
    for k, e in pr:
        if syms_of(e) & set(prim):
            e2 = subst(e, prim)
            if len(e2[1]) <= 5 and (k, e2) not in H.seen:
                H.seen.add((k, e2))
                rows.append((k, e2))
    # step relations: a' - a = c, b' - b = d  =>  d*(a - a0) = c*(b - b0)
    inc = []
    for s, e in slots:
        d = sub(e, s)
        if not d[1] and d[0]:
            inc.append((s, d[0]))
        elif d[1] and not (syms_of(d) & slotsyms) and all(x < H.mark for x in syms_of(d)):
            inc.append((s, d))
    # a' = a + c and b' >= b + d  =>  c*(b - b0) >= d*(a - a0)
    for s, e in slots:
        d = sub(e, s)
        if not d[1]:
            continue
        dinv = (d[0], tuple(x for x in d[1] if all(y < H.mark for y in x[0])))
        rest = (0, tuple(x for x in d[1] if not all(y < H.mark for y in x[0])))
        if not dinv[1] or not rest[1] or any(y in slotsyms for t_, _ in rest[1] for y in t_):
            continue
        lo, hi = interval(rest)
        if lo is None or lo < 0:
            continue
        b0 = H.initmap.get(next(iter(syms_of(s))))
        for a, da in inc:
            a0 = H.initmap.get(next(iter(syms_of(a))))
            if isinstance(da, int) and da == 1 and a0 is not None and b0 is not None:
                e2 = sub(sub(s, b0), mul(dinv, sub(a, a0)))
                if e2[1] and (GE, e2) not in H.seen:
                    H.seen.add((GE, e2))
                    rows.append((GE, e2))
    for i in range(len(inc)):
        for j in range(i + 1, len(inc)):
            (a, da), (b, db) = inc[i], inc[j]
            a0 = H.initmap.get(next(iter(syms_of(a))))
            b0 = H.initmap.get(next(iter(syms_of(b))))
            if a0 is None or b0 is None:
                continue
            da = K(da) if isinstance(da, int) else da
            db = K(db) if isinstance(db, int) else db
            e = sub(mul(db, sub(a, a0)), mul(da, sub(b, b0)))
            if e[1] and (EQ, e) not in H.seen:
                H.seen.add((EQ, e))
                rows.append((EQ, e))
    # a' - b' = a - b + d with d invariant, c' = c + 1  =>  (a - b) - (a0 - b0) = d*(c - c0)
    ctr = [a for a, da in inc if da == 1]
    incs = {a for a, _ in inc}
    rest = [(s, e) for s, e in slots if s not in incs]
    for i in range(len(rest)):
        for j in range(i + 1, len(rest)):
            (a, ea), (b, eb) = rest[i], rest[j]
            d = sub(sub(ea, eb), sub(a, b))
            if any(x >= H.mark for x in syms_of(d)):
                continue
            a0, b0 = (H.initmap.get(next(iter(syms_of(s)))) for s in (a, b))
            for c in ctr[:2]:
                c0 = H.initmap.get(next(iter(syms_of(c))))
                if a0 is None or b0 is None or c0 is None:
                    continue
                e = sub(sub(sub(a, b), sub(a0, b0)), mul(d, sub(c, c0)))
                if e[1] and (EQ, e) not in H.seen:
                    H.seen.add((EQ, e))
                    rows.append((EQ, e))
    return rows[:80]


def holds(X, row, m):
    k, e = row
    return X.cons.prove_row(k, subst(e, m))


def nul_candidates(eng, H, X, m, rho):
    """terminator facts for the generalised contents that hold in X"""
    out = {}
    for rid in list(H.dirty) + list(H.heap):
        xr = rho.get(rid, rid)
        reg = X.mem.get(xr)
        if reg is None or reg.size is None:
            continue
        zs = eng.models.zero_positions(eng, X, xr)
        c = []
        inv = [(s, m.get(next(iter(syms_of(s))))) for s in all_slots(H)]
        for z in zs:
            if all(x < H.mark for x in syms_of(z)):
                c.append(z)
            for s, e in inv:
                if e is not None:
                    d = sub(z, e)
                    if not d[1] and abs(d[0]) <= 2:
                        c.append(addc(s, d[0]))
        if c:
            out[rid] = c[:8]
    return out


def nul_holds(eng, X, rid, e, m):
    z = subst(e, m)
    r = X.mem.get(rid)
    if r is None:
        return False
    return eng.models.is_zero_at(eng, X, r.content, z, rid)


def new_disj(eng, fn, l, X, s0=None):
    extra = []
    if s0 is not None:
        base = X.copy()
        extra = [r for r in X.cons.rows if r not in s0.cons.rowset]
        base.cons = s0.cons.copy()
        X = base
    H = Disj(X)
    H.extra = extra
    H.s0 = s0
    for i in fn.blocks[l['h']]:
        if i['op'] != 'phi':
            break
        H.phis[i['id']] = mkslot(eng, X.env.get(i['id']), True)
    key = '#rounds%d' % l['h']
    if key in X.env:
        H.phis[key] = mkslot(eng, X.env[key])
    return H


def reset_pool(eng, H, X, m, rho):
    H.pool = []
    H.seen = set()
    H.initmap = m
    for row in gen_init(eng, H, X, m):
        if holds(X, row, m):
            H.pool.append(row)
    # what a state that starts a further disjunct knows beyond the loop entry is itself only a
    # candidate: it may rest on candidates of the disjunct it came from
    for row in H.extra:
        if row not in H.seen:
            H.seen.add(row)
            H.pool.append(row)
    H.nul = nul_candidates(eng, H, X, m, rho)
    # first guess: nothing was written
    H.facts = {rid: [('same', ZERO, H.base.mem[rid].size, None)] for rid in H.dirty
               if rid in H.base.mem and H.base.mem[rid].size is not None and rid not in H.heap and rid not in getattr(H, 'generic', {})}
    H.factseen = set()


def init_match(eng, H):
    """match the entry state with its own (possibly widened) generalisation"""
    for _ in range(40):
        g = H.gen
        r = match(eng, H, H.base)
        if r[0] == 'ok':
            # generic slots: the entry value itself
            return r
        if r[0] == 'no':
            break
    return None


def tighten(rows):
    """drops rows that another row of the same linear part implies"""
    best = {}
    for k, e in rows:
        if k == GE and e[0] < best.get(e[1], e[0] + 1):
            best[e[1]] = e[0]
    eqs = {e[1] for k, e in rows if k == EQ}
    return [(k, e) for k, e in rows if k != GE or (e[0] == best[e[1]] and e[1] not in eqs)]


def pure_block(fn, b):
    return all(i['op'] not in ('store', 'call') or str(i.get('f', '')).startswith(('llvm.dbg', 'llvm.lifetime')) for i in fn.blocks[b])


def leaving(eng, fn, l, B):
    """the exits of a state that certainly leaves the loop when it comes round: {target: [states]}, or None"""
    work, exits, steps = [(l['h'], B.copy())], {}, 0
    while work:
        b, s = work.pop()
        steps += 1
        if steps > 12 or b in fn.loops and b != l['h'] or not pure_block(fn, b):
            return None
        for tgt, s2 in eng.exec_block(fn, b, s, []):
            if tgt == l['h']:
                return None
            if tgt in l['b']:
                work.append((tgt, s2))
            else:
                exits.setdefault(tgt, []).append(s2)
    return exits


def covered(eng, disj, B):
    """B is among what the loop invariant describes"""
    for G in disj:
        r = match(eng, G, B, False)
        if r[0] != 'ok':
            continue
        X, m, rho = r[1:4]
        if not all(holds(X, row, m) for row in G.pool):
            continue
        if not all(nul_holds(eng, X, rho.get(rid, rid), e, m) for rid in G.nul for e in G.nul[rid]):
            continue
        if all(fact_holds(eng, G, X, rid, rho.get(rid, rid), fa, m) for rid in G.facts for fa in G.facts[rid]):
            return True
    return False


class NeedCounter(Exception):
    pass


def solve(eng, fn, l, s0):
    key = '#rounds%d' % l['h']
    try:
        return solve_(eng, fn, l, s0, None)
    except NeedCounter:
        # something moves by a symbolic amount every time round: the rounds are counted
        s = s0.copy()
        s.env = dict(s.env)
        s.env[key] = VI(64, ZERO)
        exits, rets = solve_(eng, fn, l, s, key)
        for lst in exits.values():
            for x in lst:
                x.env = {k: v for k, v in x.env.items() if k != key}
        return exits, rets


class EventLoop(Exception):
    pass


def no_events(s0, backs):
    """an invariant says nothing of what was recorded in earlier rounds"""
    for B in backs:
        if B.tags.get('log') != s0.tags.get('log'):
            raise EventLoop()


def counted(backs, key):
    for B in backs:
        v = B.env.get(key)
        if v is not None:
            B.env = dict(B.env)
            B.env[key] = ('i', 64, addc(v[2], 1), 'u')
    return backs


def strides(H, m):
    """a slot moves by an invariant symbolic amount and none counts the rounds"""
    slots = [(s, m.get(next(iter(syms_of(s))))) for s in all_slots(H)]
    ds = [sub(e, s) for s, e in slots if e is not None]
    return any(d == ONE for d in ds), any(d[1] and all(x < H.mark for x in syms_of(d)) for d in ds)


def solve_(eng, fn, l, s0, key):
    eng.silent += 1
    disj = []
    ok = False
    try:
        disj.append(new_disj(eng, fn, l, s0))
        r = init_match(eng, disj[0])
        disj[0].entry_gen = disj[0].gen
        reset_pool(eng, disj[0], r[1], r[2], r[3])
        entries = {0: [s0]}
        for rnd in range(40):
            changed = False
            incoming = {}
            hi = 0
            while hi < len(disj):
                H = disj[hi]
                sts = instantiate(eng, fn, H)
                backs, ex = eng.exec_scope(fn, l['h'], sts, l, [])
                no_events(s0, backs)
                backs = [B for B in backs if leaving(eng, fn, l, B) is None]
                if key:
                    counted(backs, key)
                backs = eng.reduce(backs, fn.live[l['h']], 16)
                H.bodyruns += 1
                for B in backs:
                    placed = False
                    for G in disj:
                        G.nosplit = len(disj) >= 4
                    for gi, G in enumerate(disj):
                        for _ in range(60):
                            r = match(eng, G, B)
                            if r[0] != 'widen':
                                break
                            changed = True
                        if r[0] == 'ok':
                            incoming.setdefault(gi, []).append((r[1], r[2], r[3], G.gen, B))
                            placed = True
                            if key is None:
                                one, sym = strides(G, r[2])
                                if sym and not one:
                                    raise NeedCounter
                            break
                    if not placed:
                        if len(disj) >= 8:
                            raise AnalysisError('loop at %s:%d: too many heap shapes' % (fn.name, l['h']))
                        G = new_disj(eng, fn, l, B, s0)
                        G.mark = disj[0].mark
                        disj.append(G)
                        entries[len(disj) - 1] = [B]
                        r = init_match(eng, G)
                        if r is None:
                            raise AnalysisError('loop in %s: entry state lost' % fn.name)
                        r = match(eng, G, B)
                        reset_pool(eng, G, r[1], r[2], r[3])
                        G.entry_gen = G.gen
                        changed = True
                hi += 1
            for gi, G in enumerate(disj):
                if G.gen != G.entry_gen:
                    # slots changed: start the pool again from the entry state
                    r = None
                    for _ in range(60):
                        r = match(eng, G, entries[gi][0])
                        if r[0] != 'widen':
                            break
                    G.entry_gen = G.gen
                    if r[0] != 'ok':
                        raise AnalysisError('loop in %s: entry state lost' % fn.name)
                    reset_pool(eng, G, r[1], r[2], r[3])
                    changed = True
                    continue
                inc = [x for x in incoming.get(gi, [])]
                if any(x[3] != G.gen for x in inc):
                    changed = True
                    continue
                new = []
                if G.bodyruns <= 6:
                    r0 = match(eng, G, entries[gi][0], False)
                    for X, m, rho, _, B in inc:
                        have = {e[1]: e[0] for k, e in G.pool if k == GE}
                        for row in gen_back(eng, G, X, m):
                            if row[0] == GE and have.get(row[1][1], row[1][0] + 1) <= row[1][0]:
                                G.seen.discard(row)
                                continue
                            if r0[0] == 'ok' and holds(r0[1], row, r0[2]):
                                new.append(row)
                alive = []
                for row in G.pool + new:
                    if all(holds(X, row, m) for X, m, rho, _, B in inc):
                        alive.append(row)
                        if row in new and row not in G.pool:
                            changed = True
                    elif row not in new:
                        changed = True
                if any(row not in G.pool for row in alive) and G.dirty and G.bodyruns <= 6 and G.refound < 3:
                    # a fact refuted before may hold now
                    G.refound += 1
                    G.factseen = set()
                    G.bodyfacts = max(G.bodyfacts, G.bodyruns)
                G.pool = alive
                for rid in list(G.nul):
                    keep = []
                    for e in G.nul[rid]:
                        if all(nul_holds(eng, X, rho.get(rid, rid), e, m) for X, m, rho, _, B in inc):
                            keep.append(e)
                        else:
                            changed = True
                    G.nul[rid] = keep
                for rid in list(G.facts):
                    bad = [fa for fa in G.facts[rid] if not all(fact_holds(eng, G, X, rid, rho.get(rid, rid), fa, m) for X, m, rho, _, B in inc)]
                    # a refuted "unchanged" may have hidden what justifies the others: they get another round
                    first = [fa for fa in bad if fa[0] == 'same'] or bad
                    if bad:
                        changed = True
                        G.facts[rid] = [fa for fa in G.facts[rid] if fa not in first]
                if (G.bodyruns <= 4 or G.bodyfacts == G.bodyruns) and G.dirty:
                    r0 = match(eng, G, entries[gi][0], False)
                    if r0[0] == 'ok':
                        fnew = False
                        # all ways into a further disjunct come from inside the loop
                        for X, m, rho, _, B in inc:
                            for rid, fa in fact_candidates(eng, G, X, m, rho):
                                if rid in G.heap or rid in getattr(G, 'generic', {}):
                                    continue
                                if gi or fact_holds(eng, G, r0[1], rid, rid, fa, r0[2]):
                                    G.facts.setdefault(rid, []).append(fa)
                                    changed = fnew = True
                        if fnew and G.bodyfacts < G.bodyruns:
                            # rows may be inductive now: start again from all of them
                            keep = (G.facts, G.factseen, G.nul)
                            reset_pool(eng, G, r0[1], r0[2], r0[3])
                            G.facts, G.factseen = keep[0], keep[1]
            if DEBUG:
                print('LOOP', fn.base, l['h'], 'round', rnd, 'disj', len(disj), [(len(G.pool), len(G.cells), list(G.dirty), list(G.heap)) for G in disj])
                if DEBUG == '2':
                    for G in disj:
                        for rid in G.facts:
                            for fa in G.facts[rid]:
                                print('       FACT', rid, fa[0], show(fa[1]), show(fa[2]))
                        for k, e in G.pool:
                            print('      ', '>=' if k == GE else '==' if k == EQ else '!=', show(e))
            if not changed:
                ok = True
                break
    finally:
        eng.silent -= 1
    if not ok:
        raise AnalysisError('loop in %s: no invariant after 40 rounds' % fn.name)
    exits, rets = {}, []
    for H in disj:
        H.pool = tighten(H.pool)
        sts = instantiate(eng, fn, H)
        backs, ex = eng.exec_scope(fn, l['h'], sts, l, rets)
        no_events(s0, backs)
        if key:
            counted(backs, key)
        for B in backs:
            away = leaving(eng, fn, l, B)
            if away is not None:
                # it leaves at once; the invariant need not hold of it
                if not covered(eng, disj, B):
                    for t, lst in away.items():
                        exits.setdefault(t, []).extend(lst)
                continue
            eng.models.check_leaks_at(eng, B, 'loop', (fn, fn.blocks[l['h']][-1]))
        for t, lst in ex.items():
            exits.setdefault(t, []).extend(lst)
    return exits, rets
