"""Abstract interpreter for the LLVM form of the library.

Forward dataflow over the control-flow graph.  An abstract state = environment (SSA name ->
abstract value) x region heap x polyhedron (dom.Cons).  Each program point keeps a bounded set of
abstract states (trace partitioning by typestate, returned status and heap shape); beyond the
bound, states of the same shape are joined.  Loops are closed with an inductive invariant found
by candidate filtering (join + widening to a finite template set).  Library functions are
analysed at their call sites (context sensitive); libc is modelled in models.py."""
import os, sys
from dom import *
import dom
from prog import base as basename, AnalysisError

PTRSZ = 8


# ------------------------------------------------------------------ values
def VI(bits, e, sg='u'):
    if not e[1]:
        c = e[0]
        if c < 0:
            c += 1 << bits
        c &= (1 << bits) - 1
        return ('i', bits, K(c), 'b' if c < (1 << (bits - 1)) else 'u')
    return ('i', bits, e, sg)


def VP(rid, off=ZERO):
    return ('p', rid, off)


NULLP = ('p', 0, ZERO)
UNDEF = ('undef',)


def fresh_i(bits, name='t', sg='u', lb=None, ub=None):
    if sg == 'u':
        l, h = 0, (1 << bits) - 1
    elif sg == 's':
        l, h = -(1 << (bits - 1)), (1 << (bits - 1)) - 1
    else:
        l, h = 0, (1 << (bits - 1)) - 1
    if lb is not None:
        l = max(l, lb)
    if ub is not None:
        h = min(h, ub)
    return ('i', bits, newsym(name, l, h), sg)


# ------------------------------------------------------------------ contents
class Base:
    """bottom of a content log: what the bytes are before any logged write"""
    n = 0

    def __init__(self, kind, **kw):
        Base.n += 1
        self.id = Base.n
        self.kind = kind  # zero uninit opaque cstr strbuf lazy bytes
        self.__dict__.update(kw)


class Entry:
    __slots__ = ('kind', 'off', 'n', 'val', 'prev', 'src', 'srcoff', 'depth', 'constonly', 'fact')

    def __init__(self, kind, off, n, val, prev, src=None, srcoff=None):
        self.kind = kind
        self.off = off
        self.n = n
        self.val = val
        self.prev = prev
        self.src = src
        self.srcoff = srcoff
        self.fact = False
        pc = isinstance(prev, Base) or prev.constonly
        self.constonly = pc and kind == 'st' and not off[1] and not n[1]
        self.depth = 1 if isinstance(prev, Base) else prev.depth + 1


def zero_cells(xs):
    """aligned zero stores covering the byte offsets xs"""
    out, xs = [], sorted(xs)
    s = set(xs)
    i = 0
    done = -1
    for x in xs:
        if x <= done:
            continue
        m = 8
        while x % m or not all(x + k in s for k in range(m)):
            m //= 2
        out.append((x, m, VI(8 * m, ZERO)))
        done = x + m - 1
    return out


def content_base(c):
    while isinstance(c, Entry):
        c = c.prev
    return c


class Region:
    __slots__ = ('rid', 'kind', 'size', 'content', 'live', 'attr')

    def __init__(self, rid, kind, size, content, live=1, attr=None):
        self.rid = rid
        self.kind = kind  # heap stack param global str file func user va
        self.size = size
        self.content = content
        self.live = live
        self.attr = attr or {}

    def with_(self, **kw):
        r = Region(self.rid, self.kind, self.size, self.content, self.live, self.attr)
        for k, v in kw.items():
            setattr(r, k, v)
        return r


WRAP = {}


class State:
    __slots__ = ('env', 'parents', 'mem', 'cons', 'memo', 'res', 'trail', 'tags', 'fixed')

    def __init__(self):
        self.env = {}
        self.parents = ()
        self.mem = {}
        self.cons = Cons()
        self.memo = {}
        self.res = {}
        self.trail = ()
        self.tags = {}
        self.fixed = {}

    def copy(self):
        s = State()
        s.env = dict(self.env)
        s.parents = self.parents
        s.mem = dict(self.mem)
        s.cons = self.cons.copy()
        s.memo = dict(self.memo)
        s.res = dict(self.res)
        s.trail = self.trail
        s.tags = dict(self.tags)
        s.fixed = dict(self.fixed)
        return s

    # constraints -------------------------------------------------
    def assume(self, kind, e):
        """adds a row; returns False when the state became infeasible"""
        if not e[1]:
            c = e[0]
            return c >= 0 if kind == GE else c == 0 if kind == EQ else c != 0
        cons = self.cons
        if kind == NE:
            if cons.prove_ge(e):
                return self.assume(GE, addc(e, -1))
            if cons.prove_ge(neg(e)):
                return self.assume(GE, addc(neg(e), -1))
            if cons.infeasible_with([(NE, e)]):
                return False
            cons.addrow(NE, e)
            return True
        lo, hi = interval(e)
        if kind == GE:
            if lo is not None and lo >= 0:
                return True
            if hi is not None and hi < 0:
                return False
        else:
            if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                return False
        if (kind, e) in cons.rowset:
            return True
        if cons.infeasible_with([(kind, e)]):
            return False
        cons.addrow(kind, e)
        if kind == GE and e[0] < 0 and any(len(t) > 1 for t, _ in e[1]):
            return self.whole_strides(e)
        return True

    def whole_strides(self, e):
        """e >= 0 where e + c is a multiple of a size that is not negative, c >= 1: it is at least that size"""
        cons = self.cons
        e = (0, e[1])
        for t, c in e[1]:
            if len(t) == 1 and abs(c) == 1:
                for k, row in cons.cone({t[0]}):
                    if k == EQ and not row[0]:
                        cs = [b for a, b in row[1] if a == t]
                        if cs and abs(cs[0]) == 1 and all(len(a) > 1 for a, b in row[1] if a != t):
                            e = sub(e, scale(row, c * cs[0]))
                            break
        if e[0] or not e[1] or not all(len(t) > 1 for t, _ in e[1]):
            return True
        for x in set(e[1][0][0]):
            if not all(x in t for t, _ in e[1]) or (Syms.lb[x] is None or Syms.lb[x] < 0):
                continue
            f = ZERO
            for t, c in e[1]:
                t = list(t)
                t.remove(x)
                f = add(f, (0, ((tuple(t), c),)))
            for r in (addc(f, -1), sub(e, S(x))):
                if r[1]:
                    if cons.infeasible_with([(GE, r)]):
                        return False
                    if (GE, r) not in cons.rowset:
                        cons.addrow(GE, r)
                elif r[0] < 0:
                    return False
        return True

    def ge(self, a, b):
        return self.cons.prove_ge(sub(a, b))

    def eq(self, a, b):
        return self.cons.prove_eq(a, b)

    def assume_ge(self, a, b):
        return self.assume(GE, sub(a, b))

    def assume_eq(self, a, b):
        return self.assume(EQ, sub(a, b))


class Budget(Exception):
    pass


class Engine:
    RDEPTH = 2
    MAXSTATES = 24       # abstract states kept per program point
    MAXRET = 32
    SOFT = 8
    MAXDEPTH = 40
    UNROLL = 16
    STEPWISE = ()       # source files whose loops run over data that is spelt out: gone through round by round
    DEPTH = 2
    ONEFAIL = False     # at most one allocation on a path fails
    CLASSES = False      # tell the characters of a class from the others
    PEEL = False         # analyse the first round of loops separately

    def __init__(self, prog, models):
        self.p = prog
        self.models = models
        self.reports = {}
        self.silent = 0
        self.nextrid = 1
        self.stack = []          # analysed call chain of (fn, inst)
        self.gl = {}             # global name -> rid
        self.cur = None
        self.entry = None
        self.sites = set()       # memory access / call obligations examined
        self.steps = 0
        self.maxsteps = 4000000
        self.contracts = {}
        self.classes = {}
        self.classed = {}
        self.classruns = {}
        self.visited = set()
        self.vastack = []
        self.loopinfo = {}

    # ------------------------------------------------------------- reporting
    def report(self, kind, msg, st, key=None, inst=None):
        if self.silent:
            return
        fn, inst = (self.stack[-1] if self.stack else (None, None)) if inst is None else inst
        fname = fn.base if fn else self.entry
        line = inst.get('l', 0) if inst else 0
        fl = inst.get('fl', '') if inst else ''
        k = (kind, self.entry, fname, line, key or msg)
        if k not in self.reports:
            self.reports[k] = {
                'kind': kind, 'entry': self.entry, 'func': fname, 'file': fl, 'line': line,
                'msg': msg, 'key': key or '', 'chain': [f.base for f, _ in self.stack],
                'trail': list(st.trail) if st is not None else []}
            if os.environ.get('VERIF_TRACE'):
                print('REPORT', kind, fname, line, msg, st.trail if st else '')

    def site(self, what):
        if self.stack:
            fn, inst = self.stack[-1]
            self.sites.add((fn.base, inst.get('fl', ''), inst.get('l', 0), inst.get('op'), what))

    # ------------------------------------------------------------- regions
    def new_region(self, st, kind, size, content, **attr):
        rid = self.nextrid
        self.nextrid += 1
        a = dict(attr)
        if self.stack and 'site' not in a:
            fn, inst = self.stack[-1]
            a['site'] = '%s:%d' % (fn.base, inst.get('l', 0))
        st.mem[rid] = Region(rid, kind, size, content, 1, a)
        return rid

    def addr(self, st, rid):
        """symbolic base address of a region"""
        if rid == 0:
            return ZERO
        r = st.mem[rid]
        a = r.attr.get('addr')
        if a is None:
            al = r.attr.get('align', 0)
            a = newsym('&r%d' % rid, 1, M64 - (1 << 12))
            if r.kind in ('heap',) and al == 0:
                al = 16
            at = dict(r.attr)
            at['addr'] = a
            st.mem[rid] = r.with_(attr=at)
            if r.size is not None:
                st.cons.addrow(GE, sub(K(PTRDIFF * 2), add(a, r.size)))
        return a

    def region_of_addr(self, st, e, deep=True):
        for t, k in e[1]:
            if len(t) == 1 and k == 1 and Syms.name[t[0]].startswith('&r'):
                rid = int(Syms.name[t[0]][2:])
                if rid in st.mem and st.mem[rid].attr.get('addr') == S(t[0]):
                    return rid, sub(e, S(t[0]))
        if deep:
            # an equality known here tells which object it is in
            for k, row in st.cons.cone(syms_of(e)):
                if k != EQ:
                    continue
                ce = dict(row[1])
                for x, m in e[1]:
                    if x in ce and m % ce[x] == 0:
                        r = self.region_of_addr(st, sub(e, scale(row, m // ce[x])), False)
                        if r:
                            return r
        return None

    def ptr_int(self, st, v):
        return add(self.addr(st, v[1]), v[2])

    # ------------------------------------------------------------- memory
    def access(self, st, v, n, mode, what=''):
        """checks an access of n bytes (expr) at pointer v.  Returns the state to go on with or
        None.  mode: r w f(free)"""
        if v[0] == 'undef':
            self.report('uninit', 'pointer used before it was given a value', st, 'uninitptr')
            return None
        if v[0] == 'i':
            r = self.region_of_addr(st, v[2])
            if r is None:
                self.report('wild', 'access through an integer-made pointer', st, 'intptr')
                return None
            v = VP(*r)
        assert v[0] == 'p', v
        self.site(mode)
        if n == ZERO:
            return st
        rid, off = v[1], v[2]
        if rid == 0:
            if st.eq(n, ZERO):
                return st
            self.report('null', 'NULL dereference (%s%s)' % ('write' if mode == 'w' else 'read', what), st, 'null' + what)
            return None
        r = st.mem.get(rid)
        if r is None:
            self.report('wild', 'access through a dangling region', st, 'dangling')
            return None
        if r.live == 0:
            self.report('uaf', 'use of freed memory (allocated at %s)' % r.attr.get('site', '?'), st, 'uaf')
            return None
        if r.live == 2:
            self.report('uaf', 'use of an object whose lifetime ended', st, 'dangling-stack')
            return None
        if r.kind == 'func' or r.kind == 'user0':
            self.report('wild', 'dereference of an unknown pointer', st, 'unk')
            return None
        if mode == 'w' and r.attr.get('const'):
            self.report('constw', 'write into a constant object', st, 'const')
            return None
        if mode == 'w' and r.kind == 'global':
            self.report('globalw', 'write to static-storage object %s' % r.attr.get('gname'), st, 'global:%s' % r.attr.get('gname'))
        if r.size is None:
            return st
        lo_ok = off[1] == () and off[0] >= 0 or st.cons.prove_ge(off)
        hi = sub(r.size, add(off, n))
        hi_ok = st.cons.prove_ge(hi)
        if not (lo_ok and hi_ok):
            # an access of zero bytes is harmless
            if n[1] and st.eq(n, ZERO):
                return st
            st2 = st
            if n[1] and interval(n)[0] is not None and interval(n)[0] <= 0 and not st.ge(n, ONE):
                # only complain for n >= 1
                s1 = st.copy()
                if not s1.assume(GE, addc(n, -1)):
                    return st
                if s1.cons.prove_ge(off) and s1.cons.prove_ge(hi):
                    return st
            self.report('oob', '%s of %s byte(s) at offset %s may leave the object of %s byte(s) (%s)%s' % (
                'write' if mode == 'w' else 'read', show(n), show(off), show(r.size), r.attr.get('name', r.attr.get('site', r.kind)), what),
                st, 'oob-%s:%s' % (mode, r.attr.get('name', r.kind)))
            if os.environ.get('VERIF_ROWS') and not self.silent:
                print('   ROWS', [('>=' if k == GE else '==' if k == EQ else '!=', show(e)) for k, e in st.cons.cone(syms_of(hi) | syms_of(off))])
            st = st.copy()
            if not (st.assume(GE, off) and st.assume(GE, hi)):
                return None
        return st

    def set_content(self, st, rid, c):
        st.mem[rid] = st.mem[rid].with_(content=c)

    def write(self, st, rid, off, n, val):
        """logs the store of a value of n (int) bytes"""
        r = st.mem[rid]
        c = r.content
        if not off[1] and isinstance(c, Entry) and c.constonly:
            # compaction: drop an older store of exactly the same cell
            chain = []
            x = c
            hit = False
            while isinstance(x, Entry):
                if x.off[0] == off[0] and x.n[0] == n:
                    hit = True
                    x = x.prev
                    break
                if x.off[0] < off[0] + n and off[0] < x.off[0] + x.n[0]:
                    break
                chain.append(x)
                x = x.prev
            if hit:
                for e in reversed(chain):
                    x = Entry('st', e.off, e.n, e.val, x)
                c = x
        elif isinstance(c, Entry) and c.kind == 'st' and c.off == off and c.n == K(n):
            c = c.prev
        self.set_content(st, rid, Entry('st', off, K(n), val, c))

    def fill(self, st, rid, off, n, val):
        """val: constant byte or None (unknown bytes)"""
        r = st.mem[rid]
        if not off[1] and off[0] == 0 and (n == r.size):
            base = Base('zero') if val == 0 else Base('opaque')
            self.set_content(st, rid, base if val in (0, None) else Entry('fill', off, n, val, base))
            return
        self.set_content(st, rid, Entry('fill', off, n, val, r.content))

    def copyrange(self, st, drid, doff, n, srid, soff):
        src = st.mem[srid].content
        if not (n[1] or doff[1] or soff[1]) and n[0] <= 256:
            cs = self.small_cells(src, soff, n[0])
            if cs is not None:
                for o, m, v in cs:
                    self.write(st, drid, K(doff[0] + o), m, v)
                return
        self.set_content(st, drid, Entry('cp', doff, n, None, st.mem[drid].content, src, soff))

    def small_cells(self, c, lo, n):
        """the stores that make up bytes [lo, lo+n) of c as (offset from lo, size, value), or None when they are not all plain"""
        got, cover = [], set()
        while True:
            if len(cover) == n:
                return sorted(got, key=lambda t: t[0])
            if not isinstance(c, Entry):
                break
            d = sub(c.off, lo)
            if d[1] or c.n[1]:
                return None
            d = d[0]
            new = [x for x in range(max(d, 0), min(d + c.n[0], n)) if x not in cover]
            if new:
                if c.kind == 'st':
                    if len(new) != c.n[0]:
                        return None
                    got.append((d, c.n[0], c.val))
                elif c.kind == 'fill' and c.val == 0:
                    got += zero_cells(new)
                else:
                    return None
                cover.update(new)
            c = c.prev
        if c.kind != 'zero':
            return None
        got += zero_cells([x for x in range(n) if x not in cover])
        return sorted(got, key=lambda t: t[0])

    # read n (int) bytes at off of content c
    def read(self, st, c, off, n, t, rid, depth=0):
        """-> list of (state, value)"""
        N = K(n)
        while isinstance(c, Entry):
            d = sub(off, c.off)
            if not d[1] and not c.n[1]:
                if d[0] >= c.n[0] or d[0] + n <= 0:
                    c = c.prev
                    continue
                inside = d[0] >= 0 and d[0] + n <= c.n[0]
            else:
                if st.cons.prove_ge(sub(d, c.n)) or st.cons.prove_ge(neg(add(d, N))):
                    c = c.prev
                    continue
                if st.eq(c.n, ZERO):
                    c = c.prev
                    continue
                inside = st.cons.prove_ge(d) and st.cons.prove_ge(sub(c.n, add(d, N)))
            if not inside and c.fact:
                # another known range of the same generalised content may settle it
                f = c.prev
                hit = None
                while isinstance(f, Entry) and f.fact:
                    df = sub(off, f.off)
                    if f.kind != 'wr' and st.cons.prove_ge(df) and st.cons.prove_ge(sub(f.n, add(df, N))):
                        hit = (f, df)
                        break
                    f = f.prev
                if hit:
                    return self.read_entry(st, hit[0], hit[1], off, n, t, rid, depth)
                if c.kind == 'st' and c.n == ONE and n > 1:
                    # a terminator known to be somewhere
                    c = c.prev
                    continue
            if not inside and c.n == N and d[0] % n == 0 and n > 1 and all(k % n == 0 for _, k in d[1]):
                # aligned words: the same one or a different one
                e = (d[0] // n, tuple((x, k // n) for x, k in d[1]))
                s2 = st.copy()
                same = s2.assume(EQ, e)
                if not same or not st.copy().assume(NE, e) or depth < self.RDEPTH:
                    out = []
                    s1 = st.copy() if same else st
                    if s1.assume(NE, e):
                        out += self.read(s1, c.prev, off, n, t, rid, depth + 0.34 if same else depth)
                    if same:
                        out += self.read_entry(s2, c, scale(e, n), off, n, t, rid, depth + 0.34)
                    return out
            if not inside and c.kind == 'wr' and c.fact:
                return self.read(st, c.prev, off, n, t, rid, depth)
            if not inside and t['k'] == 'i' and t['b'] == 8 * n and c.kind == 'st':
                # a word put together from smaller ones
                cs = self.small_cells(c, off, n)
                if cs is not None and all(v[0] == 'i' for o, m, v in cs):
                    # the slices of one word give it back
                    sl = [(o, m) + self.slice_of(st, v[2]) for o, m, v in cs]
                    root = sl[0][2]
                    if all(x == root and a == 8 * o and b == 8 * (o + m) for o, m, x, a, b in sl) and self.bounds(st, root)[0] is not None and st.cons.prove_ge(root) and st.cons.prove_ge(sub(K((1 << 8 * n) - 1), root)):
                        return [(st, ('i', t['b'], root, 'u'))]
                    e = ZERO
                    for o, m, v in cs:
                        e = add(e, scale(self.toU(st, v), 1 << 8 * o))
                    return [(st, ('i', t['b'], e, 'u'))]
            if not inside:
                # split the overlap relation when it is a one-sided question
                if depth < self.RDEPTH:
                    s1 = st.copy()
                    out = []
                    ok1 = s1.assume(GE, sub(d, c.n))
                    if ok1:
                        out += self.read(s1, c.prev, off, n, t, rid, depth + 1)
                    s2 = st.copy()
                    if s2.assume(GE, neg(add(d, N))):
                        out += self.read(s2, c.prev, off, n, t, rid, depth + 1)
                    s3 = st.copy()
                    if s3.assume(GE, addc(sub(c.n, d), -1)) and s3.assume(GE, addc(add(d, N), -1)):
                        ins = s3.cons.prove_ge(d) and s3.cons.prove_ge(sub(c.n, add(d, N)))
                        if ins:
                            out += self.read_entry(s3, c, d, off, n, t, rid, depth + 1)
                        else:
                            out.append((s3, self.unknown(s3, t)))
                    return out
                return [(st, self.unknown(st, t))]
            return self.read_entry(st, c, d, off, n, t, rid, depth)
        return self.read_base(st, c, off, n, t, rid)

    def settled(self, st, d):
        """d as a constant when an equality known here makes it one"""
        for rounds in range(2):
            best = d
            for k, e in st.cons.cone(syms_of(d)):
                if k != EQ:
                    continue
                ce = dict(e[1])
                for x, m in d[1]:
                    if x in ce and m % ce[x] == 0:
                        e2 = sub(d, scale(e, m // ce[x]))
                        if not e2[1]:
                            return e2
                        if len(e2[1]) < len(best[1]):
                            best = e2
            if best is d:
                return d
            d = best
        return d

    def read_entry(self, st, c, d, off, n, t, rid, depth):
        if d[1] and n > 1 and c.kind in ('st', 'cp'):
            d = self.settled(st, d)
        if c.kind == 'st':
            if st.eq(d, ZERO) and c.n == K(n):
                return [(st, self.coerce(st, c.val, t, n))]
            return [(st, self.subvalue(st, c.val, d, n, c.n, t))]
        if c.kind == 'fill':
            if c.val is None:
                return [(st, self.unknown(st, t))]
            if not isinstance(c.val, int):
                return [(st, self.coerce(st, c.val, t, n) if n == 1 else self.unknown(st, t))]
            return [(st, self.bytes_value(t, [c.val] * n))]
        if c.kind == 'cp':
            return self.read(st, c.src, add(d, c.srcoff), n, t, rid, depth)
        if c.kind == 'wl':
            # the word at each multiple o of the stride is o/stride + ex
            g, ex = c.val
            if n == 8 and off[0] % g == 0 and all(k % g == 0 for _, k in off[1]):
                return [(st, self.norm(st, 64, add((off[0] // g, tuple((x, k // g) for x, k in off[1])), ex)))]
            return self.read(st, c.prev, off, n, t, rid, depth) if c.fact else [(st, self.unknown(st, t))]
        if c.kind == 'wr':
            # each aligned word is SIZE_MAX or below the bound
            if n != 8 or off[0] % 8 or any(k % 8 for _, k in off[1]) or t['k'] != 'i':
                return self.read(st, c.prev, off, n, t, rid, depth) if c.fact else [(st, self.unknown(st, t))]
            for o, _, v in st.memo.get(('wr', c), ()):
                if st.eq(o, off):
                    return [(st, v)]
            covers = lambda p: st.ge(off, p.off) and st.ge(add(p.off, p.n), addc(off, 8))
            low, wrs = c, []
            while isinstance(low, Entry) and low.fact:
                # facts of one loop header lie on top of each other and all hold
                if low is c or covers(low):
                    if low.kind != 'wr':
                        break
                    wrs.append(low.val)
                low = low.prev
            if isinstance(low, Entry) and low.fact:
                vals = self.read(st, low, off, n, t, rid, depth)
            else:
                vals = [(st, VI(64, K(M64))), (st, ('i', 64, newsym('w', 0, M64 - 1), 'u'))]
            out = []
            for s0, v in vals:
                w = self.toU(s0, v) if v[0] == 'i' else None
                if w is None:
                    out.append((s0, v))
                    continue
                alts = [(VI(64, K(M64)), (EQ, addc(w, -M64)), ())] if w[1] else []
                alts.append((v, None, wrs if w != K(M64) else ()))
                for v2, eq, bs in alts:
                    s = s0.copy()
                    if eq is not None and not s.assume(*eq):
                        continue
                    if w[1] and eq is None and not s.assume(NE, addc(w, -M64)):
                        continue
                    if not all(s.assume(GE, addc(sub(b, w), -1)) for b in bs):
                        continue
                    s.memo[('wr', c)] = s.memo.get(('wr', c), ()) + ((off, 8, v2),)
                    out.append((s, v2))
            return out
        raise AssertionError(c.kind)

    def bytes_value(self, t, bs):
        k = t['k']
        if k == 'i':
            v = 0
            for i, b in enumerate(bs):
                v |= b << (8 * i)
            return VI(t['b'], K(v & ((1 << t['b']) - 1)))
        if k == 'p':
            if all(b == 0 for b in bs):
                return NULLP
            return ('p', -1, ZERO)
        if k == 'f':
            return ('f', 0 if not any(bs) else Syms.new('fl', None, None))
        return UNDEF

    def unknown(self, st, t, name='m'):
        k = t['k']
        if k == 'i':
            if t['b'] == 1:
                return ('i', 1, newsym(name, 0, 1), 'u')
            return fresh_i(t['b'], name)
        if k == 'p':
            rid = self.new_region(st, 'user0', None, Base('opaque'), name='unknown pointer')
            return VP(rid)
        if k == 'f':
            return ('f', Syms.new('fl', None, None))
        if k == 's':
            return ('agg', [self.unknown(st, e['t']) for e in t['e']])
        return UNDEF

    def coerce(self, st, v, t, n):
        """reinterpret stored value v (n bytes) as type t"""
        k = t['k']
        if v[0] == 'undef':
            return v
        if k == 'i' and v[0] == 'i':
            if v[1] == t['b']:
                return v
            if v[1] > t['b']:
                return self.trunc(st, v, t['b'])
            return VI(t['b'], self.toU(st, v))
        if k == 'p' and v[0] == 'p':
            return v
        if k == 'p' and v[0] == 'i':
            if v[2] == ZERO:
                return NULLP
            r = self.region_of_addr(st, v[2])
            if r:
                return VP(*r)
            return self.unknown(st, t)
        if k == 'i' and v[0] == 'p':
            return VI(t['b'], self.ptr_int(st, v)) if v[1] >= 0 else self.unknown(st, t)
        if k == 'f' and v[0] == 'f':
            return v
        return self.unknown(st, t)

    def subvalue(self, st, v, d, n, vn, t):
        if v[0] == 'i' and not d[1] and not vn[1]:
            e = v[2]
            if not e[1]:
                x = (e[0] >> (8 * d[0])) & ((1 << (8 * n)) - 1)
                if t['k'] == 'i':
                    return VI(t['b'], K(x & ((1 << t['b']) - 1)))
                if t['k'] == 'p' and x == 0:
                    return NULLP
            if t['k'] == 'i' and (d[0] == 0 or t['b'] == 8 * n):
                e = self.toU(st, v)
                if d[0] == 0:
                    w = self.trunc(st, v, t['b'])
                else:
                    w = self.trunc(st, ('i', v[1] - 8 * d[0], self.halves(st, e, 8 * d[0])[0], 'u'), t['b'])
                if w[0] == 'i' and w[2][1] and w[3] == 'u' and t['b'] == 8 * n and w[2] != e and not any(x == w[2] for _, _, x in st.memo.get(('slice',), ())):
                    st.memo[('slice',)] = st.memo.get(('slice',), ()) + ((e, (8 * d[0], 8 * d[0] + 8 * n), w[2]),)
                return w
        if v[0] == 'undef':
            return v
        if v[0] == 'p' and v[1] == 0 and t['k'] == 'i':
            return VI(t['b'], ZERO)
        if t['k'] != 'i' and not (t['k'] == 'f' and v[0] == 'f'):
            return self.unknown(st, t)
        key = ('sub', repr(v), repr(vn), n)
        for o, m, w in st.memo.get(key, ()):
            if o == d and m == n:
                return w
        w = self.unknown(st, t)
        st.memo[key] = st.memo.get(key, ()) + ((d, n, w),)
        return w

    def memo_find(self, st, b, off, n):
        for o, m, v in st.memo.get(b.id, ()):
            if o == off and m == n:
                return v
        if off[1]:
            for o, m, v in st.memo.get(b.id, ()):
                if m == n and o[1] and st.eq(o, off):
                    return v
        return None

    def memo_add(self, st, b, off, n, v):
        st.memo[b.id] = st.memo.get(b.id, ()) + ((off, n, v),)

    def read_base(self, st, b, off, n, t, rid):
        k = b.kind
        if k == 'zero':
            return [(st, self.bytes_value(t, [0] * n))]
        if k == 'uninit':
            return [(st, UNDEF)]
        if k == 'bytes':
            return self.read_bytes(st, b, off, n, t, rid)
        v = self.memo_find(st, b, off, n)
        if v is not None:
            return [(st, self.coerce(st, v, t, n))]
        if k == 'lazy':
            outs = b.handler(self, st, b, off, n, t, rid)
            res = []
            for s, v in outs:
                self.memo_add(s, b, off, n, v)
                res.append((s, v))
            return res
        if k in ('cstr', 'strbuf') and n == 1:
            out = []
            L = b.len
            if not st.eq(off, L):
                s1 = st.copy()
                if s1.assume(GE, addc(sub(L, off), -1)):
                    v = ('i', 8, newsym('ch', 1 if k == 'cstr' else 0, 255), 'u')
                    self.memo_add(s1, b, off, n, v)
                    out.append((s1, v))
            s0 = st.copy()
            if s0.assume(EQ, sub(L, off)):
                v = VI(8, ZERO)
                self.memo_add(s0, b, off, n, v)
                out.append((s0, v))
            s2 = st.copy()
            if s2.assume(GE, addc(sub(off, L), -1)):
                v = fresh_i(8, 'ch')
                self.memo_add(s2, b, off, n, v)
                out.append((s2, v))
            return out
        v = self.unknown(st, t)
        self.memo_add(st, b, off, n, v)
        return [(st, v)]

    def read_bytes(self, st, b, off, n, t, rid):
        """constant data: b.data = list of (off, size, value operand)"""
        if not off[1]:
            o = off[0]
            v = b.cells.get((o, n))
            if v is not None:
                return [(st, self.coerce(st, self.operand(st, v) if isinstance(v, dict) else v, t, n))]
            bs = []
            for i in range(n):
                x = b.bytes.get(o + i)
                if x is None:
                    return [(st, self.unknown(st, t))]
                bs.append(x)
            return [(st, self.bytes_value(t, bs))]
        # symbolic index into a constant table: interval of the element values
        v = self.memo_find(st, b, off, n)
        if v is not None:
            return [(st, v)]
        if t['k'] == 'i':
            lo, hi = self.bounds(st, off)
            vals = []
            if lo is not None and hi is not None and hi - lo <= 4096:
                for (o, m), x in b.cells.items():
                    if m == n and lo <= o <= hi and isinstance(x, tuple):
                        vals.append(x[2][0])
                if not vals:
                    for o in range(lo, hi + 1):
                        if o in b.bytes and n == 1:
                            vals.append(b.bytes[o])
            if vals:
                v = fresh_i(t['b'], 'tab', 'u', min(vals), max(vals))
                self.memo_add(st, b, off, n, v)
                if b is getattr(self, 'ctype_base', None):
                    self.classes[v[2]] = (b, off, n)
                return [(st, v)]
        v = self.unknown(st, t)
        if t['k'] == 'p':
            # pointer table: every entry a pointer to a string literal / function
            cands = [x for (o, m), x in b.cells.items() if m == 8]
            if cands:
                out = []
                seen = set()
                for x in cands[:64]:
                    s = st.copy()
                    w = self.operand(s, x) if isinstance(x, dict) else x
                    if repr(w) in seen:
                        continue
                    seen.add(repr(w))
                    out.append((s, w))
                if len(out) > 8:
                    # join: a valid NUL-terminated constant string of unknown length
                    s = st.copy()
                    Ls = newsym('litlen', 0, 4096)
                    rr = self.new_region(s, 'str', addc(Ls, 1), Base('cstr', len=Ls), const=True, name='string literal')
                    return [(s, VP(rr))]
                return out
        self.memo_add(st, b, off, n, v)
        return [(st, v)]

    def bounds(self, st, e):
        """constant bounds of e in st (cheap: interval, then rows by bisection)"""
        lo, hi = interval(e)
        if hi is None or hi > 1 << 20:
            for c in (0, 1, 7, 8, 15, 31, 63, 64, 127, 128, 255, 256, 511, 1023, 4095, 8191, 65535):
                if st.ge(K(c), e):
                    hi = c
                    break
        if lo is None or lo < 0:
            if st.ge(e, ZERO):
                lo = 0
        return lo, hi

    def load(self, st, pv, t):
        n = self.tsize(t)
        st = self.access(st, pv, K(n), 'r')
        if st is None:
            return []
        if pv[0] == 'i':
            pv = VP(*self.region_of_addr(st, pv[2]))
        r = st.mem[pv[1]]
        if r.size is None:
            return [(st, self.unknown(st, t))]
        if t['k'] == 's':
            out = [(st, [])]
            for e in t['e']:
                nxt = []
                for s1, vs in out:
                    for s2, v in self.load(s1, VP(pv[1], addc(pv[2], e['o'])), e['t']):
                        nxt.append((s2, vs + [v]))
                out = nxt
            return [(s1, ('agg', vs)) for s1, vs in out]
        return self.read(st, r.content, pv[2], n, t, pv[1])

    def store(self, st, pv, v, t):
        n = self.tsize(t)
        st = self.access(st, pv, K(n), 'w')
        if st is None:
            return None
        if pv[0] == 'i':
            pv = VP(*self.region_of_addr(st, pv[2]))
        st = st.copy()
        if v[0] == 'agg' and t['k'] == 's':
            for i, e in enumerate(t['e']):
                self.write(st, pv[1], addc(pv[2], e['o']), self.tsize(e['t']), v[1][i])
            return st
        self.write(st, pv[1], pv[2], n, v)
        return st

    def tsize(self, t):
        k = t['k']
        if k == 'i':
            return (t['b'] + 7) // 8
        if k == 'p':
            return 8
        if k == 'f':
            return t['st']
        return t.get('sz', 8)

    # ------------------------------------------------------------- integers
    def unwrap(self, st, v):
        """replaces a wrapped result by its exact value once the path shows it did not wrap"""
        if v[0] != 'i' or not v[2][1]:
            return v
        e = v[2]
        for _ in range(4):
            m = {}
            for x in syms_of(e):
                w = WRAP.get(x)
                if w is None:
                    continue
                ex, k, mod = w
                if k[1][0][0][0] in st.fixed:
                    c = st.fixed[k[1][0][0][0]]
                elif st.cons.prove_eq(k, ZERO):
                    c = 0
                elif st.cons.prove_eq(k, ONE):
                    c = 1
                else:
                    continue
                st.fixed[k[1][0][0][0]] = c
                m[x] = addc(ex, -mod * c)
            if not m:
                break
            e = subst(e, m)
        if e is v[2]:
            return v
        bits = v[1]
        lo, hi = interval(e)
        if not e[1]:
            return VI(bits, e)
        if st.ge(e, ZERO):
            return ('i', bits, e, 'u')
        return ('i', bits, e, 's') if v[3] == 's' else v

    def toU(self, st, v):
        bits, e, sg = v[1], v[2], v[3]
        if sg != 's' or not e[1]:
            return e
        if st.cons.prove_ge(e):
            return e
        if st.cons.prove_ge(addc(neg(e), -1)):
            return addc(e, 1 << bits)
        for x, b, u in st.memo.get(('toU',), ()):
            if x == e and b == bits:
                return u
        k = newsym('w', 0, 1, True)
        u = newsym('u', 0, (1 << bits) - 1)
        st.memo[('toU',)] = st.memo.get(('toU',), ()) + ((e, bits, u),)
        WRAP[u[1][0][0][0]] = (e, k, -(1 << bits))
        st.cons.addrow(EQ, sub(u, add(e, scale(k, 1 << bits))))
        return u

    def toS(self, st, v):
        bits, e, sg = v[1], v[2], v[3]
        if not e[1]:
            return K(e[0] - (1 << bits)) if e[0] >= (1 << (bits - 1)) else e
        if sg != 'u':
            return e
        if st.cons.prove_ge(sub(K((1 << (bits - 1)) - 1), e)):
            return e
        if st.cons.prove_ge(addc(e, -(1 << (bits - 1)))):
            return addc(e, -(1 << bits))
        for x, b, s in st.memo.get(('toS',), ()):
            if x == e and b == bits:
                return s
        k = newsym('w', 0, 1, True)
        s = newsym('s', -(1 << (bits - 1)), (1 << (bits - 1)) - 1)
        st.memo[('toS',)] = st.memo.get(('toS',), ()) + ((e, bits, s),)
        WRAP[s[1][0][0][0]] = (e, k, 1 << bits)
        st.cons.addrow(EQ, sub(s, sub(e, scale(k, 1 << bits))))
        return s

    def as_int(self, st, v, bits):
        if v[0] == 'i':
            return v
        if v[0] == 'p':
            if v[1] < 0:
                return fresh_i(bits)
            return ('i', 64, self.ptr_int(st, v), 'u')
        if v[0] == 'undef':
            return fresh_i(bits, 'undef')
        return fresh_i(bits)

    def norm(self, st, bits, e, unsigned_ok=True):
        """wrap the exact value e into bits; prefers exact representations"""
        lo, hi = interval(e)
        top = (1 << bits) - 1
        half = 1 << (bits - 1)
        ge0 = (lo is not None and lo >= 0) or st.cons.prove_ge(e)
        le_top = (hi is not None and hi <= top) or st.cons.prove_ge(sub(K(top), e))
        if ge0 and le_top:
            return VI(bits, e, 'u')
        if le_top and not ge0:
            if st.cons.prove_ge(addc(neg(e), -1)) and st.cons.prove_ge(addc(e, top + 1)):
                return VI(bits, addc(e, top + 1), 'u')
            if st.cons.prove_ge(addc(e, half)) and st.cons.prove_ge(addc(neg(e), half - 1)):
                return VI(bits, e, 's')
        if ge0 and not le_top:
            if st.cons.prove_ge(addc(e, -(top + 1))) and st.cons.prove_ge(sub(K(2 * top + 1), e)):
                return VI(bits, addc(e, -(top + 1)), 'u')
        # an operand that may itself have wrapped: the exact value modulo 2^bits
        raw = e
        for _ in range(3):
            m = {x: WRAP[x][0] for x in syms_of(raw) if x in WRAP and abs(WRAP[x][2]) == top + 1}
            if not m:
                break
            raw = subst(raw, m)
        if raw is not e:
            c = raw[0] & top
            for c2 in ((c, c - top - 1) if c else (0,)):
                x = (c2, raw[1])
                if st.cons.prove_ge(x) and st.cons.prove_ge(sub(K(top), x)):
                    return VI(bits, x, 'u')
        kl = -(1 << 62) if lo is None else lo // (top + 1)
        kh = (1 << 62) if hi is None else hi // (top + 1)
        if not ge0 and lo is None:
            pass
        if ge0:
            kl = max(kl, 0)
        if le_top:
            kh = min(kh, 0)
        k = newsym('w', kl, kh, True)
        r = newsym('r', 0, top)
        WRAP[r[1][0][0][0]] = (e, k, top + 1)
        st.cons.addrow(EQ, sub(r, sub(e, scale(k, top + 1))))
        return ('i', bits, r, 'u')

    def trunc(self, st, v, b2):
        if v[0] != 'i':
            return fresh_i(b2)
        bits, e, sg = v[1], v[2], v[3]
        if b2 >= bits:
            return v
        if not e[1]:
            return VI(b2, K(e[0] & ((1 << b2) - 1)))
        top = (1 << b2) - 1
        if sg != 's':
            if st.cons.prove_ge(sub(K(top), e)):
                return ('i', b2, e, 'u')
        else:
            h = 1 << (b2 - 1)
            if st.cons.prove_ge(addc(e, h)) and st.cons.prove_ge(sub(K(h - 1), e)):
                return ('i', b2, e, 's')
        if b2 == 1:
            return ('i', 1, newsym('b', 0, 1), 'u')
        return ('i', b2, self.halves(st, e, b2)[1], 'u')

    def halves(self, st, e, b):
        """e = q * 2^b + r with 0 <= r < 2^b -> (q, r)"""
        m = 1 << b
        hi_part = (e[0] // m, tuple((s, c // m) for s, c in e[1] if c % m == 0))
        lo_part = (e[0] % m, tuple((s, c) for s, c in e[1] if c % m))
        if hi_part[1] or not lo_part[1]:
            lo, hi = interval(lo_part)
            if not lo_part[1] or lo is not None and hi is not None and lo >= 0 and hi < m or st.cons.prove_ge(lo_part) and st.cons.prove_ge(sub(K(m - 1), lo_part)):
                return hi_part, lo_part
        for x, n, q in st.memo.get(('hi', b), ()):
            if x == e:
                return q, [r for y, _, r in st.memo[('lo', b)] if y == e][0]
        lo, hi = interval(e)
        q = newsym('w', None if lo is None else lo >> b, None if hi is None else hi >> b, True)
        r = newsym('lo', 0, m - 1)
        st.cons.addrow(EQ, sub(e, add(scale(q, m), r)))
        st.memo[('hi', b)] = st.memo.get(('hi', b), ()) + ((e, b, q),)
        st.memo[('lo', b)] = st.memo.get(('lo', b), ()) + ((e, b, r),)
        return q, r

    def binop(self, st, i, a, b, bits):
        op = i['op']
        if a[0] == 'cond' or b[0] == 'cond':
            raise AssertionError('cond in binop')
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            if a[0] == 'undef' or b[0] == 'undef':
                self.report('uninit', 'arithmetic on an uninitialised value', st, 'uninit')
            if a[0] != 'f' or b[0] != 'f':
                return ('f', Syms.new('fl', None, None))
            x, y = a[1], b[1]
            if op in ('fadd', 'fmul') and repr(y) < repr(x):
                x, y = y, x
            return fterm(op, x, y)
        if a[0] == 'undef' or b[0] == 'undef':
            self.report('uninit', 'arithmetic on an uninitialised value', st, 'uninit')
        # pointer difference
        if a[0] == 'p' or b[0] == 'p':
            a = self.as_int(st, a, bits)
            b = self.as_int(st, b, bits)
        a = self.unwrap(st, self.as_int(st, a, bits))
        b = self.unwrap(st, self.as_int(st, b, bits))
        c = st.cons
        top = (1 << bits) - 1

        def cs(v):  # constants as signed
            e = v[2]
            if not e[1]:
                return K(e[0] - (top + 1)) if e[0] > top // 2 else e
            return e
        if op in ('add', 'sub', 'mul'):
            if i.get('nsw') and not i.get('nuw'):
                ea, eb = self.toS(st, a), self.toS(st, b)
                e = add(ea, eb) if op == 'add' else sub(ea, eb) if op == 'sub' else mul(ea, eb)
                if not e[1]:
                    return VI(bits, e)
                if op == 'mul' and any(len(t) > 3 for t, _ in e[1]):
                    return fresh_i(bits)
                h = 1 << (bits - 1)
                # signed overflow is undefined: the analysis assumes it does not happen
                c.addrow(GE, addc(e, h))
                c.addrow(GE, sub(K(h - 1), e))
                return VI(bits, e, 's')
            ea, eb = cs(a), cs(b)
            if op == 'sub' and not a[2][1]:
                ea = a[2]
            e = add(ea, eb) if op == 'add' else sub(ea, eb) if op == 'sub' else mul(a[2], b[2])
            if op == 'mul' and (any(len(t) > 3 for t, _ in e[1])):
                return fresh_i(bits)
            return self.norm(st, bits, e)
        if op in ('udiv', 'urem'):
            ea, eb = self.toU(st, a), self.toU(st, b)
            if not eb[1] and eb[0] == 0 or (eb[1] and not st.ge(eb, ONE)):
                self.report('div0', 'division by a value that may be 0', st, 'div0')
                if not st.assume(GE, addc(eb, -1)):
                    return None
            if not ea[1] and not eb[1]:
                return VI(bits, K(ea[0] // eb[0] if op == 'udiv' else ea[0] % eb[0]))
            if not eb[1]:
                # a multiple of the divisor plus a remainder that is known to be small
                n = eb[0]
                hi_ = (ea[0] // n, tuple((t, k // n) for t, k in ea[1] if k % n == 0))
                lo_ = sub(ea, scale(hi_, n))
                if lo_ != ea and c.prove_ge(lo_) and c.prove_ge(sub(K(n - 1), lo_)) and c.prove_ge(hi_):
                    return ('i', bits, hi_ if op == 'udiv' else lo_, 'u')
            lo, hi = interval(ea)
            blo, bhi = interval(eb)
            for x, y, qr in st.memo.get(('udiv',), ()):
                if x == ea and y == eb:
                    return ('i', bits, qr[op == 'urem'], 'u')
            q = newsym('q', 0, top if hi is None else hi // max(1, blo or 1), False)
            r = newsym('rem', 0, top if bhi is None else bhi - 1)
            st.memo[('udiv',)] = st.memo.get(('udiv',), ()) + ((ea, eb, (q, r)),)
            prod = mul(q, eb)
            c.addrow(EQ, sub(ea, add(prod, r)))
            c.addrow(GE, addc(sub(eb, r), -1))
            c.addrow(GE, sub(ea, q))
            c.addrow(GE, sub(ea, r))
            return ('i', bits, q if op == 'udiv' else r, 'u')
        if op in ('sdiv', 'srem'):
            ea, eb = self.toS(st, a), self.toS(st, b)
            if not eb[1]:
                if eb[0] == 0:
                    self.report('div0', 'division by 0', st, 'div0')
                    return None
                if eb[0] > 0 and c.prove_ge(ea):
                    q = newsym('q', 0, top // 2)
                    r = newsym('rem', 0, eb[0] - 1)
                    c.addrow(EQ, sub(ea, add(scale(q, eb[0]), r)))
                    return ('i', bits, q if op == 'sdiv' else r, 'u')
                if op == 'sdiv':
                    # exact pointer-difference division: e = c * q
                    return fresh_i(bits, 'q', 's')
                return fresh_i(bits, 'rem', 's', -(abs(eb[0]) - 1), abs(eb[0]) - 1)
            if not c.prove_ne(eb, ZERO):
                self.report('div0', 'division by a value that may be 0', st, 'div0')
                if not st.assume(NE, eb):
                    return None
            if c.prove_ge(ea) and c.prove_ge(eb):
                q = newsym('q', 0, top // 2)
                r = newsym('rem', 0, top // 2)
                c.addrow(EQ, sub(ea, add(mul(q, eb), r)))
                c.addrow(GE, addc(sub(eb, r), -1))
                c.addrow(GE, sub(ea, q))
                return ('i', bits, q if op == 'sdiv' else r, 'u')
            return fresh_i(bits, 'q', 's')
        ea, eb = self.toU(st, a), self.toU(st, b)
        if ea[1] or eb[1]:
            # value numbering: the same operation on the same operands gives the same result
            key = ('op', op, bits)
            for x, y, v in st.memo.get(key, ()):
                if x == ea and y == eb or (op in ('and', 'or', 'xor') and x == eb and y == ea):
                    return v
            v = self.bitop(st, op, ea, eb, bits, top)
            if v is not None and v[2][1]:
                st.memo[key] = st.memo.get(key, ()) + ((ea, eb, v),)
            return v
        return self.bitop(st, op, ea, eb, bits, top)

    def bitop(self, st, op, ea, eb, bits, top):
        c = st.cons
        if not ea[1] and not eb[1]:
            x, y = ea[0], eb[0]
            if op == 'and':
                return VI(bits, K(x & y))
            if op == 'or':
                return VI(bits, K(x | y))
            if op == 'xor':
                return VI(bits, K(x ^ y))
            if op in ('shl', 'lshr', 'ashr'):
                if y >= bits:
                    self.report('shift', 'shift by %d of a %d-bit value' % (y, bits), st, 'shift')
                    return fresh_i(bits)
                if op == 'shl':
                    return VI(bits, K((x << y) & top))
                if op == 'lshr':
                    return VI(bits, K(x >> y))
                sx = x - (top + 1) if x > top // 2 else x
                return VI(bits, K(sx >> y))
        if op in ('and', 'or', 'xor') and not ea[1]:
            ea, eb = eb, ea
        if op == 'and':
            if not eb[1]:
                m = eb[0]
                if m == 0:
                    return VI(bits, ZERO)
                if m == top:
                    return VI(bits, ea, 'u')
                if m & (m + 1) == 0:
                    return self.modpow2(st, ea, m, bits)[0]
                inv = top - m
                if inv & (inv + 1) == 0:
                    r, q = self.modpow2(st, ea, inv, bits)
                    if q is not None and q[1]:
                        return VI(bits, scale(q, inv + 1), 'u')
                    return VI(bits, sub(ea, r[2]), 'u')
                low = m & -m
                if (m + low) & m == 0:
                    # one run of bits
                    r = self.modpow2(st, ea, m | low - 1, bits)[0]
                    q = self.bitop(st, 'lshr', r[2], K(low.bit_length() - 1), bits, top)
                    return VI(bits, scale(q[2], low), 'u')
                r = newsym('and', 0, m)
                c.addrow(GE, sub(ea, r))
                return ('i', bits, r, 'u')
            r = newsym('and', 0, top)
            c.addrow(GE, sub(ea, r))
            c.addrow(GE, sub(eb, r))
            # x & ~m  >= x - m
            c.addrow(GE, addc(sub(r, add(ea, eb)), top))
            return ('i', bits, r, 'u')
        if op == 'or':
            if not eb[1] and eb[0] == 0:
                return VI(bits, ea, 'u')
            for x, y in ((ea, eb), (eb, ea)):
                # disjoint bits
                k = 0
                while k < bits and x[0] % (2 << k) == 0 and all(cf % (2 << k) == 0 for _, cf in x[1]):
                    k += 1
                if k and st.ge(K((1 << k) - 1), y):
                    return VI(bits, add(x, y), 'u')
            h1, h2 = interval(ea)[1], interval(eb)[1]
            ub = top
            if h1 is not None and h2 is not None:
                ub = min(top, (1 << max(h1.bit_length(), h2.bit_length())) - 1)
            r = newsym('or', 0, ub)
            c.addrow(GE, sub(r, ea))
            c.addrow(GE, sub(r, eb))
            c.addrow(GE, sub(add(ea, eb), r))
            return ('i', bits, r, 'u')
        if op == 'xor':
            if not eb[1]:
                if eb[0] == top:
                    return VI(bits, sub(K(top), ea), 'u')
                if eb[0] == 0:
                    return VI(bits, ea, 'u')
            h1, h2 = interval(ea)[1], interval(eb)[1]
            ub = top
            if h1 is not None and h2 is not None:
                ub = min(top, (1 << max(h1.bit_length(), h2.bit_length())) - 1)
            r = newsym('xor', 0, ub)
            c.addrow(GE, sub(add(ea, eb), r))
            return ('i', bits, r, 'u')
        if op == 'shl':
            if not eb[1]:
                if eb[0] >= bits:
                    self.report('shift', 'shift by %d of a %d-bit value' % (eb[0], bits), st, 'shift')
                    return fresh_i(bits)
                return self.norm(st, bits, scale(ea, 1 << eb[0]))
            if not st.ge(K(bits - 1), eb):
                self.report('shift', 'shift amount may reach the width of the type', st, 'shift')
            return fresh_i(bits, 'shl')
        if op in ('lshr', 'ashr'):
            if not eb[1]:
                if eb[0] >= bits:
                    self.report('shift', 'shift by %d of a %d-bit value' % (eb[0], bits), st, 'shift')
                    return fresh_i(bits)
                if op == 'lshr' or c.prove_ge(sub(K(top // 2), ea)):
                    m = 1 << eb[0]
                    low = self.lowpart(st, ea, m)
                    if low is not None:
                        hi = sub(ea, low)
                        return VI(bits, (hi[0] // m, tuple((t, cf // m) for t, cf in hi[1])), 'u')
                    return ('i', bits, self.shifted(st, ea, eb[0], bits), 'u')
                return fresh_i(bits, 'ashr')
            if not st.ge(K(bits - 1), eb):
                self.report('shift', 'shift amount may reach the width of the type', st, 'shift')
            r = newsym('shr', 0, top)
            c.addrow(GE, sub(ea, r))
            return ('i', bits, r, 'u')
        raise AnalysisError('operator ' + op)

    def lowpart(self, st, ea, m):
        """the part of ea below m (a power of two) when ea = m*x + low with 0 <= low < m"""
        low = (ea[0] % m, tuple((t, cf) for t, cf in ea[1] if cf % m))
        if low == ea:
            return None
        if st.ge(low, ZERO) and st.ge(K(m - 1), low):
            return low
        return None

    def modpow2(self, st, ea, m, bits):
        if st.ge(K(m), ea):
            return VI(bits, ea, 'u'), ZERO
        k = m.bit_length()
        # drop multiples of 2^k
        red = (ea[0] & m, tuple((t, c) for t, c in ea[1] if c % (m + 1)))
        if red != ea and not red[1]:
            return VI(bits, red), None
        if red != ea and st.ge(red, ZERO) and st.ge(K(m), red):
            return VI(bits, red, 'u'), None
        base = red if red != ea and st.ge(red, ZERO) else ea
        root, a, b = self.slice_of(st, base)
        if b is not None and a + k >= b:
            return VI(bits, base, 'u'), ZERO
        lo = base if a == 0 and b is None else self.quotient(st, root, a, bits)
        q = self.quotient(st, root, a + k, bits)
        for r, ab, x in st.memo.get(('slice',), ()):
            if r == root and ab == (a, a + k):
                r = x
                break
        else:
            r = newsym('mod', 0, m)
            st.cons.addrow(EQ, sub(lo, add(scale(q, m + 1), r)))
            st.memo[('slice',)] = st.memo.get(('slice',), ()) + ((root, (a, a + k), r),)
        if b is not None:
            q = sub(q, scale(self.quotient(st, root, b, bits), 1 << b - a - k))
        return ('i', bits, r, 'u'), q if base is ea else None

    def slice_of(self, st, ea):
        """(root, lo, hi): the value ea consists of the bits lo to hi-1 of the value root"""
        for r, ab, x in st.memo.get(('slice',), ()):
            if x == ea:
                return (r,) + ab
        for r, j, q in st.memo.get(('quot',), ()):
            if q == ea:
                return r, j, None
        return ea, 0, None

    def shifted(self, st, ea, k, bits):
        """ea >= 0 divided by 2^k; the bits of a value have one name however they are picked"""
        root, a, b = self.slice_of(st, ea)
        if b is None:
            return self.quotient(st, root, a + k, bits)
        if a + k >= b:
            return ZERO
        for r, ab, x in st.memo.get(('slice',), ()):
            if r == root and ab == (a + k, b):
                return x
        q, top = self.quotient(st, root, a + k, bits), self.quotient(st, root, b, bits)
        r = newsym('bits', 0, (1 << b - a - k) - 1)
        st.cons.addrow(EQ, sub(q, add(scale(top, 1 << b - a - k), r)))
        st.memo[('slice',)] = st.memo.get(('slice',), ()) + ((root, (a + k, b), r),)
        return r

    def quotient(self, st, root, n, bits):
        """the value root >= 0 divided by 2^n"""
        if n == 0:
            return root
        qs = st.memo.get(('quot',), ())
        for r, j, q in qs:
            if r == root and j == n:
                return q
        lo, hi = interval(root)
        q = newsym('q', 0, ((1 << bits) - 1 if hi is None else hi) >> n, True)
        c = st.cons
        c.addrow(GE, sub(root, scale(q, 1 << n)))
        c.addrow(GE, sub(addc(scale(q, 1 << n), (1 << n) - 1), root))
        for r, j, q2 in qs:
            # the parts of one value nest
            if r == root:
                x, y, d = (q2, q, n - j) if j < n else (q, q2, j - n)
                c.addrow(GE, sub(x, scale(y, 1 << d)))
                c.addrow(GE, sub(addc(scale(y, 1 << d), (1 << d) - 1), x))
        st.memo[('quot',)] = qs + ((root, n, q),)
        return q

    # ------------------------------------------------------------- conditions
    # a cond value: ('cond', [ (kind, expr) alternatives when true ], [... when false]) each a
    # list of conjunctions
    def icmp(self, st, i, a, b):
        p = i['p']
        t = i['ot']
        if a[0] == 'undef' or b[0] == 'undef':
            self.report('uninit', 'comparison of an uninitialised value', st, 'uninit')
            return ('i', 1, newsym('b', 0, 1), 'u')
        if a[0] == 'p' or b[0] == 'p':
            if a[0] == 'p' and b[0] == 'p':
                if a[1] == b[1]:
                    if a[1] == 0:
                        return self.mkcmp(p, ZERO, ZERO)
                    if p in ('eq', 'ne') or a[1] != 0:
                        return self.mkcmp(p, a[2], b[2])
                if p in ('eq', 'ne') and a[1] >= 0 and b[1] >= 0:
                    r = self.ptr_ne(st, a, b)
                    if r is True:
                        return VI(1, K(0 if p == 'eq' else 1))
                    return ('i', 1, newsym('b', 0, 1), 'u')
                if a[1] < 0 or b[1] < 0:
                    return ('i', 1, newsym('b', 0, 1), 'u')
                if 0 in (a[1], b[1]) and p[0] == 'u':
                    return self.mkcmp(p, self.ptr_int(st, a), self.ptr_int(st, b))
                return self.mkcmp(p, self.ptr_int(st, a), self.ptr_int(st, b))
            ai, bi = self.as_int(st, a, 64), self.as_int(st, b, 64)
            return self.mkcmp(p, self.toU(st, ai), self.toU(st, bi))
        if a[0] == 'cond':
            return ('i', 1, newsym('b', 0, 1), 'u')
        a = self.unwrap(st, self.as_int(st, a, t.get('b', 64)))
        b = self.unwrap(st, self.as_int(st, b, t.get('b', 64)))
        if p in ('eq', 'ne'):
            if a[3] == b[3] or (a[3] != 's' and b[3] != 's') or (a[3] != 'u' and b[3] != 'u'):
                return self.mkcmp(p, a[2], b[2])
            return self.mkcmp(p, self.toU(st, a), self.toU(st, b)) if a[2][1] and b[2][1] or True else None
        if p[0] == 'u':
            return self.mkcmp(p, self.toU(st, a), self.toU(st, b))
        return self.mkcmp(p, self.toS(st, a), self.toS(st, b))

    def ptr_ne(self, st, a, b):
        """True when pointers into different regions are certainly different"""
        if a[1] == 0 or b[1] == 0:
            o = a if b[1] == 0 else b
            r = st.mem[o[1]]
            if r.kind == 'user0':
                return r.attr.get('nonnull', False) or None
            return True
        ra, rb = st.mem[a[1]], st.mem[b[1]]
        if 'user0' in (ra.kind, rb.kind):
            return None
        if ra.attr.get('alias') is not None and ra.attr.get('alias') == rb.attr.get('alias'):
            return None
        if ra.live and rb.live:
            return True
        return None

    def mkcmp(self, p, x, y):
        d = sub(x, y)
        if p == 'eq':
            t, f = (EQ, d), (NE, d)
        elif p == 'ne':
            t, f = (NE, d), (EQ, d)
        elif p in ('ult', 'slt'):
            t, f = (GE, addc(neg(d), -1)), (GE, d)
        elif p in ('ule', 'sle'):
            t, f = (GE, neg(d)), (GE, addc(d, -1))
        elif p in ('ugt', 'sgt'):
            t, f = (GE, addc(d, -1)), (GE, neg(d))
        elif p in ('uge', 'sge'):
            t, f = (GE, d), (GE, addc(neg(d), -1))
        else:
            raise AnalysisError('predicate ' + p)
        if not d[1]:
            k, e = t
            c = e[0]
            ok = c >= 0 if k == GE else c == 0 if k == EQ else c != 0
            return VI(1, K(1 if ok else 0))
        return ('cond', t, f)

    def split(self, st, v):
        """-> list of (state, bool)"""
        if v[0] == 'i':
            e = v[2]
            if not e[1]:
                return [(st, bool(e[0] & 1) if v[1] == 1 else bool(e[0]))]
            out = []
            s1 = st.copy()
            if s1.assume(NE, e):
                out.append((s1, True))
            s0 = st.copy()
            if s0.assume(EQ, e):
                out.append((s0, False))
            return out
        if v[0] == 'cond':
            out = []
            s1 = st.copy()
            if s1.assume(*v[1]):
                out.append((s1, True))
            s0 = st.copy()
            if s0.assume(*v[2]):
                out.append((s0, False))
            return out
        if v[0] == 'undef':
            self.report('uninit', 'branch on an uninitialised value', st, 'uninit')
        return [(st.copy(), True), (st.copy(), False)]

    def asbit(self, st, v, bits):
        """i1 value -> list of (state, int value)"""
        if v[0] == 'i' and v[1] == 1:
            return [(st, VI(bits, v[2], 'u'))]
        return [(s, VI(bits, K(1 if b else 0))) for s, b in self.split(st, v)]

    # ------------------------------------------------------------- operands
    def operand(self, st, o):
        k = o['k']
        if k == 'v':
            v = st.env.get(o['n'])
            if v is None:
                return UNDEF
            return v
        if k == 'c':
            return VI(o['b'], K(int(o['v'])))
        if k == 'n':
            return NULLP
        if k == 'g':
            return VP(self.global_region(st, o['n']), K(o['o']))
        if k == 'F':
            return VP(self.func_region(st, o['n']))
        if k == 'go':
            b = self.operand(st, o['b'])
            return VP(b[1], addc(b[2], o['o']))
        if k in ('u',):
            return self.unknown(st, o['t']) if o['t']['k'] != 's' else ('agg', [UNDEF] * len(o['t']['e']))
        if k == 'z':
            return ('agg', [NULLP if e['t']['k'] == 'p' else VI(e['t'].get('b', 64), ZERO) for e in o['t'].get('e', [])])
        if k == 'f':
            return ('f', ('const', o['v']))
        if k == 'cast':
            v = self.operand(st, o['a'])
            if v[0] == 'p' and o['t']['k'] == 'i':
                return VI(64, self.ptr_int(st, v))
            return v
        if k == 'md':
            return UNDEF
        return self.unknown(st, o.get('t', {'k': 'i', 'b': 64}))

    def global_region(self, st, name):
        rid = self.gl.get(name)
        if rid is None:
            rid = self.nextrid
            self.nextrid += 1
            self.gl[name] = rid
        if rid not in st.mem:
            g = self.p.globals[name]
            const = bool(g['const'])
            b = Base('opaque')
            bases = self.__dict__.setdefault('gbase', {})
            if name in bases:
                b = bases[name]
            elif 'init' in g and (const or name.startswith('.str') or name.startswith('str')):
                b = Base('bytes', cells={}, bytes={})
                for c in g['init']:
                    if 'z' in c:
                        if c['s'] <= 1 << 16:
                            for i in range(c['s']):
                                b.bytes[c['o'] + i] = 0
                    elif 'data' in c:
                        for i, v in enumerate(c['data']):
                            b.cells[(c['o'] + i * c['s'], c['s'])] = VI(8 * c['s'], K(int(v)))
                            for j in range(c['s']):
                                b.bytes[c['o'] + i * c['s'] + j] = (int(v) >> (8 * j)) & 255
                    elif 'v' in c:
                        v = c['v']
                        b.cells[(c['o'], c['s'])] = v
                        if v['k'] == 'c':
                            x = int(v['v'])
                            b.cells[(c['o'], c['s'])] = VI(8 * c['s'], K(x))
                            for j in range(c['s']):
                                b.bytes[c['o'] + j] = (x >> (8 * j)) & 255
            bases[name] = b
            st.mem[rid] = Region(rid, 'str' if const else 'global', K(g['size']), b, 1,
                                 {'const': const, 'gname': g.get('dn', name), 'name': g.get('dn', 'literal' if name.startswith('.str') else name)})
        return rid

    def func_region(self, st, name):
        key = 'fn:' + name
        rid = self.gl.get(key)
        if rid is None:
            rid = self.nextrid
            self.nextrid += 1
            self.gl[key] = rid
        if rid not in st.mem:
            st.mem[rid] = Region(rid, 'func', None, Base('opaque'), 1, {'fname': name})
        return rid

    # ------------------------------------------------------------- functions
    def call_function(self, fn, args, st, varargs=()):
        """analyse fn's body from st.  -> list of (state, return value)"""
        if len(self.stack) > self.MAXDEPTH or sum(1 for f, _ in self.stack if f is fn) >= max(2, self.DEPTH):
            raise AnalysisError('recursion through %s needs a contract' % fn.name)
        self.visited.add(fn.base)
        st = st.copy()
        st.parents = st.parents + (st.env,)
        st.env = {}
        for a, v in zip(fn.args, args):
            st.env[a['id']] = v
        frame = len(self.stack)
        st.env['#va'] = tuple(varargs) if varargs is not None else None
        st.env['#fn'] = fn.name
        self.frames = getattr(self, 'frames', 0) + 1
        fid = self.frames
        st.env['#fid'] = fid
        rets = []
        self.exec_scope(fn, fn.entry, [st], None, rets)
        out = []
        for s, v in rets:
            # lifetime of the frame's locals ends
            for rid, r in list(s.mem.items()):
                if r.kind == 'stack' and r.attr.get('fid') == fid:
                    self.end_of_life(s, rid, (fn, {'l': fn.line, 'fl': fn.file}))
            s.env = dict(s.parents[-1])
            s.parents = s.parents[:-1]
            out.append((s, v))
        if len(out) > self.MAXRET:
            out = self.merge_rets(out)
        return out

    def merge_rets(self, out):
        groups = {}
        for s, v in out:
            s2 = s.copy()
            s2.env = dict(s.env)
            s2.env['#ret'] = v
            groups.setdefault(repr(v)[:60] if v and (v[0] == 'i' and not v[2][1] or v[0] == 'p' and v[1] == 0) else 'x', []).append(s2)
        res = []
        for g in groups.values():
            for s in self.reduce(g, None, max(4, self.MAXRET // (2 * len(groups)), self.SOFT // 2)):
                s = s.copy()
                v = s.env.pop('#ret')
                res.append((s, v))
        return res

    def exec_scope(self, fn, entry, states, loop, rets):
        """run the blocks of fn (or of one loop body) in reverse post order, inner loops
        summarised.  -> (back states, exits: {target: [states]})"""
        blocks = fn.rpo if loop is None else [b for b in fn.rpo if b in loop['b']]
        head = None if loop is None else loop['h']
        pend = {entry: list(states)}
        backs, exits = [], {}
        outer = head
        started = False
        for b in blocks:
            if b not in pend:
                continue
            ss = pend.pop(b)
            if not ss:
                continue
            # inner loop header?
            l = fn.loops.get(b)
            if l is not None and b != head:
                ss = self.reduce(ss, fn.live[b], self.MAXSTATES // 2)
                ex, rr = self.exec_loop(fn, l, ss)
                rets += rr
                for tgt, lst in ex.items():
                    self.route(fn, loop, head, tgt, lst, pend, backs, exits)
                continue
            if len(ss) > 1:
                ss = self.reduce(ss, fn.live[b], self.MAXSTATES)
            for s in ss:
                for tgt, s2 in self.exec_block(fn, b, s, rets):
                    self.route(fn, loop, head, tgt, [s2], pend, backs, exits)
        return backs, exits

    def route(self, fn, loop, head, tgt, lst, pend, backs, exits):
        if loop is not None and tgt == head:
            backs += lst
        elif loop is not None and tgt not in loop['b']:
            exits.setdefault(tgt, []).extend(lst)
        else:
            pend.setdefault(tgt, []).extend(lst)

    def edge(self, fn, frm, to, st):
        """state moved along the edge frm->to: parallel phi assignment"""
        insts = fn.blocks[to]
        new = None
        for i in insts:
            if i['op'] != 'phi':
                break
            for x in i['in']:
                if x['b'] == frm:
                    if new is None:
                        new = {}
                    new[i['id']] = self.operand(st, x['v'])
                    break
        st.env = dict(st.env)
        if new:
            st.env.update(new)
        return st

    def exec_block(self, fn, b, st, rets):
        """-> list of (successor, state)"""
        work = [(0, st)]
        out = []
        insts = fn.blocks[b]
        n = len(insts)
        while work:
            ix, s = work.pop()
            while ix < n:
                i = insts[ix]
                op = i['op']
                if op == 'phi':
                    ix += 1
                    continue
                self.steps += 1
                if self.steps > self.maxsteps:
                    raise Budget('step budget exhausted in %s' % fn.name)
                self.stack.append((fn, i))
                try:
                    if op == 'br':
                        if 'c' in i:
                            v = self.operand(s, i['c'])
                            for s2, tv in self.split(s, v):
                                if v[0] != 'i' or v[2][1]:
                                    s2.trail = s2.trail[-11:] + ('%s:%d%s' % (fn.base, i.get('l', 0), 'T' if tv else 'F'),)
                                t = i['T'] if tv else i['E']
                                out.append((t, self.edge(fn, b, t, s2 if s2 is not s else s.copy())))
                        else:
                            out.append((i['T'], self.edge(fn, b, i['T'], s.copy())))
                        break
                    if op == 'ret':
                        rv = self.operand(s, i['a'][0]) if i['a'] else None
                        if rv is not None and rv[0] == 'cond':
                            for s2, tv in self.split(s, rv):
                                rets.append((s2, VI(1, K(1 if tv else 0))))
                        elif rv is not None and rv[0] == 'i' and rv[1] == 1 and rv[2][1]:
                            for s2, tv in self.split(s, rv):
                                rets.append((s2, VI(1, K(1 if tv else 0))))
                        else:
                            rets.append((s, rv))
                        break
                    if op == 'switch':
                        out += self.do_switch(fn, b, i, s)
                        break
                    if op == 'unreachable':
                        break
                    res = self.exec_inst(fn, i, s)
                finally:
                    self.stack.pop()
                ix += 1
                if res is None:
                    continue
                if not res:
                    break
                for s2 in res[1:]:
                    work.append((ix, s2))
                s = res[0]
        return out

    def do_switch(self, fn, b, i, s):
        v = self.operand(s, i['c'])
        bits = i['t']['b']
        out = []
        if v[0] != 'i':
            if v[0] == 'undef':
                self.report('uninit', 'switch on an uninitialised value', s, 'uninit')
            for t in [c['b'] for c in i['cs']] + [i['d']]:
                out.append((t, self.edge(fn, b, t, s.copy())))
            return out
        e = self.toU(s, v)
        if not e[1]:
            for c in i['cs']:
                if int(c['v']) == e[0]:
                    return [(c['b'], self.edge(fn, b, c['b'], s.copy()))]
            return [(i['d'], self.edge(fn, b, i['d'], s.copy()))]
        bytgt = {}
        for c in i['cs']:
            bytgt.setdefault(c['b'], []).append(int(c['v']))
        for t, vals in bytgt.items():
            vals.sort()
            phis = [x for x in fn.blocks[t] if x['op'] == 'phi']
            if len(vals) > 3 and not phis:
                # intervals of case labels (gaps excluded by disequalities when few)
                runs = [[vals[0], vals[0]]]
                for c in vals[1:]:
                    if c - runs[-1][1] <= 1:
                        runs[-1][1] = c
                    else:
                        runs.append([c, c])
                gaps = [x for a, c in zip(runs, runs[1:]) for x in range(a[1] + 1, min(c[0], a[1] + 6))]
                if len(runs) > 3 and len(gaps) <= 4:
                    runs = [[vals[0], vals[-1]]]
                for lo, hi in runs:
                    s2 = s.copy()
                    if s2.assume(GE, addc(e, -lo)) and s2.assume(GE, sub(K(hi), e)) and (len(runs) > 1 or all(s2.assume(NE, addc(e, -x)) for x in gaps)):
                        s2.trail = s2.trail[-11:] + ('%s:%d case %d..%d' % (fn.base, i.get('l', 0), lo, hi),)
                        out.append((t, self.edge(fn, b, t, s2)))
                continue
            for c in vals:
                s2 = s.copy()
                if s2.assume(EQ, addc(e, -c)):
                    s2.trail = s2.trail[-11:] + ('%s:%d case %d' % (fn.base, i.get('l', 0), c),)
                    out.append((t, self.edge(fn, b, t, s2)))
        s2 = s.copy()
        ok = True
        allv = sorted(int(c['v']) for c in i['cs'])
        # disequalities: peel the ends, keep a few inside
        for c in sorted(allv):
            if not s2.assume(NE, addc(e, -c)):
                ok = False
                break
        if ok:
            s2.trail = s2.trail[-11:] + ('%s:%d default' % (fn.base, i.get('l', 0)),)
            out.append((i['d'], self.edge(fn, b, i['d'], s2)))
        return out

    def char_class(self, s, where, mask):
        """the masked class of a character when all it can be are alike, else None"""
        b, off, n = where
        k = (id(b), n, mask)
        runs = self.classruns.get(k)
        if runs is None:
            runs = self.classruns[k] = []
            for o in sorted(o for o, m in b.cells if m == n):
                x = b.cells[(o, n)][2][0] & mask
                if runs and runs[-1][2] == x and runs[-1][1] == o - n:
                    runs[-1][1] = o
                else:
                    runs.append([o, o, x])
        got = set()
        for lo, hi, x in runs:
            if x in got:
                continue
            s2 = s.copy()
            if s2.assume(GE, addc(off, -lo)) and s2.assume(GE, sub(K(hi), off)):
                got.add(x)
                if len(got) > 1:
                    return None
        return got.pop() if got else None

    def settle_classes(self, s):
        """False when a character cannot be of the class this path found it to be"""
        for e, (where, mask) in self.classed.items():
            if s.cons.cone(syms_of(e)):
                x = self.char_class(s, where, mask)
                if x is not None and not s.copy().assume(EQ, addc(e, -x)):
                    return False
        return True

    def exec_inst(self, fn, i, s):
        """returns None (state updated in place) or the list of successor states"""
        op = i['op']
        env = s.env
        if op == 'load':
            pv = self.operand(s, i['a'][0])
            t = i['t']
            tt = t
            if t['k'] == 'i' and t['b'] == 1:
                tt = {'k': 'i', 'b': 8}
            res = self.load(s, pv, tt)
            out = []
            for s2, v in res:
                if s2 is s:
                    s2 = s.copy()
                s2.env = dict(s2.env)
                s2.env[i['id']] = v
                out.append(s2)
            return out
        if op == 'store':
            v = self.operand(s, i['a'][0])
            pv = self.operand(s, i['a'][1])
            t = i['ot']
            if v[0] == 'cond':
                out = []
                for s2, tv in self.split(s, v):
                    r = self.store(s2, pv, VI(8, K(1 if tv else 0)), {'k': 'i', 'b': 8})
                    if r is not None:
                        out.append(r)
                return out
            r = self.store(s, pv, v, t)
            return [] if r is None else [r]
        if op == 'getelementptr':
            b = self.operand(s, i['base'])
            if 'co' not in i:
                env[i['id']] = self.unknown(s, {'k': 'p'})
                return None
            if b[0] == 'i':
                r = self.region_of_addr(s, b[2])
                b = VP(*r) if r else self.unknown(s, {'k': 'p'})
            if b[0] != 'p':
                if b[0] == 'undef':
                    self.report('uninit', 'address computed from an uninitialised pointer', s, 'uninit')
                env[i['id']] = self.unknown(s, {'k': 'p'})
                return None
            def index(x):
                v = self.operand(s, x['v'])
                v = self.unwrap(s, self.as_int(s, v, x['t']['b']))
                if x['t']['b'] < 64:
                    return self.toS(s, v)
                e = v[2]
                if not e[1] and e[0] >= 1 << 63:
                    return K(e[0] - (1 << 64))
                if v[3] == 'u' and e[1] and not s.ge(K(PTRDIFF), e):
                    return self.toS(s, v)
                return e
            off = addc(b[2], i['co'])
            for x in i['vo']:
                off = add(off, scale(index(x), x['s']))
            for x in i.get('ax', ()):
                # an array inside an object: its own bounds, not only those of the object
                e, n = index(x), x['n'] - (1 if i['axd'] else 0)
                self.site("index")
                if not (s.ge(e, ZERO) and s.ge(K(n), e)):
                    self.report('oob', 'index %s may be outside the array of %d elements' % (show(e), x['n']), s, 'index')
            if b[1] == 0:
                if off == ZERO:
                    env[i['id']] = NULLP
                else:
                    # arithmetic on NULL: keep it NULL-based so that any access is reported
                    env[i['id']] = VP(0, off)
                return None
            env[i['id']] = VP(b[1], off)
            return None
        if op in ('add', 'sub', 'mul', 'udiv', 'urem', 'sdiv', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr',
                  'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            a, b = self.operand(s, i['a'][0]), self.operand(s, i['a'][1])
            if op == 'and' and self.CLASSES and a[0] == 'i' and b[0] == 'i' and not b[2][1] and a[2] in self.classes:
                x = self.char_class(s, self.classes[a[2]], b[2][0])
                if x is not None:
                    env[i['id']] = VI(i['t']['b'], K(x))
                    return None
                v = self.binop(s, i, a, b, i['t']['b'])
                self.classed[v[2]] = (self.classes[a[2]], b[2][0])
                env[i['id']] = v
                return None
            if i['t']['k'] == 'i' and i['t']['b'] == 1 or a[0] == 'cond' or b[0] == 'cond':
                return self.bool_op(i, s, a, b)
            v = self.binop(s, i, a, b, i['t'].get('b', 64))
            if v is None:
                return []
            env[i['id']] = v
            return None
        if op == 'fneg':
            a = self.operand(s, i['a'][0])
            if a[0] == 'undef':
                self.report('uninit', 'arithmetic on an uninitialised value', s, 'uninit')
            env[i['id']] = fterm('fneg', a[1]) if a[0] == 'f' else ('f', Syms.new('fl', None, None))
            return None
        if op == 'icmp':
            a, b = self.operand(s, i['a'][0]), self.operand(s, i['a'][1])
            if a[0] == 'cond' or b[0] == 'cond':
                out = []
                for s1, a1 in (self.asbit(s, a, 1) if a[0] == 'cond' else [(s, a)]):
                    for s2, b1 in (self.asbit(s1, b, 1) if b[0] == 'cond' else [(s1.copy(), b)]):
                        s2.env = dict(s2.env)
                        s2.env[i['id']] = self.icmp(s2, i, a1, b1)
                        out.append(s2)
                return out
            env[i['id']] = self.icmp(s, i, a, b)
            return None
        if op == 'fcmp':
            env[i['id']] = ('i', 1, newsym('fc', 0, 1), 'u')
            return None
        if op in ('zext', 'sext', 'trunc'):
            a = self.operand(s, i['a'][0])
            b2 = i['t']['b']
            if a[0] == 'cond' or (a[0] == 'i' and a[1] == 1 and op != 'trunc'):
                out = []
                if a[0] == 'i' and op == 'zext':
                    env[i['id']] = VI(b2, a[2], 'u')
                    return None
                for s2, v in self.asbit(s, a, b2):
                    s2 = s2 if s2 is not s else s.copy()
                    s2.env = dict(s2.env)
                    if op == 'sext' and v[2] == ONE:
                        v = VI(b2, K((1 << b2) - 1))
                    s2.env[i['id']] = v
                    out.append(s2)
                return out
            if a[0] == 'undef':
                env[i['id']] = UNDEF
                return None
            a = self.as_int(s, a, i['ot']['b'])
            if op == 'trunc':
                if b2 == 1:
                    e = a[2]
                    if not e[1]:
                        env[i['id']] = VI(1, K(e[0] & 1))
                    elif s.ge(ONE, e) and a[3] != 's':
                        env[i['id']] = ('i', 1, e, 'u')
                    else:
                        env[i['id']] = ('i', 1, newsym('b', 0, 1), 'u')
                else:
                    env[i['id']] = self.trunc(s, a, b2)
            elif op == 'zext':
                env[i['id']] = VI(b2, self.toU(s, a), 'b')
            else:
                e = self.toS(s, a)
                env[i['id']] = VI(b2, e, 'b' if s.ge(e, ZERO) else 's')
            return None
        if op in ('ptrtoint',):
            a = self.operand(s, i['a'][0])
            if a[0] == 'p' and a[1] >= 0:
                env[i['id']] = ('i', 64, self.ptr_int(s, a), 'u') if a[1] or a[2][1] or a[2][0] else VI(64, ZERO)
            else:
                env[i['id']] = fresh_i(64)
            return None
        if op == 'inttoptr':
            a = self.operand(s, i['a'][0])
            if a[0] == 'i':
                if a[2] == ZERO:
                    env[i['id']] = NULLP
                    return None
                r = self.region_of_addr(s, a[2])
                if r:
                    env[i['id']] = VP(*r)
                    return None
            env[i['id']] = self.unknown(s, {'k': 'p'})
            return None
        if op in ('fptosi', 'fptoui'):
            env[i['id']] = fresh_i(i['t']['b'], 'fp', 'u')
            return None
        if op in ('sitofp', 'uitofp', 'fpext', 'fptrunc'):
            a = self.operand(s, i['a'][0])
            if op == 'fpext' and a[0] == 'f':
                env[i['id']] = a
            elif a[0] == 'f' or a[0] == 'i' and op in ('sitofp', 'uitofp'):
                env[i['id']] = fterm(op, a[1] if a[0] == 'f' else (self.toU if op == 'uitofp' else self.toS)(s, a), self.tsize(i['t']))
            else:
                env[i['id']] = ('f', Syms.new('fl', None, None))
            return None
        if op == 'bitcast':
            env[i['id']] = self.coerce(s, self.operand(s, i['a'][0]), i['t'], self.tsize(i['t']))
            return None
        if op == 'select':
            c = self.operand(s, i['a'][0])
            out = []
            for s2, tv in self.split(s, c):
                s2 = s2 if s2 is not s else s.copy()
                s2.env = dict(s2.env)
                s2.env[i['id']] = self.operand(s2, i['a'][1] if tv else i['a'][2])
                out.append(s2)
            return out
        if op == 'alloca':
            sz = i['sz']
            cnt = self.operand(s, i['cnt'])
            e = scale(cnt[2], sz) if cnt[0] == 'i' else K(sz)
            if cnt[0] == 'i' and cnt[2][1]:
                self.report('vla', 'stack allocation of run-time size', s, 'vla')
            rid = self.new_region(s, 'stack', e, Base('uninit'), fid=env['#fid'], name=i.get('n') or 'local')
            if i['id'] in fn.scoped:
                s.mem[rid] = s.mem[rid].with_(live=2, content=Base('opaque'))
            env[i['id']] = VP(rid)
            return None
        if op == 'freeze':
            env[i['id']] = self.operand(s, i['a'][0])
            return None
        if op == 'extractvalue':
            a = self.operand(s, i['a'][0])
            env[i['id']] = a[1][i['ix'][0]] if a[0] == 'agg' else self.unknown(s, i['t'])
            return None
        if op == 'insertvalue':
            a = self.operand(s, i['a'][0])
            v = self.operand(s, i['a'][1])
            if a[0] == 'agg':
                l = list(a[1])
                l[i['ix'][0]] = v
                env[i['id']] = ('agg', l)
            else:
                env[i['id']] = self.unknown(s, i['t'])
            return None
        if op == 'call':
            return self.do_call(fn, i, s)
        raise AnalysisError('instruction %s in %s' % (op, fn.name))

    def end_of_life(self, s, rid, where):
        r = s.mem[rid]
        for k in list(s.res):
            if k[0] == rid:
                self.report('vaend', 'va_list initialised here is not ended on this path', s, 'va_end', inst=(where[0], {'l': s.res[k][1], 'fl': where[0].file}))
                del s.res[k]
        s.mem[rid] = r.with_(live=2, content=Base('opaque'))

    def bool_op(self, i, s, a, b):
        op = i['op']
        out = []
        for s1, x in self.split(s, a):
            s1 = s1 if s1 is not s else s.copy()
            for s2, y in self.split(s1, b):
                s2 = s2 if s2 is not s1 else s1.copy()
                r = (x and y) if op == 'and' else (x or y) if op == 'or' else (x != y)
                s2.env = dict(s2.env)
                s2.env[i['id']] = VI(i['t'].get('b', 1), K(1 if r else 0))
                out.append(s2)
        return out

    # ------------------------------------------------------------- calls
    def do_call(self, fn, i, s):
        name = i.get('f')
        args = [self.operand(s, a['v']) for a in i['a']]
        for bv in i.get('byval', ()):
            # by-value aggregate: the callee works on a copy
            v = args[bv['i']]
            st = self.access(s, v, K(bv['s']), 'r')
            if st is None:
                return []
            s = st.copy() if st is s else st
            rid = self.new_region(s, 'stack', K(bv['s']), Base('uninit'), fid=s.env['#fid'], name='byval')
            self.copyrange(s, rid, ZERO, K(bv['s']), v[1], v[2])
            args[bv['i']] = VP(rid)
        if name is None:
            v = self.operand(s, i['fp'])
            if v[0] == 'p' and v[1] > 0 and s.mem[v[1]].kind == 'func':
                name = s.mem[v[1]].attr['fname']
            elif v[0] == 'p' and v[1] == 0:
                self.report('null', 'call through a NULL function pointer', s, 'nullcall')
                return []
            else:
                return self.finish(i, self.models.unknown_call(self, s, i, args, v))
        # split condition arguments
        if any(a[0] == 'cond' for a in args):
            todo = [(s, args)]
            for k in range(len(args)):
                nt = []
                for s1, as_ in todo:
                    if as_[k][0] == 'cond':
                        for s2, v in self.asbit(s1, as_[k], 1):
                            a2 = list(as_)
                            a2[k] = v
                            nt.append((s2, a2))
                    else:
                        nt.append((s1, as_))
                todo = nt
            out = []
            for s1, as_ in todo:
                r = self.finish(i, self.dispatch(name, as_, s1, i))
                out += [s1] if r is None else r
            return out
        return self.finish(i, self.dispatch(name, args, s, i))

    def finish(self, i, res):
        out = []
        for s2, v in res:
            if 'id' in i:
                s2.env = dict(s2.env)
                s2.env[i['id']] = v if v is not None else UNDEF
            out.append(s2)
        return out

    def dispatch(self, name, args, s, i):
        """-> list of (state, value)"""
        bn = basename(name)
        c = self.contracts.get(bn)
        if c is not None:
            res = c(self, s, args, i)
            if res is not None:
                return res
        m = self.models.find(bn)
        if m is not None:
            return m(self, s.copy(), args, i)
        f = self.p.funcs.get(name)
        if f is not None:
            rec = self.contracts.get('#rec')
            if rec is not None and any(g is f for g, _ in self.stack):
                res = rec(self, s, args, i, f)
                if res is not None:
                    return res
            nfix = i.get('nfix', len(args))
            res = self.call_function(f, args[:nfix], s, args[nfix:])
            out = []
            for s2, v in res:
                out.append((s2, v))
            return out
        raise AnalysisError('no model of external function %s' % name)

    # ------------------------------------------------------------- joining
    def relevant_env(self, st, live):
        if live is None:
            return st.env
        return {k: v for k, v in st.env.items() if k in live or isinstance(k, str)}

    def reach(self, st, vals):
        """regions reachable from values (in discovery order)"""
        seen, todo = [], []
        ss = set()

        def push(v):
            if v is None:
                return
            if v[0] == 'p' and v[1] > 0 and v[1] not in ss:
                ss.add(v[1])
                todo.append(v[1])
            elif v[0] == 'agg':
                for x in v[1]:
                    push(x)
            elif v[0] == 'i':
                for t, _ in v[2][1]:
                    for x in t:
                        nm = Syms.name[x]
                        if nm.startswith('&r') and int(nm[2:]) in st.mem:
                            push(VP(int(nm[2:])))
        for v in vals:
            push(v)
        while todo:
            r = todo.pop(0)
            seen.append(r)
            reg = st.mem.get(r)
            if reg is None:
                continue
            self.content_ptrs(st, reg.content, push)
            for k in ('next',):
                if k in reg.attr:
                    push(reg.attr[k])
        return seen

    def content_ptrs(self, st, c, push, depth=0, cover=None):
        """pointers the content may still hold: what later stores at fixed places overwrote is gone"""
        gone = list(cover) if cover else []

        def hidden(o, n):
            return any(a <= o and o + n <= b for a, b in gone)
        while isinstance(c, Entry):
            fixed = not c.off[1] and not c.n[1]
            if not (fixed and hidden(c.off[0], c.n[0])):
                if c.kind == 'st':
                    push(c.val)
                elif c.kind == 'cp' and depth < 6:
                    if c.srcoff[1] or not fixed:
                        self.content_ptrs(st, c.src, push, depth + 1)
                    else:
                        d = c.srcoff[0] - c.off[0]
                        self.content_ptrs(st, c.src, push, depth + 1, [(a + d, b + d) for a, b in gone] + [(-1 << 70, c.srcoff[0]), (c.srcoff[0] + c.n[0], 1 << 70)])
            if fixed and not c.fact and c.kind in ('st', 'cp', 'fill'):
                a, b = c.off[0], c.off[0] + c.n[0]
                for g in list(gone):
                    if g[0] <= b and a <= g[1]:
                        a, b = min(a, g[0]), max(b, g[1])
                        gone.remove(g)
                gone.append((a, b))
            c = c.prev
        for o, n, v in st.memo.get(c.id, ()):
            if not (isinstance(o, tuple) and len(o) == 2 and not o[1] and isinstance(n, int) and hidden(o[0], n)):
                push(v)
        for v in getattr(c, 'ptrs', ()):
            push(v)

    def reduce(self, states, live, limit):
        """prune environments; merge states that differ only in constraints; join beyond limit"""
        out = []
        for s in states:
            if live is not None:
                e = self.relevant_env(s, live)
                if len(e) != len(s.env):
                    s = s.copy()
                    s.env = e
            out.append(s)
        if len(out) == 1:
            return out
        if len(out) <= self.SOFT:
            # few paths: only drop the ones another path covers
            keys = [self.ident(s) for s in out]
            drop = set()
            for i in range(len(out)):
                for j in range(len(out)):
                    if i != j and i not in drop and j not in drop and keys[i] == keys[j] and self.covers(out[j], out[i]):
                        drop.add(i)
            return [s for i, s in enumerate(out) if i not in drop]
        # identical heap and environment: keep the common constraints
        groups = {}
        for s in out:
            key = self.ident(s)
            groups.setdefault(key, []).append(s)
        out = []
        for g in groups.values():
            a = g[0]
            for b in g[1:]:
                a = self.join_cons(a, b)
            out.append(a)
        if len(out) <= limit:
            return out
        # join states with the same shape, most similar first
        shapes = {}
        for s in out:
            shapes.setdefault(self.shape(s), []).append(s)
        total = len(out)
        res = []
        for sh, g in sorted(shapes.items(), key=lambda kv: len(kv[1])):
            quota = max(1, limit // len(shapes))
            while len(g) > quota:
                a = g.pop(0)
                b = g.pop(0)
                g.append(self.join(a, b))
            res += g
        return res

    def covers(self, a, b):
        """every concrete state of b is one of a (same heap and environment)"""
        for k, v in a.memo.items():
            w = b.memo.get(k)
            if not w or any(x not in w for x in v):
                return False
        return all(row in b.cons.rowset or b.cons.prove_row(*row) for row in a.cons.rows)

    def ident(self, s):
        env = tuple(sorted((str(k), repr(v)) for k, v in s.env.items()))
        mem = tuple(sorted((rid, r.live, id(r.content) if not (isinstance(r.content, Entry) and r.content.constonly) else self.cells_key(r.content), repr(r.size)) for rid, r in s.mem.items() if r.kind not in ('func', 'str') and not (r.kind == 'stack' and r.live == 2)))
        made = tuple(sorted((str(k), repr(o)) for k, lst in s.memo.items() for o, n, v in lst if isinstance(v, tuple) and v[0] == 'p' and v[1] > 0))
        return (env, mem, made, tuple(sorted(s.res.items(), key=repr)), tuple(sorted((repr(k), repr(v)) for k, v in s.tags.items())))

    def cells_key(self, c):
        cells = {}
        while isinstance(c, Entry):
            cells.setdefault((c.off, c.n), repr(c.val))
            c = c.prev
        return (c.id, tuple(sorted(cells.items())))

    def shape(self, s):
        def vs(v):
            if v is None:
                return None
            if v[0] == 'p':
                return ('p', v[1])
            if v[0] == 'i':
                if not v[2][1] and v[1] == 1:
                    return ('i', 1, v[2])
                return ('i', v[1])
            if v[0] == 'agg':
                return ('agg', tuple(vs(x) for x in v[1]))
            return v[0]
        keep = self.p.fn(s.env['#fn']).control if '#fn' in s.env else ()
        env = tuple(sorted((str(k), vs(v) if not isinstance(k, str) and k not in keep else repr(v)) for k, v in s.env.items()))
        mem = []
        for rid, r in sorted(s.mem.items()):
            if r.kind in ('func', 'str', 'user0') or (r.kind == 'stack' and r.live == 2):
                continue
            ptrs = []
            c = r.content
            cells = {}
            other = []
            while isinstance(c, Entry):
                if c.kind == 'st' and not c.off[1]:
                    if (c.off[0], c.n[0]) not in cells:
                        cells[(c.off[0], c.n[0])] = vs(c.val)
                else:
                    other.append(id(c))
                c = c.prev
            if r.size == ONE and (0, 1) in cells:
                # a flag the function reports through: paths that set it differently stay apart
                v = self.peek(r.content, (0, 1))
                if v is not None and v[0] == 'i' and not v[2][1]:
                    cells[(0, 1)] = ('p', repr(v))
            mem.append((rid, r.kind, r.live, tuple(sorted((k, v) for k, v in cells.items() if v and v[0] == 'p')), ))
        return (env, tuple(mem), tuple(sorted(s.res.items(), key=repr)), tuple(sorted((repr(k), repr(v)) for k, v in s.tags.items())))

    def combined(self, s, shared):
        """rows that follow by putting an equality into another row, free of a symbol the other side does not know"""
        out = []
        ge = {}
        eqs = []
        for k, e in s.cons.rows:
            if k == EQ:
                eqs.append(e)
            elif k == GE:
                ge[e] = 1
                if neg(e) in ge:
                    eqs.append(e)
        for e in eqs:
            for t, c in e[1]:
                if len(t) != 1 or abs(c) != 1 or t[0] in shared:
                    continue
                x = t[0]
                if sum(x in t2 for t2, _ in e[1]) != 1:
                    continue
                val = scale(sub(e, scale(S(x), c)), -c)
                for k, row in s.cons.rows:
                    if k != NE and row is not e and row != neg(e) and x in syms_of(row):
                        new = subst(row, {x: val})
                        if new[1] and all(y in shared or y < x for y in syms_of(new)):
                            out.append((k, new))
                            if len(out) >= 32:
                                return out
        return out

    def join_rows(self, a, b, cons):
        sa = {x for k, e in a.cons.rows for x in syms_of(e)}
        sb = {x for k, e in b.cons.rows for x in syms_of(e)}
        shared = sa & sb
        for p, q in ((a, b), (b, a)):
            for row in self.combined(p, shared):
                if row not in cons.rowset and q.cons.prove_row(*row):
                    cons.addrow(*row)

    def join_cons(self, a, b):
        r = a.copy()
        r.cons = Cons()
        for row in a.cons.rows:
            if row in b.cons.rowset or b.cons.prove_row(*row):
                r.cons.addrow(*row)
        for row in b.cons.rows:
            if row not in a.cons.rowset and a.cons.prove_row(*row):
                r.cons.addrow(*row)
        self.join_rows(a, b, r.cons)
        memo = {}
        for k, v in a.memo.items():
            w = b.memo.get(k)
            if w:
                m = tuple(x for x in v if x in w)
                if m:
                    memo[k] = m
        r.memo = memo
        r.fixed = {k: v for k, v in a.fixed.items() if b.fixed.get(k) == v}
        r.trail = a.trail[:0] + ('(join)',) + a.trail[-3:]
        return r

    def join(self, a, b):
        """join of two states with the same shape"""
        slots = []   # (fresh sym expr, ea, eb)
        ends = []
        sa, sb = a.copy(), b.copy()
        r = a.copy()
        tab = {}

        def jv(x, y):
            if x == y:
                return x
            if x is None or y is None:
                return UNDEF
            if x[0] == 'i' and y[0] == 'i' and x[1] == y[1]:
                sg = x[3] if x[3] == y[3] else None
                if sg is None:
                    if 's' in (x[3], y[3]) and 'u' in (x[3], y[3]):
                        ex, ey = self.toU(sa, x), self.toU(sb, y)
                        sg = 'u'
                    else:
                        ex, ey = x[2], y[2]
                        sg = 's' if 's' in (x[3], y[3]) else 'u'
                else:
                    ex, ey = x[2], y[2]
                k = (ex, ey, x[1], sg)
                if k not in tab:
                    v = fresh_i(x[1], 'j', sg)
                    tab[k] = v
                    slots.append((v[2], ex, ey))
                return tab[k]
            if x[0] == 'p' and y[0] == 'p' and x[1] == y[1]:
                k = (x[2], y[2], 'p')
                if k not in tab:
                    v = newsym('jo', -(1 << 62), 1 << 62)
                    tab[k] = v
                    slots.append((v, x[2], y[2]))
                    reg = sa.mem.get(x[1])
                    if reg is not None:
                        inner = reg.content
                        while isinstance(inner, Entry):
                            inner = inner.prev
                        for lim in (reg.size, getattr(inner, 'len', None)):
                            if isinstance(lim, tuple):
                                ends.append((GE, sub(lim, v)))
                return VP(x[1], tab[k])
            if x[0] == 'f' and y[0] == 'f':
                return ('f', Syms.new('fl', None, None))
            if x[0] == 'agg' and y[0] == 'agg':
                return ('agg', [jv(p, q) for p, q in zip(x[1], y[1])])
            if x[0] in ('i', 'cond') and y[0] in ('i', 'cond'):
                return ('i', 1, newsym('b', 0, 1), 'u')
            return UNDEF
        r.env = {}
        for k in a.env:
            if k in b.env:
                x, y = a.env[k], b.env[k]
                r.env[k] = x if isinstance(k, str) and k != '#ret' else jv(x, y)
        r.mem = {}
        for rid in a.mem:
            if rid not in b.mem:
                continue
            x, y = a.mem[rid], b.mem[rid]
            c = self.join_content(x.content, y.content, jv)
            live = x.live if x.live == y.live else 0
            size = x.size
            if x.size != y.size and x.size is not None and y.size is not None:
                size = jv(('i', 64, x.size, 'u'), ('i', 64, y.size, 'u'))[2]
            r.mem[rid] = x.with_(content=c, live=live, size=size)
        rest = [rid for rid in list(a.mem) + list(b.mem) if rid not in r.mem]
        for rid in rest:
            src = a if rid in a.mem else b
            r.mem[rid] = src.mem[rid]
        base_ = Cons()
        for row in a.cons.rows:
            if row in b.cons.rowset or b.cons.prove_row(*row):
                base_.addrow(*row)
        for row in b.cons.rows:
            if row not in a.cons.rowset and a.cons.prove_row(*row):
                base_.addrow(*row)
        self.join_rows(sa, sb, base_)
        r.cons = base_
        cands = ends + self.slot_candidates(sa, sb, slots)
        ma = {next(iter(syms_of(v))): ea for v, ea, eb in slots}
        mb = {next(iter(syms_of(v))): eb for v, ea, eb in slots}
        for k, e in cands:
            if sa.cons.prove_row(k, subst(e, ma)) and sb.cons.prove_row(k, subst(e, mb)):
                r.cons.addrow(k, e)
        memo = {}
        for k, v in a.memo.items():
            w = b.memo.get(k)
            if w:
                m = tuple(x for x in v if x in w)
                if m:
                    memo[k] = m
        r.memo = memo
        r.fixed = {k: v for k, v in a.fixed.items() if b.fixed.get(k) == v}
        r.trail = ('(join)',) + a.trail[-3:]
        return r

    def join_content(self, x, y, jv):
        if x is y:
            return x
        bx, by = content_base(x), content_base(y)
        # common suffix
        chain = set()
        c = x
        while True:
            chain.add(id(c))
            if not isinstance(c, Entry):
                break
            c = c.prev
        c = y
        while isinstance(c, Entry) and id(c) not in chain:
            c = c.prev
        if id(c) in chain:
            common = c
        else:
            common = None

        def cells(c, stop):
            d = {}
            dirty = False
            while isinstance(c, Entry) and c is not stop:
                if c.kind == 'st' and not c.off[1]:
                    d.setdefault((c.off[0], c.n[0]), c.val)
                else:
                    dirty = True
                c = c.prev
            return d, dirty
        dx, ux = cells(x, common)
        dy, uy = cells(y, common)
        if common is None:
            if not (isinstance(bx, Base) and isinstance(by, Base) and bx.kind == by.kind and bx.kind in ('zero', 'uninit')):
                common = Base('opaque')
                # only the cells both sides know survive
                if ux or uy:
                    return common
                r = common
                for k in dx:
                    if k in dy:
                        r = Entry('st', K(k[0]), K(k[1]), jv(dx[k], dy[k]), r)
                return r
            common = bx
        if ux or uy:
            # what either side wrote since is unknown
            ents = []
            for c in (x, y):
                while isinstance(c, Entry) and c is not common:
                    ents.append((c.off, c.n))
                    c = c.prev
            if len(ents) > 8:
                return Base('opaque')
            r = common
            for o, n in dict.fromkeys(ents):
                r = Entry('fill', o, n, None, r)
            return r
        r = common
        keys = set(dx) | set(dy)
        for k in sorted(keys):
            if k in dx and k in dy:
                r = Entry('st', K(k[0]), K(k[1]), jv(dx[k], dy[k]), r)
            else:
                # one side kept the older content
                side = dx if k in dx else dy
                old = self.peek(common, k)
                if old is not None:
                    a, b = (side[k], old) if k in dx else (old, side[k])
                    r = Entry('st', K(k[0]), K(k[1]), jv(a, b), r)
                else:
                    r = Entry('fill', K(k[0]), K(k[1]), None, r)
        return r

    def peek(self, c, k):
        while isinstance(c, Entry):
            if c.kind == 'st' and not c.off[1]:
                if (c.off[0], c.n[0]) == k:
                    return c.val
                if c.off[0] < k[0] + k[1] and k[0] < c.off[0] + c.n[0]:
                    return None
            else:
                return None
            c = c.prev
        return None

    def slot_candidates(self, sa, sb, slots):
        cands = []
        seen = set()

        def put(k, e):
            if e[1] and (k, e) not in seen:
                seen.add((k, e))
                cands.append((k, e))
        for v, ea, eb in slots:
            for e in (ea, eb):
                put(GE, sub(v, e))
                put(GE, sub(e, v))
            put(GE, v)
            put(GE, addc(v, -1))
            # bounds of either side through the constraint rows that mention it
            for s, e in ((sa, ea), (sb, eb)):
                ss = syms_of(e)
                n = 0
                for k, row in s.cons.rows:
                    if k == NE or not (syms_of(row) & ss):
                        continue
                    if len(e[1]) == 1 and len(e[1][0][0]) == 1 and abs(e[1][0][1]) == 1:
                        # e = +-x + c  ->  x = +-(v - c)
                        x = e[1][0][0][0]
                        sgn = e[1][0][1]
                        put(k, subst(row, {x: scale(addc(v, -e[0]), sgn)}))
                        n += 1
                    if n > 20:
                        break
        for a in range(len(slots)):
            for b in range(a + 1, len(slots)):
                va, ea1, ea2 = slots[a]
                vb, eb1, eb2 = slots[b]
                d1, d2 = sub(ea1, eb1), sub(ea2, eb2)
                for d in (d1, d2):
                    if len(d[1]) <= 2:
                        put(GE, sub(sub(va, vb), d))
                        put(GE, sub(d, sub(va, vb)))
        return cands[:200]

    # ------------------------------------------------------------- loops
    def exec_loop(self, fn, l, ins):
        """-> (exits {target: [states]}, rets)"""
        exits, rets = {}, []
        if self.STEPWISE and fn.file.endswith(self.STEPWISE):
            saved_reports = dict(self.reports)
            cur = ins
            seen = set()
            for it in range(48):
                backs, ex = self.exec_scope(fn, l['h'], [c.copy() for c in cur], l, rets)
                for t, lst in ex.items():
                    exits.setdefault(t, []).extend(lst)
                if not backs:
                    return exits, rets
                cur = []
                for b in self.reduce(backs, fn.live[l['h']], self.SOFT):
                    # a round that changes nothing is followed by another one
                    k = self.ident(b)
                    if k in seen:
                        self.report('hang', 'a loop goes round for ever', b, 'hang', (fn, fn.blocks[l['h']][-1]))
                    else:
                        cur.append(b)
                    seen.add(k)
                if not cur:
                    return exits, rets
            self.reports.clear(); self.reports.update(saved_reports)
            exits, rets = {}, []
        for s in ins:
            r = self.try_unroll(fn, l, s)
            if r is None and self.PEEL:
                # first round on its own
                backs, ex = self.exec_scope(fn, l['h'], [s.copy()], l, rets)
                for t, lst in ex.items():
                    exits.setdefault(t, []).extend(lst)
                for s2 in self.reduce(backs, fn.live[l['h']], self.SOFT):
                    ex, rr = self.loop_invariant(fn, l, s2)
                    for t, lst in ex.items():
                        exits.setdefault(t, []).extend(lst)
                    rets += rr
                continue
            if r is None:
                r = self.loop_invariant(fn, l, s)
            ex, rr = r
            for t, lst in ex.items():
                exits.setdefault(t, []).extend(lst)
            rets += rr
        for t in exits:
            if len(exits[t]) > self.MAXSTATES:
                exits[t] = self.reduce(exits[t], fn.live[t] if t in fn.live else None, self.MAXSTATES)
        return exits, rets

    def try_unroll(self, fn, l, s):
        term = fn.blocks[l['h']][-1]
        # only loops whose header test is decided every time round
        hdr_exits = [t for t in fn.succs(l['h']) if t not in l['b']]
        chained = not hdr_exits and term['op'] == 'br'
        if term['op'] != 'br':
            return None
        key = ('nounroll', fn.name, l['h'])
        if self.loopinfo.get(key, 0) >= 2:
            return None
        saved_reports = dict(self.reports)
        saved_sites = set(self.sites)
        cur = [s]
        exits, rets = {}, []
        seen = []
        for it in range(self.UNROLL):
            if it >= 5 and len(cur) > 64:
                break
            # probe the header only
            if chained:
                # the test is spread over several blocks: a state either goes round or leaves
                backs, here = [], []
                counts = [i['id'] for i in fn.blocks[l['h']] if i['op'] == 'phi']
                for c in cur:
                    # a counter with a known value decides the first part of the test
                    now = tuple(c.env[x][2][0] if x in c.env and c.env[x][0] == 'i' and not c.env[x][2][1] else None for x in counts)
                    hdr = {tgt for tgt, s2 in self.exec_block(fn, l['h'], c.copy(), [])} if any(x is not None for x in now) else ()
                    counting = len(hdr) == 1 and (not it or any(x is not None and all(x != o[k] for o in seen) for k, x in enumerate(now)))
                    bk, ex = self.exec_scope(fn, l['h'], [c.copy()], l, rets)
                    here.append(now)
                    if bk and ex and not counting:
                        self.loopinfo[key] = self.loopinfo.get(key, 0) + 1
                        self.reports.clear(); self.reports.update(saved_reports)
                        return None
                    backs += bk
                    for t, lst in ex.items():
                        exits.setdefault(t, []).extend(lst)
                seen += here
                if not backs:
                    return exits, rets
                cur = self.reduce(backs, fn.live[l['h']], self.SOFT)
                continue
            for c in cur:
                hdr = []
                for tgt, s2 in self.exec_block(fn, l['h'], c.copy(), []):
                    hdr.append(tgt)
                if len(set(hdr)) > 1:
                    self.loopinfo[key] = self.loopinfo.get(key, 0) + 1
                    self.reports.clear(); self.reports.update(saved_reports)
                    return None
            backs, ex = self.exec_scope(fn, l['h'], [c.copy() for c in cur], l, rets)
            for t, lst in ex.items():
                exits.setdefault(t, []).extend(lst)
            if not backs:
                return exits, rets
            cur = self.reduce(backs, fn.live[l['h']], self.SOFT)
        self.loopinfo[key] = self.loopinfo.get(key, 0) + 1
        self.reports.clear(); self.reports.update(saved_reports)
        return None

    def loop_invariant(self, fn, l, s0):
        import loops
        saved_reports = dict(self.reports)
        try:
            return loops.solve(self, fn, l, s0)
        except loops.EventLoop:
            self.reports.clear(); self.reports.update(saved_reports)
        # the specification follows what happens in every round
        exits, rets, cur = {}, [], [s0]
        for it in range(self.UNROLL):
            backs, ex = self.exec_scope(fn, l['h'], [c.copy() for c in cur], l, rets)
            for t, lst in ex.items():
                exits.setdefault(t, []).extend(lst)
            if not backs:
                return exits, rets
            cur = self.reduce(backs, fn.live[l['h']], self.SOFT)
        raise AnalysisError('loop in %s: still going round after %d rounds' % (fn.name, self.UNROLL))
