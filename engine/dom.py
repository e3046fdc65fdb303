"""Relational numeric domain: conjunctions of linear constraints (polyhedra) over integer
symbols and products of symbols.  Expressions are tuples (c, ((term, coef), ...)) where a term
is a sorted tuple of symbol ids (length 1: the symbol, length 2+: a product)."""
import ctypes, os
import math
from array import array

M64 = (1 << 64) - 1
PTRDIFF = (1 << 63) - 1
_lib = None


def load_lp(path):
    global _lib
    _lib = ctypes.CDLL(path)
    _lib.lp_feasible.restype = ctypes.c_int
    _lib.lp_feasible.argtypes = [ctypes.c_void_p, ctypes.c_int]


# ---------------------------------------------------------------- symbols
class Syms:
    lb = [0]
    ub = [0]
    name = ['_']
    isint = [False]

    @classmethod
    def new(cls, name, lb, ub, isint=False):
        cls.lb.append(lb)
        cls.ub.append(ub)
        cls.name.append(name)
        cls.isint.append(isint)
        return len(cls.lb) - 1


FTERM = {}
FTERMS = {}


def fterm(*t):
    """a floating-point term, hash-consed: equal terms are equal values"""
    r = FTERMS.get(t)
    if r is None:
        r = FTERMS[t] = Syms.new('fl', None, None)
        FTERM[r] = t
    return ('f', r)


def K(c):
    return (c, ())


ZERO = (0, ())
ONE = (1, ())


def S(sym):
    return (0, (((sym,), 1),))


def newsym(name, lb, ub, isint=False):
    return S(Syms.new(name, lb, ub, isint))


def add(a, b):
    if not b[1]:
        return (a[0] + b[0], a[1])
    if not a[1]:
        return (a[0] + b[0], b[1])
    d = dict(a[1])
    for t, k in b[1]:
        v = d.get(t, 0) + k
        if v:
            d[t] = v
        else:
            del d[t]
    return (a[0] + b[0], tuple(sorted(d.items())))


def scale(a, k):
    if k == 0:
        return ZERO
    if k == 1:
        return a
    return (a[0] * k, tuple((t, c * k) for t, c in a[1]))


def neg(a):
    return scale(a, -1)


def sub(a, b):
    return add(a, scale(b, -1))


def addc(a, k):
    return (a[0] + k, a[1])


def mul(a, b):
    if not a[1]:
        return scale(b, a[0])
    if not b[1]:
        return scale(a, b[0])
    d = {}
    c = a[0] * b[0]
    for t, k in a[1]:
        if b[0]:
            d[t] = d.get(t, 0) + k * b[0]
        for u, m in b[1]:
            x = tuple(sorted(t + u))
            d[x] = d.get(x, 0) + k * m
    for u, m in b[1]:
        if a[0]:
            d[u] = d.get(u, 0) + m * a[0]
    return (c, tuple(sorted((t, k) for t, k in d.items() if k)))


def isconst(a):
    return not a[1]


def syms_of(a):
    s = set()
    for t, _ in a[1]:
        s.update(t)
    return s


def subst(a, m):
    """replace symbols per m: sym -> expr"""
    if not any(x in m for t, _ in a[1] for x in t):
        return a
    r = K(a[0])
    for t, k in a[1]:
        e = K(k)
        for x in t:
            e = mul(e, m.get(x) or S(x))
        r = add(r, e)
    return r


def show(a):
    out = []
    for t, k in a[1]:
        n = '*'.join('%s#%d' % (Syms.name[x], x) for x in t)
        out.append(n if k == 1 else '-' + n if k == -1 else '%d*%s' % (k, n))
    c = a[0]
    if c or not out:
        cs = str(c)
        for nm, v in (('2^64', 1 << 64), ('2^63', 1 << 63), ('2^32', 1 << 32)):
            if abs(abs(c) - v) < 64 and c:
                d = abs(c) - v
                cs = ('-' if c < 0 else '') + '(' + nm + ('%+d' % d if d else '') + ')'
        out.append(cs)
    return ' + '.join(out)


def term_bounds(t):
    lo, hi = 1, 1
    for x in t:
        l, h = Syms.lb[x], Syms.ub[x]
        if l is None or h is None or l < 0:
            return None, None
        lo *= l
        hi *= h
    return lo, hi


def interval(a):
    lo = hi = a[0]
    for t, k in a[1]:
        if len(t) == 1:
            l, h = Syms.lb[t[0]], Syms.ub[t[0]]
        else:
            l, h = term_bounds(t)
        if k > 0:
            lo = None if lo is None or l is None else lo + k * l
            hi = None if hi is None or h is None else hi + k * h
        else:
            lo = None if lo is None or h is None else lo + k * h
            hi = None if hi is None or l is None else hi + k * l
    return lo, hi


GE, EQ, NE = 0, 1, 2
_I64 = 1 << 100
stats = {'lp': 0, 'hit': 0, 'calls': 0}
_cache = {}


def lp(rows, maxn=60):
    """rows: list of (kind, expr). returns True if infeasible (proved)."""
    for kind, e in rows:
        if not e[1]:
            c = e[0]
            if (kind == GE and c < 0) or (kind == EQ and c != 0) or (kind == NE and c == 0):
                return True
    rows = [r for r in rows if r[1][1]]
    for i, (kind, e) in enumerate(rows):
        t = tight(kind, e)
        if t is not e:
            if not t[1] and kind == EQ:
                return True
            rows[i] = (kind, t)
    key = frozenset(rows)
    r = _cache.get(key)
    if r is not None:
        stats['hit'] += 1
        return r
    stats['lp'] += 1
    if ne_contradicts(rows):
        _cache[key] = True
        return True
    cols = {}
    nl = []
    for _, e in rows:
        for t, _k in e[1]:
            if t not in cols:
                cols[t] = len(cols)
                if len(t) > 1:
                    nl.append(t)
    extra = []
    if nl:
        extra = product_lemmas(rows, nl)
        for _, e in extra:
            for t, _k in e[1]:
                if t not in cols:
                    cols[t] = len(cols)
    allrows = rows + extra
    buf = [len(cols), 0]
    for t in cols:
        if len(t) == 1:
            l, h, ii = Syms.lb[t[0]], Syms.ub[t[0]], Syms.isint[t[0]]
        else:
            l, h = term_bounds(t)
            ii = False
        if h is not None and h >= (1 << 100):
            h = None
        for v in (l, h):
            if v is None:
                buf.append(0)
            else:
                buf.append(1)
                buf.append(v >> 64)
                lo = v & M64
                buf.append(lo - (1 << 64) if lo >= (1 << 63) else lo)
        buf.append(1 if ii else 0)
    m = 0
    for kind, e in allrows:
        bad = False
        for t, k in e[1]:
            if abs(k) >= _I64:
                bad = True
        if bad or abs(e[0]) >= (1 << 120):
            continue
        m += 1
        buf.append(kind)
        v = e[0]
        buf.append(v >> 64)
        lo = v & M64
        buf.append(lo - (1 << 64) if lo >= (1 << 63) else lo)
        buf.append(len(e[1]))
        for t, k in e[1]:
            buf.append(cols[t])
            buf.append(k >> 64)
            lo = k & M64
            buf.append(lo - (1 << 64) if lo >= (1 << 63) else lo)
    buf[1] = m
    a = array('q', buf)
    addr, _n = a.buffer_info()
    res = _lib.lp_feasible(addr, maxn) == 0
    if len(_cache) > 400000:
        _cache.clear()
    _cache[key] = res
    return res


def tight(kind, e):
    """divides a row by the common factor of its coefficients (all symbols are integers)"""
    if not e[1] or abs(e[1][0][1]) == 1:
        return e
    g = 0
    for t, k in e[1]:
        g = math.gcd(g, k)
        if g == 1:
            return e
    if kind == GE:
        return (e[0] // g, tuple((t, k // g) for t, k in e[1]))
    if e[0] % g == 0:
        return (e[0] // g, tuple((t, k // g) for t, k in e[1]))
    return FALSE_EQ if kind == EQ else ONE


FALSE_EQ = (1, ())


def ne_contradicts(rows):
    """an equality makes the two sides of a disequality the same"""
    nes = [e for k, e in rows if k == NE]
    if not nes:
        return False
    eqs = [e for k, e in rows if k == EQ]
    if not eqs:
        return False
    while eqs:
        e = eqs.pop()
        if not e[1]:
            continue
        for t, c in e[1]:
            if abs(c) == 1:
                rest = (e[0], tuple(x for x in e[1] if x[0] != t))
                val = scale(rest, -c)
                break
        else:
            continue

        def ap(x):
            co = dict(x[1]).get(t)
            return add((x[0], tuple(y for y in x[1] if y[0] != t)), scale(val, co)) if co else x
        eqs = [ap(x) for x in eqs]
        nes = [ap(x) for x in nes]
        if any(not x[1] and x[0] == 0 for x in nes):
            return True
    return False


def product_lemmas(rows, nl):
    out = []
    seen = set()
    pairs = {}
    for t in nl:
        if len(t) > 2:
            # treat (a, b, c) as pairs (a)(bc) only through bounds
            continue
        a, b = t
        pairs.setdefault(a, set()).add(b)
        pairs.setdefault(b, set()).add(a)
    nlset = set(nl)
    lin = [(k, e) for k, e in rows if k in (GE, EQ) and all(len(t) == 1 for t, _ in e[1])]
    for f, partners in pairs.items():
        lf = Syms.lb[f]
        if lf is None or lf < 0:
            continue
        for p in partners:
            # (p - lb_p) * (f - lb_f) >= 0
            lp_ = Syms.lb[p]
            if lp_ is not None:
                e = mul(addc(S(p), -lp_), addc(S(f), -lf))
                if (GE, e) not in seen:
                    seen.add((GE, e))
                    out.append((GE, e))
        n = 0
        # close partners over the linear rows once
        group = set(partners)
        for k, e in lin:
            ss = syms_of(e)
            if f in ss and len(ss) > 1:
                pass
            if ss & group and len(ss) <= 5:
                group |= {x for x in ss if x != f}
        near = [(k, e) for k, e in lin if syms_of(e) <= partners]
        for k, e in near + lin:
            ss = syms_of(e)
            if not (ss & group) or len(ss) > 5:
                continue
            p = mul(e, S(f))
            if any(len(t) > 2 for t, _ in p[1]):
                continue
            if (k, p) in seen:
                continue
            seen.add((k, p))
            out.append((k, p))
            n += 1
            if n > 40:
                break
    # products of two rows, when every product they contain is one already present
    allp = set(pairs)
    two = [e for k, e in lin if k == GE and 2 <= len(e[1]) <= 3 and syms_of(e) <= allp][:14]
    for i in range(len(two)):
        for j in range(i + 1, len(two)):
            p = mul(two[i], two[j])
            if all(len(t) == 1 or t in nlset for t, _ in p[1]) and (GE, p) not in seen:
                seen.add((GE, p))
                out.append((GE, p))
    return out


class Cons:
    """Immutable-ish constraint store: list of rows."""
    __slots__ = ('rows', 'rowset')

    def __init__(self, rows=(), rowset=None):
        self.rows = list(rows)
        self.rowset = set(self.rows) if rowset is None else rowset

    def copy(self):
        return Cons(self.rows, set(self.rowset))

    def addrow(self, kind, e):
        if kind == NE or kind == EQ:
            if e[1] and e[1][0][1] < 0:
                e = neg(e)
        r = (kind, e)
        if r in self.rowset:
            return
        self.rowset.add(r)
        self.rows.append(r)

    def cone(self, seed):
        """rows connected with the symbols in seed"""
        todo = set(seed)
        out = []
        left = [(r, syms_of(r[1])) for r in self.rows]
        changed = True
        while changed:
            changed = False
            nl = []
            for r, ss in left:
                if ss & todo:
                    out.append(r)
                    if not ss <= todo:
                        todo |= ss
                        changed = True
                else:
                    nl.append((r, ss))
            left = nl
        return out

    def infeasible_with(self, extra, maxn=60):
        seed = set()
        for _, e in extra:
            seed |= syms_of(e)
        return lp(self.cone(seed) + list(extra), maxn)

    def prove_ge(self, e):
        """e >= 0 ?"""
        stats['calls'] += 1
        if not e[1]:
            return e[0] >= 0
        lo, _ = interval(e)
        if lo is not None and lo >= 0:
            return True
        if (GE, e) in self.rowset:
            return True
        return self.infeasible_with([(GE, addc(neg(e), -1))])

    def prove_eq(self, a, b):
        d = sub(a, b)
        if not d[1]:
            return d[0] == 0
        return self.prove_ge(d) and self.prove_ge(neg(d))

    def prove_ne(self, a, b):
        d = sub(a, b)
        if not d[1]:
            return d[0] != 0
        lo, hi = interval(d)
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            return True
        return self.infeasible_with([(EQ, d)])

    def prove_row(self, kind, e):
        if kind == GE:
            return self.prove_ge(e)
        if kind == EQ:
            return self.prove_eq(e, ZERO)
        return self.prove_ne(e, ZERO)


def fm_project(rows, keep, limit=60):
    """Fourier-Motzkin projection of (GE/EQ, linear) rows on the symbols in keep (bounds of the
    eliminated symbols included).  Rows are dropped when the number grows too large (sound)."""
    rs = []
    elim = set()
    for k, e in rows:
        if k == NE:
            continue
        if any(len(t) > 1 for t, _ in e[1]):
            # treat product terms whose symbols are all kept as atoms
            pass
        rs.append((k, e))
        for t, _ in e[1]:
            if not set(t) <= keep:
                elim.add(t)
    for t in elim:
        if len(t) == 1:
            l, h = Syms.lb[t[0]], Syms.ub[t[0]]
            if l is not None and l >= -(1 << 40):
                rs.append((GE, (-l, ((t, 1),))))
            if h is not None and h <= (1 << 40):
                rs.append((GE, (h, ((t, -1),))))
    # equalities first
    for _round in range(len(elim) + 1):
        if not elim:
            break
        # pick an equality with unit coefficient
        pick = None
        for k, e in rs:
            if k == EQ:
                for t, c in e[1]:
                    if t in elim and abs(c) == 1:
                        pick = (k, e, t, c)
                        break
            if pick:
                break
        if pick:
            k, e, t, c = pick
            # t = -(e - c t)/c
            rest = (e[0], tuple(x for x in e[1] if x[0] != t))
            val = scale(rest, -c)  # c is +-1
            nrs = []
            for k2, e2 in rs:
                if (k2, e2) == (k, e):
                    continue
                co = dict(e2[1]).get(t)
                if co:
                    e2 = add((e2[0], tuple(x for x in e2[1] if x[0] != t)), scale(val, co))
                nrs.append((k2, e2))
            rs = nrs
            elim.discard(t)
            continue
        # inequality elimination with the fewest products
        best = None
        for t in elim:
            p = sum(1 for k, e in rs for u, c in e[1] if u == t and (c > 0 or k == EQ))
            n = sum(1 for k, e in rs for u, c in e[1] if u == t and (c < 0 or k == EQ))
            if best is None or p * n < best[0]:
                best = (p * n, t)
        t = best[1]
        pos, ng, oth = [], [], []
        for k, e in rs:
            c = dict(e[1]).get(t)
            if not c:
                oth.append((k, e))
            elif k == EQ:
                for ee in (e, neg(e)):
                    (pos if dict(ee[1])[t] > 0 else ng).append(ee)
            else:
                (pos if c > 0 else ng).append(e)
        new = set(oth)
        if len(pos) * len(ng) <= limit:
            for p in pos:
                cp = dict(p[1])[t]
                for n in ng:
                    cn = -dict(n[1])[t]
                    e = add(scale(p, cn), scale(n, cp))
                    if e[1]:
                        g = 0
                        import math
                        for _, c in e[1]:
                            g = math.gcd(g, c)
                        if g > 1:
                            e = (e[0] // g, tuple((u, c // g) for u, c in e[1]))
                        lo, _h = interval(e)
                        if lo is None or lo < 0:
                            new.add((GE, e))
        rs = list(new)
        if len(rs) > limit * 3:
            rs = sorted(rs, key=lambda r: len(r[1][1]))[:limit * 2]
        elim.discard(t)
    return [(k, e) for k, e in rs if e[1] and all(set(t) <= keep for t, _ in e[1])]
