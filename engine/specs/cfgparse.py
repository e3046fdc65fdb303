"""Reading config documents.  A document is given token by token: the texts and numbers in it are arbitrary
(one character stands for each, the scanners are replaced by what L01 proves of them), everything between
them (keywords, brackets, separators, comments) is spelt out.  What is put into which section, under which
key, with which type and value, is followed and compared with the entries written in the document."""
import re
from spec import *
from interp import content_base, fterm
from models import m_free, strlen_of
from specs.cfg import key_bytes, TYPES, tagof, VAR, add_log, log, CONV

SPECS = {}
MODULE = 'cfgparse'
SLOTS = 16
PUT = 'puts a value in'


class T:
    """a token: a text (of some kind) or a number"""

    def __init__(self, what, kind='plain', text=None, err=0, dot=False):
        self.what, self.kind, self.text, self.err, self.dot = what, kind, text, err, dot
        self.id = None


def S(kind='plain', text=None, **kw):
    return T('str', kind, text, **kw)


def N(kind='int', **kw):
    return T('num', kind, **kw)


# ------------------------------------------------------------------ what a document holds (the reference)
class Stop(Exception):
    pass


class Reader:
    def __init__(self, items, filename=None):
        self.x = []
        for it in items:
            if isinstance(it, str):
                self.x += list(it)
            else:
                self.x.append(it)
        self.file = filename
        self.g = dict(iota=0, enum=0)
        self.i = 0

    def text(self):
        return bytes(ord(c) if isinstance(c, str) else ord('"' if c.what == 'str' else '.' if c.dot else '7') for c in self.x)

    def cur(self):
        return self.x[self.i] if self.i < len(self.x) else ''

    def at(self, w):
        return all(self.i + k < len(self.x) and self.x[self.i + k] == c for k, c in enumerate(w))

    def skip(self):
        while True:
            c = self.cur()
            if c in (' ', '\t', '\n', '\r', ':', ','):
                self.i += 1
            elif c == '#' or self.at('//'):
                while self.cur() not in ('', '\n'):
                    self.i += 1
            elif self.at('/*'):
                self.i += 2
                while self.cur() != '' and not self.at('*/'):
                    self.i += 1
                self.i += 2 * (self.cur() != '')
            else:
                return

    def parts(self, t, loc):
        """the text a key or value token stands for, as pieces"""
        if t.text is None:
            return (('tok', t.id),) if t.kind != 'empty' else ()
        b = t.text
        for w, c in (('enum', loc), ('ENUM', self.g)) if t.key else ():
            m = ('<%s>' % w).encode()
            if m in b:
                b = b.replace(m, str(c['enum']).encode())
                c['enum'] += 1
        now = (loc['iota'], self.g['iota'], loc['enum'], self.g['enum'])
        m = re.search(rb'<math([^>]*)>', b)
        if m:
            return tidy((b[:m.start()], ('math', m.group(1)) + now, b[m.end():]))
        m = None if t.key else re.search(rb'<math(.*)', b)
        return tidy((b[:m.start()], ('math', m.group(1)) + now)) if m else (b,)

    def number(self):
        pre = b''
        if self.cur() in ('-', '+'):
            pre = self.cur().encode()
            self.i += 1
        t = self.cur()
        if not isinstance(t, T) or t.what != 'num' or t.err:
            raise Stop()
        self.i += 1
        return tidy((pre, ('tok', t.id))), t

    def value(self, out, loc):
        key = self.cur()
        if not isinstance(key, T) or key.what != 'str':
            raise Stop()
        key.key = True
        self.i += 1
        if key.err or key.kind == 'empty' or key.kind == 'dup' or (key.text,) in [e[0] for e in out]:
            raise Stop()
        self.skip()
        if key.kind == 'include':
            v = self.cur()
            if not isinstance(v, T) or v.what != 'str':
                raise Stop()
            v.key = False
            self.i += 1
            if v.err:
                raise Stop()
            if v.kind not in ('absent', 'empty'):
                if self.parts(v, loc) in [e[0] for e in out]:
                    raise Stop()
                out.append((self.parts(v, loc), 'Map', ('file', v.id)))
            self.skip()
            return
        name = self.parts(key, loc)
        twice = name in [e[0] for e in out]

        def put(kind, v):
            if not twice:
                out.append((name, kind, v))
        c = self.cur()
        if c == '{':
            self.i += 1
            new = []
            put('Map', new)
            inner = dict(iota=0, enum=0)
            self.skip()
            while self.cur() not in ('', '}'):
                self.value(new, inner)
            if self.cur() == '':
                raise Stop()
            self.i += 1
        elif isinstance(c, T) and c.what == 'str':
            c.key = False
            self.i += 1
            if c.err:
                raise Stop()
            put('String', self.parts(c, loc))
        elif c in ('c', 'v'):
            self.i += 1
            self.skip()
            if self.cur() != '[':
                raise Stop()
            self.i += 1
            self.skip()
            vals = []
            while self.cur() not in ('', ']'):
                vals.append(self.number()[0])
                self.skip()
            if self.cur() == '':
                raise Stop()
            self.i += 1
            put('Color' if c == 'c' else 'Vec4D', tuple(vals[:4]))
        elif self.at('true') or self.at('false'):
            put('Bool', int(c == 't'))
            self.i += 4 + (c == 'f')
        elif self.at('null'):
            put('Null', None)
            self.i += 4
        elif self.at('IOTA') or self.at('iota'):
            k = self.g if c == 'I' else loc
            put('Int', k['iota'])
            k['iota'] += 1
            self.i += 4
        elif self.at('<file>') or self.at('<FILE>'):
            put('String', (('name',),) if self.file else (b'C-string-cfg',))
            self.i += 6
        elif c in ('-', '+', '.') or isinstance(c, T) and c.what == 'num':
            n, t = self.number()
            put('Float' if t.kind == 'float' else 'Int', n)
        else:
            raise Stop()
        self.skip()
        if twice:
            raise Stop()

    def name(self):
        for k, c in enumerate(self.x):
            if isinstance(c, T):
                c.id = k
                c.key = False

    def run(self):
        out = []
        loc = dict(iota=0, enum=0)
        try:
            while True:
                self.skip()
                if self.cur() == '':
                    return out
                self.value(out, loc)
        except Stop:
            return out


def tidy(ps):
    return tuple(p for p in ps if p != b'')


# ------------------------------------------------------------------ texts the parser holds
def mark(eng, base, parts):
    eng.cp.texts[base.id] = (base, tidy(parts))


def new_text(eng, st, parts):
    """a block that holds the pieces, and its length"""
    parts = tidy(parts)
    fn, line = eng.stack[-1][0].base, eng.stack[-1][1].get('l', 0)
    if all(isinstance(p, bytes) for p in parts):
        b = b''.join(parts)
        base = Base('bytes', cells={}, bytes=dict(enumerate(b + b'\0')))
        L = K(len(b))
    else:
        L = newsym('len', max(1, sum(len(p) for p in parts if isinstance(p, bytes))), PTRDIFF - 1)
        base = Base('cstr', len=L)
        mark(eng, base, parts)
    rid = eng.new_region(st, 'heap', addc(L, 1), base, name='text', fresh=True, fn=fn, line=line)
    return VP(rid), ('i', 64, L, 'u')


def text_of(eng, st, p):
    """the pieces of the text at p, or None"""
    if p[0] != 'p' or p[1] <= 0 or st.mem[p[1]].kind == 'func':
        return None
    c, off = st.mem[p[1]].content, p[2]
    if isinstance(c, Base) and c.id in eng.cp.texts:
        return eng.cp.texts[c.id][1] if st.eq(off, ZERO) else None
    if not off[1]:
        out = b''
        for k in range(80):
            b = key_bytes(eng, st, ('p', p[1], addc(off, k)), K(1))
            if b is None:
                break
            if b == b'\0':
                return tidy((out,))
            out += b
    n = 0
    while isinstance(c, Entry) and n < 12:
        n += 1
        if c.kind == 'cp' and st.eq(c.off, off):
            off, c = c.srcoff, c.src
        else:
            c = c.prev
        if isinstance(c, Base) and c.id in eng.cp.texts:
            return eng.cp.texts[c.id][1] if st.eq(off, ZERO) else None
    return None


def show(ps):
    return 'an unknown text' if ps is None else '"%s"' % ''.join(p.decode() if isinstance(p, bytes) else '<%s>' % p[0] for p in ps)


def str_fields(eng, st, p):
    O = {f: eng.p.off('HarbolString', f) for f in ('cstr', 'len')}
    s = eng.access(st, p, K(eng.p.size('HarbolString')), 'w')
    if s is None:
        return []
    out = []
    for s1, t in eng.read(s, s.mem[p[1]].content, addc(p[2], O['cstr']), 8, TP, p[1]):
        for s2, l in eng.read(s1, s1.mem[p[1]].content, addc(p[2], O['len']), 8, T64, p[1]):
            if 'undef' in (t[0], l[0]):
                eng.report('uninit', 'an uninitialised text is used', s2, 'str')
                continue
            out.append((s2, t, l))
    return out


def set_str(eng, st, p, t, l):
    O = {f: eng.p.off('HarbolString', f) for f in ('cstr', 'len')}
    eng.write(st, p[1], addc(p[2], O['cstr']), 8, t)
    eng.write(st, p[1], addc(p[2], O['len']), 8, l)


def replaced(eng, st, p, t, parts, i):
    """the string at p, which holds the block t, now holds the pieces; [(state, ok)]"""
    out = []
    z = st.copy()
    z.tags['why'] = 1 + bool(z.tags.get('why'))
    out.append((z, 0))
    s = st.copy()
    v, l = new_text(eng, s, parts)
    if t != NULLP:
        fr = m_free(eng, s, [t], i)
        if not fr:
            return out
        s = fr[0][0]
    set_str(eng, s, p, v, l)
    out.append((s, 1))
    return out


# ------------------------------------------------------------------ the scanners
def token(eng, st, p, what):
    p = eng.models.ptr(eng, st, p)
    C = eng.cp
    if p[0] != 'p' or p[1] not in C.docs or p[2][1]:
        return None, p
    k = p[2][0]
    x = C.docs[p[1]]
    t = x[k] if 0 <= k < len(x) else None
    return (t if isinstance(t, T) and t.what == what else None), p


def show_off(e):
    return e[0] if not e[1] else '?'


def end_at(eng, st, ref, p, k):
    ref = eng.models.ptr(eng, st, ref)
    s = eng.access(st, ref, K(8), 'w')
    if s is None:
        return None
    s = s.copy()
    eng.write(s, ref[1], ref[2], 8, ('p', p[1], k))
    return s


def c_lex(what):
    def f(eng, st, a, i):
        t, p = token(eng, st, a[0], what)
        if t is None:
            if p[0] == 'p' and p[1] in eng.cp.docs:
                eng.report('content', 'a %s is read where the document has none, at %s' % (what, show_off(p[2])), st, 'token')
            else:
                eng.report('content', 'a %s is read from something that is not the document' % what, st, 'token')
            return []
        ref = a[1]
        q = eng.models.ptr(eng, st, a[2])
        out = []
        for s, old, l in str_fields(eng, st, q):
            s = s.copy()
            if what == 'str' and old != NULLP or t.err == 2:
                pre = ()
            else:
                pre = text_of(eng, s, old) if old != NULLP else ()
            end = K(len(eng.cp.docs[p[1]])) if t.err and what == 'str' else addc(p[2], 1)
            s = end_at(eng, s, ref, p, end)
            if s is None:
                continue
            if what == 'num':
                o = eng.models.ptr(eng, s, a[3])
                s = eng.access(s, o, K(1), 'w')
                if s is None:
                    continue
                s = s.copy()
                eng.write(s, o[1], o[2], 1, VI(8, K(int(t.kind == 'float'))))
            if t.err == 2 or t.kind == 'empty':
                out.append((s, VI(32, ONE if t.err else ZERO)))
                continue
            if pre is None:
                eng.report('content', 'a number is appended to an unknown text', s, 'sign')
                continue
            v, n = new_text(eng, s, pre + ((t.text,) if t.text is not None else (('tok', t.id),)))
            if old != NULLP:
                fr = m_free(eng, s, [old], i)
                if not fr:
                    continue
                s = fr[0][0]
            set_str(eng, s, q, v, n)
            bad = VI(32, K(eng.p.enums['HarbolLexErrType']['HarbolLexEoF'])) if t.err else VI(32, K(eng.p.enums['HarbolLexErrType']['HarbolLexNoErr']))
            out.append((s, bad))
        return out
    return f


def c_add_char(eng, st, a, i):
    p = eng.models.ptr(eng, st, a[0])
    out = []
    c = eng.toU(st, a[1])
    for s, t, l in str_fields(eng, st, p):
        pre = text_of(eng, s, t) if t != NULLP else ()
        if pre is None or c[1]:
            return None
        # running out of memory in the middle of a number: taken to succeed, as in the scanners
        out += [(s2, VI(1, ONE)) for s2, ok in replaced(eng, s, p, t, pre + (bytes([c[0] & 255]),), i) if ok]
    return out


def literal(eng, st, p):
    t = text_of(eng, st, p)
    return t[0] if t and len(t) == 1 and isinstance(t[0], bytes) else b'' if t == () else None


def c_compare(first, n=None):
    def f(eng, st, a, i):
        """texts that are not spelt out equal none that is"""
        x, y = (eng.models.ptr(eng, st, v) for v in a[:2])
        if first:
            for s, t, l in str_fields(eng, st, x):
                x = t
                break
            if x == NULLP:
                return None
        for v in (x, y):
            if v[0] == 'p' and v[1] in eng.cp.docs and n is None:
                return None
        X, Y = text_of(eng, st, x), text_of(eng, st, y)
        if X is None and x[0] == 'p' and x[1] in eng.cp.docs or Y is None and y[0] == 'p' and y[1] in eng.cp.docs:
            X = rest(eng, x) if x[1] in eng.cp.docs else X
            Y = rest(eng, y) if y[1] in eng.cp.docs else Y
        if X is None or Y is None:
            return None
        if n is not None:
            k = eng.toU(st, a[2])
            if k[1]:
                return None
            if all(isinstance(p, bytes) for p in X + Y):
                X, Y = tidy((b''.join(X)[:k[0]],)), tidy((b''.join(Y)[:k[0]],))
        if X == Y:
            return [(st.copy(), VI(32, ZERO))]
        s = st.copy()
        return [(s, VI(32, ONE)), (s.copy(), VI(32, K((1 << 32) - 1)))][:1]
    return f


def rest(eng, p):
    return (Reader(eng.cp.docs[p[1]]).text()[p[2][0]:],) if not p[2][1] else None


def search(eng, st, p):
    """(text searched as bytes) or 'none' when it holds nothing to be found, or None"""
    t = text_of(eng, st, p)
    if t is None:
        return None
    if all(isinstance(x, bytes) for x in t):
        return b''.join(t)
    return 'none'


def c_strstr(eng, st, a, i):
    x, y = (eng.models.ptr(eng, st, v) for v in a[:2])
    if x[0] != 'p' or x[1] <= 0:
        return None
    b, w = search(eng, st, x), literal(eng, st, y)
    if b is None or w is None:
        return None
    k = -1 if b == 'none' else b.find(w)
    return [(st.copy(), NULLP if k < 0 else ('p', x[1], addc(x[2], k)))]


def c_strchr(eng, st, a, i):
    x = eng.models.ptr(eng, st, a[0])
    c = eng.toU(st, a[1])
    if x[0] != 'p' or x[1] <= 0 or c[1]:
        return None
    b = search(eng, st, x)
    if b is None:
        return None
    k = -1 if b == 'none' else (b + b'\0').find(bytes([c[0] & 255]))
    return [(st.copy(), NULLP if k < 0 else ('p', x[1], addc(x[2], k)))]


def c_replace(eng, st, a, i):
    """harbol_string_replace_cstr"""
    p = eng.models.ptr(eng, st, a[0])
    out = []
    for s, t, l in str_fields(eng, st, p):
        b = search(eng, s, t) if t != NULLP else b''
        w, by = literal(eng, s, eng.models.ptr(eng, s, a[1])), literal(eng, s, eng.models.ptr(eng, s, a[2]))
        n = eng.toU(s, a[3])
        if t[0] == 'p' and t[1] in eng.cp.docs and w and by is not None and not n[1]:
            out += in_document(eng, s, p, t, w, by, n[0], i)
            continue
        if b is None or w is None or by is None or n[1]:
            eng.report('content', 'a text is replaced by an unknown one', s, 'replace')
            continue
        if b == 'none' or w not in b:
            out.append((s, VI(1, ZERO)))
            continue
        out += [(s2, VI(1, K(ok))) for s2, ok in replaced(eng, s, p, t, (b.replace(w, by, min(n[0], 99)),), i)]
    return out


def c_range(eng, st, a, i):
    """harbol_string_replace_range"""
    p = eng.models.ptr(eng, st, a[0])
    out = []
    for s, t, l in str_fields(eng, st, p):
        b = search(eng, s, t) if t != NULLP else b''
        lo, hi = eng.toU(s, a[1]), eng.toU(s, a[2])
        by = text_of(eng, s, eng.models.ptr(eng, s, a[3]))
        if not isinstance(b, bytes) or lo[1] or hi[1] or by is None:
            eng.report('content', 'an unknown part of a text is replaced, or by an unknown text', s, 'range')
            continue
        lo, hi = lo[0], min(hi[0], len(b) - 1)
        if lo >= len(b) or hi < lo:
            out.append((s, VI(1, ZERO)))
            continue
        out += [(s2, VI(1, K(ok))) for s2, ok in replaced(eng, s, p, t, (b[:lo],) + by + (b[hi + 1:],), i)]
    return out


def c_math(eng, st, a, i):
    p = eng.models.ptr(eng, st, a[0])
    b = literal(eng, st, p)
    data = eng.models.ptr(eng, st, a[2])
    s = st.copy()
    if b is None:
        eng.report('content', 'something that is not the formula written is calculated', s, 'math')
        return []
    got = tuple(named(eng, st, a, w, i) for w in (b'iota', b'IOTA', b'enum', b'ENUM'))
    return [(s, eng.cp.val('f', ('math', b) + got))]


def named(eng, st, a, name, i):
    """the value a name has in a formula: the counter of the document (a number), or None"""
    g = st.mem.get(a[1][1]) if a[1][0] == 'p' and a[1][1] > 0 else None
    f = g and g.kind == 'func' and eng.p.funcs.get(g.attr['fname'])
    if not f:
        return None
    s = st.copy()
    n = eng.new_region(s, 'param', K(len(name) + 1), Base('bytes', cells={}, bytes=dict(enumerate(name + b'\0'))), name='name', const=True)
    val, fn, isf = (eng.new_region(s, 'param', K(z), Base('opaque'), name=w) for w, z in (('value', 16), ('function', 8), ('is function', 1)))
    eng.write(s, fn, ZERO, 8, NULLP)
    eng.write(s, isf, ZERO, 1, VI(8, ZERO))
    eng.write(s, val, ZERO, 10, ('f', Syms.new('fl', None, None)))
    out = set()
    for s2, _ in eng.call_function(f, [VP(n), VI(64, K(len(name))), VP(val), VP(fn), a[2], a[3], VP(isf)], s):
        v = eng.read(s2, s2.mem[val].content, ZERO, 10, {'k': 'f', 'st': 10, 'sz': 16}, val)[0][1]
        out.add(next((k for k in range(10) if v == fterm('sitofp', K(k), 16) or v == fterm('sitofp', K(k), 10)), None))
    return out.pop() if len(out) == 1 else None


def printed(eng, st, fmt, va):
    """the pieces a format writes, or None"""
    f = literal(eng, st, eng.models.ptr(eng, st, fmt))
    if f is None:
        return None
    out, pos, k = (), 0, 0
    for m in CONV.finditer(f):
        out += (f[pos:m.start()],)
        pos = m.end()
        if m.group(4) == b'%':
            out += (b'%',)
            continue
        if k >= len(va):
            return None
        v = va[k]
        k += 1
        if v[0] == 'f':
            w = eng.cp.names.get(repr(v))
            if w is None or m.group(0) not in (b'%Lf', b'%f') or m.group(0) == b'%f' and 'fptrunc' not in repr(v) and 'L' not in m.group(0).decode():
                return None
            out += (w,)
        elif v[0] == 'i' and m.group(4) in (b'd', b'i', b'u'):
            n = eng.toS(st, v)
            if n[1]:
                return None
            out += (str(n[0]).encode(),)
        else:
            return None
    return tidy(out + (f[pos:],))


def merge(ps):
    out = ()
    for p in ps:
        if out and isinstance(p, bytes) and isinstance(out[-1], bytes):
            out = out[:-1] + (out[-1] + p,)
        else:
            out += (p,)
    return out


def c_snprintf(eng, st, a, i):
    d = eng.models.ptr(eng, st, a[0])
    n = eng.toU(st, a[1])
    ps = printed(eng, st, a[2], a[3:])
    if ps is None or n[1]:
        return None
    ps = merge(ps)
    s = st.copy()
    if all(isinstance(p, bytes) for p in ps):
        b = b''.join(ps)
        if n[0] == 0:
            return [(s, VI(32, K(len(b))))]
        w = b[:n[0] - 1] + b'\0'
        s = eng.access(s, d, K(len(w)), 'w')
        if s is None:
            return []
        s = s.copy()
        for k, c in enumerate(w):
            eng.write(s, d[1], addc(d[2], k), 1, VI(8, K(c)))
        return [(s, VI(32, K(len(b))))]
    s = eng.access(s, d, n, 'w')
    if s is None:
        return []
    s = s.copy()
    L = newsym('printed', 1, n[0] - 1)
    base = Base('cstr', len=L)
    mark(eng, base, ps)
    s.mem[d[1]] = s.mem[d[1]].with_(content=Entry('cp', d[2], addc(L, 1), None, s.mem[d[1]].content, base, ZERO))
    return [(s, ('i', 32, L, 'b'))]


def c_sprintf_alloc(eng, st, a, i):
    ps = printed(eng, st, a[0], a[1:])
    if ps is None:
        return None
    z = st.copy()
    z.tags['why'] = 1 + bool(z.tags.get('why'))
    s = st.copy()
    v, l = new_text(eng, s, merge(ps))
    return [(z, NULLP), (s, v)]


def c_number(kind):
    def f(eng, st, a, i):
        if kind == 'f':
            t = eng.models.ptr(eng, st, a[0])
            if i.get('f', '').endswith('lex_string_to_float'):
                (st, t, l), = str_fields(eng, st, t)[:1] or [(None, NULLP, None)]
                if st is None:
                    return []
        else:
            t = eng.models.ptr(eng, st, a[0])
        s = eng.access(st, t, ONE, 'r')
        if s is None:
            return []
        s = s.copy()
        ps = text_of(eng, s, t)
        if ps is None:
            return None
        if kind == 'i':
            return [(s, eng.cp.val('i', (ps, eng.toU(s, a[2]))))]
        return [(s, eng.cp.val('f', ps))]
    return f


# ------------------------------------------------------------------ sections
def section(eng, st, v, what):
    v = eng.models.ptr(eng, st, v)
    r = st.mem.get(v[1]) if v[0] == 'p' and v[1] > 0 else None
    if r is None or r.attr.get('name') not in ('section', 'file') or not st.eq(v[2], ZERO):
        eng.report('wild', '%s something that is not a section' % what, st, 'section')
        return None
    if r.live != 1:
        eng.report('uaf', '%s a section already freed' % what, st, 'freed')
        return None
    return v


def new_section(eng, st, name='section'):
    n = eng.p.size('HarbolMap')
    fn, line = eng.stack[-1][0].base, eng.stack[-1][1].get('l', 0)
    return eng.new_region(st, 'heap', K(n + 8 * SLOTS), Base('zero'), name=name, fresh=True, fn=fn, line=line)


def c_map_new(eng, st, a, i):
    z = st.copy()
    z.tags['why'] = 1 + bool(z.tags.get('why'))
    s = st.copy()
    return [(z, NULLP), (s, VP(new_section(eng, s)))]


def c_parse_file(eng, st, a, i):
    p = eng.models.ptr(eng, st, a[0])
    ps = text_of(eng, st, p)
    if ps is None:
        eng.report('null' if p == NULLP else 'content', 'includes a file without the name written', st, 'include')
        return []
    z, s = st.copy(), st.copy()
    add_log(z, 'file', ps, 0)
    t = [t for t in eng.cp.doc.x if isinstance(t, T) and (('tok', t.id),) == ps]
    if t and t[0].kind == 'absent':
        return [(z, NULLP)]
    m = new_section(eng, s, 'file')
    add_log(s, 'file', ps, m)
    return [(s, VP(m))]


def c_has_key(eng, st, a, i):
    m = section(eng, st, a[0], 'looks a key up in')
    if m is None:
        return []
    key = eng.models.ptr(eng, st, a[1])
    ps = text_of(eng, st, key)
    ln = length(eng, st, key, ps)
    whole = ln is not None and st.eq(addc(ln, 1), eng.toU(st, a[2]))
    return [(st.copy(), VI(1, K(int(whole and held(eng, st, m, ps)))))]


def held(eng, st, m, ps):
    if any(isinstance(t, T) and t.kind == 'dup' and (('tok', t.id),) == ps for t in eng.cp.doc.x):
        return True
    return ps is not None and merge(ps) in [e[2] and merge(e[2]) for e in log(st) if e[0] == 'put' and e[1] == m[1]]


def c_insert(eng, st, a, i):
    m = section(eng, st, a[0], PUT)
    if m is None:
        return []
    p = eng.p
    key, val = eng.models.ptr(eng, st, a[1]), eng.models.ptr(eng, st, a[3])
    n = eng.toU(st, a[2])
    s = eng.access(st, key, n, 'r')
    s = s and eng.access(s, val, eng.toU(s, a[4]), 'r')
    if s is None:
        return []
    ps = text_of(eng, s, key)
    ln = length(eng, s, key, ps)
    if ln is None or not s.eq(addc(ln, 1), n):
        eng.report('content', 'a value is put under a key cut short or without its terminator', s, 'key')
        return []
    if not s.eq(eng.toU(s, a[4]), K(p.size(VAR))):
        eng.report('content', 'what is put under a key is not one value', s, 'size')
        return []
    rd = lambda f, t, z: eng.read(s.copy(), s.mem[val[1]].content, addc(val[2], p.off(VAR, f)), z, t, val[1])[0][1]
    d, size, tag = rd('data', TP, 8), rd('size', T64, 8), rd('tag', T32, 4)
    if 'undef' in (d[0], size[0], tag[0]):
        eng.report('uninit', 'a value is put under a key before it is complete', s, 'value')
        return []
    out = []
    z = s.copy()
    z.tags['why'] = 1 + bool(z.tags.get('why'))
    if held(eng, s, m, ps):
        return [(s, VI(1, ZERO))]
    out.append((z, VI(1, ZERO)))
    s = s.copy()
    kind = value_of(eng, s, d, size, tag)
    k = len([e for e in log(s) if e[0] == 'put' and e[1] == m[1]])
    if k >= SLOTS:
        raise AnalysisError('more entries than slots')
    eng.write(s, m[1], K(p.size('HarbolMap') + 8 * k), 8, d)
    eng.write(s, m[1], K(p.off('HarbolMap', 'len')), 8, VI(64, K(k + 1)))
    add_log(s, 'put', m[1], ps, kind)
    out.append((s, VI(1, ONE)))
    return out


def length(eng, s, p, ps):
    if ps is not None and all(isinstance(x, bytes) for x in ps):
        return K(len(b''.join(ps)))
    for s2, l in strlen_of(eng, s.copy(), p, 'text'):
        return l
    return None


def value_of(eng, s, d, size, tag):
    """what a value is: (type, what it holds)"""
    p = eng.p
    t = eng.toU(s, tag)
    kind = [k for k in TYPES if s.eq(t, K(tagof(p, k)))]
    r = s.mem.get(d[1]) if d[0] == 'p' and d[1] > 0 else None
    if r is None or r.live != 1 or r.kind != 'heap' or not s.eq(d[2], ZERO):
        return ('bad', 'is held by no block of its own')
    if not kind:
        return ('bad', 'has an unknown type')
    kind = kind[0]
    if not s.eq(eng.toU(s, size), K(TYPES[kind])) or not s.ge(r.size, K(TYPES[kind])):
        return ('bad', 'does not have the size of its type')
    rd = lambda off, n, t: eng.read(s.copy(), r.content, K(off), n, t, d[1])[0][1]
    if kind in ('Map', 'String'):
        v = rd(0, 8, TP)
        if v[0] != 'p' or v[1] <= 0 or s.mem[v[1]].live != 1 or s.mem[v[1]].kind != 'heap':
            return ('bad', 'owns no section or text')
        if kind == 'Map':
            return (kind, v[1])
        c = eng.read(s.copy(), s.mem[v[1]].content, addc(v[2], p.off('HarbolString', 'cstr')), 8, TP, v[1])[0][1]
        n = eng.read(s.copy(), s.mem[v[1]].content, addc(v[2], p.off('HarbolString', 'len')), 8, T64, v[1])[0][1]
        if 'undef' in (c[0], n[0]):
            return ('bad', 'owns an uninitialised text')
        if c == NULLP:
            return (kind, ()) if s.eq(eng.toU(s, n), ZERO) else ('bad', 'owns a text without characters')
        ps = text_of(eng, s, c)
        l = length(eng, s, c, ps)
        if l is None or not s.eq(l, eng.toU(s, n)):
            return ('bad', 'owns a text whose length is not the one recorded')
        return (kind, ps)
    if kind == 'Int':
        return (kind, rd(0, 8, T64))
    if kind == 'Bool':
        return (kind, rd(0, 1, T8_))
    if kind == 'Float':
        return (kind, rd(0, 10, {'k': 'f', 'st': 10, 'sz': 16}))
    if kind == 'Color':
        return (kind, tuple(rd(k, 1, T8_) for k in range(4)))
    if kind == 'Vec4D':
        return (kind, tuple(rd(4 * k, 4, {'k': 'f', 'st': 4, 'sz': 4}) for k in range(4)))
    return (kind, None)


def dead(eng, s, m):
    """a section and everything put in it is freed"""
    p = eng.p
    for e in log(s):
        if e[0] == 'put' and e[1] == m and e[3][0] != 'bad':
            k = len([x for x in log(s)[:log(s).index(e)] if x[0] == 'put' and x[1] == m])
            d = eng.read(s.copy(), s.mem[m].content, K(p.size('HarbolMap') + 8 * k), 8, TP, m)[0][1]
            kind, what = e[3]
            if kind == 'Map':
                dead(eng, s, what)
            elif kind == 'String':
                h = eng.read(s.copy(), s.mem[d[1]].content, ZERO, 8, TP, d[1])[0][1]
                c = eng.read(s.copy(), s.mem[h[1]].content, addc(h[2], p.off('HarbolString', 'cstr')), 8, TP, h[1])[0][1]
                for x in (c, h):
                    if x != NULLP:
                        s.mem[x[1]] = s.mem[x[1]].with_(live=0)
            s.mem[d[1]] = s.mem[d[1]].with_(live=0)
    s.mem[m] = s.mem[m].with_(live=0)


def c_cfg_free(eng, st, a, i):
    ref = eng.models.ptr(eng, st, a[0])
    s = eng.access(st, ref, K(8), 'w')
    if s is None:
        return []
    out = []
    for s, v in eng.read(s, s.mem[ref[1]].content, ref[2], 8, TP, ref[1]):
        if v == NULLP:
            out.append((s, None))
            continue
        m = section(eng, s, v, 'frees')
        if m is None:
            continue
        s = s.copy()
        dead(eng, s, m[1])
        add_log(s, 'free', m[1])
        eng.write(s, ref[1], ref[2], 8, NULLP)
        out.append((s, None))
    return out


def c_quiet(eng, st, a, i):
    return [(st.copy(), None)]


class Ctx:
    pass


def pre(cx, st, args, objs, fn):
    return st


def line_ends(x, tabs):
    """a document with its line ends (and tabs) as lex_fix_newlines leaves them"""
    out = []
    for k, c in enumerate(x):
        if c == '\r':
            out += [] if x[k + 1:k + 2] == ['\n'] else ['\n']
        elif c == '\t' and tabs:
            out += [' '] * 4
        else:
            out.append(c)
    return out


def start(cx, doc, filename):
    eng = cx.eng
    C = eng.cp = Ctx()
    C.doc = Reader(doc, filename)
    C.doc.name()
    C.want = Reader(line_ends(C.doc.x, False), filename).run() if filename else C.doc.run()
    C.texts, C.nums, C.names, C.docs = {}, {}, {}, {}
    byte = {t.id for t in C.doc.x if isinstance(t, T) and t.kind == 'byte'}

    def val(kind, key):
        v = C.nums.get((kind, key))
        if v is None:
            if kind == 'f':
                v = ('f', Syms.new('fl', None, None))
                C.names[repr(v)] = key
            elif any(p[0] == 'tok' and p[1] in byte for p in key[0]):
                v = ('i', 64, newsym('byte', 0, 255), 'u')
            else:
                v = fresh_i(64, 'number')
            C.nums[kind, key] = v
        return v
    C.val = val
    return C


def roles(cx, st, name, ty, fn, opts):
    doc = opts['doc']()
    C = start(cx, doc, opts.get('file'))
    if ty == 'char const*' and opts.get('file'):
        n = newsym('len', 1, PTRDIFF - 1)
        base = Base('cstr', len=n)
        mark(cx.eng, base, (('name',),))
        return [(st, VP(cx.region(st, 'param', addc(n, 1), base, name='filename', const=True)), None)]
    b = C.doc.text() + b'\0'
    rid = cx.region(st, 'param', K(len(b)), Base('bytes', cells={}, bytes=dict(enumerate(b))), name='document', const=True)
    C.docs[rid] = C.doc.x
    return [(st, VP(rid), None)]


def c_read_file(eng, st, a, i):
    """harbol_string_read_from_file"""
    p = eng.models.ptr(eng, st, a[0])
    z = st.copy()
    z.tags['why'] = 1 + bool(z.tags.get('why'))
    s = st.copy()
    rid, b = document(eng, s, eng.cp.doc.x)
    set_str(eng, s, p, VP(rid), VI(64, K(len(b))))
    return [(z, VI(1, ZERO)), (s, VI(1, ONE))]


def in_document(eng, st, p, v, w, by, n, i):
    """one text is replaced by another all over the document read"""
    C = eng.cp
    x, out, k, done = C.docs[v[1]], [], 0, 0
    while k < len(x):
        if w and done < n and x[k:k + len(w)] == list(w.decode('latin1')):
            out += list(by.decode('latin1'))
            k += len(w)
            done += 1
        else:
            out.append(x[k])
            k += 1
    if not done:
        return [(st.copy(), VI(1, ZERO))]
    # taken to succeed
    fr = m_free(eng, st.copy(), [v], i)
    if not fr:
        return []
    s = fr[0][0]
    rid, b = document(eng, s, out)
    set_str(eng, s, p, VP(rid), VI(64, K(len(b))))
    return [(s, VI(1, ONE))]


def document(eng, s, items):
    C = eng.cp
    b = Reader(items).text()
    rid = eng.new_region(s, 'heap', K(len(b) + 1), Base('bytes', cells={}, bytes=dict(enumerate(b + b'\0'))), name='document', fresh=True, fn=eng.stack[-1][0].base, line=eng.stack[-1][1].get('l', 0))
    C.docs[rid] = items
    return rid, b


def same(eng, s, kind, want, got):
    if kind == 'Int':
        w = VI(64, K(want)) if isinstance(want, int) else eng.cp.val('i', (want, ZERO))
        return got[0] == 'i' and s.eq(eng.toU(s, got), eng.toU(s, w))
    if kind == 'Bool':
        return got[0] == 'i' and s.eq(eng.toU(s, got), K(want))
    if kind == 'Float':
        return got == eng.cp.val('f', want)
    if kind == 'Color':
        for k in range(4):
            w = eng.cp.val('i', (want[k], ZERO)) if k < len(want) else VI(64, ZERO)
            if got[k][0] != 'i' or not s.eq(eng.toU(s, got[k]), eng.toU(s, w)):
                return False
        return True
    if kind == 'Vec4D':
        for k in range(4):
            if k < len(want):
                w = eng.cp.val('f', want[k])
                if got[k] != ('f', fterm('fptrunc', w[1], 4)) and got[k] != fterm('fptrunc', w[1], 4):
                    return False
            elif 'fl' in repr(got[k]) and got[k] not in ZEROF and not is_zero(eng, s, got[k]):
                return False
        return True
    if kind == 'String':
        return got is not None and merge(got) == merge(want)
    return True


ZEROF = ()


def is_zero(eng, s, v):
    return v[0] == 'i' and s.eq(eng.toU(s, v), ZERO) or v[0] == 'f' and repr(v[1]) in ('0', '0.0', "('c', 0.0)", "('const', 0.0)")


def p_parse(P):
    eng, s, C = P.eng, P.st, P.eng.cp
    P.entry.obligations += 1 + len(log(s))
    why = s.tags.get('why')
    r = P.ret
    fail = lambda m: P.fail('content', 'entries', m)
    if r[0] == 'p' and r[1] == 0:
        if not why:
            fail('a document is not read although nothing failed')
        return
    if r[0] != 'p' or r[1] <= 0 or s.mem[r[1]].attr.get('name') != 'section' or s.mem[r[1]].live != 1:
        fail('what is returned is not a section')
        return
    compare(P, s, C, r[1], C.want, why)


def compare(P, s, C, m, want, why):
    eng = P.eng
    fail = lambda m: P.fail('content', 'entries', m)
    got = [e for e in log(s) if e[0] == 'put' and e[1] == m]
    for k, e in enumerate(got):
        P.entry.obligations += 2
        _, _, key, (kind, val) = e
        if kind == 'bad':
            fail('a value of the document ' + val)
            return
        if k >= len(want) and why:
            return
        if k >= len(want):
            fail('a section holds more entries than the document has there')
            return
        wkey, wkind, wval = want[k]
        if key is None or merge(key) != merge(wkey):
            if why:
                return
            fail('an entry is put under %s instead of %s' % (show(key), show(wkey)))
            return
        if kind != wkind:
            fail('a value has type %s instead of %s' % (kind, wkind))
            return
        if kind == 'Map':
            if isinstance(wval, tuple):
                if s.mem[val].attr.get('name') != 'file' or ('file', wkey, val) not in log(s):
                    fail('an include does not hold the file named')
                    return
            elif s.mem[val].attr.get('name') != 'section':
                fail('an entry does not hold a section of its own')
                return
            else:
                compare(P, s, C, val, wval, why)
        elif not same(eng, s, kind, wval, val) and not (why and kind in ('String', 'Int')):
            fail('the value of an entry (%s) is not the one written' % kind)
            return
    if len(got) < len(want) and not why:
        fail('an entry of the document is missing')


CON = {
    'lex_c_style_str': c_lex('str'), 'lex_c_style_number': c_lex('num'), 'harbol_string_add_char': c_add_char,
    'harbol_string_cmpcstr': c_compare(True), 'strcmp': c_compare(False), 'strncmp': c_compare(False, 1),
    'strstr': c_strstr, 'strchr': c_strchr, 'harbol_string_replace_cstr': c_replace, 'harbol_string_replace_range': c_range,
    'harbol_math_parse_expr': c_math, 'snprintf': c_snprintf, 'sprintf_alloc': c_sprintf_alloc,
    'lex_string_to_float': c_number('f'), 'strtold': c_number('f'), 'strtoll': c_number('i'), 'strtol': c_number('i'), 'strtoul': c_number('i'),
    'strtoull': c_number('i'), 'strtoimax': c_number('i'), 'strtoumax': c_number('i'),
    'harbol_map_new': c_map_new, 'harbol_map_has_key': c_has_key, 'harbol_map_insert': c_insert, 'harbol_cfg_free': c_cfg_free,
    'harbol_cfg_parse_file': c_parse_file, 'harbol_write_msg': c_quiet, 'harbol_string_read_from_file': c_read_file,
}



def once(f):
    """in the longer documents at most one thing fails"""
    def g(eng, st, a, i):
        r = f(eng, st, a, i)
        if r is None:
            return None
        out = []
        for s, v in r:
            if s.tags.get('why') == 2:
                if eng.ONEFAIL:
                    continue
                s.tags['why'] = 1
            out.append((s, v))
        return out
    return g


CON = {k: once(f) for k, f in CON.items()}

E = lambda: S(text=b'<enum>')
VALUES = [
    ('text', lambda: [S()]), ('empty', lambda: [S('empty')]), ('math', lambda: [S(text=b'a <math 1+x> b')]), ('open math', lambda: [S(text=b'a<math 1')]),
    ('int', lambda: [N()]), ('negative', lambda: ['-', N()]), ('positive', lambda: ['+', N()]), ('float', lambda: [N('float')]), ('dot', lambda: [N('float', dot=True)]), ('negative dot', lambda: ['-', N('float', dot=True)]), ('negative float', lambda: ['-', N('float')]),
    ('true', lambda: ['true']), ('false', lambda: ['false']), ('null', lambda: ['null']), ('iota', lambda: ['iota']), ('IOTA', lambda: ['IOTA']),
    ('file', lambda: ['<file>']), ('FILE', lambda: ['<FILE>']),
] + [('color%d' % n, lambda n=n: ['c['] + [N('byte') if k % 2 == 0 else ' ' for k in range(2 * n)] + [']']) for n in range(6)] + [
    ('vec%d' % n, lambda n=n: ['v ['] + [N('float') if k % 2 == 0 else ', ' for k in range(2 * n)] + [']']) for n in range(6)] + [
    ('section', lambda: ['{}']), ('section of one', lambda: ['{', S(), ':', N(), '}']), ('section of two', lambda: ['{ ', S(), ' iota, ', S(), 'true }']),
    ('sections', lambda: ['{', S(), '{', S(), 'iota }', S(), 'iota', '}']),
]
FEW = ('text', 'math', 'int', 'float', 'true', 'null', 'iota', 'IOTA', 'file', 'color3', 'vec2', 'section of one')
KEYS = [('plain', lambda: S()), ('enum', lambda: E()), ('ENUM', lambda: S(text=b'k<ENUM>')), ('both', lambda: S(text=b'<ENUM>.<enum>')), ('twice', lambda: S(text=b'<enum><enum>')),
        ('math', lambda: S(text=b'k<math 1+1>e')), ('open', lambda: S(text=b'k<math 2')), ('both twice', lambda: S(text=b'<ENUM><enum>.<ENUM>')), ('mixed', lambda: S(text=b'<math <enum>>'))]
BROKEN = [
    lambda: [S(err=1)], lambda: [S(err=2)], lambda: [S('empty'), N()], lambda: [N()], lambda: [S('dup'), N()], lambda: [S(), S(err=1)], lambda: [S(), S(err=2)], lambda: [S(), N(err=1)],
    lambda: [S(), '-', N(err=2)], lambda: [S(), '-'], lambda: [S(), 'tru'], lambda: [S(), 'fals'], lambda: [S(), 'nul'], lambda: [S(), 'iot'], lambda: [S(), 'IOT'],
    lambda: [S(), '<fil>'], lambda: [S(), '?'], lambda: [S(), '[', N('byte'), ']'], lambda: [S(), 'c', N('byte')], lambda: [S(), 'c[', N('byte')], lambda: [S(), 'v['], lambda: [S(), 'v[', N('float'), 'x]'],
    lambda: [S(), 'c[', N('byte', err=2), ']'], lambda: [S(), 'v[', N('float', err=1), ']'], lambda: [S()], lambda: [S(), '{'], lambda: [S(), '{', S(), N()], lambda: [S(), '{', S(), '?', '}', S(), N()],
    lambda: [S('include', b'<include>'), N()], lambda: [S('include', b'<include>'), S(err=1)], lambda: [S('include', b'<include>'), S(err=2)], lambda: [S(), N(), '}', S(), N()],
]
INCLUDE = lambda k='plain', w=b'<include>': [S('include', w), ' ', S(k)]
DOCS = [lambda: []] + BROKEN
DOCS += [lambda k=k, v=v: [k(), ': '] + v() + [', ', E(), ' ', N(), S(), 'iota'] for n, k in KEYS for m, v in VALUES]
DOCS += [lambda v=v, w=w: [S(), ': '] + v() + [S()] + w() + ['\n', E(), 'IOTA'] for n, v in VALUES for m, w in VALUES if n != m and n in FEW and m in FEW]
DOCS += [lambda v=v, w=w: [S(), '{ ', E(), ':'] + v() + [E()] + w() + ['}', S(), '{', S(), '{', E()] + v() + ['}}', E(), 'iota'] for n, v in VALUES for m, w in VALUES if n == m or (n, m) == ('iota', 'IOTA')]
DOCS += [lambda b=b: [S(), '{', E(), N()] + b() for b in BROKEN] + [lambda b=b: [S(), '{', E(), N(), '} '] + b() + [S(), N()] for b in BROKEN]
DOCS += [lambda: [S(), 'iota', S(), 'IOTA', S(), 'IOTA', E(), N(), S(text=b'<ENUM>'), N(), S(), S(text=b'<math iota+ENUM>'), S(), '{', S(text=b'<math enum>'), S(text=b'<math IOTA*iota>'), '}']]
DOCS += [lambda: [E(), N(), E(), '{', E(), N(), E(), N(), '}', E(), N(), S(text=b'<ENUM>'), 'iota', S(), 'iota'],
         lambda: [S(), 'iota ', S(), '{', S(), 'iota ', S(), 'IOTA', '}', S(), 'iota ', S(), 'IOTA'],
         lambda: [S(text=b'<ENUM>'), '{', S(text=b'<ENUM>'), '{}', '}', S(text=b'<ENUM>'), 'null']]
DOCS += [lambda k=k, w=w: INCLUDE(k, w) + [' ', S(), N()] for k in ('plain', 'absent', 'empty') for w in (b'<include>', b'<INCLUDE>')]
DOCS += [lambda k=k: [S(), '{'] + INCLUDE(k) + ['\n}', S(), N()] for k in ('plain', 'absent', 'empty')] + [lambda: INCLUDE() + INCLUDE() + [S(), 'true']]
L = lambda t: S(text=t)
DOCS += [lambda v=v: [L(b'a'), ': ', N(), L(b'a')] + v() + [S(), 'iota'] for n, v in VALUES]
DOCS += [lambda v=v: [L(b'0'), ': ', N(), E()] + v() + [S(), 'iota'] for n, v in VALUES]
DOCS += [lambda v=v: [L(b'0'), '{', L(b'0')] + v() + ['} ', E()] + v() + [S(), 'iota'] for n, v in VALUES]
DOCS += [lambda: [' # c\n', S(), '/*x*/', N(), '// y'], lambda: ['\n\t', S(), ' : ', '# z\n', 'true', ' ,\n'], lambda: [S(), '{ #\n', S(), 'true /**/ }\n'], lambda: ['/* x']]


def big(name, docs, **kw):
    v = [dict(doc=d, ONEFAIL=len(d()) > 6, SOFT=400, MAXSTATES=400, MAXRET=400, DEPTH=6, STEPWISE=('cfg/cfg.c', 'lex/lex.c'), **kw) for d in docs]
    SPECS['harbol_cfg_' + name] = dict(roles=roles, pre=pre, post=p_parse, contracts=CON, variants=v, status=status_none, why=lambda P: [True], nofail=True)


big('parse_cstr', DOCS)
FILES = [DOCS[0], lambda: [S(), ': <file> ', S(), '<FILE>'], lambda: [S(), N()], lambda: INCLUDE() + [S(), '{', S(), '<file> iota'], lambda: ['# c\r', S(), '\tiota\r\n// x\r', S(), 'true // y\r\n', S(), '\t{', S(), 'iota}']]
big('parse_file', FILES, file=1)
