"""The lexing toolkit: scanners over a text, number and string lexers, UTF-8 conversion.

The token buffer a lexer fills is a string whose text is one region without a bound; appending
to it is modelled by harbol_string_add_char's specification (checked with the strings: C02)."""
from spec import *
from specs.str import STR, cstr_arg, file_role
from specs.common import outvar, deref
from interp import content_base
from specs.tuple import heap_block
from models import strlen_of, is_zero_at, m_memcpy

SPECS = {}
MODULE = 'lex'
CAP = 1 << 62


class TokShape(Shape):
    struct = 'HarbolString'

    def fill(self, cx, st, rid, off, name, mode):
        C, L = (cx.p.off(self.struct, f) for f in ('cstr', 'len'))
        t = cx.region(st, 'user', None, Base('opaque'), name='text of the token', token=1)
        cx.put(st, rid, addc(off, C), 8, VP(t))
        cx.put(st, rid, addc(off, L), 8, ('i', 64, cx.ghost('toklen', 0, CAP), 'u'))
        return [st]

    def check(self, cx, P, st, rid, off, name):
        pass

    def unchanged(self, cx, P, o):
        pass


TOK = TokShape()


def token(eng, st, p):
    """-> (struct offsets, text pointer, length) when p is the token buffer"""
    if p[0] != 'p' or p[1] <= 0:
        return None
    C, L = eng.p.off('HarbolString', 'cstr'), eng.p.off('HarbolString', 'len')
    c = st.mem[p[1]].content
    (s, t), = eng.read(st, c, addc(p[2], C), 8, TP, p[1])[:1]
    if t[0] != 'p' or t[1] <= 0 or not st.mem[t[1]].attr.get('token'):
        return None
    (s, l), = eng.read(s, c, addc(p[2], L), 8, T64, p[1])[:1]
    return s, t, eng.toU(s, l)


def append(eng, st, a, n, put):
    r = token(eng, st, a[0])
    if r is None:
        return None
    s, t, l = r
    s = s.copy()
    put(s, t, l)
    s.cons.addrow(GE, sub(K(CAP + CAP // 2), add(l, n)))
    eng.write(s, a[0][1], addc(a[0][2], eng.p.off('HarbolString', 'len')), 8, ('i', 64, add(l, n), 'u'))
    return [(s, ('i', 1, ONE, 'u'))]


def c_add_char(eng, st, a, i):
    v = a[1]
    if v[0] == 'undef':
        eng.report('uninit', 'an uninitialised character is added', st, 'uninit')
    if v[0] == 'i' and v[1] != 8:
        v = eng.trunc(st, v, 8)
    return append(eng, st, a, ONE, lambda s, t, l: eng.write(s, t[1], l, 1, v))


def c_add_cstr(eng, st, a, i):
    if token(eng, st, a[0]) is None:
        return None
    out = []
    for s, n in strlen_of(eng, st, a[1], 'harbol_string_add_cstr'):
        def put(s, t, l):
            if not s.eq(n, ZERO):
                eng.copyrange(s, t[1], l, n, a[1][1], a[1][2])
        out += append(eng, s, a, n, put) or []
    return out


def c_replace(eng, st, a, i):
    """another well-formed text in place of the old one, or nothing done"""
    if token(eng, st, a[0]) is not None or a[0][0] != 'p' or a[0][1] <= 0:
        return None
    C, L = eng.p.off('HarbolString', 'cstr'), eng.p.off('HarbolString', 'len')
    c = st.mem[a[0][1]].content
    out = [(st.copy(), ('i', 1, ZERO, 'u'))]
    for s, t in eng.read(st.copy(), c, addc(a[0][2], C), 8, TP, a[0][1]):
        if t[0] != 'p' or t[1] <= 0:
            continue
        s = s.copy()
        s.mem[t[1]] = s.mem[t[1]].with_(live=0)
        n = newsym('len', 0, PTRDIFF - 1)
        rid = eng.new_region(s, 'heap', addc(n, 1), Base('cstr', len=n), name='text', of=a[0][1])
        eng.write(s, a[0][1], addc(a[0][2], C), 8, VP(rid))
        eng.write(s, a[0][1], addc(a[0][2], L), 8, ('i', 64, n, 'u'))
        out.append((s, ('i', 1, ONE, 'u')))
    return out


def c_escape(eng, st, a, i):
    """reads an escape: stops in the rest of the text, behind a character when one was read"""
    p, e = a[0], a[1]
    if p[0] != 'p' or p[1] <= 0 or e[0] != 'p' or e[1] <= 0 or getattr(st.mem[p[1]].content, 'kind', None) != 'cstr':
        return None
    L = st.mem[p[1]].content.len
    if not st.ge(sub(L, p[2]), ZERO) or not st.ge(p[2], ZERO):
        eng.report('oob', 'an escape is read behind the end of the text', st, 'escape')
        return []
    out = []
    for k in (0, 1):
        s = eng.access(st.copy(), e, K(8), 'w')
        if s is None:
            return []
        n = newsym('read', k, PTRDIFF)
        if not s.assume(GE, sub(L, add(p[2], n))):
            continue
        eng.write(s, e[1], e[2], 8, VP(p[1], add(p[2], n)))
        r = fresh_i(32, 'rune', 's') if k else VI(32, K((1 << 32) - 1))
        if k and not s.assume(NE, addc(r[2], 1)):
            continue
        out.append((s, r))
    return out


def c_write_utf8(eng, st, a, i):
    """the UTF-8 form of a rune is appended, or a part of it"""
    if token(eng, st, a[0]) is None:
        return None
    if a[1][0] == 'undef':
        eng.report('uninit', 'an uninitialised rune is written', st, 'uninit')
    n = newsym('bytes', 0, 4)
    return [(s, fresh_i(1, 'written')) for s, _ in append(eng, st, a, n, lambda s, t, l: None)]


def c_file_buffer(eng, st, a, i):
    """make_buffer_from_file (H02): nothing, or an owned buffer with a terminator behind what was read"""
    s = eng.access(st.copy(), a[1], K(8), 'w')
    if s is None:
        return []
    out = []
    f = s.copy()
    eng.write(f, a[1][1], a[1][2], 8, fresh_i(64, 'bytes'))
    out.append((f, NULLP))
    out.append((s.copy(), NULLP))
    n, m = newsym('filesize', 1, PTRDIFF - 1), newsym('bytes read', 0, PTRDIFF - 1)
    if s.assume(GE, sub(n, m)):
        rid = eng.new_region(s, 'heap', addc(n, 1), Base('strbuf', len=m), name='contents of the file')
        eng.write(s, a[1][1], a[1][2], 8, ('i', 64, m, 'u'))
        out.append((s, VP(rid)))
    return out


def c_rune_len(eng, st, a, i):
    """get_str_rune_len (checked below): at most as many runes as characters, none only in an empty text"""
    out = []
    for s, n in strlen_of(eng, st, a[0], 'get_str_rune_len'):
        r = newsym('runes', 0, PTRDIFF)
        if not s.assume(GE, sub(n, r)) or not s.assume(GE, sub(scale(r, PTRDIFF), n)):
            continue
        out.append((s, ('i', 64, r, 'u')))
    return out


def c_part(eng, st, a, i):
    """a number lexer (checked on its own): appends to the token, stops in the rest of the text"""
    p, e = a[0], a[1]
    if p[0] != 'p' or p[1] <= 0 or e[0] != 'p' or e[1] <= 0 or getattr(content_base(st.mem[p[1]].content), 'kind', None) != 'cstr' or token(eng, st, a[2]) is None:
        return None
    L = content_base(st.mem[p[1]].content).len
    if not st.ge(sub(L, p[2]), ZERO) or not st.ge(p[2], ZERO):
        eng.report('oob', 'a number is read behind the end of the text', st, 'part')
        return []
    s = eng.access(st.copy(), e, K(8), 'w')
    if s is not None and len(a) > 3:
        s = eng.access(s, a[3], K(1), 'w')
    if s is None:
        return []
    n = newsym('read', 0, PTRDIFF)
    if not s.assume(GE, sub(L, add(p[2], n))):
        return []
    out = []
    for s1, _ in append(eng, s, [a[2]], newsym('chars', 0, PTRDIFF), lambda *x: None):
        eng.write(s1, e[1], e[2], 8, VP(p[1], add(p[2], n)))
        if len(a) > 3:
            eng.write(s1, a[3][1], a[3][2], 1, ('i', 8, newsym('is_float', 0, 1), 'u'))
        out.append((s1, fresh_i(32, 'result')))
    return out


PARTS = ['lex_%s_style_%s' % (a, b) for a in ('c', 'go') for b in ('hex', 'octal', 'binary', 'decimal')]
ESCAPES = ('lex_hex_escape_char', 'lex_octal_escape_char', 'lex_unicode_char')
CONTRACTS = {'write_utf8_str': c_write_utf8, 'make_buffer_from_file': c_file_buffer, 'harbol_string_replace_cstr': c_replace, 'harbol_string_add_char': c_add_char, 'harbol_string_add_cstr': c_add_cstr}


# ------------------------------------------------------------------ roles
def text(cx, st, name, L=None, const=True, size=None, kind='cstr', opts={}):
    L = newsym('strlen(%s)' % name, 0, PTRDIFF - 1) if L is None else L
    rid = cx.region(st, 'param', addc(L, 1), Base(kind, len=L), name=name, const=const)
    cx.g['len:' + name], cx.g['rid:' + name] = L, rid
    if name == 'str' and 'mark' in opts:
        # some place in the text holds a given character
        g = cx.g['mark'] = newsym('mark', 0, PTRDIFF - 1)
        if not st.assume(GE, addc(sub(L, g), -1)):
            return []
        cx.put(st, rid, g, 1, VI(8, K(opts['mark'])))
    return [(st, VP(rid), None)]


def rune_read(eng, st, b, off, n, t, rid):
    end = scale(b.count, 4)
    out = []
    s = st.copy()
    if s.assume(EQ, sub(off, end)):
        out.append((s, VI(32, ZERO)))
    s = st.copy()
    if s.assume(GE, addc(sub(end, off), -4)):
        out.append((s, ('i', 32, newsym('rune', 1, (1 << 32) - 1), 'u')))
    s = st.copy()
    if s.assume(GE, addc(sub(off, end), -1)):
        out.append((s, fresh_i(32, 'rune')))
    return out


def runes(cx, st, name):
    L = newsym('runes(%s)' % name, 0, PTRDIFF >> 3)
    rid = cx.region(st, 'param', addc(scale(L, 4), 4), Base('lazy', handler=rune_read, count=L), name=name, const=True)
    cx.g['len:' + name], cx.g['rid:' + name] = L, rid
    return [(st, VP(rid), None)]


def roles(cx, st, name, ty, fn, opts):
    if ty == 'struct HarbolString*' and fn.base == 'lex_fix_newlines':
        return [(s, VP(o.rid), o) for s, o in STR.new(cx, st, name, 'mut')]
    if ty == 'struct HarbolString*':
        return [(s, VP(o.rid), o) for s, o in TOK.new(cx, st, name, 'mut')]
    if ty == 'struct HarbolString const*':
        return [(s, VP(o.rid), o) for s, o in STR.new(cx, st, name, 'const')]
    if name == 'control' and 'mark' in opts:
        return [(st, VI(32, K(opts['mark'])), None)]
    if name == 'buf':
        rid = cx.region(st, 'param', cx.ghost('buflen', 0, PTRDIFF), Base('opaque'), name=name)
        return [(st, VP(rid), None)]
    if name == 'buflen':
        return [(st, ('i', 64, cx.ghost('buflen', 0, PTRDIFF), 'u'), None)]
    if name == 'len':
        # at most the characters of the text and its end
        n = newsym('len', 0, PTRDIFF)
        st.cons.addrow(GE, addc(sub(cx.g['len:str'], n), 1))
        return [(st, ('i', 64, n, 'u'), None)]
    if ty in ('char const*', 'char*'):
        return text(cx, st, name, const='const' in ty, opts=opts)
    if ty == 'int const*':
        return runes(cx, st, name)
    if name in ('end_len', 'quote_len'):
        return [(st, ('i', 64, cx.g['len:' + ('end_token' if name == 'end_len' else 'quote')], 'u'), None)]
    if name in ('cstr_len', 'cstrlen') and ty == 'unsigned long':
        return [(st, ('i', 64, cx.g['len:cstr'], 'u'), None)]
    if ty in ('char const**', 'char**'):
        out = outvar(cx, st, name)
        if fn.base.endswith('int'):
            out.insert(0, (st.copy(), NULLP, None))
        return out
    if ty in ('unsigned int*', '_Bool*', 'int*', 'unsigned long*'):
        n = {'_Bool*': 1, 'unsigned long*': 8}.get(ty, 4)
        return outvar(cx, st, name, n, 'opaque' if name in ('lines', 'line', 'is_float', 'idx') else 'uninit')
    if ty == 'fn*':
        rid = cx.region(st, 'user', None, Base('opaque'), name=name)
        return [(st, VP(rid), None)]
    if ty in ('struct _IO_FILE*', 'FILE*'):
        return file_role(cx, st, name)
    if ty == 'struct LexingRules const*':
        rid = cx.region(st, 'param', K(cx.p.size('LexingRules')), Base('opaque'), name=name, const=True)
        return [(st, VP(rid), None)]
    return scalar(cx, st, name, ty)


def spec(name, roles=roles, **kw):
    kw.setdefault('status', status_none)
    c = dict(CONTRACTS)
    if name not in ESCAPES:
        c.update({f: c_escape for f in ESCAPES})
    if name.endswith('_number') or name.endswith('_octal'):
        c.update({f: c_part for f in PARTS if f != name})
    if name != 'get_str_rune_len':
        c['get_str_rune_len'] = c_rune_len
    SPECS[name] = dict(roles=roles, contracts=c, **kw)


# ------------------------------------------------------------------ character classes
def member(sets):
    """the class holds exactly the given ranges"""
    def post(P):
        c = P.eng.toS(P.st, P.args[0])
        v = P.retu()
        lo = -(1 << 31)
        for a, b in sorted(sets) + [(1 << 31, None)]:
            for Q in P.cases((GE, addc(c, -lo)), (GE, sub(K(a - 1), c))):
                Q.eq('retval', 'class', v, ZERO, 'accepts a character outside its class')
            if b is None:
                break
            for Q in P.cases((GE, addc(c, -a)), (GE, sub(K(b), c))):
                Q.eq('retval', 'class', v, ONE, 'rejects a character of its class')
            lo = b + 1
    return post


def R(s):
    out = []
    for x in s.split():
        a, b = (x[0], x[-1])
        out.append((ord(a), ord(b)))
    return out


MIN = -(1 << 31)
DEC, LOW, UPP = R('0-9'), R('a-z'), R('A-Z')
spec('is_alphabetic', post=member(LOW + UPP + R('_') + [(MIN, -2)]))
spec('is_possible_id', post=member(LOW + UPP + R('_') + DEC + [(MIN, -2)]))
spec('is_decimal', post=member(DEC))
spec('is_octal', post=member(R('0-7')))
spec('is_hex', post=member(DEC + R('a-f A-F')))
spec('is_binary', post=member(R('0-1')))
spec('is_whitespace', post=member([(9, 13), (32, 32)]))
spec('is_valid_unicode', post=member(R('$ @ `') + [(MIN, -1), (0xA0, 0xD7FF), (0xE000, (1 << 31) - 1)]))


# ------------------------------------------------------------------ scanners
def inside(P, v, name='str', what='returns a place'):
    """v points into the text, not behind its end"""
    rid, L = P.cx.g['rid:' + name], P.cx.g['len:' + name]
    if v[0] != 'p' or v[1] != rid:
        P.fail('retval', 'inside', what + ' outside the text')
        return False
    return P.prove('retval', 'inside', v[2], what + ' before the text') and \
        P.prove('retval', 'inside', sub(L, v[2]), what + ' behind the end of the text')


def p_skip(P):
    inside(P, P.ret)


def end_of(P, k=1):
    return [(P.at(s), v) for s, v in deref(P, k, TP)]


def p_end(P):
    for Q, v in end_of(P):
        if v[0] == 'undef':
            Q.fail('retval', 'end', 'does not tell where it stopped')
        elif inside(Q, v, what='stops') and P.entry.fn.base in ESCAPES:
            for R_ in Q.cases((NE, addc(P.eng.toS(Q.st, P.ret), 1))):
                R_.prove('retval', 'consumed', addc(v[2], -1), 'reads an escape without consuming a character')


for f in ('skip_chars', 'skip_chars_until_newline', 'skip_string_literal', 'skip_single_line_comment', 'skip_multi_line_comment',
          'skip_multiquote_string', 'clear_single_line_comment', 'clear_multi_line_comment'):
    spec(f, post=p_skip)
LEXERS = ['lex_single_line_comment', 'lex_multi_line_comment', 'lex_multiquote_string', 'lex_until_false', 'lex_until_false_utf8', 'lex_c_style_identifier',
          'lex_until', 'lex_custom_number', 'lex_hex_escape_char', 'lex_octal_escape_char', 'lex_unicode_char', 'lex_c_style_str', 'lex_go_style_str']
LEXERS += ['lex_%s_style_%s' % (a, b) for a in ('c', 'go') for b in ('hex', 'octal', 'binary', 'decimal', 'number')]
for f in LEXERS:
    spec(f, post=p_end, variants=[{'SOFT': 24}] if f.endswith('style_str') else [{'PEEL': 1}] if f in ESCAPES or '_style_decimal' in f or '_style_number' in f else [{'MAXRET': 16, 'SOFT': 20}])
for f in ('lex_c_string_to_int', 'lex_go_string_to_int', 'lex_c_string_to_uint', 'lex_go_string_to_uint', 'lex_string_to_float', 'lex_get_err',
          'lex_fix_newlines', 'convert_runes_to_base_int', 'convert_runes_to_base_uint', 'convert_cstr_to_base_int', 'convert_cstr_to_base_uint', 'runes_from_stream',
          'get_utf8_len', 'find_rune_in_runes', 'has_rune_in_runes', 'check_is_char', 'check_is_rune', 'rune_byte_len',
          'write_utf8_cstr', 'write_utf8_str', 'read_utf8', 'read_utf8_rune', 'utf8_cstr_to_rune', 'utf8_str_to_rune', 'rune_to_utf8_cstr', 'rune_to_utf8_str',
          'utf8_to_rune_iter'):
    spec(f, variants=[{'MAXRET': 16, 'SOFT': 20}] if 'utf8' in f or 'runes_from' in f else [{}])


def p_rune_len(P):
    L = P.cx.g['len:cstr']
    r = P.retu()
    P.prove('count', 'runes', sub(L, r), 'counts more runes than characters')
    for Q in P.cases((EQ, L)):
        Q.eq('count', 'runes', r, ZERO, 'counts a rune in an empty text')
    for Q in P.cases((GE, addc(L, -1))):
        Q.prove('count', 'runes', addc(r, -1), 'counts no rune in a text')


spec('get_str_rune_len', post=p_rune_len, variants=[{'MAXRET': 16, 'SOFT': 20, 'PEEL': 1}])


# ------------------------------------------------------------------ UTF-8
FORMS = [(1, 0, 0x7F, 0), (2, 0x80, 0x7FF, 0xC0), (3, 0x800, 0xFFFF, 0xE0), (4, 0x10000, 0x10FFFF, 0xF0)]


def byte_at(P, p, off, content=None):
    """-> [(Post, unsigned value of the byte)]"""
    c = P.st.mem[p[1]].content if content is None else content
    out = []
    P.eng.silent += 1
    try:
        for s, v in P.eng.read(P.st.copy(), c, add(p[2], off), 1, T8_, p[1]):
            out.append((P.at(s), P.eng.toU(s, v) if v[0] == 'i' else None))
    finally:
        P.eng.silent -= 1
    return out


def bytes_at(P, p, off, n, content=None):
    out = [(P, [])]
    for i in range(n):
        out = [(R_, bs + [b]) for Q, bs in out for R_, b in byte_at(Q, p, addc(off, i), content)]
    return out


def encoded(P, r, p, off, what):
    """the bytes at p + off are the UTF-8 form of the rune r, per range of r; -> [(Post, length)]"""
    out = []
    for n, lo, hi, lead in FORMS:
        for Q in P.cases((GE, addc(r, -lo)), (GE, sub(K(hi), r))):
            for R_, bs in bytes_at(Q, p, off, n):
                R_.entry.obligations += 1
                if any(b is None for b in bs):
                    R_.fail('content', 'utf8', what + ' is not written')
                    continue
                v = addc(bs[0], -lead)
                ok = True
                for b in bs[1:]:
                    ok = ok and R_.prove('content', 'utf8', addc(b, -0x80), what + ': a continuation byte is out of range') \
                        and R_.prove('content', 'utf8', sub(K(0xBF), b), what + ': a continuation byte is out of range')
                    v = add(scale(v, 64), addc(b, -0x80))
                if ok:
                    R_.eq('content', 'utf8', v, r, what + ' is not the UTF-8 form of the rune')
            out.append((Q, K(n)))
    for Q in P.cases((GE, addc(r, -0x110000))):
        out.append((Q, ZERO))
    return out


def p_byte_len(P):
    r = P.eng.toS(P.st, P.args[0])
    for n, lo, hi, lead in FORMS:
        for Q in P.cases((GE, addc(r, -lo)), (GE, sub(K(hi), r))):
            Q.eq('retval', 'length', Q.retu(), K(n), 'wrong number of bytes for a rune')
    for Q in P.cases((GE, addc(r, -0x110000))):
        Q.eq('retval', 'length', Q.retu(), ZERO, 'gives a length to what is no rune')


def p_write_cstr(P):
    r = P.eng.toS(P.st, P.args[2])
    n = P.retu()
    for Q in P.cases((GE, addc(n, -1))):
        for R_, k in encoded(Q, r, P.args[0], ZERO, 'what is written'):
            R_.eq('retval', 'length', n, k, 'returns another length than it wrote')
    for Q in P.cases((EQ, n), (GE, r)):
        # refused: no room, or no rune
        b = P.eng.toU(P.st, P.args[1])
        for m, lo, hi, lead in FORMS:
            for R_ in Q.cases((GE, addc(r, -lo)), (GE, sub(K(hi), r))):
                R_.prove('status', 'refuses', sub(K(m - 1), b), 'refuses to write a rune that fits')


def p_write_str(P):
    r = P.eng.toS(P.st, P.args[1])
    l0, l1 = P.f0('str', 'len'), P.f1('str', 'len')
    for Q in P.cases((EQ, addc(P.retu(), -1)), (GE, r)):
        for R_, k in encoded(Q, r, P.f1('str', 'cstr'), l0, 'what is appended'):
            R_.eq('content', 'length', l1, add(l0, k), 'appends another number of bytes')


def lead_len(P, c):
    """-> [(Post, length the lead byte c announces)] for the valid ones"""
    out = []
    for lo, hi, n in ((0, 0x7F, 1), (0xC0, 0xDF, 2), (0xE0, 0xEF, 3), (0xF0, 0xF7, 4)):
        for Q in P.cases((GE, addc(c, -lo)), (GE, sub(K(hi), c))):
            out.append((Q, n, lo))
    return out


def p_utf8_len(P):
    c = P.eng.toU(P.st, P.args[0])
    for Q, n, lo in lead_len(P, c):
        Q.eq('retval', 'length', Q.retu(), K(n), 'wrong length for a lead byte')
    Q = P
    Q.prove('retval', 'range', addc(P.retu(), -1), 'a character without bytes')
    Q.prove('retval', 'range', sub(K(8), P.retu()), 'a character of more than 8 bytes')


def decoded(P, p, avail, rune_of, len_of):
    """rune_of(P) is the rune at p when `avail` bytes suffice for it (len_of: the bytes it took)"""
    for Q, bs in bytes_at(P, p, ZERO, 1, P.e.mem[p[1]].content):
        for R_ in Q.cases((EQ, bs[0])):
            if len_of:
                R_.eq('retval', 'length', len_of(R_), ZERO, 'takes bytes at the end of the text')
        for R_, n, lead in lead_len(Q, bs[0]):
            S0 = R_.cases((GE, addc(bs[0], -1)))
            for S in S0:
                for T in S.cases((GE, addc(sub(K(n), avail), -1))):
                    if len_of:
                        T.eq('retval', 'length', len_of(T), ZERO, 'takes a character that is cut off')
                for T in S.cases((GE, addc(avail, -n))):
                    for U, cs in bytes_at(T, p, ZERO, n, P.e.mem[p[1]].content):
                        v = addc(cs[0], -lead)
                        st = U.st
                        conds = []
                        for b in cs[1:]:
                            conds += [(GE, addc(b, -0x80)), (GE, sub(K(0xBF), b))]
                            v = add(scale(v, 64), addc(b, -0x80))
                        for V in U.cases(*conds) if conds else [U]:
                            if len_of:
                                V.eq('retval', 'length', len_of(V), K(n), 'takes another number of bytes than the character has')
                            x = rune_of(V)
                            if x is not None:
                                V.eq('retval', 'rune', x, v, 'reads another rune than the text holds')


def p_read_utf8(P):
    def rune_of(Q):
        (s, v), = P.cx.eng.read(Q.st.copy(), Q.st.mem[P.args[2][1]].content, P.args[2][2], 4, {'k': 'i', 'b': 32}, P.args[2][1])[:1]
        return P.eng.toU(Q.st, v)
    decoded(P, P.args[0], P.eng.toU(P.st, P.args[1]), rune_of, lambda Q: Q.retu())


def p_read_rune(P):
    decoded(P, P.args[0], P.eng.toU(P.st, P.args[1]), lambda Q: Q.eng.toU(Q.st, Q.ret), None)


spec('rune_byte_len', post=p_byte_len)
spec('write_utf8_cstr', post=p_write_cstr, variants=[{'MAXRET': 24, 'SOFT': 24}])
SPECS['write_utf8_str'] = dict(roles=roles, contracts={k: v for k, v in CONTRACTS.items() if k != 'write_utf8_str'}, status=status_none, post=p_write_str)
spec('get_utf8_len', post=p_utf8_len, variants=[{'MAXRET': 16, 'SOFT': 20}])
spec('read_utf8', post=p_read_utf8, variants=[{'MAXRET': 16, 'SOFT': 20}])
spec('read_utf8_rune', post=p_read_rune, variants=[{'MAXRET': 16, 'SOFT': 20}])


# ------------------------------------------------------------------ where the scanners stop, what the tokens hold
def stops(P, v, among, msg):
    """the character at v is the end of the text or one of `among` (values)"""
    for Q, b in byte_at(P, v, ZERO):
        Q.entry.obligations += 1
        st = Q.st
        poss = [Q]
        for x in [ZERO] + among:
            poss = [R_ for S in poss for R_ in S.cases((NE, sub(b, x)))]
        if poss:
            Q.fail('retval', 'stop', msg)


def token_is(P, v, msg):
    """the token was extended by exactly the characters up to v"""
    l0, l1 = P.f0('buf', 'len'), P.f1('buf', 'len')
    if v[0] != 'p' or v[1] != P.args[0][1]:
        return
    if P.eq('content', 'token', sub(l1, l0), v[2], msg + ': another number of characters'):
        P.same_bytes('content', 'token', P.f1('buf', 'cstr'), l0, P.args[0][1], ZERO, v[2], msg)


def not_in(P, v, ranges, msg):
    for Q, b in byte_at(P, v, ZERO):
        c = Q.eng.toS(Q.st, VI(8, b, 'u'))
        for lo, hi in ranges:
            Q.entry.obligations += 1
            if Q.cases((GE, addc(c, -lo)), (GE, sub(K(hi), c))):
                Q.fail('retval', 'stop', msg)
                return


def first(P, v):
    """not behind the marked character"""
    P.prove('retval', 'first', sub(P.cx.g['mark'], v[2]), 'goes past a character it has to stop at')


NL = [K(10)]


def p_skip_nl(P):
    if not inside(P, P.ret):
        return
    if 'mark' in P.cx.opts:
        first(P, P.ret)


def p_skip_line(P):
    if inside(P, P.ret):
        stops(P, P.ret, NL, 'stops inside the line')


def p_skip_lit(P):
    if not inside(P, P.ret):
        return
    for Q, b in byte_at(P, P.args[0], ZERO):
        stops(Q, P.ret, [b], 'stops inside the literal')


def p_clear(P):
    if not inside(P, P.ret):
        return
    a, L = P.args[0], P.cx.g['len:str']
    P.same_bytes('content', 'rest', a, P.ret[2], a[1], P.ret[2], sub(addc(L, 1), P.ret[2]), 'text behind the comment was changed')
    s = P.st.copy()
    k = newsym('k', 0, PTRDIFF)
    if s.assume(GE, addc(sub(P.ret[2], k), -1)):
        for Q, b in byte_at(P.at(s), a, k):
            Q.prove('content', 'cleared', b, 'the text is cut off inside the comment', NE)


def p_lex_until(P):
    p_end(P)
    ctl = P.eng.trunc(P.st, P.args[3], 8)
    for Q, v in end_of(P):
        if 'mark' in P.cx.opts:
            first(Q, v)
        else:
            stops(Q, v, [Q.eng.toU(Q.st, ctl)], 'stops before the control character')
        token_is(Q, v, 'the token is not the text up to the control character')


def p_until_false(P):
    p_end(P)
    for Q, v in end_of(P):
        token_is(Q, v, 'the token is not the text that was accepted')


def p_identifier(P):
    p_end(P)
    for Q, v in end_of(P):
        if 'mark' in P.cx.opts:
            first(Q, v)
        elif 'PEEL' in P.cx.opts:
            for R_ in Q.cases((GE, addc(P.retu(), -1))):
                not_in(R_, v, LOW + UPP + DEC + R('_') + [(-128, -2)], 'stops inside the identifier')
                R_.prove('retval', 'some', addc(v[2], -1), 'an identifier without characters')
            for R_ in Q.cases((EQ, P.retu())):
                R_.eq('retval', 'none', v[2], ZERO, 'takes characters that are no identifier')
                not_in(R_, P.args[0], LOW + UPP + R('_') + [(-128, -2)], 'refuses an identifier')
        if 'PEEL' not in P.cx.opts:
            token_is(Q, v, 'the token is not the identifier')


def p_line_comment(P):
    p_end(P)
    for Q, v in end_of(P):
        stops(Q, v, NL, 'stops inside the line')
        token_is(Q, v, 'the token is not the comment')


def p_multi(P):
    """the comment up to its end token, then the end token"""
    p_end(P)


spec('lex_until', post=p_lex_until, variants=[{}, {'mark': 59}])
spec('lex_until_false', post=p_until_false)
spec('lex_c_style_identifier', post=p_identifier, variants=[{}, {'PEEL': 1, 'SOFT': 24, 'MAXRET': 24}, {'mark': 32}, {'mark': 45}])
spec('lex_single_line_comment', post=p_line_comment)
spec('skip_chars_until_newline', post=p_skip_nl, variants=[{}, {'mark': 10}])
spec('skip_single_line_comment', post=p_skip_line)
spec('skip_string_literal', post=p_skip_lit)
spec('clear_single_line_comment', post=p_clear)
spec('clear_multi_line_comment', post=p_clear)


# ------------------------------------------------------------------ searches
def p_find_rune(P):
    v, L = P.retu(), P.cx.g['len:runes']
    for Q in P.cases((GE, addc(scale(v, -1), M64 - 1))):
        Q.prove('retval', 'inside', addc(sub(L, v), -1), 'finds a rune outside the runes')
        for s, x in P.eng.read(Q.st.copy(), Q.st.mem[P.args[0][1]].content, add(P.args[0][2], scale(v, 4)), 4, {'k': 'i', 'b': 32}, P.args[0][1]):
            R_ = Q.at(s)
            R_.eq('retval', 'found', P.eng.toU(s, x), P.eng.toU(s, P.args[1]), 'the rune found is another one')


def p_check(wd):
    def post(P):
        n, i = P.eng.toU(P.st, P.args[1]), P.eng.toU(P.st, P.args[2])
        v = P.retu()
        for Q in P.cases((GE, sub(i, n))):
            Q.eq('retval', 'outside', v, ZERO, 'says yes behind the length')
        for Q in P.cases((EQ, addc(v, -1))):
            for s, x in P.eng.read(Q.st.copy(), Q.st.mem[P.args[0][1]].content, add(P.args[0][2], scale(i, wd)), wd, {'k': 'i', 'b': 8 * wd}, P.args[0][1]):
                R_ = Q.at(s)
                R_.eq('retval', 'same', P.eng.toS(s, x), P.eng.toS(s, P.args[3]), 'says yes for another character')
                R_.prove('retval', 'end', P.eng.toU(s, x), 'says yes for the terminator', NE)
        for Q in P.cases((EQ, v), (GE, addc(sub(n, i), -1))):
            for s, x in P.eng.read(Q.st.copy(), Q.st.mem[P.args[0][1]].content, add(P.args[0][2], scale(i, wd)), wd, {'k': 'i', 'b': 8 * wd}, P.args[0][1]):
                R_ = Q.at(s)
                R_.entry.obligations += 1
                if R_.cases((NE, P.eng.toU(s, x)), (EQ, sub(P.eng.toS(s, x), P.eng.toS(s, P.args[3])))):
                    R_.fail('retval', 'no', 'says no for the character there')
    return post


def p_until_u8(P):
    p_end(P)


def p_base(P):
    """tells whether every character was a numeral"""
    for s, v in P.cx.get(P.st.copy(), P.args[3][1], P.args[3][2], {'k': 'i', 'b': 8}):
        P.entry.obligations += 1
        if v[0] != 'i':
            P.fail('retval', 'res', 'does not tell whether the text is a number')


spec('find_rune_in_runes', post=p_find_rune)
spec('check_is_char', post=p_check(1), variants=[{'MAXRET': 16}])
spec('check_is_rune', post=p_check(4), variants=[{'MAXRET': 16}])
for f in ('convert_runes_to_base_int', 'convert_runes_to_base_uint', 'convert_cstr_to_base_int', 'convert_cstr_to_base_uint'):
    spec(f, post=p_base)
