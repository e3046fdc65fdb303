"""Config documents.  A document is a map from key texts to variants; the tag says what the block of a
variant holds (a section owns a map, a text owns a string, the others hold the value itself).

Functions that look values up are analysed against every outcome of a look-up: no such key, a section,
a value of the wanted type, a text, another value.  They are given the paths in PATHS (every text of up to
four characters made of a letter, the dot and the backslash, and some longer ones), and have to look up
exactly the parts of the path, each in the section found before.

What is written of a document is followed piece by piece (characters, texts, numbers) for documents of up to
two entries of every kind; documents with any number of entries are followed for their memory."""
import itertools
import os
import re
from spec import *
from specs.str import STR, cstr_arg
from specs.common import outvar
from specs.map import Map0, Rec, PTRS
from specs.deque import word_index
from interp import content_base
from models import strlen_of, m_free

SPECS = {}
MODULE = 'cfg'
LIMIT = 3
VAR = 'HarbolVariant'
TYPES = {'Map': 8, 'String': 8, 'Float': 16, 'Int': 8, 'Bool': 1, 'Color': 4, 'Vec4D': 16, 'Null': 1}
NAMES = ['Null', 'Map', 'String', 'Float', 'Int', 'Bool', 'Color', 'Vec4D']
SPELT = ['ab', 's.k', 's.t.k', 'k.s.k', 's.k\\.x', 'section name.k', 's.longer_name', 's.k\\x.k']
PATHS = SPELT + [''.join(p) for n in range(5) for p in itertools.product('k.\\', repeat=n) if ''.join(p) not in SPELT]


def odd(path):
    """a path with an empty part, or one whose first dot is escaped: which value it names is left open"""
    i = path.find('.')
    return '.' in path and (i > 0 and path[i - 1] == '\\' or '' in parts(path)) or not path


def parts(path):
    if '.' not in path:
        return [path]
    out, cur, i = [], '', 0
    while i < len(path):
        if path[i] == '\\' and path[i + 1:i + 2] == '.':
            cur += '.'
            i += 2
        elif path[i] == '.':
            out.append(cur)
            cur = ''
            i += 1
        else:
            cur += path[i]
            i += 1
    return out + [cur]


def tagof(p, kind):
    return p.enums['HarbolCfgType']['HarbolCfgType_' + kind]


def log(st):
    return st.tags.get('log', ())


def add_log(st, *ev):
    st.tags['log'] = log(st) + (ev,)


class Found:
    """a value found in a section"""

    def __init__(self, **kw):
        self.__dict__.update(kw)


def a_map(eng, st, name='section'):
    return eng.new_region(st, 'heap', K(eng.p.size('HarbolMap')), Base('opaque'), name=name, site='entry')


def some_value(eng, st, kind, wanted=(), where='param'):
    """[(state, Found)]: a value of the given kind; 'other' is of none of the wanted types"""
    p = eng.p
    O = {f: p.off(VAR, f) for f in ('data', 'size', 'tag')}
    var = eng.new_region(st, where, K(p.size(VAR)), Base('opaque'), name='value found', site='entry')
    out = []
    if kind == 'other':
        tag = fresh_i(32, 'tag')
        s = st
        for w in wanted:
            if not s.assume(NE, addc(eng.toU(s, tag), -tagof(p, w))):
                return []
        n = newsym('size', 1, PTRDIFF)
        data = eng.new_region(s, 'heap', n, Base('opaque'), name='old value', site='entry')
        sts = [(s, None, tag, n, data)]
    else:
        n = K(TYPES[kind])
        data = eng.new_region(st, 'heap', n, Base('opaque'), name='old value', site='entry')
        sts = []
        tag = VI(32, K(tagof(p, kind)))
        if kind == 'Map':
            m = a_map(eng, st)
            eng.write(st, data, ZERO, 8, VP(m))
            sts.append((st, m, tag, n, data))
        elif kind == 'String':
            h = eng.new_region(st, 'heap', K(p.size('HarbolString')), Base('opaque'), name='old text', site='entry')
            eng.write(st, data, ZERO, 8, VP(h))
            for s in STR.fill(eng.cfg_cx, st, h, ZERO, 'old text', 'mut'):
                sts.append((s, h, tag, n, data))
        else:
            sts.append((st, None, tag, n, data))
    for s, to, tag, n, data in sts:
        eng.write(s, var, K(O['data']), 8, VP(data))
        eng.write(s, var, K(O['size']), 8, ('i', 64, n, 'u'))
        eng.write(s, var, K(O['tag']), 4, tag)
        d = {r: s.mem[r].content for r in (var, data, to) if r}
        t = None
        if kind == 'String':
            (_, t), = eng.read(s.copy(), s.mem[to].content, K(p.off('HarbolString', 'cstr')), 8, TP, to)[:1]
        out.append((s, Found(kind=kind, var=var, tag=tag, data=data, to=to, content=d, text=t)))
    return out


def key_bytes(eng, st, p, n):
    """the bytes of a key with a known length, or None"""
    if n[1] or n[0] > 16:
        return None
    out = []
    eng.silent += 1
    try:
        for k in range(n[0]):
            got = eng.read(st.copy(), st.mem[p[1]].content, addc(p[2], k), 1, T8_, p[1])
            if len(got) != 1 or got[0][1][0] != 'i' or got[0][1][2][1]:
                return None
            out.append(got[0][1][2][0] & 255)
    finally:
        eng.silent -= 1
    return bytes(out)


def is_section(eng, st, v, what):
    v = eng.models.ptr(eng, st, v)
    r = st.mem.get(v[1]) if v[0] == 'p' else None
    if r is None or v[1] <= 0 or r.attr.get('name') not in ('document', 'section') or not st.eq(v[2], ZERO):
        eng.report('wild', '%s something that is not a section of a config' % what, st, 'section')
        return None
    if r.live != 1:
        eng.report('uaf', '%s a section already freed' % what, st, 'section:freed')
        return None
    return v


def key_ok(eng, st, key, n):
    """the key is a text of n bytes, terminator included"""
    key = eng.models.ptr(eng, st, key)
    s = eng.access(st, key, n, 'r')
    if s is None:
        return None
    out = []
    for s2, c in eng.read(s, s.mem[key[1]].content, add(key[2], addc(n, -1)), 1, T8_, key[1]):
        if c[0] != 'i' or not s2.eq(eng.toU(s2, c), ZERO):
            eng.report('unterm', 'a key is looked up without its terminator', s2, 'key')
            return None
        out.append(s2)
    return key, out


def c_key_get(eng, st, a, i):
    m = is_section(eng, st, a[0], 'looks a key up in')
    if m is None:
        return []
    n = eng.toU(st, a[2])
    r = key_ok(eng, st, a[1], n)
    if r is None:
        return []
    key, sts = r
    out = []
    for s0 in sts:
        kb = key_bytes(eng, s0, key, n)
        ev = [e for e in log(s0) if e[0] == 'get']
        s = s0.copy()
        add_log(s, 'get', m, kb, None)
        out.append((s, NULLP))
        if len(ev) >= LIMIT:
            continue
        wanted = eng.cfg_kinds
        for k in tuple(wanted) + ('other',):
            s = s0.copy()
            for s2, f in some_value(eng, s, k, wanted):
                f.id = len(eng.cfg_found)
                eng.cfg_found[f.id] = f
                add_log(s2, 'get', m, kb, f.id)
                out.append((s2, VP(f.var)))
    return out


def c_free(eng, st, a, i):
    """harbol_cfg_free on a section"""
    ref = eng.models.ptr(eng, st, a[0])
    s = eng.access(st, ref, K(8), 'r')
    if s is None:
        return []
    out = []
    for s, v in eng.read(s, s.mem[ref[1]].content, ref[2], 8, TP, ref[1]):
        if v == NULLP:
            out.append((s, None))
            continue
        m = is_section(eng, s, v, 'frees')
        if m is None:
            continue
        for s2, _ in m_free(eng, s.copy(), [m], i):
            s3 = eng.access(s2, ref, K(8), 'w')
            if s3 is None:
                continue
            eng.write(s3, ref[1], ref[2], 8, NULLP)
            add_log(s3, 'free', m)
            out.append((s3, None))
    return out


def c_add_char(eng, st, a, i):
    """appends one character; running out of memory is looked at once on each path"""
    O = {f: eng.p.off('HarbolString', f) for f in ('cstr', 'len')}
    p = eng.models.ptr(eng, st, a[0])
    s = eng.access(st, p, K(eng.p.size('HarbolString')), 'w')
    if s is None:
        return []
    out = []
    for s1, t in eng.read(s, s.mem[p[1]].content, addc(p[2], O['cstr']), 8, TP, p[1]):
        for s2, l in eng.read(s1, s1.mem[p[1]].content, addc(p[2], O['len']), 8, T64, p[1]):
            if 'undef' in (t[0], l[0]):
                eng.report('uninit', 'a character is appended to an uninitialised text', s2, 'str')
                continue
            if not s2.tags.get('why'):
                z = s2.copy()
                z.tags['why'] = 1
                out.append((z, VI(1, ZERO)))
            l = eng.toU(s2, l)
            b = Base('uninit')
            rid = eng.new_region(s2, 'heap', addc(l, 2), b, name='text', fresh=True, fn=eng.stack[-1][0].base, line=eng.stack[-1][1].get('l', 0))
            if t != NULLP:
                r = s2.mem[t[1]]
                s2.mem[rid] = s2.mem[rid].with_(content=Entry('cp', ZERO, l, None, s2.mem[rid].content, r.content, t[2]))
                fr = m_free(eng, s2, [t], i)
                if not fr:
                    continue
            c = a[1] if a[1][1] == 8 else eng.trunc(s2, a[1], 8)
            eng.write(s2, rid, l, 1, c)
            eng.write(s2, rid, addc(l, 1), 1, VI(8, ZERO))
            eng.write(s2, p[1], addc(p[2], O['cstr']), 8, VP(rid))
            eng.write(s2, p[1], addc(p[2], O['len']), 8, ('i', 64, addc(l, 1), 'u'))
            out.append((s2, VI(1, ONE)))
    return out


CON = {'harbol_map_key_get': c_key_get, 'harbol_cfg_free': c_free, 'harbol_string_add_char': c_add_char}


def roles(cx, st, name, ty, fn, opts):
    if ty.startswith('struct HarbolMap') and not ty.endswith('**'):
        rid = cx.region(st, 'param', K(cx.p.size('HarbolMap')), Base('opaque'), name='document')
        cx.g['doc'] = rid
        return [(st, VP(rid), None)]
    if ty == 'char const*' and name in ('key', 'keypath', 'path'):
        path = opts.get('path')
        if path is None:
            return cstr_arg(cx, st, 'key', False)
        b = path.encode() + b'\0'
        rid = cx.region(st, 'param', K(len(b)), Base('bytes', cells={}, bytes=dict(enumerate(b))), name='key', const=True)
        return [(st, VP(rid), None)]
    if ty == 'char const*' or name == 'str.coerce0':
        return cstr_arg(cx, st, 'text', name == 'str.coerce0')
    if name == 'str.coerce1':
        a = cx.args_so_far
        return [(st, ('i', 64, cx.g['len:text'], 'u'), None)]
    if ty.startswith('struct HarbolVec4D'):
        return [(st, ('f', Syms.new('fl', None, None)), None)]
    if ty.startswith('union HarbolColor'):
        return [(st, fresh_i(32, name), None)]
    if ty == 'unsigned long*':
        return outvar(cx, st, name, 8)
    if ty == 'fn*':
        return [(st.copy(), NULLP, None), (st, VP(cx.region(st, 'user', None, Base('opaque'), name=name)), None)]
    if ty == 'void*':
        return [(st, VP(cx.region(st, 'user', None, Base('opaque'), name=name)), None)]
    return scalar(cx, st, name, ty)


def pre(cx, st, args, objs, fn):
    cx.eng.cfg_kinds = cx.opts['kinds']
    cx.eng.cfg_cx = cx
    cx.eng.cfg_found = getattr(cx.eng, 'cfg_found', {})
    return st


def variants(*kinds, paths=PATHS, **kw):
    ks = tuple(dict.fromkeys(('Map',) + kinds))
    kw = dict(dict(SOFT=200, MAXSTATES=200, MAXRET=200), **kw)
    return [dict(kw, kinds=ks if p is None or '.' in p else ks, path=p) for p in paths]


def spec(name, **kw):
    SPECS['harbol_cfg_' + name] = dict(dict(roles=roles, pre=pre, contracts=CON, why=lambda P: [True]), **kw)


# ------------------------------------------------------------------ what was looked up
def lookups(P):
    """the value the path names (Found or None), or 'any' when the path is not followed to its end"""
    ev = [e for e in log(P.st) if e[0] == 'get']
    path = P.cx.opts['path']
    fail = lambda m: P.fail('content', 'path', m)
    at = P.args[0]
    P.entry.obligations += 1 + len(ev)
    last = None
    for k, e in enumerate(ev):
        if not ptr_same(P.st, e[1], at):
            fail('a key is looked up in another section than the one the path leads to')
            return 'bad'
        last = P.eng.cfg_found[e[3]] if e[3] is not None else None
        at = VP(last.to) if last is not None and last.kind == 'Map' else NULLP
    if path is None or odd(path):
        return 'any'
    want = [w.encode() + b'\0' for w in parts(path)]
    for k, e in enumerate(ev):
        if k >= len(want):
            fail('more keys are looked up than the path "%s" has' % path)
            return 'bad'
        if e[2] != want[k]:
            if e[2] is None and not os.environ.get('VERIF_TRACE') or e[2] is not None:
                fail('the path "%s" looks up %s as its key number %d' % (path, e[2] and e[2][:-1].decode(errors='replace'), k + 1))
            return 'bad'
    if P.st.tags.get('why') and len(ev) < len(want) and (last is None or last.kind == 'Map'):
        return None
    if len(ev) < len(want):
        if not ev or last is not None and last.kind == 'Map':
            fail('the path "%s" is not followed to its end' % path)
            return 'bad'
        return None
    return last


def plain(P):
    path = P.cx.opts['path']
    return path is None or '.' not in path


def getter(kind):
    def post(P):
        v = lookups(P)
        if v == 'bad':
            return
        P.entry.obligations += 1
        r = P.ret
        if kind == 'type':
            U = P.eng.toU(P.st, r)
            none = (1 << 32) - 1
            if v == 'any':
                return
            if v is None:
                P.eq('retval', 'absent', U, K(none), 'a key that is not there has a type')
            elif v.kind == 'other' or v.kind == 'Null':
                # a null value found by its plain name counts as not there
                s = P.st
                t = P.eng.toU(s, v.tag)
                null = s.eq(t, ZERO)
                if not s.eq(U, t) and not (plain(P) and null and s.eq(U, K(none))):
                    P.fail('retval', 'type', 'the type returned is not that of the value')
            else:
                P.eq('retval', 'type', U, P.eng.toU(P.st, v.tag), 'the type returned is not that of the value')
            return
        isnull = r[0] == 'p' and r[1] == 0
        if isnull:
            if P.cx.opts.get('cstr') and v not in ('any', None) and v.kind == kind and v.text == NULLP:
                for s, n in P.cx.get(P.st.copy(), P.args[2][1], ZERO, T64):
                    if n[0] == 'undef' or not s.eq(P.eng.toU(s, n), ZERO):
                        P.fail('retval', 'len', 'the length given is not that of the text')
            elif v not in ('any', None) and v.kind == kind:
                P.fail('retval', 'found', 'a value of the type asked for is not found')
            return
        if v == 'any':
            ev = [e for e in log(P.st) if e[0] == 'get']
            v = P.eng.cfg_found[ev[-1][3]] if ev and ev[-1][3] is not None else None
        if v is None:
            P.fail('retval', 'absent', 'a value is returned for a key that is not there')
            return
        if v.kind != kind:
            P.fail('retval', 'type', 'what is returned is not of the type asked for')
            return
        want = {'Map': lambda: VP(v.to), 'String': lambda: VP(v.to)}.get(kind, lambda: VP(v.data))()
        if P.cx.opts.get('cstr'):
            want = v.text
        if not ptr_same(P.st, r, want):
            P.fail('retval', 'value', 'what is returned is not the value found')
        if P.cx.opts.get('cstr'):
            o = P.args[2]
            (_, l0), = P.cx.fld(P.st.copy(), 'HarbolString', 'len', v.to, content=v.content[v.to])[:1]
            for s, n in P.cx.get(P.st.copy(), o[1], ZERO, T64):
                if n[0] == 'undef' or not s.eq(P.eng.toU(s, n), P.eng.toU(s, l0)):
                    P.fail('retval', 'len', 'the length given is not that of the text')
        kept(P, v)
    return post


def kept(P, v):
    """the value found is as it was"""
    for r, c in v.content.items():
        P.entry.obligations += 1
        m = P.st.mem[r]
        if m.live != 1 or m.content is not c and not content_eq(P, r, c):
            P.fail('content', 'kept', 'the value found was changed or freed')
            return


def content_eq(P, r, c):
    e = P.st.copy()
    e.mem[r] = e.mem[r].with_(content=c)
    return content_same(P.eng, e, P.st, r)


def getters():
    for n, k in (('section', 'Map'), ('str', 'String'), ('float', 'Float'), ('int', 'Int'), ('bool', 'Bool'), ('color', 'Color'), ('vec4D', 'Vec4D')):
        spec('get_' + n, variants=variants(k), post=getter(k))
    spec('get_cstr', variants=variants('String', cstr=1), status=status_none, post=getter('String'))
    spec('get_type', variants=variants('String', 'Null', 'Int'), status=status_none, post=getter('type'))
    for s in SPECS.values():
        s['nofail'] = True

# ------------------------------------------------------------------ changing values
def bytes_at(P, rid, off, n):
    t = {10: {'k': 'f', 'st': 10, 'sz': 16}}.get(n) or {'k': 'i', 'b': 8 * n}
    return [(s, v) for s, v in P.cx.get(P.st.copy(), rid, K(off), t)]


def holds(P, rid, off, n, want):
    got = bytes_at(P, rid, off, n)
    return got and all(v[0] != 'undef' and val_same(P.eng, s, v, want) for s, v in got)


def setter(kind):
    def post(P):
        v = lookups(P)
        if v == 'bad':
            return
        ev = [e for e in log(P.st) if e[0] == 'get']
        P.entry.obligations += 1
        if v == 'any':
            v = P.eng.cfg_found[ev[-1][3]] if ev and ev[-1][3] is not None else None
            sure = False
        else:
            sure = True
        # whatever else was passed on the way is as it was
        for e in ev[:-1] if v is not None and ev[-1][3] == v.id else ev:
            if e[3] is not None:
                kept(P, P.eng.cfg_found[e[3]])
        if v is None:
            if P.ok:
                P.fail('status', 'absent', 'reports success for a key that is not there')
            return
        st = P.st
        tag0 = P.eng.toU(st, v.tag)
        over = P.args[-1] if kind != 'Null' else VI(1, ONE)
        for s, o in P.eng.split(st.copy(), over):
            Q = P.at(s)
            if not P.ok:
                kept(Q, v)
                if sure and not s.tags.get('why') and (v.kind == kind or o) and not (plain(P) and s.eq(tag0, ZERO)):
                    # a null value found by its plain name counts as not there
                    z = s.copy()
                    if not plain(P) or v.kind != 'other' or not z.assume(EQ, tag0):
                        Q.fail('status', 'why', 'fails although the value is there and may be changed')
                continue
            if v.kind != kind and not o:
                Q.fail('status', 'type', 'reports success although the value is of another type and not to be converted')
                continue
            stored(Q, v, kind)
    return post


def stored(Q, v, kind):
    """the value found now is the one given"""
    p = Q.cx.p
    s = Q.st
    rid = v.var
    n = TYPES[kind]
    (_, d), = Q.cx.get(s.copy(), rid, K(p.off(VAR, 'data')), TP)[:1]
    (_, z), = Q.cx.get(s.copy(), rid, K(p.off(VAR, 'size')), T64)[:1]
    (_, t), = Q.cx.get(s.copy(), rid, K(p.off(VAR, 'tag')), T32)[:1]
    U = lambda x: Q.eng.toU(s, x)
    if 'undef' in (d[0], z[0], t[0]) or not s.eq(U(t), K(tagof(p, kind))):
        Q.fail('content', 'tag', 'the value set does not have the type it was set to')
        return
    r = s.mem.get(d[1]) if d[0] == 'p' and d[1] > 0 else None
    if r is None or r.live != 1 or r.kind != 'heap' or not s.eq(d[2], ZERO):
        Q.fail('content', 'data', 'the value set is held by no block of its own')
        return
    if not Q.prove('content', 'size', sub(r.size, K(n)), 'the block of the value set is too small'):
        return
    if not s.eq(U(z), K(n)):
        Q.fail('content', 'size', 'the size recorded is not that of the type')
        return
    Q.entry.obligations += 1
    bad = False
    if kind in ('Int', 'Color', 'Bool'):
        w = Q.args[2]
        bad = not all(x[0] != 'undef' and s2.eq(Q.eng.toU(s2, x), Q.eng.toU(s2, w)) for s2, x in bytes_at(Q, d[1], 0, n))
    elif kind == 'Float':
        bad = not holds(Q, d[1], 0, 10, Q.args[2])
    elif kind == 'Vec4D':
        F4 = {'k': 'f', 'st': 4, 'sz': 4}
        for k in range(4):
            for s2, x in Q.cx.get(s.copy(), d[1], K(4 * k), F4):
                w = Q.eng.subvalue(s2, Q.args[2 + k // 2], K(k % 2 * 4), 4, K(8), F4)
                bad = bad or x != w
    elif kind == 'String':
        (_, h), = Q.cx.get(s.copy(), d[1], ZERO, TP)[:1]
        if h[0] != 'p' or h[1] <= 0 or s.mem[h[1]].live != 1 or s.mem[h[1]].kind != 'heap':
            Q.fail('content', 'text', 'the value set owns no text')
            return
        if Q.cx.opts['path'] is None:
            return
        STR.check(Q.cx, Q, s, h[1], h[2], 'the text set')
        L = Q.cx.g['len:text']
        (_, l), = Q.cx.fld(s.copy(), 'HarbolString', 'len', h[1])[:1]
        (_, c), = Q.cx.fld(s.copy(), 'HarbolString', 'cstr', h[1])[:1]
        src = Q.args[2]
        if src[1] == 0:
            L = ZERO
        if l[0] == 'undef' or not s.eq(U(l), L):
            Q.fail('content', 'text', 'the length of the text set is not that of the text given')
            return
        if not s.eq(L, ZERO):
            Q.same_bytes('content', 'text', c, ZERO, src[1], src[2], L, 'the text set is not the one given')
    if bad:
        Q.fail('content', 'value', 'the value set is not the one given')


def setters():
    for n, k in (('cstr', 'String'), ('str', 'String'), ('float', 'Float'), ('int', 'Int'), ('bool', 'Bool'), ('color', 'Color'), ('vec4D', 'Vec4D')):
        spec('set_' + n, variants=variants(k, 'String'), post=setter(k))
    spec('set_to_null', variants=variants('String', 'Null'), post=setter('Null'))

# ------------------------------------------------------------------ whole documents
def put_value(eng, st, kind, f):
    """the value is written down, so that it can be told where it went"""
    F = lambda: ('f', Syms.new('fl', None, None))
    if kind == 'Float':
        eng.write(st, f.data, ZERO, 10, F())
    elif kind == 'Int':
        eng.write(st, f.data, ZERO, 8, fresh_i(64, 'value'))
    elif kind == 'Bool':
        eng.write(st, f.data, ZERO, 1, ('i', 8, newsym('value', 0, 1), 'b'))
    elif kind == 'Color':
        for k in range(4):
            eng.write(st, f.data, K(k), 1, fresh_i(8, 'value'))
    elif kind == 'Vec4D':
        for k in range(4):
            eng.write(st, f.data, K(4 * k), 4, F())


class Entry0(Rec):
    """entry i of a document: its key, its variant, what the variant holds"""

    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __hash__(self):
        return hash((self.key, self.var))


class DocShape(Shape):
    """a document of any number of entries, described on demand"""
    struct = 'HarbolMap'

    def fill(self, cx, st, rid, off, name, mode):
        if 'doc' in cx.opts:
            return self.fixed(cx, st, rid, off, name)
        d = Map0()
        ln = u64('len', 0, PTRDIFF // 64)
        d.len = ln[2]
        d.R = Base('opaque')
        size = scale(d.len, 8)
        for f in ('cap', 'len', 'seed'):
            cx.put(st, rid, addc(off, cx.p.off(self.struct, f)), 8, ln if f != 'seed' else u64('seed'))

        def field(f):
            def h(eng, st2, b, off2, nb, t, rid2):
                i = word_index(off2)
                if nb != 8 or i is None:
                    return [(st2, eng.unknown(st2, t))]
                s2 = st2.copy()
                if not s2.assume(GE, addc(sub(d.len, i), -1)):
                    return []
                return [(s3, VP(getattr(r, f))) for s3, r in doc_entry(d, eng, s2, i)]
            return Base('lazy', handler=h)
        d.base = {'datum': field('var'), 'keys': field('key')}
        d.reg = {}
        for f in PTRS:
            b = d.base.get(f) or Base('opaque')
            d.reg[f] = cx.region(st, 'heap', size, b, name=name + '->' + f, of=rid)
            cx.put(st, rid, addc(off, cx.p.off(self.struct, f)), 8, VP(d.reg[f]))
        cx.g['doc0'] = d
        cx.g['doc'] = rid
        at = dict(st.mem[rid].attr, name='document')
        st.mem[rid] = st.mem[rid].with_(attr=at)
        return [st]

    def fixed(self, cx, st, rid, off, name):
        """a document with as many entries as the variant names"""
        d = Map0()
        cx.g['doc0'], cx.g['doc'] = d, rid
        st.mem[rid] = st.mem[rid].with_(attr=dict(st.mem[rid].attr, name='document'))
        sts = [(st, ())]
        for n, kinds in enumerate(cx.opts['doc']):
            nxt = []
            for s, rs in sts:
                L = newsym('keylen', 1, PTRDIFF - 1)
                key = cx.eng.new_region(s, 'heap', addc(L, 1), Base('cstr', len=L), name='entry key', site='entry')
                for k in kinds:
                    for s2, f in some_value(cx.eng, s.copy(), k, NAMES, where='heap'):
                        put_value(cx.eng, s2, k, f)
                        nxt.append((s2, rs + (Entry0(key=key, var=f.var, kind=k, data=f.data, to=f.to, text=f.text),)))
            sts = nxt
        out = []
        for s, rs in sts:
            n = len(rs)
            for f in ('len', 'cap'):
                cx.put(s, rid, addc(off, cx.p.off(self.struct, f)), 8, VI(64, K(n)))
            cx.put(s, rid, addc(off, cx.p.off(self.struct, 'seed')), 8, u64('seed'))
            reg = []
            for f in PTRS:
                r = cx.region(s, 'heap', K(8 * n), Base('opaque'), name=name + '->' + f, of=rid) if n else 0
                cx.put(s, rid, addc(off, cx.p.off(self.struct, f)), 8, VP(r) if n else NULLP)
                if n:
                    reg.append(r)
                    for k, e in enumerate(rs):
                        if f in ('datum', 'keys'):
                            cx.put(s, r, K(8 * k), 8, VP(e.var if f == 'datum' else e.key))
            s.tags['doc'] = (rs, tuple(reg))
            out.append(s)
        return out

    def check(self, cx, P, st, rid, off, name):
        pass


def doc_entry(d, eng, st, i):
    out = []
    lst = st.memo.get(d.R.id, ())
    for o, n, r in lst:
        if st.eq(o, i):
            return [(st, r)]
    rest = st.copy()
    for o, n, r in lst:
        s = rest.copy()
        if s.assume(EQ, sub(i, o)):
            out.append((s, r))
        if not rest.assume(NE, sub(i, o)):
            return out
    L = newsym('keylen', 1, PTRDIFF - 1)
    key = eng.new_region(rest, 'heap', addc(L, 1), Base('cstr', len=L), name='entry key', site='entry')
    for kind in eng.cfg_cx.opts.get('held', NAMES):
        for s, f in some_value(eng, rest.copy(), kind, NAMES, where='heap'):
            r = Entry0(key=key, var=f.var, kind=kind, data=f.data, to=f.to, text=f.text)
            s.memo[d.R.id] = s.memo.get(d.R.id, ()) + ((i, 'e', r),)
            for g, v in (('keys', key), ('datum', f.var)):
                if eng.memo_find(s, d.base[g], scale(i, 8), 8) is None:
                    eng.memo_add(s, d.base[g], scale(i, 8), 8, VP(v))
            out.append((s, r))
    return out


DOC = DocShape()


def doc_roles(cx, st, name, ty, fn, opts):
    cx.eng.cfg_cx = cx
    if ty in ('struct HarbolMap**', 'struct HarbolMap** const'):
        return ref_role(cx, st, name, DOC, 'mut')
    if ty.startswith('struct HarbolMap'):
        return [(s, VP(o.rid), o) for s, o in DOC.new(cx, st, name, 'const')]
    return roles(cx, st, name, ty, fn, opts)


def c_free_quiet(eng, st, a, i):
    out = []
    for s, v in c_free(eng, st, a, i):
        s.tags.pop('log', None)
        out.append((s, v))
    return out


def c_map_free(eng, st, a, i):
    """harbol_map_free: the map, its arrays and the blocks of its entries"""
    ref = eng.models.ptr(eng, st, a[0])
    s = eng.access(st, ref, K(8), 'w')
    if s is None:
        return []
    out = []
    for s, v in eng.read(s, s.mem[ref[1]].content, ref[2], 8, TP, ref[1]):
        if v == NULLP:
            out.append((s, None))
            continue
        m = is_section(eng, s, v, 'frees')
        if m is None:
            continue
        add_log(s, 'mapfree', m)
        s = s.copy()
        d = eng.cfg_cx.g['doc0']
        if 'doc' in s.tags:
            rs, reg = s.tags['doc']
        else:
            rs, reg = [r for o, n, r in s.memo.get(d.R.id, ())], list(d.reg.values())
        for r in rs:
            for x in (r.var, r.key):
                s.mem[x] = s.mem[x].with_(live=0)
        for x in list(reg) + [m[1]]:
            s.mem[x] = s.mem[x].with_(live=0)
        eng.write(s, ref[1], ref[2], 8, NULLP)
        out.append((s, None))
    return out


def p_cfg_free(P):
    P.entry.obligations += 1
    o = P.objs['cfg_ref'] if 'cfg_ref' in P.objs else list(P.objs.values())[0]
    for s, v in P.cx.get(P.st.copy(), o.rid, o.off, TP):
        if v != NULLP:
            P.at(s).fail('content', 'freed', 'freeing must reset the caller\'s pointer')
    had = P.cx.get(P.e.copy(), o.rid, o.off, TP, P.e.mem[o.rid].content)[0][1] != NULLP
    n = len([e for e in log(P.st) if e[0] == 'mapfree'])
    if n != int(had):
        P.fail('content', 'freed', 'the document is not freed once')
        return
    if not had:
        return
    d = P.cx.g['doc0']
    if P.st.mem[P.cx.g['doc']].live != 0:
        P.fail('content', 'freed', 'the document is not freed')
    if 'doc' in P.st.tags:
        for r in P.st.tags['doc'][0]:
            for x, w in ((r.data, 'the value of an entry'), (r.to, 'the section or text of an entry'), (r.text and r.text[1], 'the text of an entry')):
                P.entry.obligations += 1
                if x and P.st.mem[x].live != 0:
                    P.fail('content', 'entry', '%s is not freed' % w)


DOCS = [dict(kinds=(), doc=d, SOFT=100, MAXSTATES=200, MAXRET=400) for d in [()] + [((k,), NAMES) for k in NAMES] + [(NAMES + ['other'],)]]


def documents():
    spec('free', roles=doc_roles, contracts=dict(CON, harbol_cfg_free=c_free_quiet, harbol_map_free=c_map_free), variants=[dict(kinds=(), held=(h,)) for h in NAMES + ['other']] + DOCS, post=p_cfg_free)


# ------------------------------------------------------------------ written documents
SPACE = b' \t\r\n:,'
CONV = re.compile(rb'%[-+ #0]*(\*|\d*)(?:\.(\*|\d*))?(hh|h|ll|l|j|z|t|L|q)?([a-zA-Z%])')


def lit(b):
    """characters written; those that only separate are told apart from the rest"""
    out = ()
    for c in b:
        c = ' ' if c in SPACE else chr(c)
        if c != ' ' or out[-1:] != (' ',):
            out += (c,)
    return out


def glue(a, b):
    if a is None or b is None:
        return None
    return a + (b[1:] if a[-1:] == (' ',) and b[:1] == (' ',) else b)


def literal(eng, st, p):
    """the bytes of a constant text, or None"""
    if p[0] != 'p' or p[1] <= 0:
        return None
    out = b''
    eng.silent += 1
    try:
        for k in range(200):
            r = st.mem.get(p[1])
            if r is None or r.size is not None and not st.ge(r.size, addc(p[2], k + 1)):
                return None
            got = eng.read(st.copy(), r.content, addc(p[2], k), 1, T8_, p[1])
            if len(got) != 1 or got[0][1][0] != 'i' or got[0][1][2][1]:
                return None
            c = got[0][1][2][0] & 255
            if not c:
                return out
            out += bytes([c])
    finally:
        eng.silent -= 1
    return None


def text_of(eng, st, p):
    """what a text argument stands for, in pieces"""
    if p == NULLP:
        return None
    r = st.mem.get(p[1])
    if r is not None and 'written' in r.attr:
        return r.attr['written'] if st.eq(p[2], ZERO) else None
    b = literal(eng, st, p)
    if b is not None:
        return lit(b)
    return (('s', p[1], p[2]),)


def printed(eng, st, fmt, args):
    """the pieces a formatted text is made of, or None"""
    f = literal(eng, st, fmt)
    if f is None:
        return None
    out, at, k = (), 0, 0
    while at < len(f):
        m = CONV.match(f, at)
        if m is None:
            n = f.find(b'%', at + 1)
            n = len(f) if n < 0 else n
            out = glue(out, lit(f[at:n]))
            at = n
            continue
        at = m.end()
        w, pr, size, c = m.groups()
        if c == b'%':
            out = glue(out, ('%',))
            continue
        if w or pr is not None and c in b's' or k >= len(args):
            return None
        v = args[k]
        k += 1
        if c == b's':
            if v[0] != 'p':
                return None
            out = glue(out, text_of(eng, st, v))
        else:
            out = glue(out, ((c.decode(), (size or b'').decode(), v),))
        if out is None:
            return None
    return out


def mark(eng, st, w):
    """paths that wrote different things are kept apart"""
    if 'doc' in st.tags:
        st.tags['w'] = repr(w)


def appended(eng, st, sp, new, i, n=None):
    """[(state, worked)]: the pieces new are appended to a text; running out of memory is looked at once"""
    O = {f: eng.p.off('HarbolString', f) for f in ('cstr', 'len')}
    p = eng.models.ptr(eng, st, sp)
    s = eng.access(st, p, K(eng.p.size('HarbolString')), 'w')
    if s is None:
        return []
    out = []
    for s1, t in eng.read(s, s.mem[p[1]].content, addc(p[2], O['cstr']), 8, TP, p[1]):
        for s2, l in eng.read(s1, s1.mem[p[1]].content, addc(p[2], O['len']), 8, T64, p[1]):
            if 'undef' in (t[0], l[0]):
                eng.report('uninit', 'something is appended to an uninitialised text', s2, 'str')
                continue
            if t != NULLP and (t[0] != 'p' or t[1] <= 0 or s2.mem[t[1]].live != 1):
                eng.report('uaf', 'something is appended to a text already freed', s2, 'str')
                continue
            if not s2.tags.get('why'):
                z = s2.copy()
                z.tags['why'] = 1
                out.append((z, 0))
            s2 = s2.copy()
            old = () if t == NULLP else s2.mem[t[1]].attr.get('written')
            both = glue(old, new)
            if both == ():
                out.append((s2, 1))
                continue
            L = newsym('len', 1, PTRDIFF - 1)
            rid = eng.new_region(s2, 'heap', addc(L, 1), Base('cstr', len=L), name='text', fresh=True, fn=eng.stack[-1][0].base, line=eng.stack[-1][1].get('l', 0))
            s2.mem[rid] = s2.mem[rid].with_(attr=dict(s2.mem[rid].attr, written=both))
            mark(eng, s2, both)
            if t != NULLP:
                fr = m_free(eng, s2, [t], i)
                if not fr:
                    continue
                s2 = fr[0][0]
            eng.write(s2, p[1], addc(p[2], O['cstr']), 8, VP(rid))
            eng.write(s2, p[1], addc(p[2], O['len']), 8, ('i', 64, L, 'u'))
            out.append((s2, 1))
    return out


def c_s_format(eng, st, a, i):
    fmt = eng.models.ptr(eng, st, a[2])
    out = []
    for s0, reset in eng.split(st.copy(), a[1]):
        for s in eng.models.find('printf')(eng, s0.copy(), [fmt], i):
            new = printed(eng, s[0], fmt, a[3:])
            if reset:
                s2 = s[0].copy()
                O = eng.p.off('HarbolString', 'cstr')
                p = eng.models.ptr(eng, s2, a[0])
                for s3, t in eng.read(s2, s2.mem[p[1]].content, addc(p[2], O), 8, TP, p[1]):
                    for s4, _ in m_free(eng, s3.copy(), [t], i):
                        eng.write(s4, p[1], addc(p[2], O), 8, NULLP)
                        eng.write(s4, p[1], addc(p[2], eng.p.off('HarbolString', 'len')), 8, VI(64, ZERO))
                        out += appended(eng, s4, a[0], new, i)
            else:
                out += appended(eng, s[0], a[0], new, i)
    res = []
    for s, ok in out:
        if not ok:
            res.append((s, VI(32, K((1 << 32) - 1))))
        else:
            res.append((s, ('i', 32, newsym('cnt', 0, (1 << 31) - 1), 'b')))
    return res


def c_s_cstr(eng, st, a, i):
    t = eng.models.ptr(eng, st, a[1])
    out = []
    for s, _ in strlen_of(eng, st, t, 'append'):
        out += [(s2, VI(1, K(ok))) for s2, ok in appended(eng, s, a[0], text_of(eng, s, t), i)]
    return out


def c_s_str(eng, st, a, i):
    q = eng.models.ptr(eng, st, a[1])
    s = eng.access(st, q, K(eng.p.size('HarbolString')), 'r')
    if s is None:
        return []
    out = []
    for s1, t in eng.read(s, s.mem[q[1]].content, addc(q[2], eng.p.off('HarbolString', 'cstr')), 8, TP, q[1]):
        if t == NULLP:
            out.append((s1, VI(1, ZERO)))
            continue
        out += [(s2, VI(1, K(ok))) for s2, ok in appended(eng, s1, a[0], text_of(eng, s1, t), i)]
    return out


def c_s_char(eng, st, a, i):
    c = a[1][2] if a[1][0] == 'i' and not a[1][2][1] else None
    return [(s, VI(1, K(ok))) for s, ok in appended(eng, st, a[0], lit(bytes([c[0] & 255])) if c else None, i)]


def onto_file(eng, st, f, new):
    s = st.copy()
    if f[0] == 'p' and f[1] > 0 and s.mem[f[1]].kind == 'file':
        r = s.mem[f[1]]
        both = glue(r.attr.get('written', ()), new)
        s.mem[f[1]] = r.with_(attr=dict(r.attr, written=both))
        mark(eng, s, both)
    return s


def c_fputs(eng, st, a, i):
    p = eng.models.ptr(eng, st, a[0])
    return [(onto_file(eng, s, a[1], text_of(eng, s, p)), v) for s, v in eng.models.find('fputs')(eng, st.copy(), a, i)]


def c_fprintf(eng, st, a, i):
    return [(onto_file(eng, s, a[0], printed(eng, s, eng.models.ptr(eng, s, a[1]), a[2:])), v) for s, v in eng.models.find('fprintf')(eng, st.copy(), a, i)]


def c_fputc(eng, st, a, i):
    c = lit(bytes([a[0][2][0] & 255])) if a[0][0] == 'i' and not a[0][2][1] else None
    return [(onto_file(eng, s, a[1], c), v) for s, v in eng.models.find('fputc')(eng, st.copy(), a, i)]


def c_fwrite_(eng, st, a, i):
    return [(onto_file(eng, s, a[3], None), v) for s, v in eng.models.find('fwrite')(eng, st.copy(), a, i)]


def c_section(eng, st, a, i, f):
    """the writer calls itself on a section: the section's text is appended to the text or file given, or
    returned"""
    m = to = None
    for v in a:
        if v[0] == 'p' and v[1] > 0:
            r = st.mem[v[1]]
            if r.attr.get('name') in ('section', 'document'):
                m = is_section(eng, st, v, 'writes')
            elif r.kind == 'file':
                to = v
                if r.live != 1:
                    eng.report('uaf', 'stream used after it was closed', st, 'closedfile')
                    return []
            else:
                to = v
    if m is None:
        eng.report('wild', 'writes something that is not a section of a config', st, 'section')
        return []
    new = (('section', m[1]),)
    rt = f.ret if hasattr(f, 'ret') else None
    if to is not None and st.mem[to[1]].kind == 'file':
        return [(onto_file(eng, st, to, new), rec_result(eng, st, f))]
    if to is not None:
        out = []
        for s, ok in appended(eng, st, to, new, i):
            out.append((s, rec_result(eng, s, f, ok)))
        return out
    z = st.copy()
    z.tags['empty'] = z.tags.get('empty', ()) + (m[1],)
    out = [(z, ('agg', [NULLP, VI(64, ZERO)]))]
    s = st.copy()
    L = newsym('len', 1, PTRDIFF - 1)
    rid = eng.new_region(s, 'heap', addc(L, 1), Base('cstr', len=L), name='text', fresh=True, fn=eng.stack[-1][0].base, line=eng.stack[-1][1].get('l', 0))
    s.mem[rid] = s.mem[rid].with_(attr=dict(s.mem[rid].attr, written=new))
    return out + [(s, ('agg', [VP(rid), ('i', 64, L, 'u')]))]


def rec_result(eng, st, f, ok=1):
    t = f.ret
    if t['k'] == 'v' or t['k'] == 'void':
        return None
    return VI(t['b'], K(ok)) if t['k'] == 'i' else eng.unknown(st, t)


def value_read(P, r, off, n, t):
    (_, v), = P.cx.get(P.e.copy(), r, K(off), t, P.e.mem[r].content)[:1]
    return v


def entry_pieces(P, e):
    """[(piece, ...)]: how an entry may be written; a section left out when it is empty"""
    I = lambda off, n: ('#i', n, value_read(P, e.data, off, n, {'k': 'i', 'b': 8 * n}))
    out = ('"', ('s', e.key, ZERO), '"')
    body = []
    k = e.kind
    if k == 'Null':
        body = ['n', 'u', 'l', 'l']
    elif k == 'Map':
        body = ['{', ('section', e.to), '}']
    elif k == 'String':
        body = ['"'] + ([] if e.text == NULLP else [('s', e.text[1], e.text[2])]) + ['"']
    elif k == 'Int':
        body = [I(0, 8)]
    elif k == 'Float':
        body = [('#f', 'L', value_read(P, e.data, 0, 16, {'k': 'f', 'st': 10, 'sz': 16}))]
    elif k == 'Bool':
        body = [('#b', value_read(P, e.data, 0, 1, T8_))]
    elif k == 'Color':
        body = ['c', '['] + [I(j, 1) for j in range(4)] + [']']
    elif k == 'Vec4D':
        body = ['v', '['] + [('#f', '', value_read(P, e.data, 4 * j, 4, {'k': 'f', 'st': 4, 'sz': 4})) for j in range(4)] + [']']
    return out + tuple(body)


def same_piece(P, got, want):
    st, U = P.st, P.eng.toU
    if isinstance(want, str) or isinstance(got, str):
        return got == want
    if want[0] == 's':
        return got[0] == 's' and got[1] == want[1] and st.eq(got[2], want[2])
    if want[0] == 'section':
        return got == want
    if want[0] == '#i':
        c, size, v = got[0], got[1], got[2]
        if v[0] != 'i':
            return False
        if want[1] == 8:
            return c in 'di' and size in ('l', 'll', 'j', 'q', 't') and v[1] == 64 and st.eq(U(st, v), U(st, want[2]))
        return c in 'diu' and st.eq(U(st, v), U(st, want[2]))
    if want[0] == '#f':
        return got[0] in 'fgeaFGEA' and (got[1] == 'L') == (want[1] == 'L') and got[2] == want[2]
    return False


def match_entry(P, got, want):
    """got starts with the pieces of want -> the rest, or None"""
    g = list(got)
    prev = None
    for w in want:
        sep = False
        while g and g[0] == ' ' and w != ' ':
            sep = True
            g.pop(0)
        if isinstance(w, tuple) and w[0] == '#b':
            word = None
            for t in ('true', 'false'):
                if g[:len(t)] == list(t):
                    word = t
            if word is None:
                return None
            v = P.eng.toU(P.st, w[1])
            z = P.st.copy()
            if z.assume(EQ, v) if word == 'true' else z.assume(NE, v):
                return None
            g = g[len(word):]
            prev = w
            continue
        if isinstance(w, tuple) and w[0] == 'section' and w[1] in P.st.tags.get('empty', ()):
            prev = w
            continue
        if not g or not same_piece(P, g[0], w):
            return None
        if isinstance(w, tuple) and w[0][0] == '#' and isinstance(prev, tuple) and not sep:
            return None
        g.pop(0)
        prev = w
    return tuple(g)


def written_ok(P, got):
    """what was written is every entry of the document, in order"""
    rs = P.st.tags['doc'][0]
    if got is None:
        return
    for e in rs:
        P.entry.obligations += 1
        if e.kind == 'other':
            return
        got = match_entry(P, got, entry_pieces(P, e))
        if got is None:
            P.fail('content', 'written:' + e.kind, 'an entry (%s) is not written as its key and its value' % e.kind)
            return
    if tuple(x for x in got if x != ' '):
        P.fail('content', 'written', 'more is written than the entries of the document')


def kept_doc(P):
    for e in P.st.tags['doc'][0]:
        P.entry.obligations += 1
        for x in (e.key, e.var, e.data, e.to, e.text and e.text[1]):
            if x and (P.st.mem[x].live != 1 or not content_eq(P, x, P.e.mem[x].content)):
                P.fail('content', 'kept', 'the document was changed')
                return


def p_to_str(P):
    if 'doc' not in P.st.tags:
        return
    kept_doc(P)
    if P.st.tags.get('why'):
        return
    r = P.ret
    if r[0] != 'agg':
        return
    t = r[1][0]
    got = () if t == NULLP else P.st.mem[t[1]].attr.get('written') if t[0] == 'p' and t[1] > 0 else None
    written_ok(P, got)


def c_fopen(eng, st, a, i):
    out = []
    for s, v in eng.models.find('fopen')(eng, st.copy(), a, i):
        s.tags['file'] = (v, literal(eng, s, eng.models.ptr(eng, s, a[1])), eng.models.ptr(eng, s, a[0]))
        out.append((s, v))
    return out


def p_build(P):
    P.entry.obligations += 1
    f = P.st.tags.get('file')
    if f is None:
        P.fail('content', 'file', 'no file is opened')
        return
    v, mode, name = f
    if not ptr_same(P.st, name, P.args[1]):
        P.fail('content', 'file', 'another file is opened than the one named')
    for s, o in P.eng.split(P.st.copy(), P.args[2]):
        if mode is not None and mode[:1] != (b'w' if o else b'a'):
            P.at(s).fail('content', 'mode', 'the file is opened %s' % ('without emptying it although it is to be overwritten' if o else 'so that what it held is lost'))
    if v == NULLP:
        if P.ok:
            P.fail('status', 'file', 'reports success although the file cannot be opened')
        return
    if P.st.mem[v[1]].live:
        P.fail('leak', 'file', 'the file is not closed')
    if 'doc' not in P.st.tags:
        return
    kept_doc(P)
    if P.ok:
        written_ok(P, P.st.mem[v[1]].attr.get('written', ()))


def writers():
    W = {'harbol_string_format': c_s_format, 'harbol_string_add_cstr': c_s_cstr, 'harbol_string_add_str': c_s_str, 'harbol_string_add_char': c_s_char,
         'fputs': c_fputs, 'fprintf': c_fprintf, 'fputc': c_fputc, 'putc': c_fputc, '_IO_putc': c_fputc, 'fwrite': c_fwrite_, 'fopen': c_fopen, '#rec': c_section}
    gen = [dict(kinds=(), held=(h,)) for h in NAMES + ['other']]
    spec('to_str', roles=doc_roles, contracts=W, variants=gen + DOCS, post=p_to_str, status=status_none)
    spec('build_file', roles=doc_roles, contracts=W, variants=gen + DOCS, post=p_build)


def c_parse_expr(eng, st, a, i):
    s = st.copy()
    p = eng.models.ptr(eng, s, a[0])
    out = []
    for s, _ in strlen_of(eng, s, p, 'expression'):
        v = ('f', Syms.new('fl', None, None))
        add_log(s, 'math', p, a[1], a[2], a[3], v)
        out.append((s, v))
    return out


def p_calc(P):
    v = lookups(P)
    if v == 'bad':
        return
    m = [e for e in log(P.st) if e[0] == 'math']
    P.entry.obligations += 1
    if v == 'any':
        ev = [e for e in log(P.st) if e[0] == 'get']
        v = P.eng.cfg_found[ev[-1][3]] if ev and ev[-1][3] is not None else None
        sure = False
    else:
        sure = True
    text = v is not None and v.kind == 'String' and v.text != NULLP
    for e in log(P.st):
        if e[0] == 'get' and e[3] is not None:
            kept(P, P.eng.cfg_found[e[3]])
    if not m:
        if text and sure:
            P.fail('content', 'math', 'the text found is not calculated')
        return
    _, p, fn, data, n, r = m[0]
    if len(m) > 1 or not text:
        P.fail('content', 'math', 'something else than the text found is calculated')
        return
    if not ptr_same(P.st, p, v.text):
        P.fail('content', 'math', 'another text is calculated than the one found')
    given = P.args[2]
    if given[1] != 0 and fn != given:
        P.fail('content', 'func', 'the names are looked up by another function than the one given')
    if given[1] == 0:
        g = P.st.mem.get(fn[1]) if fn[0] == 'p' else None
        if fn == NULLP or 'harbol_math_default_var_func' not in repr(fn) + repr(g and g.attr):
            P.fail('content', 'func', 'the names are not looked up by the default function')
    if not ptr_same(P.st, data, P.args[3]) or not P.st.eq(P.eng.toU(P.st, n), P.eng.toU(P.st, P.args[4])):
        P.fail('content', 'data', 'the data is not passed on as given')
    if P.ret != r:
        P.fail('retval', 'result', 'the result is not that of the expression')


def calc():
    spec('calc_math', contracts=dict(CON, harbol_math_parse_expr=c_parse_expr), variants=variants('String'), post=p_calc, status=status_none)


getters()
setters()
calc()
writers()
documents()
