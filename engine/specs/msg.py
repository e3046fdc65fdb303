"""Diagnostics: source text with its lines, labels and notes.

The tables (lines, labels, notes) have any number of elements, each described when it is looked
at: a text of its own (or none) and the values stored beside it.  Ghost variants pick one element
beforehand; when a table is emptied the text of that element must have been freed."""
from spec import *
from specs.str import STR, cstr_arg, file_role
from specs.tuple import heap_block
from models import strlen_of

SPECS = {}
MODULE = 'msg'
STRIDE = {'lines': 16, 'labels': 48, 'notes': 16}


def place(off, stride):
    """offset -> (element, offset in it)"""
    if any(c % stride for _, c in off[1]):
        return None, None
    q, r = divmod(off[0], stride)
    return (q, tuple((s, c // stride) for s, c in off[1])), r


class Table0:
    pass


def text(eng, st, d, i):
    """[(state, text pointer, length)] of element i"""
    def known(s, o):
        at = scale(o, d.stride)
        return s, eng.memo_find(s, d.base, at, 8), eng.memo_find(s, d.base, addc(at, 8), 8)
    out = []
    lst = st.memo.get(d.R.id, ())
    for o, n, r in lst:
        if st.eq(o, i):
            return [known(st, o)]
    rest = st.copy()
    for o, n, r in lst:
        s = rest.copy()
        if s.assume(EQ, sub(i, o)):
            out.append(known(s, o))
        if not rest.assume(NE, sub(i, o)):
            return out
    at = scale(i, d.stride)
    for k in (0, 1):
        s = rest.copy()
        p, l = NULLP, VI(64, ZERO)
        if k:
            l = u64('textlen', 0, PTRDIFF - 1)
            p = VP(new_text(eng, s, l[2], d.what))
        s.memo[d.R.id] = s.memo.get(d.R.id, ()) + ((i, 't', p),)
        eng.memo_add(s, d.base, at, 8, p)
        eng.memo_add(s, d.base, addc(at, 8), 8, l)
        out.append((s, p, l))
    return out


def new_text(eng, st, n, what):
    return eng.new_region(st, 'heap', addc(n, 1), Base('strbuf', len=n), name='text of one of the ' + what, site='entry', noleak=True)


def handler(d):
    def h(eng, st, b, off, n, t, rid):
        i, r = place(off, d.stride)
        if i is None:
            return [(st, eng.unknown(st, t))]
        if r in (0, 8) and n == 8:
            out = []
            for s0 in (st.copy(), st.copy()):
                if s0 is not None and not out and s0.assume(GE, addc(sub(d.n, i), -1)):
                    out += [(s, p if r == 0 else l) for s, p, l in text(eng, s0, d, i)]
                    break
            s0 = st.copy()
            if s0.assume(GE, sub(i, d.n)):
                out.append((s0, eng.unknown(s0, t)))
            return out
        if r == 32 and d.what == 'labels' and n == 8:
            return [(st, NULLP), (st.copy(), VP(d.color))]
        return [(st, eng.unknown(st, t))]
    return h


class MsgShape(Shape):
    struct = 'HarbolMsgSpan'

    def offs(self, cx, off):
        p = cx.p
        S, M = (lambda f: p.off('HarbolSrcSpan', f)), (lambda f: p.off('HarbolMsgSpan', f))
        o = {'filename': M('src') + S('filename'), 'code': M('src') + S('code'), 'lines': M('src') + S('lines'), 'lines.n': M('src') + S('len')}
        for f in ('labels', 'notes'):
            for a, b in (('', 'table'), ('.cap', 'cap'), ('.n', 'len')):
                o[f + a] = M(f) + p.off('HarbolArray', b)
        return {k: addc(off, v) for k, v in o.items()}

    def fill(self, cx, st, rid, off, name, mode):
        O = self.offs(cx, off)
        s = st.copy()
        for f in O:
            if f not in ('filename', 'code'):
                cx.put(s, rid, O[f], 8, NULLP if f in STRIDE else VI(64, ZERO))
        if mode == 'out':
            for f in ('filename', 'code'):
                (s,) = STR.fill(cx, s, rid, O[f], name, 'out')
            cx.g['tables'] = {}
            return [s]
        cx.g['tables'] = {}
        have = cx.opts.get('have', ('lines', 'labels', 'notes'))
        cx.opts.setdefault('embedded', True)
        out = [s]
        for f in ('filename', 'code'):
            out = [y for x in out for y in (STR.fill(cx, x, rid, O[f], '%s.%s' % (name, f), 'mut')[1:] if have else STR.fill(cx, x, rid, O[f], name, 'out'))]
        (s,) = out
        for f in have:
            s = self.table(cx, s, rid, O, f, name)
        return [s]

    def table(self, cx, s, rid, O, f, name):
        d = Table0()
        d.what, d.stride = f, STRIDE[f]
        n = u64(f + '.n', 1 if f == 'lines' else 0, PTRDIFF // d.stride)
        d.n = n[2]
        d.R = Base('opaque')
        if f == 'labels':
            ln = newsym('colorlen', 0, PTRDIFF - 1)
            d.color = cx.region(s, 'user', addc(ln, 1), Base('cstr', len=ln), name='colour of a label', const=True)
        size = scale(d.n, d.stride)
        if f != 'lines':
            cap = u64(f + '.cap', 1, PTRDIFF // d.stride)
            s.cons.addrow(GE, sub(cap[2], d.n))
            size = scale(cap[2], d.stride)
            cx.put(s, rid, O[f + '.cap'], 8, cap)
        d.base = Base('lazy', handler=handler(d))
        d.tb = cx.region(s, 'heap', size, d.base, name='%s->%s' % (name, f), of=rid)
        cx.put(s, rid, O[f], 8, VP(d.tb))
        cx.put(s, rid, O[f + '.n'], 8, n)
        cx.g['tables'][f] = d
        if cx.opts.get('ghost') == f:
            d.g = newsym('g', 0, PTRDIFF)
            s.assume(GE, addc(sub(d.n, d.g), -1))
            l = u64('textlen', 0, PTRDIFF - 1)
            d.gt = new_text(cx.eng, s, l[2], f)
            at = dict(s.mem[d.gt].attr)
            at['split'] = True
            s.mem[d.gt] = s.mem[d.gt].with_(attr=at)
            cx.eng.memo_add(s, d.base, scale(d.g, d.stride), 8, VP(d.gt))
            cx.eng.memo_add(s, d.base, addc(scale(d.g, d.stride), 8), 8, l)
            s.memo[d.R.id] = s.memo.get(d.R.id, ()) + ((d.g, 't', VP(d.gt)),)
        return s

    def check(self, cx, P, st, rid, off, name):
        O = self.offs(cx, off)
        for f in ('filename', 'code'):
            STR.check(cx, P, st, rid, O[f], '%s.%s' % (name, f))
        for f in STRIDE:
            for s, t in cx.get(st.copy(), rid, O[f], TP):
                for s2, n in cx.get(s, rid, O[f + '.n'], T64):
                    cap = cx.get(s2, rid, O[f + '.cap'], T64)[0][1] if f != 'lines' else n
                    Q = P.at(s2)
                    if 'undef' in (t[0], n[0], cap[0]):
                        Q.fail('inv', 'inv:uninit', '%s: %s left uninitialised' % (name, f))
                        continue
                    self.chk(cx, Q, s2, f, t, cx.eng.toU(s2, n), cx.eng.toU(s2, cap), name)

    def chk(self, cx, Q, s, f, t, n, cap, name):
        if t == NULLP:
            Q.eq('inv', 'inv:null-n', n, ZERO, '%s: %s without a table' % (name, f))
            Q.eq('inv', 'inv:null-cap', cap, ZERO, '%s: a capacity without a table of %s' % (name, f))
            return
        if not heap_block(s, t):
            Q.fail('inv', 'inv:table', '%s: the table of %s is not a live allocation' % (name, f))
            return
        if not Q.prove('inv', 'inv:cap', sub(s.mem[t[1]].size, scale(cap, STRIDE[f])), '%s: the capacity exceeds the table of %s' % (name, f)):
            return
        Q.prove('inv', 'inv:n', sub(cap, n), '%s: more %s than the capacity' % (name, f))
        d = cx.g['tables'].get(f)
        k = newsym('k', 0, PTRDIFF)
        for R in Q.cases((GE, addc(sub(n, k), -1))):
            # what was there stays what it was
            s1 = R.st.copy()
            if d is not None and s1.assume(GE, addc(sub(d.n, k), -1)):
                for s2, p, l in text(cx.eng, s1, d, k):
                    Z = R.at(s2)
                    for fo, t0, want in self.fields(d, p, l):
                        w0 = cx.get(s2.copy(), d.tb, addc(scale(k, d.stride), fo), t0, Q.e.mem[d.tb].content)
                        for s3, w in w0:
                            for s4, v in cx.get(s3.copy(), t[1], addc(add(t[2], scale(k, d.stride)), fo), t0):
                                if not val_same(cx.eng, s4, v, w):
                                    R.at(s4).fail('content', 'kept:%s:%d' % (f, fo), '%s: one of the %s that stay changed' % (name, f))
                    if p[1] > 0:
                        if s2.mem[p[1]].live != 1:
                            Z.fail('content', 'kept-freed', '%s: the text of one of the %s that stay was freed' % (name, f))
                        elif isinstance(s2.mem[p[1]].content, Entry):
                            Z.fail('content', 'kept-text', '%s: the text of one of the %s that stay was overwritten' % (name, f))
            s1 = R.st.copy()
            if s1.assume(GE, sub(k, d.n if d is not None else ZERO)):
                new = cx.g.get('new', {}).get(f)
                if new is None or not Q.ok:
                    R.at(s1).fail('inv', 'inv:extra', '%s: one of the %s appears from nowhere' % (name, f))
                else:
                    new(R.at(s1), t, k)

    def fields(self, d, p, l):
        out = [(0, TP, p), (8, T64, l)]
        if d.what == 'labels':
            out += [(16 + 4 * i, T32, None) for i in range(4)] + [(32, TP, None), (40, T32, None)]
        return out

    def logical_same(self, cx, P, o):
        """a failed addition may have grown a table"""
        O = self.offs(cx, o.off)
        for f in ('labels', 'notes', 'lines'):
            d = cx.g['tables'].get(f)
            n = cx.get(P.st.copy(), o.rid, O[f + '.n'], T64)[0][1]
            if not P.st.eq(P.eng.toU(P.st, n), d.n if d is not None else ZERO):
                return False
        for f in ('filename', 'code'):
            a = cx.get(P.e.copy(), o.rid, O[f], TP)[0][1]
            b = cx.get(P.st.copy(), o.rid, O[f], TP)[0][1]
            if not val_same(P.eng, P.st, a, b) or a[1] > 0 and not content_same(P.eng, P.e, P.st, a[1]):
                return False
        return True


MSG = MsgShape()


def fieldv(P, f):
    o = P.objs['msgspan']
    v = P.cx.get(P.st.copy(), o.rid, MSG.offs(P.cx, o.off)[f], TP if f in STRIDE or f in ('filename', 'code') else T64)[0][1]
    return v if v[0] == 'p' else P.eng.toU(P.st, v)


def count0(P, f):
    d = P.cx.g['tables'].get(f)
    return d.n if d is not None else ZERO


def roles(cx, st, name, ty, fn, opts):
    if ty == 'struct HarbolMsgSpan*':
        return [(s, VP(o.rid), o) for s, o in MSG.new(cx, st, name, opts.get('mode', 'mut'))]
    if ty == 'struct HarbolMsgSpan const*':
        return [(s, VP(o.rid), o) for s, o in MSG.new(cx, st, name, 'const')]
    if ty in ('char const*', 'char*'):
        must = name in ('cstr', 'msg', 'msg_fmt', 'msgtype_color') or fn.base == 'harbol_write_msg' and name == 'msg_color'
        if not must and opts.get('texts') is not None:
            return [cstr_arg(cx, st, name)[1 if opts['texts'] else 0]]
        return cstr_arg(cx, st, name, null=not must)
    if ty in ('struct _IO_FILE*', 'FILE*'):
        return file_role(cx, st, name)
    if ty == 'unsigned int const*':
        if opts.get('texts') is False:
            return [(st, NULLP, None)]
        rid = cx.region(st, 'param', K(4), Base('opaque'), name=name, const=True)
        return [(st, VP(rid), None)] + ([(st.copy(), NULLP, None)] if opts.get('texts') is None else [])
    if ty == 'unsigned long*':
        rid = cx.region(st, 'param', K(8), Base('opaque'), name=name)
        return [(st.copy(), NULLP, None), (st, VP(rid), Obj(name, None, rid, ZERO, 'mut'))]
    if ty == '_Bool*':
        rid = cx.region(st, 'param', ONE, Base('opaque'), name=name)
        return [(st, VP(rid), None)]
    return scalar(cx, st, name, ty)


def A(P, i):
    return P.eng.toU(P.st, P.args[i])


def spec(name, **kw):
    def pre(cx, st, args, objs, fn, setup=kw.pop('setup', None)):
        cx.g['new'] = setup(cx, args) if setup else {}
        return st
    SPECS[name] = dict(roles=roles, pre=pre, **kw)


# ------------------------------------------------------------------ spans
def word32(eng, st, v, k):
    r = eng.subvalue(st, v, K(4 * k), 4, K(8), T32)
    return eng.toU(st, r)


def p_merge(P):
    """each bound is the outermost of the two"""
    if P.ret is None or P.ret[0] != 'agg' or len(P.ret[1]) != 2 or len(P.args) != 4:
        P.fail('retval', 'span', 'does not return a span')
        return
    names = ('first line', 'last line', 'first column', 'last column')
    for f in range(4):
        a, b = (word32(P.eng, P.st, P.args[2 * i + f // 2], f % 2) for i in (0, 1))
        r = word32(P.eng, P.st, P.ret[1][f // 2], f % 2)
        low = f in (0, 2)
        for first in (True, False):
            x, y = (a, b) if first else (b, a)
            # x is the outermost of the two
            for Q in P.cases((GE, sub(y, x) if low else sub(x, y))):
                Q.eq('retval', names[f], r, x, 'the %s of the merged span is not the outermost one' % names[f])


SPECS['harbol_token_span_merge'] = dict(roles=lambda cx, st, n, t, fn, o: scalar(cx, st, n, t), post=p_merge, status=status_none)


# ------------------------------------------------------------------ queries
def p_line(P):
    d = P.cx.g['tables'].get('lines')
    if not P.ok:
        P.prove('retval', 'missed', sub(A(P, 1), count0(P, 'lines')), 'reports no line although there is one')
        return
    if d is None or P.ret[1] != d.tb:
        P.fail('retval', 'line', 'does not return one of the lines')
        return
    P.prove('retval', 'range', addc(sub(d.n, A(P, 1)), -1), 'returns a line that does not exist')
    P.eq('retval', 'line', P.ret[2], scale(A(P, 1), 16), 'does not return the line with that number')


def p_code(P):
    o = P.objs['msgspan']
    if P.ret != VP(o.rid, MSG.offs(P.cx, o.off)['code']):
        P.fail('retval', 'code', 'does not return the source text')


def p_lines(P):
    P.eq('retval', 'lines', P.retu(), count0(P, 'lines'), 'does not return the number of lines')


NONE = {'have': ()}
spec('harbol_msg_span_get_line', post=p_line, variants=[{}, NONE])
spec('harbol_msg_span_get_code', post=p_code, variants=[{}, NONE])
spec('harbol_msg_span_get_num_lines', post=p_lines, variants=[{}, NONE], status=status_none)


# ------------------------------------------------------------------ emptying
def dropped(P):
    for f, d in P.cx.g['tables'].items():
        if hasattr(d, 'gt') and P.st.mem[d.gt].live == 1:
            P.fail('leak', 'text of ' + f, 'the text of one of the %s dropped is never freed' % f)


def p_clear(P):
    for f in STRIDE:
        P.eq('count', f, fieldv(P, f + '.n'), ZERO, 'clearing must leave no %s' % f)
        if fieldv(P, f) != NULLP:
            P.fail('inv', 'cleared ' + f, 'clearing must drop the table of %s' % f)
    for f in ('filename', 'code'):
        if fieldv(P, f) != NULLP:
            P.fail('inv', 'cleared ' + f, 'clearing must drop the %s' % f)
    dropped(P)


GHOSTS = [{}, NONE] + [{'ghost': f, 'have': (f,)} for f in STRIDE]
spec('harbol_msg_span_clear', post=p_clear, variants=GHOSTS, status=status_none)


# ------------------------------------------------------------------ adding
def own_text(P, t, at, what):
    """the text of the new element"""
    for s, p in P.cx.get(P.st.copy(), t[1], at, TP):
        for s2, l in P.cx.get(s, t[1], addc(at, 8), T64):
            Q = P.at(s2)
            if p == NULLP:
                Q.eq('content', 'text', P.eng.toU(s2, l), ZERO, '%s: no text but a length' % what)
                continue
            if not heap_block(s2, p):
                Q.fail('content', 'text', '%s has no text of its own' % what)
                continue
            Q.prove('content', 'text-size', addc(sub(s2.mem[p[1]].size, P.eng.toU(s2, l)), -1), '%s: the text has no room for its length' % what)


def new_note(cx, args):
    def chk(P, t, k):
        P.eq('count', 'one', k, count0(P, 'notes'), 'adds more than one note')
        k = count0(P, 'notes')
        own_text(P, t, add(t[2], scale(k, 16)), 'the note')
    return {'notes': chk}


def new_label(cx, args):
    span, color, sym = args[1:3], args[3], args[4]

    def chk(P, t, k):
        P.eq('count', 'one', k, count0(P, 'labels'), 'adds more than one label')
        k = count0(P, 'labels')
        at = add(t[2], scale(k, 48))
        own_text(P, t, at, 'the label')
        for f, what in enumerate(('line', 'line', 'column', 'column')):
            for s, v in P.cx.get(P.st.copy(), t[1], addc(at, 16 + 4 * f), T32):
                P.at(s).eq('content', 'span%d' % f, P.eng.toU(s, v), word32(P.eng, s, span[f // 2], f % 2), 'the label holds another %s' % what)
        for s, v in P.cx.get(P.st.copy(), t[1], addc(at, 32), TP):
            if not ptr_same(s, v, color):
                P.at(s).fail('content', 'color', 'the label holds another colour')
        for s, v in P.cx.get(P.st.copy(), t[1], addc(at, 40), T32):
            if not val_same(P.eng, s, v, sym):
                P.at(s).fail('content', 'sym', 'the label holds another symbol')
    return {'labels': chk}


def p_add(f):
    def post(P):
        P.eq('count', f, fieldv(P, f + '.n'), addc(count0(P, f), 1) if P.ok else count0(P, f), 'must add one of the %s exactly when it succeeds' % f)
        for g in STRIDE:
            if g != f:
                P.eq('count', g, fieldv(P, g + '.n'), count0(P, g), 'changes the %s' % g)
    return post


def some_args(cx, st):
    return []


ADDS = [{'have': ('lines', 'labels', 'notes')}, NONE]
spec('harbol_msg_span_add_label', setup=lambda cx, args: new_label(cx, args), post=p_add('labels'), variants=ADDS)
spec('harbol_msg_span_add_note', setup=new_note, post=p_add('notes'), variants=ADDS)


# ------------------------------------------------------------------ writing
def p_counted(P):
    o = P.objs.get('msg_cnt')
    if o is not None:
        for s, b in P.cx.get(P.st.copy(), o.rid, ZERO, T64):
            s2, a = P.cx.get(s.copy(), o.rid, ZERO, T64, P.e.mem[o.rid].content)[0]
            if s2.assume(GE, sub(K(M64 - 1), P.eng.toU(s2, a))):
                P.at(s2).eq('content', 'cnt', P.eng.toU(s2, b), addc(P.eng.toU(s2, a), 1), 'the message is not counted exactly once')


spec('harbol_write_msg', post=p_counted, status=status_none)


def local_string(eng, st, a):
    """a string variable of the function itself"""
    return a[0] == 'p' and a[1] > 0 and st.mem[a[1]].kind == 'stack'


def grow_text(eng, st, a, n):
    """appending to a string of the function itself: done, or nothing happened"""
    out = [(st.copy(), ('i', 1, ZERO, 'u'))]
    c = st.mem[a[1]].content
    for s, t in eng.read(st.copy(), c, a[2], 8, TP, a[1]):
        for s2, l in eng.read(s, c, addc(a[2], 8), 8, T64, a[1]):
            if t[0] == 'undef' or l[0] == 'undef':
                eng.report('uninit', 'appends to a string that was never set up', s2, 'pad')
                continue
            s2 = s2.copy()
            if t[1] > 0:
                s2.mem[t[1]] = s2.mem[t[1]].with_(live=0)
            m = newsym('padlen', 0, PTRDIFF - 1)
            if not s2.assume(EQ, sub(m, add(eng.toU(s2, l), n))):
                continue
            rid = eng.new_region(s2, 'heap', addc(m, 1), Base('strbuf', len=m), name='text of a local string')
            eng.write(s2, a[1], a[2], 8, VP(rid))
            eng.write(s2, a[1], addc(a[2], 8), 8, ('i', 64, m, 'u'))
            out.append((s2, ('i', 1, ONE, 'u')))
    return out


def c_rep(eng, st, a, i):
    return grow_text(eng, st, a[0], eng.toU(st, a[2])) if local_string(eng, st, a[0]) else None


def c_utf8(eng, st, a, i):
    return grow_text(eng, st, a[0], newsym('bytes', 1, 4)) if local_string(eng, st, a[0]) else None


def c_digits(eng, st, a, i):
    return [(st, ('i', 64, newsym('digits', 1, 20), 'u'))]


def p_emit(P):
    p_counted(P)
    P.eq('count', 'lines', fieldv(P, 'lines.n'), count0(P, 'lines'), 'showing a message must not change the source')
    P.eq('count', 'labels', fieldv(P, 'labels.n'), ZERO, 'labels that were shown must be dropped')
    n = fieldv(P, 'notes.n')
    for Q in P.cases((GE, addc(count0(P, 'labels'), -1))):
        Q.eq('count', 'notes', n, ZERO, 'notes that were shown must be dropped')
    for f, d in P.cx.g['tables'].items():
        if hasattr(d, 'gt') and f != 'lines':
            for Q in P.cases((GE, addc(count0(P, 'labels'), -1))):
                if P.st.mem[d.gt].live == 1:
                    Q.fail('leak', 'text of ' + f, 'the text of one of the %s that were shown is never freed' % f)


SHOW = {'harbol_string_add_char_rep': c_rep, 'write_utf8_str': c_utf8, 'base_10_digits': c_digits}
EM = [dict(v, texts=t) for v, t in (({'have': ('lines', 'labels', 'notes')}, True), (NONE, False), ({'have': ('labels', 'notes'), 'ghost': 'labels'}, False), ({'have': ('labels', 'notes'), 'ghost': 'notes'}, False))]
spec('harbol_msg_span_emit_to_stream', post=p_emit, status=status_none, contracts=SHOW, variants=EM)


# ------------------------------------------------------------------ taking over a source
def in_table(eng, st, a):
    """element of a table this function allocated -> index"""
    if a[0] != 'p' or a[1] <= 0 or st.mem[a[1]].kind != 'heap':
        return None
    i, r = place(a[2], 16)
    return i if r == 0 else None


def c_copy_cstr(eng, st, a, i):
    """copying a line into the table of lines: the text behind the previous newline"""
    j = in_table(eng, st, a[0])
    if j is None:
        return None
    out = []
    s0 = eng.access(st.copy(), a[0], K(16), 'w')
    if s0 is None:
        return []
    st = s0
    code, offs = st.tags.get('code'), st.tags.get('offs')
    starts = []
    s = st.copy()
    if s.assume(EQ, j):
        starts.append((s, ZERO))
    s = st.copy()
    if s.assume(GE, addc(j, -1)):
        if offs is None:
            eng.report('content', 'line:offs', 'a line is cut without knowing where the newlines are', s)
        else:
            for s2, v in eng.read(s, s.mem[offs].content, scale(addc(j, -1), 8), 8, T64, offs):
                starts.append((s2, addc(eng.toU(s2, v), 1)))
    for s, want in starts:
        if a[1][0] != 'p' or not s.eq(a[1][2], want) or a[1][1] <= 0:
            if not (a[1] == NULLP and code is None):
                eng.report('content', 'line %s does not begin behind its newline' % show(j), s, 'line:start')
        for s2, v in STRCOPY(eng, s, a):
            out.append((s2, v))
    return out


def STRCOPY(eng, st, a):
    f = st.copy()
    out = [(f, ('i', 1, ZERO, 'u'))]
    if a[1] == NULLP:
        return out
    s = st.copy()
    r = s.tags.get('linetext')
    if r is None:
        r = eng.new_region(s, 'heap', K(1), Base('opaque'), name='texts of the lines', site='entry', noleak=True)
        s.tags['linetext'] = r
    eng.write(s, a[0][1], a[0][2], 8, VP(r))
    eng.write(s, a[0][1], addc(a[0][2], 8), 8, u64('linelen', 0, PTRDIFF - 1))
    out.append((s, ('i', 1, ONE, 'u')))
    return out


def in_source(st, a):
    return a[0][0] == 'p' and a[0][1] > 0 and st.mem[a[0][1]].attr.get('site') == 'entry' and st.mem[a[0][1]].kind in ('param', 'stack')


def text_of(eng, st, a):
    """[(state, text pointer, length)] of a string"""
    c = st.mem[a[1]].content
    return [(s2, t, eng.toU(s2, l)) for s, t in eng.read(st.copy(), c, a[2], 8, TP, a[1]) for s2, l in eng.read(s, c, addc(a[2], 8), 8, T64, a[1]) if l[0] == 'i']


def c_read_file(eng, st, a, i):
    """reading a file into a string (checked with the strings)"""
    return grow_text(eng, st, a[0], newsym('filesize', 0, PTRDIFF - 1))


def c_replace_cstr(eng, st, a, i):
    """replacing keeps a well-formed text"""
    out = []
    for s, t, l in text_of(eng, st, a[0]):
        if t[1] <= 0:
            out.append((s, ('i', 1, ZERO, 'u')))
            continue
        out += grow_text(eng, s, a[0], newsym('more', -PTRDIFF, PTRDIFF))
    return out


def c_count_cstr(eng, st, a, i):
    """at most as many newlines as characters"""
    out = []
    for s, t, l in text_of(eng, st, a[0]):
        n = newsym('newlines', 0, PTRDIFF - 1)
        if t[1] <= 0:
            n = ZERO
        elif not s.assume(GE, sub(l, n)):
            continue
        s.tags['newlines'] = n
        s.tags['code'] = t[1] if t[1] > 0 else None
        out.append((s, ('i', 64, n, 'u')))
    return out


def c_offsets(eng, st, a, i):
    """the place of each newline, each one inside the text"""
    out = []
    s = st.copy()
    n = eng.toU(s, a[3])
    s = eng.access(s, a[2], scale(n, 8), 'w')
    if s is None:
        return []
    for s2, t, l in text_of(eng, s, a[0]):
        if t[1] <= 0:
            out.append((s2, ('i', 1, ZERO, 'u')))
            continue
        if s2.tags.get('newlines') is None or not s2.eq(s2.tags['newlines'], n):
            eng.report('content', 'asks for another number of newlines than there are', s2, 'offsets')

        def h(eng, st2, b, off, nb, ty, rid, l=l, n=n):
            j, r = place(off, 8)
            if j is None or r or nb != 8:
                return [(st2, eng.unknown(st2, ty))]
            o = newsym('newline', 0, PTRDIFF)
            o2 = []
            x = st2.copy()
            if x.assume(GE, addc(sub(n, j), -1)) and x.assume(GE, addc(sub(l, o), -1)):
                o2.append((x, ('i', 64, o, 'u')))
            x = st2.copy()
            if x.assume(GE, sub(j, n)):
                o2.append((x, eng.unknown(x, ty)))
            return o2
        r = s2.mem[a[2][1]]
        s2.mem[a[2][1]] = r.with_(content=Base('lazy', handler=h))
        s2.tags['offs'] = a[2][1]
        out.append((s2, ('i', 1, ONE, 'u')))
    return out


def c_clear(eng, st, a, i):
    """clearing everything (checked above)"""
    if a[0][0] != 'p' or a[0][1] <= 0:
        return None
    O = MSG.offs(eng, a[0][2]) if hasattr(eng, 'p') else None
    rid = a[0][1]
    c = st.mem[rid].content
    outs = [st.copy()]
    for f in ('filename', 'code', 'lines'):
        nxt = []
        for s in outs:
            for s2, t in eng.read(s, s.mem[rid].content, O[f], 8, TP, rid):
                s2 = s2.copy()
                if t[0] != 'p' or t[1] < 0:
                    eng.report('wild', 'clears a message span with an indeterminate %s' % f, s2, 'clear:' + f)
                    continue
                if t[1] > 0:
                    if s2.mem[t[1]].live != 1:
                        eng.report('dfree', 'clears a message span whose %s was already freed' % f, s2, 'clear:' + f)
                        continue
                    s2.mem[t[1]] = s2.mem[t[1]].with_(live=0)
                    if f == 'lines':
                        (s3, n), = eng.read(s2, s2.mem[rid].content, O['lines.n'], 8, T64, rid)[:1]
                        s2 = s3.copy()
                        if not s2.ge(sub(st.mem[t[1]].size, scale(eng.toU(s2, n), 16)), ZERO):
                            eng.report('oob', 'clears more lines than the table holds', s2, 'clear:n')
                        want = s2.tags.get('newlines')
                        r = s2.tags.get('linetext')
                        if r is not None and s2.mem[r].live == 1 and want is not None and s2.eq(eng.toU(s2, n), addc(want, 1)):
                            s2.mem[r] = s2.mem[r].with_(live=0)
                nxt.append(s2)
        outs = nxt
    for s in outs:
        for f, o in O.items():
            eng.write(s, rid, o, 8, NULLP if f in STRIDE or f in ('filename', 'code') else VI(64, ZERO))
            if f in ('filename', 'code'):
                eng.write(s, rid, addc(o, 8), 8, VI(64, ZERO))
    return [(s, None) for s in outs]


def c_clear_string(eng, st, a, i):
    """a line that is dropped on its own: its text is one of those summarised"""
    return None


def p_init(P):
    rid, off = (P.sret, ZERO) if P.sret is not None else (P.objs['msgspan'].rid, P.objs['msgspan'].off)
    O = MSG.offs(P.cx, off)
    rd = lambda f, t: P.cx.get(P.st.copy(), rid, O[f], t)[0][1]
    t, n = rd('lines', TP), P.eng.toU(P.st, rd('lines.n', T64))
    code, fname = rd('code', TP), rd('filename', TP)
    args = P.args[1:]
    for Q, ok in outcome(P):
        r = Q.st.tags.get('linetext')
        if not ok:
            for f in ('lines', 'code', 'filename'):
                if rd(f, TP) != NULLP:
                    Q.fail('content', 'failed:' + f, 'a failed set-up leaves %s behind' % f)
            Q.eq('count', 'failed', n, ZERO, 'a failed set-up leaves lines behind')
            if r is not None and Q.st.mem[r].live == 1:
                Q.fail('leak', 'lines', 'a failed set-up loses the texts of the lines')
            continue
        if not heap_block(Q.st, t):
            Q.fail('inv', 'lines', 'the table of lines is not a live allocation')
            continue
        Q.prove('inv', 'lines:size', sub(Q.st.mem[t[1]].size, scale(n, 16)), 'more lines than the table holds')
        w = Q.st.tags.get('newlines')
        if w is None:
            Q.fail('content', 'lines', 'the lines of the source were never counted')
        else:
            Q.eq('count', 'lines', n, addc(w, 1), 'one line more than newlines')
        keep = Q.eng.toU(Q.st, args[2])
        for R in Q.cases((GE, addc(keep, -1))):
            if code != NULLP:
                R.fail('content', 'kept', 'the source text is kept although it should have been freed')
        file = Q.eng.toU(Q.st, args[1])
        for R in Q.cases((GE, addc(file, -1))):
            if fname == NULLP:
                R.fail('content', 'filename', 'the name of the file is not kept')
        for R in Q.cases((EQ, file)):
            if fname != NULLP:
                R.fail('content', 'filename', 'a file name without a file')
        for R in Q.cases((EQ, keep)):
            if code == NULLP and R.st.tags.get('code') is not None:
                R.fail('content', 'dropped', 'the source text was to be kept')


def outcome(P):
    if P.sret is None:
        return [(P, P.ok)]
    out = []
    for s, v in P.cx.get(P.st.copy(), P.args[4][1], 0, {'k': 'i', 'b': 8}):
        if v[0] == 'undef':
            P.at(s).fail('status', 'res', 'the result flag is not set')
            continue
        for b in (0, 1):
            for Q in P.at(s).cases((EQ, addc(P.eng.toU(s, v), -b))):
                out.append((Q, bool(b)))
    return out


class NewMsg(MsgShape):
    def check(self, cx, P, st, rid, off, name):
        pass

    def unchanged(self, cx, P, o):
        pass


NEW = NewMsg()


def new_roles(cx, st, name, ty, fn, opts):
    if ty == 'struct HarbolMsgSpan*':
        return [(s, VP(o.rid), o) for s, o in NEW.new(cx, st, name, 'out')]
    return roles(cx, st, name, ty, fn, opts)


INIT = {'harbol_string_read_file': c_read_file, 'harbol_string_replace_cstr': c_replace_cstr, 'harbol_string_count_cstr': c_count_cstr,
        'harbol_string_cstr_offsets': c_offsets, 'harbol_string_copy_cstr': c_copy_cstr, 'harbol_msg_span_clear': c_clear}
for _n in ('init', 'make'):
    SPECS['harbol_msg_span_' + _n] = dict(roles=new_roles, post=p_init, contracts=INIT, **({'status': status_none} if _n == 'make' else {}))
