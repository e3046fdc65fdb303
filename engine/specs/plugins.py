"""Plugins: the library handle and the path are owned, user functions see a loaded library, directories are walked once."""
from spec import *
from specs.str import cstr_arg
from models import strlen_of

I64, I32, I8 = {'k': 'i', 'b': 64}, {'k': 'i', 'b': 32}, {'k': 'i', 'b': 8}
TPL = 'HarbolPlugin'


class PluginShape(Shape):
    """dll: NULL or an open library (then path is known); path: NULL or a text of its own"""
    struct = TPL

    def fill(self, cx, st, rid, off, name, mode):
        F = {f: addc(off, cx.p.off(TPL, f)) for f in ('dll', 'path', 'last_write', 'err')}
        out = []
        for path in (0, 1):
            for dll in (0, 1):
                if dll and not path or mode == 'out' and path:
                    continue
                s = st.copy()
                d, t = NULLP, NULLP
                if dll:
                    d = VP(cx.region(s, 'file', None, Base('opaque'), name='the loaded library', of=rid))
                if path:
                    L = newsym(name + '.pathlen', 0, PTRDIFF - 1)
                    cx.g['plen%d' % rid] = L
                    t = VP(cx.region(s, 'heap', addc(L, 1), Base('cstr', len=L), name=name + '->path', of=rid))
                cx.put(s, rid, F['dll'], 8, d)
                cx.put(s, rid, F['path'], 8, t)
                cx.put(s, rid, F['last_write'], 8, fresh_i(64, 'last_write'))
                cx.put(s, rid, F['err'], 4, fresh_i(32, 'err'))
                out.append(s)
        return out

    def check(self, cx, P, st, rid, off, name):
        for s1, d in cx.fld(st.copy(), TPL, 'dll', rid, off):
            for s2, t in cx.fld(s1, TPL, 'path', rid, off):
                Q = P.at(s2)
                if 'undef' in (d[0], t[0]):
                    Q.fail('inv', 'inv:uninit', '%s is left with uninitialised fields' % name)
                    continue
                if d[0] != 'p' or d[1] < 0 or d[1] > 0 and (s2.mem[d[1]].kind != 'file' or s2.mem[d[1]].live != 1):
                    Q.fail('inv', 'inv:dll', '%s: the library handle is not that of an open library' % name)
                if t[0] != 'p' or t[1] < 0 or t[1] > 0 and (s2.mem[t[1]].kind != 'heap' or s2.mem[t[1]].live != 1 or not s2.eq(t[2], ZERO)):
                    Q.fail('inv', 'inv:path', '%s: the path is not a text of its own' % name)
                    continue
                if d[1] > 0 and t[1] == 0:
                    Q.fail('inv', 'inv:path', '%s: a library is loaded but its path is not known' % name)

    def logical_same(self, cx, P, o):
        """a failure is recorded in err; what else changes, the posts decide"""
        return True


PL = PluginShape()


def roles(cx, st, name, ty, fn, opts):
    if ty == 'struct HarbolPlugin*':
        return [(s, VP(o.rid), o) for s, o in PL.new(cx, st, name, opts.get('mode', 'mut'))]
    if ty == 'struct HarbolPlugin const*':
        return [(s, VP(o.rid), o) for s, o in PL.new(cx, st, name, 'const')]
    if ty == 'fn*':
        out = [(st.copy(), NULLP, None)] if not opts.get('nonnull') else []
        return out + [(st, VP(cx.region(st, 'user', None, Base('opaque'), name=name)), None)]
    if ty in ('char const*', 'char*'):
        return cstr_arg(cx, st, name, name == 'custom_ext')
    if ty == 'void*':
        return [(st, VP(cx.region(st, 'user', None, Base('opaque'), name=name)), None)]
    return scalar(cx, st, name, ty)


# ------------------------------------------------------------------ what happened, in order
def log(st):
    return st.tags.get('log', ())


def add_log(st, *ev):
    st.tags['log'] = log(st) + (ev,)


def c_dlopen(eng, st, a, i):
    out = []
    for s, v in eng.models.find('dlopen')(eng, st.copy(), a, i):
        add_log(s, 'open', a[0], v)
        out.append((s, v))
    return out


def c_dlclose(eng, st, a, i):
    out = []
    for s, v in eng.models.find('dlclose')(eng, st.copy(), a, i):
        add_log(s, 'close', a[0])
        out.append((s, v))
    return out


def c_dlsym(eng, st, a, i):
    out = []
    if a[0][0] == 'p' and a[0][1] > 0 and st.mem[a[0][1]].live != 1:
        eng.report('uaf', 'a symbol is looked up in a library already closed', st, 'dlsym')
        return []
    for s, v in eng.models.find('dlsym')(eng, st.copy(), a, i):
        add_log(s, 'sym', a[0], a[1], v)
        out.append((s, v))
    return out


def c_stat(eng, st, a, i):
    out = []
    for s, _ in strlen_of(eng, st, a[0], 'stat'):
        s0 = s.copy()
        s0.tags['why'] = 1
        add_log(s0, 'stat', a[0], None)
        out.append((s0, VI(32, K((1 << 32) - 1))))
        p = eng.models.ptr(eng, s, a[1])
        s1 = eng.access(s, p, K(144), 'w')
        if s1 is not None:
            s1 = s1.copy()
            eng.fill(s1, p[1], p[2], K(144), None)
            m = fresh_i(64, 'mtime')
            eng.write(s1, p[1], addc(p[2], eng.p.off('stat', 'st_mtime')), 8, m)
            add_log(s1, 'stat', a[0], m)
            out.append((s1, VI(32, ZERO)))
    return out


def callback(eng, st, i, a, fp):
    s = st.copy()
    t = i.get('t', {'k': 'v'})
    live = None
    if a and a[0][0] == 'p' and a[0][1] > 0 and eng.p.size(TPL) and s.mem[a[0][1]].kind == 'param':
        (_, d), = eng.read(s.copy(), s.mem[a[0][1]].content, addc(a[0][2], eng.p.off(TPL, 'dll')), 8, {'k': 'p'}, a[0][1])[:1]
        live = d
        if d[0] == 'p' and d[1] > 0 and s.mem[d[1]].live != 1:
            eng.report('uaf', 'a user function is given a plugin whose library is closed', st, 'cbdead')
            return []
        for f in ('err', 'last_write'):
            n = 4 if f == 'err' else 8
            for _, v in eng.read(s.copy(), s.mem[a[0][1]].content, addc(a[0][2], eng.p.off(TPL, f)), n, {'k': 'i', 'b': 8 * n}, a[0][1]):
                if v[0] == 'undef':
                    eng.report('uninit', 'a user function is given a plugin with uninitialised fields', st, 'cbuninit')
                    return []
    add_log(s, 'call', fp, tuple(a), live)
    return [(s, None if t['k'] == 'v' else eng.unknown(s, t))]


CON = {'dlopen': c_dlopen, 'dlclose': c_dlclose, 'dlsym': c_dlsym, 'stat': c_stat, 'lstat': c_stat, 'fstat': None}
CON = {k: v for k, v in CON.items() if v}
SPECS = {}
MODULE = 'plugins'


def spec(name, **kw):
    SPECS['harbol_plugin_' + name] = dict(roles=kw.pop('roles', roles), contracts=kw.pop('contracts', CON), callback=kw.pop('callback', callback), **kw)


def fields(P, rid, off=ZERO, st=None, content=None):
    d = {}
    s = (st or P.st).copy()
    for f in ('dll', 'path', 'last_write', 'err'):
        got = P.cx.fld(s, TPL, f, rid, off, content)
        d[f] = got[0][1]
    return d


def both(P):
    o = P.objs['pl'].rid
    return fields(P, o, content=P.e.mem[o].content), fields(P, o)


def isnull(v):
    return v[0] == 'p' and v[1] == 0


def errs(P):
    return {n: v for e in P.cx.p.enums.values() for n, v in e.items() if n.startswith('HarbolPluginErr')}


def err(P, now, name):
    P.entry.obligations += 1
    if now['err'][0] == 'undef' or not P.st.eq(P.eng.toU(P.st, now['err']), K(errs(P)[name])):
        P.fail('status', 'err', 'the error recorded is not %s' % name)


def keep(P, was, now, *fs):
    for f in fs:
        P.entry.obligations += 1
        if not val_same(P.eng, P.st, was[f], now[f]):
            P.fail('content', 'keep:' + f, 'the plugin\'s %s changed' % f)


def events(P, *want):
    """exactly these calls were made, in this order"""
    P.entry.obligations += 1
    got = [e for e in log(P.st) if e[0] != 'stat']
    if len(got) != len(want):
        P.fail('content', 'events', 'calls made: %s; expected: %s' % (', '.join(e[0] for e in got) or 'none', ', '.join(w[0] for w in want) or 'none'))
        return
    for g, w in zip(got, want):
        if g[0] != w[0]:
            P.fail('content', 'events', 'calls made: %s; expected: %s' % (', '.join(e[0] for e in got), ', '.join(w[0] for w in want)))
            return
        if g[0] == 'call':
            fp, args, dll = w[1:]
            if not ptr_same(P.st, g[1], fp) or len(g[2]) != len(args) or not all(val_same(P.eng, P.st, x, y) for x, y in zip(g[2], args)):
                P.fail('content', 'event:args', 'a user function is not called with the arguments it is due')
                return
            if dll is not None and (g[3] is None or not ptr_same(P.st, g[3], dll)):
                P.fail('content', 'event:dll', 'a user function is called while another library, or none, is in place')
                return
        else:
            for x, y in zip(g[1:], w[1:]):
                if y is not None and not val_same(P.eng, P.st, x, y):
                    P.fail('content', 'event:' + g[0], '%s of something else than the plugin\'s own' % g[0])
                    return


def flag(b):
    return VI(1, K(int(b)))


def calls(P, i, reloading, dll, data):
    """the call that user function argument i is due"""
    f = P.args[i]
    return [] if isnull(f) else [('call', f, (P.args[0], P.args[data], flag(reloading)), dll)]


def stats(P):
    return [e for e in log(P.st) if e[0] == 'stat']


def p_load(P):
    was, now = both(P)
    if P.ok:
        d = now['dll']
        if isnull(d):
            P.fail('content', 'dll', 'reports success without a library')
            return
        events(P, ('open', P.args[1], d), *calls(P, 2, False, d, 3))
        P.entry.obligations += 1
        L = P.cx.g['len:path']
        if isnull(now['path']):
            P.fail('content', 'path', 'reports success without recording the path')
            return
        P.same_bytes('content', 'path', now['path'], now['path'][2], P.args[1][1], P.args[1][2], addc(L, 1), 'the path recorded is not the one given')
        s = stats(P)
        if len(s) != 1 or s[0][2] is None or not val_same(P.eng, P.st, s[0][2], now['last_write']):
            P.fail('content', 'mtime', 'the time recorded is not that of the file\'s last change')
    else:
        opens = [e for e in log(P.st) if e[0] == 'open' and not isnull(e[2])]
        err(P, now, 'HarbolPluginErrBadPath' if opens else 'HarbolPluginErrLibLoadFail')
        P.entry.obligations += 1
        if not isnull(now['dll']) or not isnull(now['path']):
            P.fail('content', 'failed', 'reports failure but keeps a library or a path')
        if [e for e in log(P.st) if e[0] == 'call']:
            P.fail('content', 'failed:call', 'reports failure after telling the user function')


def p_clear(P):
    was, now = both(P)
    want = calls(P, 1, False, was['dll'], 2)
    if not isnull(was['dll']):
        want.append(('close', was['dll']))
    events(P, *want)
    P.entry.obligations += 1
    if not isnull(now['dll']) or not isnull(now['path']):
        P.fail('content', 'cleared', 'the plugin still has a library or a path')
    for f in ('last_write', 'err'):
        if now[f][0] == 'undef' or not P.st.eq(P.eng.toU(P.st, now[f]), ZERO):
            P.fail('content', 'cleared', 'the plugin is not left empty')
    if not isnull(was['path']) and P.st.mem[was['path'][1]].live == 1:
        P.fail('content', 'cleared', 'the path is not released')


def p_changed(P):
    was, now = both(P)
    events(P)
    keep(P, was, now, 'dll', 'path')
    s = stats(P)
    if isnull(was['path']):
        P.entry.obligations += 1
        if P.ok:
            P.fail('retval', 'nopath', 'a plugin without a path has changed')
        err(P, now, 'HarbolPluginErrNoPath')
        keep(P, was, now, 'last_write')
        return
    keep(P, was, now, 'err')
    P.entry.obligations += 1
    if len(s) != 1 or not ptr_same(P.st, s[0][1], was['path']):
        P.fail('content', 'stat', 'the file looked at is not the plugin\'s')
        return
    m = s[0][2]
    if m is None:
        if P.ok:
            P.fail('retval', 'changed', 'a file that cannot be looked at has changed')
        keep(P, was, now, 'last_write')
        return
    U = P.eng.toU
    d = sub(U(P.st, m), U(P.st, was['last_write']))
    P.prove('retval', 'changed', d, 'reports %s' % ('a change although the time of the last write is the recorded one' if P.ok else 'no change although the file was written since'), NE if P.ok else EQ)
    P.entry.obligations += 1
    if not P.st.eq(U(P.st, now['last_write']), U(P.st, m)):
        P.fail('content', 'mtime', 'the time recorded is not that of the file\'s last change')


def p_reload(P):
    was, now = both(P)
    keep(P, was, now, 'path')
    if isnull(was['path']):
        P.entry.obligations += 1
        if P.ok:
            P.fail('status', 'nopath', 'reports that a plugin without a path was loaded again')
        events(P)
        err(P, now, 'HarbolPluginErrNoPath')
        keep(P, was, now, 'dll', 'last_write')
        return
    want = []
    if not isnull(was['dll']):
        want += calls(P, 2, True, was['dll'], 3)
        want.append(('close', was['dll']))
    if P.ok:
        if isnull(now['dll']):
            P.fail('content', 'dll', 'reports success without a library')
            return
        want.append(('open', was['path'], now['dll']))
        want += calls(P, 1, True, now['dll'], 3)
    else:
        want.append(('open', was['path'], NULLP))
        err(P, now, 'HarbolPluginErrCantReload')
        P.entry.obligations += 1
        if not isnull(now['dll']):
            P.fail('content', 'dll', 'a failed reload leaves a library handle')
    events(P, *want)


def p_get_obj(P):
    was, now = both(P)
    keep(P, was, now, 'dll', 'path', 'last_write')
    if isnull(was['dll']):
        events(P)
        err(P, now, 'HarbolPluginErrNoLibLoaded')
        P.entry.obligations += 1
        if not isnull(P.ret):
            P.fail('retval', 'obj', 'an object of a library that is not loaded')
        return
    err(P, now, 'HarbolPluginErrNone')
    events(P, ('sym', was['dll'], P.args[1], P.ret))


def p_get_err(P):
    """one text per error"""
    P.entry.obligations += 1
    if P.ret[0] != 'p' or P.ret[1] <= 0:
        P.fail('retval', 'text', 'no text')
        return
    strlen_of(P.eng, P.st.copy(), P.ret, 'error text')
    (e,) = [P.eng.toU(P.st, x) for x in [fields(P, P.objs['pl'].rid)['err']]]
    r = P.st.mem[P.ret[1]]
    texts = P.cx.g.setdefault('texts', {})
    names = {v: n for n, v in errs(P).items()}
    vs = [v for v in names if P.st.copy().assume(EQ, addc(e, -v))]
    key = r.attr.get('name'), P.ret[1]
    others = P.st.copy()
    for v in names:
        if not others.assume(NE, addc(e, -v)):
            others = None
            break
    if len(vs) > 1:
        P.fail('retval', 'text', 'the same text for different errors')
        return
    if not vs:
        return
    if others is not None:
        P.fail('retval', 'text', 'the text of %s is also given for unknown errors' % names[vs[0]])
        return
    if texts.setdefault(key, vs[0]) != vs[0]:
        P.fail('retval', 'text', 'the text of %s is that of %s' % (names[vs[0]], names[texts[key]]))


ANY = [True]
spec('load', post=p_load, variants=[{'mode': 'out'}], fail_exempt=('pl',))
spec('clear', post=p_clear)
spec('changed', post=p_changed, why=ANY, fail_exempt=('pl',))
spec('reload', post=p_reload, why=lambda P: [isnull(both(P)[0]['path'])], fail_exempt=('pl',))
spec('get_obj', post=p_get_obj, why=ANY, fail_exempt=('pl',), status=status_none)
spec('get_err', post=p_get_err, status=status_none)


# ------------------------------------------------------------------ walking a directory
# What the directory reader is at is kept in its n_files field, which nothing in the walk uses: 16*depth + one of
FRESH, PENDING, SUBDIR, DONE, ENDED = 1, 2, 3, 4, 5
# what an entry is, kept in the stat buffer of the file found
MATCH, OTHER = 1, 2
DD, DF = 'tinydir_dir', 'tinydir_file'
I8 = {'k': 'i', 'b': 8}


def rd(eng, st, v, off, n, t):
    return eng.read(st.copy(), st.mem[v[1]].content, addc(v[2], off), n, t, v[1])[0][1]


def konst(st, v):
    return v[2][0] if v[0] == 'i' and not v[2][1] else None


def dstate(eng, st, d):
    v = rd(eng, st, d, eng.p.off(DD, 'n_files'), 8, I64)
    k = konst(st, v)
    if k is None:
        return None, None
    level, x = divmod(k, 16)
    if x == FRESH:
        # between entries only the field the walk goes by tells whether there is another
        h = rd(eng, st, d, eng.p.off(DD, 'has_next'), 4, {'k': 'i', 'b': 32})
        if st.eq(h[2], ZERO):
            x = ENDED
        elif not st.cons.prove_ne(h[2], ZERO):
            x = None
    return level, x


def set_dstate(eng, st, d, level, what, has_next=None):
    if what == ENDED:
        what, has_next = FRESH, 0
    elif what == FRESH:
        has_next = 1
    eng.write(st, d[1], addc(d[2], eng.p.off(DD, 'n_files')), 8, VI(64, K(16 * level + what)))
    if has_next is not None:
        eng.write(st, d[1], addc(d[2], eng.p.off(DD, 'has_next')), 4, VI(32, K(has_next)))


def dptr(eng, st, v, n, mode):
    v = eng.models.ptr(eng, st, v)
    s = eng.access(st, v, K(n), mode)
    return s, v


def seen(eng, st, d):
    """the entry the reader is at was dealt with"""
    level, x = dstate(eng, st, d)
    if x == PENDING:
        eng.report('content', 'a file with the right extension is passed over', st, 'dir:skip')
    elif x == SUBDIR:
        eng.report('content', 'a sub-directory is not looked into', st, 'dir:sub')
    elif x is None:
        raise AnalysisError('state of a directory reader unknown')
    return level, x


def c_td_open(eng, st, a, i):
    s, d = dptr(eng, st, a[0], eng.p.size(DD), 'w')
    if s is None:
        return []
    level = 0
    out = []
    v = a[1]
    par = None
    if v[0] == 'p' and v[1] > 0 and 'found' in st.tags and s.mem[v[1]].kind == 'stack' and s.mem[v[1]].size == K(eng.p.size(DF)):
        par = rd(eng, s, v, eng.p.off(DF, '_s'), 8, {'k': 'p'})
        lv, x = dstate(eng, s, par)
        level = (lv or 0) + 1
        kind = konst(s, rd(eng, s, v, eng.p.off(DF, '_s') + 8, 8, I64))
        if kind == 7:
            eng.report('content', 'the directory itself, or the one above, is entered', st, 'dir:self')
            return []
        if x == SUBDIR:
            s = s.copy()
            set_dstate(eng, s, par, lv, DONE)
    elif not strlen_of(eng, s, v, 'tinydir_open'):
        return []
    if level > 1:
        return []
    for ok in (0, 1, 2):
        t = s.copy()
        eng.fill(t, d[1], d[2], K(eng.p.size(DD)), 0)
        t.tags = dict(t.tags)
        if not ok:
            if not level:
                t.tags['why'] = 1
            set_dstate(eng, t, d, level, ENDED)
        else:
            rid = eng.new_region(t, 'file', None, Base('opaque'), fresh=True, name='the directory', res='opendir')
            eng.write(t, d[1], addc(d[2], eng.p.off(DD, '_d')), 8, VP(rid))
            set_dstate(eng, t, d, level, FRESH if ok == 2 else ENDED, ok - 1)
            if not level:
                t.tags['opened'] = 1
        out.append((t, VI(32, K(0 if ok else M32))))
    return out


M32 = (1 << 32) - 1


def c_td_readfile(eng, st, a, i):
    s, d = dptr(eng, st, a[0], eng.p.size(DD), 'r')
    if s is None:
        return []
    s, f = dptr(eng, s, a[1], eng.p.size(DF), 'w')
    if s is None:
        return []
    level, x = dstate(eng, s, d)
    if x == ENDED:
        return [(s, VI(32, K(M32)))]
    if x != FRESH:
        eng.report('content', 'the same directory entry is read again: it is handled twice, or never left', st, 'dir:again')
        return []
    out = []
    p = eng.p
    for kind in ('fail', 'match', 'other') + (('dot', 'dotdot', 'dotdir', 'dir') if not level else ()):
        t = s.copy()
        if kind == 'fail':
            set_dstate(eng, t, d, level, DONE)
            out.append((t, VI(32, K(M32))))
            continue
        t.tags = dict(t.tags)
        t.tags['found'] = 1
        eng.fill(t, f[1], f[2], K(p.size(DF)), None)
        isdir = kind not in ('match', 'other')
        for nm, size in (('path', 4096), ('name', 256)):
            z = newsym(nm + 'len', 2, size - 1)
            if nm == 'name' and kind in ('dot', 'dotdot'):
                z = K(1 if kind == 'dot' else 2)
            eng.write(t, f[1], add(addc(f[2], p.off(DF, nm)), z), 1, VI(8, ZERO))
            if nm == 'name':
                nl = z
        c = ord('.')
        no = p.off(DF, 'name')
        if kind in ('dot', 'dotdot', 'dotdir'):
            eng.write(t, f[1], addc(f[2], no), 1, VI(8, K(c)))
            if kind == 'dotdot':
                eng.write(t, f[1], addc(f[2], no + 1), 1, VI(8, K(c)))
        elif kind == 'dir':
            ch = newsym('ch', 1, 255)
            if not t.assume(NE, addc(ch, -c)):
                continue
            eng.write(t, f[1], addc(f[2], no), 1, ('i', 8, ch, 'u'))
        e = newsym('ext', 0, 255)
        t.cons.addrow(GE, sub(nl, e))
        eng.write(t, f[1], addc(f[2], p.off(DF, 'extension')), 8, ('p', f[1], add(addc(f[2], no), e)))
        eng.write(t, f[1], addc(f[2], p.off(DF, 'is_dir')), 4, VI(32, K(int(isdir))))
        eng.write(t, f[1], addc(f[2], p.off(DF, '_s')), 8, d)
        eng.write(t, f[1], addc(f[2], p.off(DF, '_s') + 8), 8, VI(64, K({'match': MATCH, 'other': OTHER, 'dot': 7, 'dotdot': 7, 'dotdir': 8, 'dir': 9}[kind])))
        set_dstate(eng, t, d, level, {'match': PENDING, 'dir': SUBDIR}.get(kind, DONE))
        out.append((t, VI(32, ZERO)))
    return out


def c_td_next(eng, st, a, i):
    s, d = dptr(eng, st, a[0], eng.p.size(DD), 'w')
    if s is None:
        return []
    level, x = seen(eng, s, d)
    if x in (PENDING, SUBDIR):
        return []
    if x == ENDED:
        return [(s, VI(32, K(M32)))]
    if x == FRESH:
        eng.report('content', 'a directory entry is passed over unread', st, 'dir:unread')
        return []
    out = []
    for ok in (0, 1, 2):
        t = s.copy()
        set_dstate(eng, t, d, level, FRESH if ok == 2 else ENDED, int(ok == 2))
        out.append((t, VI(32, K(0 if ok else M32))))
    return out


def c_td_close(eng, st, a, i):
    s, d = dptr(eng, st, a[0], eng.p.size(DD), 'w')
    if s is None:
        return []
    h = rd(eng, s, d, eng.p.off(DD, '_d'), 8, {'k': 'p'})
    if h[0] != 'p':
        eng.report('uninit', 'an uninitialised directory reader is closed', st, 'dir:closeun')
        return []
    t = s.copy()
    if h[1] > 0:
        level, x = seen(eng, s, d)
        if x in (FRESH, DONE):
            eng.report('content', 'the directory is left before its last entry', st, 'dir:early')
            return []
        got = eng.models.find('closedir')(eng, t, [h], i)
        if not got:
            return []
        t = got[0][0].copy()
    eng.fill(t, d[1], d[2], K(eng.p.size(DD)), 0)
    set_dstate(eng, t, d, 0, ENDED, 0)
    return [(t, None)]


def c_strcmp(eng, st, a, i):
    """the extension of the file found against the one looked for"""
    for x, y in ((a[0], a[1]), (a[1], a[0])):
        if x[0] == 'p' and x[1] > 0 and st.mem[x[1]].kind == 'stack' and st.mem[x[1]].size == K(eng.p.size(DF)) and 'found' in st.tags:
            want = [r for r in st.mem if st.mem[r].attr.get('name') == 'custom_ext']
            ext = rd(eng, st, VP(x[1]), eng.p.off(DF, 'extension'), 8, {'k': 'p'})
            if not st.eq(x[2], ext[2]) or y[0] != 'p' or not st.eq(y[2], ZERO):
                return None
            if want and y[1] != want[0] or not want and st.mem[y[1]].kind not in ('str', 'global'):
                return None
            if not want and [konst(st, rd(eng, st, y, k, 1, I8)) for k in range(3)] != [ord('s'), ord('o'), 0]:
                eng.report('content', 'the extension looked for is not that of shared libraries', st, 'dir:ext')
                return []
            kind = konst(st, rd(eng, st, VP(x[1]), eng.p.off(DF, '_s') + 8, 8, I64))
            if kind == MATCH:
                return [(st.copy(), VI(32, ZERO))]
            if kind == OTHER:
                return [(st.copy(), VI(32, ONE))]
    return None


def dir_callback(eng, st, i, a, fp):
    s = st.copy()
    p = eng.p
    f = a[0] if a else None
    if len(a) != 3 or f[0] != 'p' or f[1] <= 0 or s.mem[f[1]].kind != 'stack' or 'found' not in st.tags or not s.eq(f[2], ZERO):
        eng.report('content', 'the user function is not given the path of a file found', st, 'dir:cb')
        return []
    if not ptr_same(s, a[1], ('p', f[1], K(p.off(DF, 'name')))):
        eng.report('content', 'the user function is not given the name of the file found', st, 'dir:cbname')
        return []
    if a[2][0] != 'p' or a[2][1] <= 0 or s.mem[a[2][1]].attr.get('name') != 'userdata':
        eng.report('content', 'the user function is not given its own data', st, 'dir:cbdata')
        return []
    d = rd(eng, s, f, p.off(DF, '_s'), 8, {'k': 'p'})
    level, x = dstate(eng, s, d)
    if x != PENDING:
        eng.report('content', 'the user function is called for something that is not a file with the right extension, or twice', st, 'dir:cbtwice')
        return []
    set_dstate(eng, s, d, level, DONE)
    return [(s, None)]


def p_dir(P):
    P.entry.obligations += 1
    if P.ok and not P.st.tags.get('opened'):
        P.fail('status', 'dir', 'reports success although the directory could not be opened')


DIR = {'tinydir_open': c_td_open, 'tinydir_readfile': c_td_readfile, 'tinydir_next': c_td_next, 'tinydir_close': c_td_close, 'strcmp': c_strcmp}


def c_getcwd(eng, st, a, i):
    got = eng.models.find('getcwd')(eng, st.copy(), a, i)
    for s, v in got:
        if isnull(v):
            s.tags = dict(s.tags)
            s.tags['why'] = 1
    return got


DIR['getcwd'] = c_getcwd
spec('dir_open', post=p_dir, contracts=DIR, callback=dir_callback, variants=[{'nonnull': 1}])


# ------------------------------------------------------------------ the directory reader itself
class DirShape(Shape):
    """closed: no handle, no entry; open: a handle and the entry it is at, has_next tells whether there is one"""
    struct = DD

    def fill(self, cx, st, rid, off, name, mode):
        o = {f: addc(off, cx.p.off(DD, f)) for f in ('path', 'has_next', 'n_files', '_files', '_d', '_e')}
        out = []
        if mode == 'out':
            s = st.copy()
            cx.eng.fill(s, rid, off, K(cx.p.size(DD)), 0)
            return [s]
        for k in (0, 1, 2):
            s = st.copy()
            z = newsym('pathlen', 0, 4095)
            cx.put(s, rid, add(o['path'], z), 1, VI(8, ZERO))
            cx.put(s, rid, o['n_files'], 8, VI(64, ZERO))
            cx.put(s, rid, o['_files'], 8, NULLP)
            cx.put(s, rid, o['has_next'], 4, VI(32, K(int(k == 2))))
            h, e = NULLP, NULLP
            if k:
                h = VP(cx.region(s, 'file', None, Base('opaque'), name='the directory', of=rid))
            if k == 2:
                n = newsym('dnamelen', 1, 255)
                r = cx.region(s, 'param', K(280), Base('strbuf', len=addc(n, 19)), name='dirent', of=rid)
                e = VP(r)
            cx.put(s, rid, o['_d'], 8, h)
            cx.put(s, rid, o['_e'], 8, e)
            out.append(s)
        return out

    def check(self, cx, P, st, rid, off, name):
        got = {f: cx.fld(st.copy(), DD, f, rid, off)[0][1] for f in ('has_next', 'n_files', '_files', '_d', '_e')}
        P.entry.obligations += 1
        if any(v[0] == 'undef' for v in got.values()):
            if P.ok is not False:
                P.fail('inv', 'inv:uninit', '%s is left with uninitialised fields' % name)
            return
        d, e = got['_d'], got['_e']
        if d[0] != 'p' or d[1] < 0 or d[1] > 0 and (d[1] not in st.mem or st.mem[d[1]].kind != 'file' or st.mem[d[1]].live != 1):
            P.fail('inv', 'inv:handle', '%s: the handle is not that of an open directory' % name)
            return
        if e[0] != 'p' or isnull(d) and not isnull(e):
            P.fail('inv', 'inv:entry', '%s: an entry of a closed directory' % name)
            return
        if not isnull(got['_files']):
            P.fail('inv', 'inv:files', '%s: a list of files that was never made' % name)
        h = P.eng.toU(st, got['has_next'])
        P.at(st).prove('inv', 'inv:next', h if isnull(e) else addc(h, -1), '%s: has_next does not tell whether there is an entry' % name, EQ if isnull(e) else GE)
        strlen_of(P.eng, st.copy(), ('p', rid, addc(off, cx.p.off(DD, 'path'))), 'the path of the directory')


TD = DirShape()


def td_roles(cx, st, name, ty, fn, opts):
    if ty == 'struct tinydir_dir*':
        return [(s, VP(o.rid), o) for s, o in TD.new(cx, st, name, opts.get('mode', 'mut'))]
    if ty == 'struct tinydir_dir const*':
        return [(s, VP(o.rid), o) for s, o in TD.new(cx, st, name, 'const')]
    if ty == 'struct tinydir_file*':
        rid = cx.region(st, 'param', K(cx.p.size(DF)), Base('uninit'), name=name)
        return [(st, VP(rid), Obj(name, None, rid, ZERO, 'res'))]
    if ty == 'char const*':
        return cstr_arg(cx, st, name, False)
    return scalar(cx, st, name, ty)


def status_negative(eng, st, v, dt):
    out = []
    e = eng.toS(st, v)
    s = st.copy()
    if s.assume(GE, e):
        out.append((s, v, True))
    s = st.copy()
    if s.assume(GE, addc(neg(e), -1)):
        out.append((s, v, False))
    return out


def tdf(P, f, entry=False):
    o = P.objs['dir'].rid
    return P.cx.fld(P.st.copy(), DD, f, o, ZERO, P.e.mem[o].content if entry else None)[0][1]


def p_td_open(P):
    P.entry.obligations += 1
    if isnull(tdf(P, '_d')) != (P.ok is False):
        P.fail('status', 'open', 'reports %s with the directory %s' % ('success' if P.ok else 'failure', 'closed' if P.ok else 'left open'))


def p_td_close(P):
    P.entry.obligations += 1
    if not isnull(tdf(P, '_d')):
        P.fail('content', 'closed', 'the directory is not closed')
    h = tdf(P, '_d', True)
    if not isnull(h) and P.st.mem[h[1]].live == 1:
        P.fail('content', 'closed', 'the directory is not closed')


def p_td_next(P):
    keepers = [f for f in ('_d', '_files', 'n_files') if not val_same(P.eng, P.st, tdf(P, f), tdf(P, f, True))]
    P.entry.obligations += 1
    if keepers:
        P.fail('content', 'next', 'moving on changes %s' % keepers[0])


def p_td_readfile(P):
    P.entry.obligations += 1
    e = tdf(P, '_e', True)
    if not P.ok:
        return
    if isnull(e):
        P.fail('status', 'readfile', 'reads a file although the directory has no entry')
        return
    f = P.objs['file'].rid
    for nm in ('path', 'name'):
        strlen_of(P.eng, P.st.copy(), ('p', f, K(P.cx.p.off(DF, nm))), 'the file\'s ' + nm)
    x = P.cx.fld(P.st.copy(), DF, 'extension', f)[0][1]
    if x[0] != 'p' or x[1] != f:
        P.fail('content', 'ext', 'the extension is not part of the file\'s name')
        return
    strlen_of(P.eng, P.st.copy(), x, 'the file\'s extension')
    n0 = K(P.cx.p.off(DF, 'name'))
    P.prove('content', 'ext', sub(x[2], n0), 'the extension lies before the name')
    P.prove('content', 'ext', sub(addc(n0, 255), x[2]), 'the extension lies behind the name')
    for g in ('is_dir', 'is_reg'):
        if P.cx.fld(P.st.copy(), DF, g, f)[0][1][0] == 'undef':
            P.fail('uninit', 'is', g + ' is not set')


for _n, _kw in {'open': dict(post=p_td_open, variants=[{'mode': 'out'}], status=status_negative), 'close': dict(post=p_td_close),
                'next': dict(post=p_td_next, status=status_negative), 'readfile': dict(post=p_td_readfile, status=status_negative)}.items():
    SPECS['tinydir_' + _n] = dict(roles=td_roles, internal=True, why=ANY, fail_exempt=('dir',), **_kw)
