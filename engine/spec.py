"""Entry-point obligations: abstract entry states built from the shape invariants of the data
structures, and the checks applied to every abstract state that reaches a return."""
import itertools, os, traceback, time
from dom import *
import dom
import interp
from interp import *
from models import Models, strlen_of, zero_positions, is_zero_at
from prog import AnalysisError

T64 = {'k': 'i', 'b': 64}
T32 = {'k': 'i', 'b': 32}
T16 = {'k': 'i', 'b': 16}
T8_ = {'k': 'i', 'b': 8}
TP = {'k': 'p'}


def u64(name='n', lb=0, ub=M64):
    return ('i', 64, newsym(name, lb, ub), 'u')


class Obj:
    """an object the caller hands to the function"""

    def __init__(self, name, shape, rid, off, mode):
        self.name = name
        self.shape = shape
        self.rid = rid
        self.off = off
        self.mode = mode      # mut const out(uninitialised) ref
        self.fail_exempt = False


class Cx:
    def __init__(self, prog, eng, module):
        self.p = prog
        self.eng = eng
        self.module = module
        self.g = {}          # ghost symbols shared by the parameters (element size, ...)

    def ghost(self, name, lb=0, ub=M64):
        if name not in self.g:
            self.g[name] = newsym(name, lb, ub)
        return self.g[name]

    # memory helpers ------------------------------------------------
    def region(self, st, kind, size, base, **attr):
        rid = self.eng.nextrid
        self.eng.nextrid += 1
        at = dict(attr)
        at.setdefault('site', 'entry')
        st.mem[rid] = Region(rid, kind, size, base, 1, at)
        return rid

    def put(self, st, rid, off, n, v):
        self.eng.write(st, rid, K(off) if isinstance(off, int) else off, n, v)

    def get(self, st, rid, off, t, content=None):
        """list of (state, value), no access check"""
        eng = self.eng
        r = st.mem[rid]
        return eng.read(st, content if content is not None else r.content, K(off) if isinstance(off, int) else off, eng.tsize(t), t, rid)

    def fld(self, st, struct, field, rid, off=ZERO, content=None):
        o = self.p.off(struct, field)
        f = [x for x in self.p.structs[struct]['f'] if x['n'] == field][0]
        t = TP if f['t'].rstrip(' const').endswith('*') or '*' in f['t'] or '(' in f['t'] else {'k': 'i', 'b': 8 * f['s']}
        return self.get(st, rid, addc(off, o), t, content)


class Post:
    """what the exit checks look at"""

    def __init__(self, cx, entry, ent_st, st, ret, retv, outcome):
        self.cx = cx
        self.eng = cx.eng
        self.entry = entry
        self.e = ent_st
        self.st = st
        self.ret = retv
        self.ok = outcome        # True success, False failure, None not a status

    def fail(self, kind, key, msg):
        fn = self.entry.fn
        self.eng.report(kind, msg, self.st, key, inst=(fn, {'l': fn.line, 'fl': fn.file}))

    def prove(self, kind, key, e, msg, rel=GE):
        self.entry.obligations += 1
        if not self.st.cons.prove_row(rel, e):
            self.fail(kind, key, msg)
            if os.environ.get('VERIF_ROWS'):
                print('   NEED', show(e), rel, '  ROWS', [('>=' if k == GE else '==' if k == EQ else '!=', show(x)) for k, x in self.st.cons.cone(syms_of(e))][:60])
            return False
        return True


class Entry_:
    """one analysed function with the roles of its parameters"""

    def __init__(self, fn):
        self.fn = fn
        self.obligations = 0
        self.exits = 0
        self.starts = 0


def strip(t):
    t = t.strip()
    while t.endswith(' const'):
        t = t[:-6].strip()
    return t


def build_args(cx, fn, roles, st0, opts):
    """roles: function(cx, st, pname, ptype, fn) -> list of (st, value, Obj or None)"""
    argspec = []
    k = 0
    dt = fn.dtypes[1:]
    for a in fn.args:
        if a.get('sret'):
            argspec.append(('sret', a['sret'], None))
            continue
        name = fn.params.get(k, a.get('n') or 'arg%d' % k)
        ty = dt[k] if k < len(dt) else ''
        n = a.get('n') or ''
        if '.coerce' in n:
            # a structure passed in registers, one argument per word
            name, part = n.rsplit('.coerce', 1)
            argspec.append(('p', n, 'word of ' + strip(ty) if a['t'].get('k') == 'i' and a['t']['b'] == 64 else strip(ty)))
            k += not (part == '0' and any((b.get('n') or '') == name + '.coerce1' for b in fn.args))
            continue
        argspec.append(('p', name, strip(ty)))
        k += 1
    states = [(st0, [], [])]
    for kind, x, ty in argspec:
        nxt = []
        for st, args, objs in states:
            if kind == 'sret':
                st = st.copy()
                rid = cx.region(st, 'stack', K(x), Base('uninit'), fid=-2, name='returned structure')
                nxt.append((st, args + [VP(rid)], objs + [('sret', rid)]))
                continue
            cx.args_so_far = dict((o.name, o) for o in objs if isinstance(o, Obj))
            for st2, v, o in roles(cx, st.copy(), x, ty, fn, opts):
                nxt.append((st2, args + [v], objs + ([o] if o is not None else [])))
        states = nxt
    return states


class OutOfTime(BaseException):
    pass


class Runner:
    def __init__(self, prog):
        self.p = prog
        load_lp(prog.lib)
        self.entries = {}
        self.errors = {}

    def engine(self, contracts=None, callback=None):
        m = Models()
        if callback:
            m.callback = callback
        e = Engine(self.p, m)
        if contracts:
            e.contracts = dict(contracts)
        return e

    # analyses that keep more paths apart: a report counts only when each of them makes one too
    FINER = [{'SOFT': 240, 'MAXSTATES': 240, 'MAXRET': 240}, {'PEEL': True}, {'PEEL': True, 'SOFT': 240, 'MAXSTATES': 240, 'MAXRET': 240}]

    def confirm(self, module, name, spec, res, limit):
        """analyses the variants that were reported again with more paths kept apart; one that is free of
        reports then is free of violations"""
        import signal
        vr = res['vreports']
        for cfg in self.FINER:
            bad = [i for i, d in enumerate(vr) if d]
            if not bad:
                break

            def ring(sig, frm):
                raise OutOfTime()
            old = signal.signal(signal.SIGALRM, ring)
            signal.alarm(limit)
            try:
                r = self.run(module, name, spec, bad, cfg)
            except OutOfTime:
                continue
            finally:
                signal.alarm(0)
                signal.signal(signal.SIGALRM, old)
            if r['error']:
                continue
            for i in bad:
                if not r['vreports'][i]:
                    vr[i] = {}
            res['finer'] = res.get('finer', 0) + 1
        m = {}
        for d in vr:
            for k, x in d.items():
                m.setdefault(k, x)
        res['reports'] = list(m.values())
        return res

    def run(self, module, name, spec, only=None, force=None):
        """analyses one entry; returns a dict of results"""
        t0 = time.time()
        fn = self.p.fn(name)
        eng = self.engine(spec.get('contracts'), spec.get('callback'))
        eng.entry = fn.base
        for k in ('MAXSTATES', 'MAXRET', 'UNROLL'):
            if k in spec:
                setattr(eng, k, spec[k])
        ent = Entry_(fn)
        res = {'entry': fn.base, 'file': fn.file, 'error': None}
        vreports = [{} for _ in spec.get('variants', [{}])]
        try:
            for vi, opts in enumerate(spec.get('variants', [{}])):
                eng.reports = vreports[vi]
                if only is not None and vi not in only:
                    continue
                cx = Cx(self.p, eng, module)
                cx.opts = opts
                eng.loopinfo = {}
                for k in ('MAXSTATES', 'MAXRET', 'SOFT', 'PEEL', 'CLASSES', 'STEPWISE', 'DEPTH', 'ONEFAIL'):
                    v = opts.get(k, getattr(Engine, k) if k not in spec else spec[k])
                    setattr(eng, k, v if not force or k not in force else max(v, force[k]))
                st0 = State()
                starts = build_args(cx, fn, spec['roles'], st0, opts)
                for st, args, objs in starts:
                    if 'pre' in spec:
                        st = spec['pre'](cx, st, args, {o.name: o for o in objs if isinstance(o, Obj)}, fn)
                        if st is None:
                            continue
                    ent.starts += 1
                    self.run_start(cx, eng, ent, spec, fn, st, args, objs)
        except AnalysisError as x:
            res['error'] = str(x)
        except RecursionError as x:
            res['error'] = 'recursion: ' + str(x)[:200]
        except Exception as x:
            res['error'] = 'internal: ' + traceback.format_exc()[-1500:]
        if not res['error'] and not ent.exits and not spec.get('noreturn_ok'):
            # every path died on a report, or nothing was analysed at all
            if not any(vreports):
                res['error'] = 'no path of %s reaches a return' % name
        reports = {}
        for d in vreports:
            for k, x in d.items():
                reports.setdefault(k, x)
        res.update(reports=list(reports.values()), vreports=vreports, sites=len(eng.sites), obligations=ent.obligations,
                   exits=ent.exits, starts=ent.starts, visited=sorted(eng.visited), wall=time.time() - t0)
        return res

    def run_start(self, cx, eng, ent, spec, fn, st, args, objs):
        st.parents = ()
        st.env = {'#fid': -2}
        e0 = st.copy()
        eng.stack = []
        rets = eng.call_function(fn, args, st.copy(), spec.get('varargs', lambda cx, st: None)(cx, st) if fn.va else ())
        sret = [o[1] for o in objs if isinstance(o, tuple)]
        objs = [o for o in objs if isinstance(o, Obj)]
        dt = strip(fn.dtypes[0]) if fn.dtypes else 'void'
        for s, v in rets:
            ent.exits += 1
            outs = [(s, v, None)]
            status = spec.get('status', default_status)
            if v is not None:
                outs = status(eng, s, v, dt)
            for s2, v2, ok in outs:
                P = Post(cx, ent, e0, s2, dt, v2, ok)
                P.objs = {o.name: o for o in objs}
                P.sret = sret[0] if sret else None
                P.args = args
                self.exit_checks(P, spec, objs)

    def exit_checks(self, P, spec, objs):
        eng = P.eng
        eng.RDEPTH = 5
        try:
            self.exit_checks_(P, spec, objs)
        finally:
            eng.RDEPTH = 2

    def exit_checks_(self, P, spec, objs):
        eng = P.eng
        cx = P.cx
        dead = spec.get('dead', ())
        for o in objs:
            if o.shape is None:
                continue
            if o.name in dead or '*' in dead:
                continue
            if o.mode in ('mut', 'out'):
                o.shape.check(cx, P, P.st, o.rid, o.off, o.name)
            if P.ok is False and o.mode == 'mut' and not spec.get('nofail') and o.name not in spec.get('fail_exempt', ()):
                o.shape.unchanged(cx, P, o)
        if P.ok is False and not P.st.tags.get('why'):
            P.entry.obligations += 1
            import specs.reasons as reasons
            w = spec['why'] if 'why' in spec else reasons.TABLE.get(P.entry.fn.name, ())
            if not explained(P, w(P) if callable(w) else w):
                P.fail('status', 'why', 'fails although nothing it needs failed')
        # memory the caller can no longer reach
        roots = [VP(o.rid) for o in objs] + [P.ret] + [a for a in P.args] + list(spec.get('roots', lambda P: [])(P))
        if P.sret is not None:
            roots.append(VP(P.sret))
        fn = P.entry.fn
        P.entry.obligations += 1
        eng.models.check_leaks_at(eng, P.st, 'exit', (fn, {'l': fn.line, 'fl': fn.file}), [r for r in roots if r is not None])
        if 'post' in spec:
            spec['post'](P)


def explained(P, reasons):
    """one of the reasons (True, or a constraint) holds on every way this exit is reached"""
    s = P.st.copy()
    for r in reasons:
        if r is True:
            return True
        if r is False or r is None:
            continue
        kind, e = r
        if kind == EQ and s.cons.prove_ge(e):
            kind, e = GE, neg(e)
        elif kind == EQ and s.cons.prove_ge(neg(e)):
            kind = GE
        if kind == GE:
            good = s.assume(GE, addc(neg(e), -1))
        else:
            good = s.assume({EQ: NE, NE: EQ}[kind], e)
        if not good:
            return True
    return False


def default_status(eng, st, v, dt):
    """splits the exit on the failure indication of the return type"""
    if dt == '_Bool':
        if v[0] == 'undef':
            eng.report('uninit', 'returns an indeterminate value', st, 'ret-uninit')
            return []
        return [(s, VI(1, K(1 if b else 0)), b) for s, b in eng.split(st, v)]
    if dt.endswith('*'):
        if v[0] == 'p' and v[1] == 0 and v[2] == ZERO:
            return [(st, v, False)]
        return [(st, v, True)]
    return [(st, v, None)]


def status_sizemax(eng, st, v, dt):
    """SIZE_MAX (-1) return means failure"""
    out = []
    e = eng.toU(st, v)
    s = st.copy()
    if s.assume(EQ, addc(e, -M64)):
        out.append((s, VI(64, K(M64)), False))
    s = st.copy()
    if s.assume(GE, sub(K(M64 - 1), e)):
        out.append((s, ('i', 64, e, 'u'), True))
    return out


def status_none(eng, st, v, dt):
    return [(st, v, None)]


def ptr_same(st, a, b):
    if a[0] == 'undef' or b[0] == 'undef':
        return a == b
    if a[0] != 'p' or b[0] != 'p':
        return a == b
    if a[1] != b[1]:
        return False
    return a[1] <= 0 or st.eq(a[2], b[2])


def val_same(eng, st, a, b):
    if a == b:
        return True
    if a[0] == 'p' or b[0] == 'p':
        return ptr_same(st, a, b)
    if a[0] == 'i' and b[0] == 'i':
        return st.eq(eng.toU(st, a), eng.toU(st, b))
    return False


def content_same(eng, e, s, rid):
    """the bytes of region rid were not changed between entry state e and exit state s"""
    a, b = e.mem[rid], s.mem.get(rid)
    if b is None or b.live != 1:
        return False
    ca, cb = a.content, b.content
    if ca is cb:
        return True
    if repr(a.size) != repr(b.size) and not s.eq(a.size, b.size):
        return False
    # walk the newer log: every logged write must restore what was there
    chain = set()
    c = ca
    while True:
        chain.add(id(c))
        if not isinstance(c, Entry):
            break
        c = c.prev
    c = cb
    cells = {}
    while isinstance(c, Entry) and id(c) not in chain:
        if c.kind != 'st':
            if s.eq(c.n, ZERO):
                c = c.prev
                continue
            return False
        if c.off[1]:
            # rewriting a byte with itself
            rs = eng.read(s.copy(), ca, c.off, c.n[0], {'k': 'i', 'b': 8 * c.n[0]}, rid)
            if not all(val_same(eng, x, v, c.val) for x, v in rs):
                return False
            c = c.prev
            continue
        cells.setdefault((c.off[0], c.n[0]), c.val)
        c = c.prev
    if id(c) not in chain:
        return False
    z = ca
    while isinstance(z, Entry) and z is not c:
        if not z.constonly and z.kind != 'st':
            return False
        if not z.off[1]:
            cells.setdefault((z.off[0], z.n[0]), z.val)
        z = z.prev
    for (o, n), v in cells.items():
        t = {'k': 'p'} if v[0] == 'p' else {'k': 'f', 'st': n, 'sz': n} if v[0] == 'f' else {'k': 'i', 'b': 8 * n}
        rs = eng.read(s.copy(), ca, K(o), n, t, rid)
        rn = eng.read(s.copy(), cb, K(o), n, t, rid)
        for x, w in rs:
            for y, u in rn:
                if not val_same(eng, y if len(rn) > 1 else x, w, u):
                    return False
    return True


class Shape:
    """invariant of one structure type"""
    struct = None

    def __init__(self, **kw):
        self.__dict__.update(kw)

    def size(self, cx):
        return cx.p.size(self.struct)

    def new(self, cx, st, name, mode, kind='param', **kw):
        """-> list of (st, Obj): the object lives in a region of its own"""
        rid = cx.region(st, kind, K(self.size(cx)), Base('opaque'), name='*' + name)
        out = []
        for s in self.fill(cx, st, rid, ZERO, name, mode):
            if mode == 'const':
                for r in [rid] + [x for x in s.mem if s.mem[x].attr.get('of') == rid]:
                    reg = s.mem[r]
                    at = dict(reg.attr)
                    at['const'] = True
                    s.mem[r] = reg.with_(attr=at)
            out.append((s, Obj(name, self, rid, ZERO, mode)))
        return out

    def regions(self, cx, st, rid):
        """regions whose contents belong to the object"""
        return [r for r in st.mem if r == rid or st.mem[r].attr.get('of') == rid]

    def logical_same(self, cx, P, o):
        return False

    def unchanged(self, cx, P, o):
        for r in self.regions(cx, P.e, o.rid):
            P.entry.obligations += 1
            if not content_same(cx.eng, P.e, P.st, r):
                if self.logical_same(cx, P, o):
                    return
                P.fail('failmod', 'failmod:' + o.name, 'reports failure but %s (%s) was already modified' % (o.name, 'its storage' if r != o.rid else 'its fields'))
                return


def scalar(cx, st, name, ty):
    """a parameter without a structure: any value of its type"""
    t = ty.replace('const', '').strip()
    if t.startswith('word of '):
        return [(st, fresh_i(64, name), None)]
    bits = {'unsigned long': 64, 'long': 64, 'unsigned int': 32, 'int': 32, '_Bool': 1, 'unsigned char': 8, 'char': 8, 'signed char': 8,
            'unsigned short': 16, 'short': 16, 'long long': 64, 'unsigned long long': 64}.get(t)
    if bits == 1:
        return [(st, ('i', 1, newsym(name, 0, 1), 'u'), None)]
    if bits:
        return [(st, fresh_i(bits, name), None)]
    if t.startswith('enum'):
        return [(st, fresh_i(32, name), None)]
    if t in ('float', 'double', 'long double'):
        return [(st, ('f', Syms.new('fl', None, None)), None)]
    raise AnalysisError('no role for parameter %s of type %s' % (name, ty))


def bytes_same(P, t0, t1, n):
    """the n bytes at entry pointer t0 are found at exit pointer t1"""
    if P.st.eq(n, ZERO):
        return True
    if t0[0] != 'p' or t1[0] != 'p' or t0[1] <= 0 or t1[1] <= 0 or P.st.mem[t1[1]].live != 1:
        return False
    eng = P.eng
    s = P.st.copy()
    k = newsym('k', 0, PTRDIFF)
    if not s.assume(GE, addc(sub(n, k), -1)):
        return True
    eng.silent += 1
    try:
        for s1, v in eng.read(s, P.e.mem[t0[1]].content, add(t0[2], k), 1, T8_, t0[1]):
            for s2, w in eng.read(s1.copy(), s1.mem[t1[1]].content, add(t1[2], k), 1, T8_, t1[1]):
                if not val_same(eng, s2, v, w):
                    return False
    finally:
        eng.silent -= 1
    return True


class RefShape(Shape):
    """a caller's pointer variable to a heap-allocated object of another shape (or NULL)"""

    def __init__(self, inner):
        self.inner = inner

    def check(self, cx, P, st, rid, off, name):
        for s, v in cx.get(st.copy(), rid, off, TP):
            if v[0] == 'p' and v[1] == 0:
                continue
            Q = P.at(s)
            if v[0] != 'p' or v[1] < 0:
                Q.fail('inv', 'inv:ref', '*%s is not a valid pointer on return' % name)
                continue
            r = s.mem.get(v[1])
            if r is None or r.live != 1:
                Q.fail('inv', 'inv:ref', '*%s points to freed memory on return' % name)
                continue
            self.inner.check(cx, Q, s, v[1], v[2], '*' + name)

    def regions(self, cx, st, rid):
        return [rid]


def ref_role(cx, st, name, shape, mode, null=True):
    rid = cx.region(st, 'param', K(8), Base('opaque'), name=name)
    out = []
    if null:
        s = st.copy()
        cx.put(s, rid, 0, 8, NULLP)
        out.append((s, VP(rid), Obj(name, RefShape(shape), rid, ZERO, 'mut')))
    h = cx.region(st, 'heap', K(shape.size(cx)), Base('opaque'), name='*' + name)
    cx.put(st, rid, 0, 8, VP(h))
    for s in shape.fill(cx, st, h, ZERO, name, mode):
        out.append((s, VP(rid), Obj(name, RefShape(shape), rid, ZERO, 'mut')))
    return out


def _at(self, st):
    q = Post(self.cx, self.entry, self.e, st, None, self.ret, self.ok)
    q.__dict__.update({k: v for k, v in self.__dict__.items() if k != 'st'})
    q.st = st
    return q


Post.at = _at


# ------------------------------------------------------------------ value access for posts
def _field(self, st, objname, field, content_of=None):
    o = self.objs[objname]
    shape = o.shape
    rid, off = o.rid, o.off
    if isinstance(shape, RefShape):
        (s, v), = self.cx.get(st.copy(), rid, off, TP)[:1]
        rid, off, shape = v[1], v[2], shape.inner
    rs = self.cx.fld(st, shape.struct, field, rid, off)
    v = rs[0][1]
    if v[0] == 'i':
        return self.eng.toU(st, v)
    return v


def _f0(self, objname, field):
    """field at entry (evaluated in the exit state's constraints: entry symbols survive)"""
    e = self.e.copy()
    return _field(self, e, objname, field)


def _f1(self, objname, field):
    return _field(self, self.st, objname, field)


def _prove_eq(self, kind, key, a, b, msg):
    return self.prove(kind, key, sub(a, b), msg, EQ)


def _retu(self):
    return self.eng.toU(self.st, self.ret)


def _cases(self, *conds):
    """forks of the exit state satisfying all conds (rows); [] when impossible"""
    s = self.st.copy()
    for k, e in conds:
        if not s.assume(k, e):
            return []
    return [self.at(s)]


def _same_bytes(self, kind, key, new, newoff, old_rid, oldoff, n, msg, lo=ZERO):
    """bytes [lo, n) at new (pointer value, exit) equal those of region old_rid as they were at
    entry"""
    self.entry.obligations += 1
    s = self.st.copy()
    k = newsym('k', 0, PTRDIFF)
    if not (s.assume(GE, sub(k, lo)) and s.assume(GE, addc(sub(n, k), -1))):
        return True
    if sub(n, lo) == ONE:
        k = lo
    eng = self.eng
    c0 = self.e.mem[old_rid].content if old_rid in self.e.mem else self.st.mem[old_rid].attr['b0']
    if new[0] != 'p' or new[1] <= 0:
        self.fail(kind, key, msg)
        return False
    at = lambda s: lo if k[1] and s.eq(k, lo) else k
    old = lambda s: eng.read(s, c0, add(oldoff, at(s)), 1, T8_, old_rid)
    cur = lambda s: eng.read(s, s.mem[new[1]].content, add(add(new[2], newoff), at(s)), 1, T8_, new[1])
    eng.silent += 1
    try:
        # reading one side may decide which byte of the other is meant
        good = all(val_same(eng, s2, v, w) for s1, v in old(s.copy()) for s2, w in cur(s1.copy())) or \
            all(val_same(eng, s2, v, w) for s1, w in cur(s.copy()) for s2, v in old(s1.copy()))
    finally:
        eng.silent -= 1
    if not good:
        self.fail(kind, key, msg)
    return good


def _zero_bytes(self, kind, key, new, off, n, msg):
    self.entry.obligations += 1
    s = self.st.copy()
    k = newsym('k', 0, PTRDIFF)
    if not s.assume(GE, addc(sub(n, k), -1)):
        return True
    eng = self.eng
    eng.silent += 1
    try:
        good = new[0] == 'p' and new[1] > 0
        if good:
            for s2, w in eng.read(s, s.mem[new[1]].content, add(add(new[2], off), k), 1, T8_, new[1]):
                if w[0] != 'i' or not s2.eq(w[2], ZERO):
                    good = False
    finally:
        eng.silent -= 1
    if not good:
        self.fail(kind, key, msg)
    return good


Post.f0, Post.f1, Post.eq, Post.retu, Post.cases, Post.same_bytes, Post.zero_bytes = _f0, _f1, _prove_eq, _retu, _cases, _same_bytes, _zero_bytes
