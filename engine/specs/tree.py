"""N-ary tree.  A node owns a copy of its data and, through its array of child pointers, its
children.  Children are described on demand (a child: its data, its length, and one region that
stands for everything below it); the recursive calls on children are replaced by what the
operation promises.  At a return an arbitrary child is checked."""
from spec import *
from specs.deque import word_index
from specs.tuple import heap_block

S = 'HarbolTree'


class Tree0:
    """the tree as it was on entry"""


class Child:
    def __init__(self, rid, data, ln, sub):
        self.rid, self.data, self.len, self.sub = rid, data, ln, sub

    def __eq__(self, o):
        return isinstance(o, Child) and self.rid == o.rid

    def __hash__(self):
        return self.rid

    def __getitem__(self, i):
        return 'child'


def new_child(cx_p, eng, st, split=False):
    """(state, child): a well-formed tree of its own, nothing in it looked at yet"""
    st = st.copy()
    bd = Base('opaque')
    ln = u64('childlen', 0, PTRDIFF)
    data = eng.new_region(st, 'heap', ln[2], bd, name='child data', site='entry', b0=bd, noleak=True)
    oD, oL = cx_p.off(S, 'data'), cx_p.off(S, 'len')

    def fields(eng, st2, b, off2, nb, t, rid2):
        if off2 not in (K(oD), K(oL)) or nb != 8:
            return [(st2, eng.unknown(st2, t))]
        out = []
        for dv, lv in ((VP(data), ln), (NULLP, VI(64, ZERO))):
            s = st2.copy()
            v, o, w, x = (dv, oL, lv, T64) if off2 == K(oD) else (lv, oD, dv, TP)
            old = eng.memo_find(s, b, K(o), 8)
            if old is not None and old != w:
                continue
            out.append((s, v))
        return out
    b = Base('lazy', handler=fields)
    rid = eng.new_region(st, 'heap', K(cx_p.size(S)), b, name='child', site='entry', b0=b)
    below = eng.new_region(st, 'heap', K(1), Base('opaque'), name='children of the child', site='entry', noleak=True)
    ch = Child(rid, data, ln, below)
    for r in (rid, data, below):
        at = dict(st.mem[r].attr)
        if split:
            at['split'] = True
        if r == rid:
            at['child'] = ch
        st.mem[r] = st.mem[r].with_(attr=at)
    return st, ch


def empty(eng, st, ch):
    """the child was found to have no data"""
    b = st.mem[ch.rid].attr['b0']
    return eng.memo_find(st, b, K(eng.p.off(S, 'data')), 8) == NULLP or eng.memo_find(st, b, K(eng.p.off(S, 'len')), 8) == VI(64, ZERO)


def child(d, eng, st, i):
    """[(state, child)] of child i of the entry tree (i < number of children)"""
    out = []
    lst = st.memo.get(d.R.id, ())
    for o, n, r in lst:
        if st.eq(o, i):
            return [(st, r)]
    rest = st.copy()
    for o, n, r in lst:
        s = rest.copy()
        if s.assume(EQ, sub(i, o)):
            out.append((s, r))
        if not rest.assume(NE, sub(i, o)):
            return out
    s, r = new_child(d.p, eng, rest)
    s.memo[d.R.id] = s.memo.get(d.R.id, ()) + ((i, 'c', r),)
    if eng.memo_find(s, d.base, scale(i, 8), 8) is None:
        eng.memo_add(s, d.base, scale(i, 8), 8, VP(r.rid))
    out.append((s, r))
    return out


def child_at(st, v):
    """the described child a pointer names"""
    if v[0] == 'p' and v[1] > 0 and v[2] == ZERO:
        return st.mem[v[1]].attr.get('child')
    return None


# ------------------------------------------------------------------ recursive calls
def cleared(eng, st, ch, i):
    if st.mem[ch.rid].live != 1:
        eng.report('uaf', 'clears a child that was already freed', st, 'child:uaf')
        return False
    for r in (ch.data, ch.sub):
        if st.mem[r].live == 1:
            st.mem[r] = st.mem[r].with_(live=0)
    p = eng.p
    F = p.off(S, 'kids')
    for o, v in ((p.off(S, 'data'), NULLP), (p.off(S, 'len'), VI(64, ZERO)), (F + p.off('HarbolArray', 'table'), NULLP),
                 (F + p.off('HarbolArray', 'cap'), VI(64, ZERO)), (F + p.off('HarbolArray', 'len'), VI(64, ZERO))):
        eng.write(st, ch.rid, K(o), 8, v)
    return True


def tree_clear(eng, st, args, i):
    v = eng.models.ptr(eng, st, args[0])
    ch = child_at(st, v)
    if ch is None:
        return None
    st = st.copy()
    return [(st, None)] if cleared(eng, st, ch, i) else []


def tree_free(eng, st, args, i):
    ref = eng.models.ptr(eng, st, args[0])
    st = eng.access(st.copy(), ref, K(8), 'w')
    if st is None:
        return []
    if ref[1] <= 0:
        return None
    out = []
    for s, v in eng.read(st, st.mem[ref[1]].content, ref[2], 8, TP, ref[1]):
        s = s.copy()
        if v == NULLP:
            out.append((s, None))
            continue
        ch = child_at(s, v)
        if ch is None:
            out += eng.call_function(eng.p.fn('harbol_tree_free'), args, s, ())
            continue
        if s.mem[ch.rid].live != 1:
            eng.report('dfree', 'frees a child twice', s, 'child:dfree')
            continue
        if not cleared(eng, s, ch, i):
            continue
        s.mem[ch.rid] = s.mem[ch.rid].with_(live=0)
        eng.write(s, ref[1], ref[2], 8, NULLP)
        out.append((s, None))
    return out


# ------------------------------------------------------------------ the tree itself
class TreeShape(Shape):
    struct = S

    def offs(self, cx, off):
        F = addc(off, cx.p.off(S, 'kids'))
        o = {f: addc(F, cx.p.off('HarbolArray', f)) for f in ('table', 'cap', 'len')}
        return {'table': o['table'], 'cap': o['cap'], 'n': o['len'], 'len': addc(off, cx.p.off(S, 'len')), 'data': addc(off, cx.p.off(S, 'data'))}

    def fill(self, cx, st, rid, off, name, mode):
        O = self.offs(cx, off)
        base = st.copy()
        for f in O:
            cx.put(base, rid, O[f], 8, NULLP if f in ('table', 'data') else VI(64, ZERO))
        base.tags['tree'] = 'none'
        if mode == 'out':
            return [base]
        out = []
        for data in (False, True):
            for kids in (False, True):
                s = base.copy()
                if data:
                    ln = u64('len', 0, PTRDIFF)
                    extra = newsym('size', 0, PTRDIFF)
                    s.cons.addrow(GE, sub(extra, ln[2]))
                    dr = cx.region(s, 'heap', extra, Base('opaque'), name=name + '->data', of=rid)
                    cx.put(s, rid, O['data'], 8, VP(dr))
                    cx.put(s, rid, O['len'], 8, ln)
                if not kids:
                    out.append(s)
                    continue
                d = Tree0()
                d.p = cx.p
                cap, n = u64('cap', 0, PTRDIFF // 8), u64('nkids', 0, PTRDIFF // 8)
                d.cap, d.n = cap[2], n[2]
                s.cons.addrow(GE, sub(d.cap, d.n))
                d.R = Base('opaque')

                def slot(eng, st2, b, off2, nb, t, rid2, d=d):
                    i = word_index(off2)
                    if nb != 8 or i is None:
                        return [(st2, eng.unknown(st2, t))]
                    res = []
                    s2 = st2.copy()
                    if s2.assume(GE, addc(sub(d.n, i), -1)):
                        res += [(s3, VP(r.rid)) for s3, r in child(d, eng, s2, i)]
                    s2 = st2.copy()
                    if s2.assume(GE, sub(i, d.n)):
                        v = eng.memo_find(s2, b, off2, 8)
                        if v is None:
                            v = eng.unknown(s2, t)
                            eng.memo_add(s2, b, off2, 8, v)
                        res.append((s2, v))
                    return res
                d.base = Base('lazy', handler=slot)
                d.tb = cx.region(s, 'heap', scale(d.cap, 8), d.base, name=name + '->kids.table', of=rid)
                cx.put(s, rid, O['table'], 8, VP(d.tb))
                cx.put(s, rid, O['cap'], 8, cap)
                cx.put(s, rid, O['n'], 8, n)
                s.tags['tree'] = 'some%d' % data
                cx.g.setdefault('trees', {})[s.tags['tree']] = d
                if cx.opts.get('ghost'):
                    d.g = newsym('g', 0, PTRDIFF)
                    if not s.assume(GE, addc(sub(d.n, d.g), -1)):
                        continue
                    s2, r = new_child(cx.p, cx.eng, s, True)
                    s2.memo[d.R.id] = s2.memo.get(d.R.id, ()) + ((d.g, 'c', r),)
                    cx.eng.memo_add(s2, d.base, scale(d.g, 8), 8, VP(r.rid))
                    out.append(s2)
                else:
                    out.append(s)
        return out

    def d0(self, cx, st):
        return cx.g.get('trees', {}).get(st.tags.get('tree'))

    def check(self, cx, P, st, rid, off, name):
        if P.ok is False and P.objs.get(name) is not None and P.objs[name].mode == 'out':
            return
        fs = [(st.copy(), {})]
        for f, o in self.offs(cx, off).items():
            fs = [(s2, dict(m, **{f: v})) for s, m in fs for s2, v in cx.get(s, rid, o, TP if f in ('table', 'data') else T64)]
        for s, m in fs:
            Q = P.at(s)
            if any(v[0] == 'undef' for v in m.values()):
                Q.fail('inv', 'inv:uninit', '%s is left with uninitialised fields' % name)
                continue
            self.chk(cx, Q, s, m, name, rid)

    def chk(self, cx, Q, st, m, name, rid):
        eng = cx.eng
        cap, n, ln = (eng.toU(st, m[f]) for f in ('cap', 'n', 'len'))
        if m['data'] == NULLP:
            Q.eq('inv', 'inv:nodata', ln, ZERO, '%s: no data but a length' % name)
        elif not heap_block(st, m['data']):
            Q.fail('inv', 'inv:data', '%s: data is not a live allocation' % name)
        else:
            Q.prove('inv', 'inv:size', sub(st.mem[m['data'][1]].size, ln), '%s: the length exceeds the data' % name)
        if m['table'] == NULLP:
            Q.eq('inv', 'inv:null', cap, ZERO, '%s: no table of children but a capacity' % name)
            Q.eq('inv', 'inv:null-n', n, ZERO, '%s: no table of children but children' % name)
            return
        if not heap_block(st, m['table']):
            Q.fail('inv', 'inv:table', '%s: the table of children is not a live allocation' % name)
            return
        if not Q.prove('inv', 'inv:cap', sub(st.mem[m['table'][1]].size, scale(cap, 8)), '%s: the capacity exceeds the table of children' % name):
            return
        if not Q.prove('inv', 'inv:n', sub(cap, n), '%s: more children than the capacity' % name):
            return
        self.kids(cx, Q, st, m, n, name)

    def kids(self, cx, Q, st, m, n, name):
        """an arbitrary child"""
        d = self.d0(cx, st)
        k = newsym('k', 0, PTRDIFF)
        for R in Q.cases((GE, addc(sub(n, k), -1))):
            for s, e0 in self.origin(cx, R, d, k):
                for s2, v in cx.get(s.copy(), m['table'][1], scale(k, 8), TP):
                    if e0 is None:
                        new = cx.g.get('newchild')
                        if new is None or not Q.ok:
                            R.at(s2).fail('inv', 'inv:extra', '%s: a child appears from nowhere' % name)
                        else:
                            new(R.at(s2), v)
                        continue
                    for s3, ch in child(d, cx.eng, s2.copy(), e0):
                        Z = R.at(s3)
                        if v != VP(ch.rid):
                            Z.fail('content', 'child', '%s: a child that stays changed place or was lost' % name)
                            continue
                        intact(Z, ch, name)

    def origin(self, cx, R, d, k):
        n0 = d.n if d is not None else ZERO
        rm = cx.g.get('removed')
        out = []
        if rm is not None and R.ok:
            g = rm(R)
            if g is None:
                R.fail('content', 'removed', 'reports a removal but no child was removed')
                return []
            for e, j in ((addc(sub(g, k), -1), k), (sub(k, g), addc(k, 1))):
                s = R.st.copy()
                if s.assume(GE, e):
                    out.append((s, j))
            return out
        s = R.st.copy()
        if s.assume(GE, addc(sub(n0, k), -1)):
            out.append((s, k))
        s = R.st.copy()
        if s.assume(GE, sub(k, n0)):
            out.append((s, None))
        return out

    def logical_same(self, cx, P, o):
        """a failed operation may have grown the table; children and data stay"""
        d = self.d0(cx, P.st)
        for f in ('data', 'len'):
            a = [v for s, v in cx.get(P.e.copy(), o.rid, self.offs(cx, o.off)[f], T64 if f == 'len' else TP)]
            b = [v for s, v in cx.get(P.st.copy(), o.rid, self.offs(cx, o.off)[f], T64 if f == 'len' else TP)]
            if len(a) != 1 or len(b) != 1 or not val_same(cx.eng, P.st, a[0], b[0]):
                return False
            if f == 'data' and a[0][1] > 0 and not content_same(cx.eng, P.e, P.st, a[0][1]):
                return False
        return P.st.eq(count(P), d.n if d is not None else ZERO)


TREE = TreeShape()


def intact(Z, ch, name):
    st = Z.st
    for r, what in ((ch.rid, 'node'), (ch.data, 'data'), (ch.sub, 'children')):
        if st.mem[r].live != 1:
            Z.fail('content', 'child-freed', '%s: the %s of a child that stays was freed' % (name, what))
        elif isinstance(st.mem[r].content, Entry):
            Z.fail('content', 'child-bytes', '%s: the %s of a child that stays was overwritten' % (name, what))


def fieldv(P, f, obj=None):
    o = [x for x in P.objs.values() if x.shape is not None and isinstance(x.shape, TreeShape)][0] if obj is None else obj
    (s, v), = P.cx.get(P.st.copy(), o.rid, TREE.offs(P.cx, o.off)[f], TP if f in ('table', 'data') else T64)[:1]
    return v if f in ('table', 'data') else P.eng.toU(P.st, v)


def count(P):
    return fieldv(P, 'n')


def roles(cx, st, name, ty, fn, opts):
    if ty == 'struct HarbolTree*':
        return [(s, VP(o.rid), o) for s, o in TREE.new(cx, st, name, opts.get('mode', 'mut'))]
    if ty == 'struct HarbolTree const*':
        return [(s, VP(o.rid), o) for s, o in TREE.new(cx, st, name, 'const')]
    if ty in ('struct HarbolTree**', 'struct HarbolTree* const*'):
        if name == 'child_ref':
            return child_ref(cx, st, name, opts)
        return ref_role(cx, st, name, TREE, 'mut')
    if name == 'val':
        n = cx.ghost('datasize_given', 0, PTRDIFF)
        rid = cx.region(st, 'param', n, Base('opaque'), name=name, const=True)
        return [(st, VP(rid), None)]
    if name == 'datasize':
        return [(st, ('i', 64, cx.ghost('datasize_given', 0, PTRDIFF), 'u'), None)]
    return scalar(cx, st, name, ty)


def child_ref(cx, st, name, opts):
    """a caller's variable with a tree that is no child here or (ghost) with child g, or the slot
    of child g itself"""
    d = TREE.d0(cx, st)
    if opts.get('ghost'):
        if d is None:
            return []
        r = [r for o, n, r in st.memo[d.R.id] if o == d.g][0]
        out = [(st.copy(), ('p', d.tb, scale(d.g, 8)), None)]
        rid = cx.region(st, 'param', K(8), Base('opaque'), name=name)
        cx.put(st, rid, 0, 8, VP(r.rid))
        return out + [(st, VP(rid), Obj(name, None, rid, ZERO, 'mut'))]
    rid = cx.region(st, 'param', K(8), Base('opaque'), name=name)
    s, ch = new_child(cx.p, cx.eng, st)
    s.tags['other'] = ch
    cx.put(s, rid, 0, 8, VP(ch.rid))
    return [(s, VP(rid), Obj(name, None, rid, ZERO, 'mut'))]


SPECS = {}
MODULE = 'tree'


def spec(name, setup=None, **kw):
    def pre(cx, st, args, objs, fn):
        cx.g.pop('removed', None)
        cx.g.pop('newchild', None)
        if setup:
            setup(cx, args)
        return st
    SPECS['harbol_tree_' + name] = dict(roles=roles, pre=pre, contracts={'harbol_tree_free': tree_free, 'harbol_tree_clear': tree_clear}, **kw)


def A(P, i):
    return P.eng.toU(P.st, P.args[i])


def d0(P):
    return TREE.d0(P.cx, P.st)


def n0(P):
    d = d0(P)
    return d.n if d is not None else ZERO


def holds(P, node, val, n, what):
    """the node at pointer node holds exactly a copy of the n bytes given"""
    if not heap_block(P.st, node) and P.st.mem[node[1]].kind != 'param':
        P.fail('content', 'node', '%s is not a live allocation' % what)
        return
    O = TREE.offs(P.cx, ZERO)
    for s, dv in P.cx.get(P.st.copy(), node[1], O['data'], TP):
        for s2, ln in P.cx.get(s, node[1], O['len'], T64):
            Q = P.at(s2)
            if not heap_block(s2, dv):
                Q.fail('content', 'copy', '%s has no data of its own' % what)
                continue
            Q.eq('content', 'length', P.eng.toU(s2, ln), n, 'the length %s holds is not that given' % what)
            Q.same_bytes('content', 'bytes', dv, ZERO, val[1], val[2], n, 'the data %s holds is not that given' % what)


def fresh_node(P, v, val, n):
    """a new child: well formed, without children, with the data given"""
    if not heap_block(P.st, v):
        P.fail('content', 'new', 'the new child is not a live allocation')
        return
    holds(P, v, val, n, 'the new child')
    O = TREE.offs(P.cx, ZERO)
    for s, k in P.cx.get(P.st.copy(), v[1], O['n'], T64):
        P.at(s).eq('content', 'new:kids', P.eng.toU(s, k), ZERO, 'the new child has children')
    TREE.check(P.cx, P.at(P.st), P.st, v[1], ZERO, 'the new child')


def p_made(P):
    if P.ok:
        v = P.ret if P.ret[0] == 'p' else P.args[0]
        holds(P, v, P.args[-2], A(P, len(P.args) - 1), 'the new tree')
        if P.ret[0] == 'p':
            TREE.check(P.cx, P, P.st, v[1], ZERO, 'result')
        for s, k in P.cx.get(P.st.copy(), v[1], TREE.offs(P.cx, ZERO)['n'], T64):
            P.at(s).eq('count', 'n', P.eng.toU(s, k), ZERO, 'a new tree must have no children')


def dropped(P, ch, what):
    for r, part in ((ch.rid, 'node'), (ch.data, 'data'), (ch.sub, 'children')):
        if P.st.mem[r].live == 1 and not (r == ch.data and empty(P.eng, P.st, ch)):
            P.fail('leak', 'child ' + part, 'the %s of a child that is dropped is never freed' % part)


def all_dropped(P):
    d = d0(P)
    if d is not None and hasattr(d, 'g'):
        dropped(P, [r for o, n, r in P.st.memo[d.R.id] if o == d.g][0], 'clear')


def p_clear(P):
    for f in ('n', 'cap', 'len'):
        P.eq('count', f, fieldv(P, f), ZERO, 'clearing must leave nothing')
    for f in ('table', 'data'):
        if fieldv(P, f) != NULLP:
            P.fail('inv', 'cleared', 'clearing must drop the storage')
    all_dropped(P)


def p_free(P):
    o = [x for x in P.objs.values()][0]
    for s, v in P.cx.get(P.st.copy(), o.rid, o.off, TP):
        if v != NULLP:
            P.at(s).fail('inv', 'freed', 'freeing must reset the caller\'s pointer')
    all_dropped(P)


def p_get(P):
    if P.ret != fieldv(P, 'data'):
        P.fail('retval', 'data', 'does not return the data of the node')


def p_len(P):
    P.eq('retval', 'len', P.retu(), fieldv(P, 'len'), 'does not return the length of the data')


def p_set(P):
    P.eq('count', 'n', count(P), n0(P), 'setting the data must not change the children')
    if P.ok:
        holds(P, P.args[0], P.args[1], A(P, 2), 'the node')
        P.prove('status', 'accept', addc(A(P, 2), -1), 'accepts empty data')


def p_insert(P):
    P.eq('count', 'n', count(P), addc(n0(P), 1) if P.ok else n0(P), 'insertion must add one child exactly when it succeeds')
    same_data(P)
    for s, v in P.cx.get(P.st.copy(), P.args[1][1], ZERO, TP) if len(P.args) == 2 and P.args[1][1] > 0 else ():
        if child_at(s, v) is not s.tags.get('other'):
            P.at(s).fail('content', 'ref', 'inserting a node must leave the caller\'s pointer alone')


def same_data(P):
    o = P.objs['tree']
    O = TREE.offs(P.cx, o.off)
    for f in ('data', 'len'):
        a = P.cx.get(P.e.copy(), o.rid, O[f], TP if f == 'data' else T64)[0][1]
        b = P.cx.get(P.st.copy(), o.rid, O[f], TP if f == 'data' else T64)[0][1]
        if not val_same(P.eng, P.st, a, b) or f == 'data' and a[1] > 0 and not content_same(P.eng, P.e, P.st, a[1]):
            P.fail('content', 'own-data', 'the data of the node itself changed')


def insert_val(cx, args):
    cx.g['newchild'] = lambda P, v: fresh_node(P, v, P.args[1], A(P, 2))


def insert_node(cx, args):
    def new(P, v):
        ch = P.st.tags.get('other')
        if ch is None or v != VP(ch.rid):
            P.fail('content', 'new', 'the new child is not the node given')
        else:
            intact(P, ch, 'the node inserted')
    cx.g['newchild'] = new


def rm_given(cx, args):
    cx.g['removed'] = lambda P: A(P, 1)


def rm_ghost(cx, args):
    cx.g['removed'] = lambda P: getattr(d0(P), 'g', None)


def dead_child(P):
    d = d0(P)
    for o, n, r in P.st.memo.get(d.R.id, ()) if d is not None else ():
        if P.st.mem[r.rid].live != 1:
            return o
    return None


def rm_found(cx, args):
    cx.g['removed'] = dead_child


def p_rm(P):
    P.eq('count', 'n', count(P), addc(n0(P), -1) if P.ok else n0(P), 'removal must take away one child exactly when it succeeds')
    same_data(P)
    if not P.ok:
        return
    i = P.cx.g['removed'](P)
    d = d0(P)
    if i is None or d is None:
        P.fail('status', 'accept', 'reports a removal from a tree without that child')
        return
    for s, ch in child(d, P.eng, P.st.copy(), i):
        dropped(P.at(s), ch, 'rm')


def p_rmnode(P):
    p_rm(P)
    d = d0(P)
    if P.ok and not hasattr(d, 'g'):
        P.fail('status', 'accept', 'removes a node that is not a child')
    if not P.ok and hasattr(d, 'g'):
        P.fail('status', 'refuse', 'refuses to remove a child')
    if not P.ok and P.st.tags.get('other') is not None:
        intact(P, P.st.tags['other'], 'a refused removal')
    if P.ok and 'child_ref' in P.objs:
        for s, v in P.cx.get(P.st.copy(), P.objs['child_ref'].rid, ZERO, TP):
            if v != NULLP:
                P.at(s).fail('inv', 'freed', 'the caller\'s pointer still names the freed child')


def p_rmindex(P):
    p_rm(P)
    if P.ok:
        P.prove('status', 'accept', addc(sub(n0(P), A(P, 1)), -1), 'removes a child that does not exist')
    else:
        P.prove('status', 'refuse', sub(A(P, 1), n0(P)), 'refuses to remove a child that exists')


def found(P, st, ch):
    """the data of the child was compared with all of the value given and found equal"""
    if not st.eq(ch.len[2], A(P, 2)) or empty(P.eng, st, ch):
        return False
    for z, _, (x, y, m) in st.memo.get(('cmp',), ()):
        for p, q in ((x, y), (y, x)):
            if ptr_same(st, p, VP(ch.data)) and ptr_same(st, q, P.args[1]) and st.eq(z, ZERO) and st.eq(m, A(P, 2)):
                return True
    return False


def any_found(P):
    d = d0(P)
    return d is not None and any(found(P, P.st, r) for o, n, r in P.st.memo.get(d.R.id, ()))


def p_rmval(P):
    p_rm(P)
    if P.ok:
        for s, ch in child(d0(P), P.eng, P.st.copy(), dead_child(P)) if dead_child(P) is not None else ():
            if not found(P, s, ch):
                P.at(s).fail('content', 'match', 'removes a child that was not compared with the value given')
    elif any_found(P):
        P.fail('status', 'refuse', 'refuses to remove a child that was found')


def p_byindex(P):
    d = d0(P)
    if not P.ok:
        P.prove('retval', 'missed', sub(A(P, 1), n0(P)), 'reports no child although there is one')
        return
    if not P.prove('retval', 'range', addc(sub(n0(P), A(P, 1)), -1), 'returns a child that does not exist'):
        return
    for s, ch in child(d, P.eng, P.st.copy(), A(P, 1)):
        if P.ret != VP(ch.rid):
            P.at(s).fail('retval', 'child', 'does not return the child with that index')


def p_byval(P):
    if P.ok:
        ch = child_at(P.st, P.ret)
        if ch is None or not found(P, P.st, ch):
            P.fail('retval', 'match', 'the child returned was not compared with the value given')
    elif any_found(P):
        P.fail('retval', 'missed', 'reports no child although one was compared and found equal')


spec('new', post=p_made)
spec('init', post=p_made, variants=[{'mode': 'out'}])
spec('clear', post=p_clear, status=status_none, variants=[{}, {'ghost': 1}])
spec('free', post=p_free, status=status_none, variants=[{}, {'ghost': 1}])
spec('get', post=p_get, status=status_none)
spec('len', post=p_len, status=status_none)
spec('set', post=p_set)
spec('insert_val', setup=insert_val, post=p_insert)
spec('insert_node', setup=insert_node, post=p_insert)
spec('rm_node', setup=rm_ghost, post=p_rmnode, variants=[{}, {'ghost': 1}])
spec('rm_index', setup=rm_given, post=p_rmindex)
spec('rm_val', setup=rm_found, post=p_rmval)
spec('get_node_by_index', post=p_byindex)
spec('get_node_by_val', post=p_byval)
