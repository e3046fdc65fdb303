"""The expression parser: every grammar level applies exactly the operators it stands for, left to
right, to the values of the level below; tokens are told apart by their characters.

A level is analysed against contracts for the levels it calls (each checked the same way): such a
call answers with a value of its own and leaves some token behind.  Levels are followed through up
to LIMIT operators in a row."""
import math
from spec import *
from specs.common import outvar
from interp import content_base
from models import strlen_of

SPECS = {}
MODULE = 'math'
LX, TK = 'HarbolMathLexer', 'HarbolMathToken'
LIMIT = 3
LEX = 64


def tags(p):
    return p.enums['HarbolMathTokenType']


def offs(p):
    o = {f: p.off(LX, f) for f in ('var_func', 'data', 'expr_len', 'idx', 'data_len')}
    t = p.off(LX, 'tok')
    o.update({f: t + p.off(TK, f) for f in ('val', 'size', 'tag', 'lexeme')})
    return o


def put_token(p, eng, st, rid, off, tag, name=''):
    """some token of the given tag in the lexer at rid; its lexeme is terminated"""
    O = offs(p)
    n = newsym('size', 0, LEX - 1)
    v = ('f', Syms.new('fl', None, None))
    src = eng.new_region(st, 'user', None, Base('opaque'), name='lexeme')
    eng.copyrange(st, rid, addc(off, O['lexeme']), K(LEX), src, ZERO)
    eng.write(st, rid, addc(off, O['lexeme'] + LEX - 1), 1, VI(8, ZERO))
    eng.write(st, rid, add(addc(off, O['lexeme']), n), 1, VI(8, ZERO))
    eng.write(st, rid, addc(off, O['val']), 10, v)
    eng.write(st, rid, addc(off, O['size']), 8, ('i', 64, n, 'u'))
    eng.write(st, rid, addc(off, O['tag']), 4, tag)
    return n, v


def some_tag(p, st, names, want):
    """a tag value: one of the names, or 'other' than all of them -> None when impossible"""
    T = tags(p)
    if want != 'other':
        return VI(32, K(T[want]))
    v = newsym('tag', 0, max(T.values()))
    for n in names:
        if not st.assume(NE, addc(v, -T[n])):
            return None
    return ('i', 32, v, 'u')


class LexerShape(Shape):
    struct = LX

    def fill(self, cx, st, rid, off, name, mode):
        O = offs(cx.p)
        out = []
        if mode == 'out':
            return [st]
        opts = cx.opts
        for want in opts.get('tags', [None]):
            for fnp in (0, 1):
                s = st.copy()
                tag = fresh_i(32, 'tag') if want is None else some_tag(cx.p, s, opts.get('ops', ()), want)
                cx.g['entry:%s' % want] = put_token(cx.p, cx.eng, s, rid, off, tag)
                s.tags['entry'] = want
                L = cx.g['textlen']
                i = newsym('idx', 0, PTRDIFF)
                if opts.get('fresh'):
                    i, L = ZERO, ZERO
                elif not s.assume(GE, sub(L, i)):
                    continue
                f = VP(cx.region(s, 'user', None, Base('opaque'), name='var_func')) if fnp else NULLP
                cx.put(s, rid, addc(off, O['var_func']), 8, f)
                cx.put(s, rid, addc(off, O['data']), 8, VP(cx.region(s, 'user', None, Base('opaque'), name='data')))
                cx.put(s, rid, addc(off, O['data_len']), 8, u64('data_len'))
                cx.put(s, rid, addc(off, O['expr_len']), 8, ('i', 64, L, 'u'))
                cx.put(s, rid, addc(off, O['idx']), 8, ('i', 64, i, 'u'))
                out.append(s)
        return out

    def check(self, cx, P, st, rid, off, name):
        O = offs(cx.p)
        for s, i in cx.get(st.copy(), rid, addc(off, O['idx']), T64):
            for s2, n in cx.get(s, rid, addc(off, O['expr_len']), T64):
                for s3, z in cx.get(s2, rid, addc(off, O['size']), T64):
                    Q = P.at(s3)
                    if 'undef' in (i[0], n[0], z[0]):
                        Q.fail('inv', 'inv:uninit', 'the lexer is left with uninitialised fields')
                        continue
                    Q.eq('inv', 'inv:len', Q.eng.toU(s3, n), cx.g['textlen'], 'the recorded length is not that of the expression')
                    Q.prove('inv', 'inv:idx', sub(cx.g['textlen'], Q.eng.toU(s3, i)), 'the lexer stops behind the end of the expression')
                    Q.prove('inv', 'inv:size', sub(K(LEX - 1), Q.eng.toU(s3, z)), 'the token fills its lexeme: no terminator')
                    for s4, c in cx.get(s3, rid, add(addc(off, O['lexeme']), Q.eng.toU(s3, z)), T8_):
                        if c[0] != 'i' or not s4.eq(c[2], ZERO):
                            P.at(s4).fail('inv', 'inv:lexeme', 'the lexeme is not terminated behind the token')

    def unchanged(self, cx, P, o):
        pass


LEXER = LexerShape()


def roles(cx, st, name, ty, fn, opts):
    if ty.startswith('struct HarbolMathLexer'):
        if 'textlen' not in cx.g:
            cx.g['textlen'] = newsym('strlen(expression)', 0, PTRDIFF - 1)
        return [(s, VP(o.rid), o) for s, o in LEXER.new(cx, st, name, 'mut')]
    if ty == 'char const*':
        if 'textlen' not in cx.g:
            cx.g['textlen'] = newsym('strlen(expression)', 0, PTRDIFF - 1)
        L = cx.g['textlen']
        rid = cx.region(st, 'param', addc(L, 1), Base('cstr', len=L), name=name, const=True)
        cx.g['text'] = rid
        return [(st, VP(rid), None)]
    if ty == 'fn*':
        return [(st.copy(), NULLP, None), (st, VP(cx.region(st, 'user', None, Base('opaque'), name=name)), None)]
    if ty == 'void*':
        return [(st, VP(cx.region(st, 'user', None, Base('opaque'), name=name)), None)]
    return scalar(cx, st, name, ty)


# ------------------------------------------------------------------ the levels
def log(st):
    return st.tags.get('log', ())


def lexer_ok(eng, st, a, what):
    """the call goes on with the same lexer and the same text"""
    O = offs(eng.p)
    l, x = a[0], a[1]
    if l[0] != 'p' or l[1] <= 0 or x[0] != 'p' or x[1] <= 0 or getattr(content_base(st.mem[x[1]].content), 'kind', None) != 'cstr' or not st.eq(x[2], ZERO):
        return None
    c = st.mem[l[1]].content
    (s, i), = eng.read(st.copy(), c, addc(l[2], O['idx']), 8, T64, l[1])[:1]
    (s, n), = eng.read(s, c, addc(l[2], O['expr_len']), 8, T64, l[1])[:1]
    if 'undef' in (i[0], n[0]):
        eng.report('uninit', '%s is called with an uninitialised lexer' % what, st, 'uninit')
        return None
    return s, eng.toU(s, i), content_base(st.mem[x[1]].content).len


def step(kind, value):
    """the contract of a token or of a level: moves on in the text, leaves some token behind"""
    def f(eng, st, a, i):
        r = lexer_ok(eng, st, a, kind)
        if r is None:
            return None
        s0, idx, L = r
        O = offs(eng.p)
        ev = log(st)
        ops = eng.math_ops
        # after LIMIT operators in a row, none follows
        wants = list(ops) + ['other']
        if sum(e[0] == 'tok' for e in ev) >= LIMIT - (kind == 'tok'):
            wants = ['other']
        out = []
        for w in wants:
            s = s0.copy()
            tag = some_tag(eng.p, s, ops, w)
            if tag is None:
                continue
            j = newsym('idx', 0, PTRDIFF)
            if not s.assume(GE, sub(j, idx)) or not s.assume(GE, sub(L, j)):
                continue
            put_token(eng.p, eng, s, a[0][1], a[0][2], tag)
            eng.write(s, a[0][1], addc(a[0][2], O['idx']), 8, ('i', 64, j, 'u'))
            eng.write(s, a[0][1], addc(a[0][2], O['expr_len']), 8, ('i', 64, L, 'u'))
            v = ('f', Syms.new('fl', None, None)) if value else fresh_i(1, 'got')
            s.tags['log'] = ev + ((kind, w, j, v, tag),)
            out.append((s, v))
        return out
    return f


LEVELS = {'harbol_math_parse_%s' % k: k for k in ('add_expr', 'mul_expr', 'pow_expr', 'unary_expr', 'factor')}
CONTRACTS = {n: step(k, True) for n, k in LEVELS.items()}
CONTRACTS['_harbol_math_get_token'] = step('tok', False)


def left_alone(P, ev):
    """nothing happened to the lexer after the last event"""
    O = offs(P.cx.p)
    o = P.objs['ls']
    for s, j in P.cx.get(P.st.copy(), o.rid, O['idx'], T64):
        for s2, t in P.cx.get(s, o.rid, O['tag'], T32):
            Q = P.at(s2)
            if ev:
                Q.eq('content', 'idx', Q.eng.toU(s2, j), ev[-1][2], 'the position in the expression is changed behind the lexer')
                Q.eq('content', 'tag', Q.eng.toU(s2, t), Q.eng.toU(s2, ev[-1][4]), 'the current token is replaced without reading one')


def same(P, got, want, msg):
    P.entry.obligations += 1
    if got != want:
        if os.environ.get('VERIF_TRACE'):
            print('GOT', ft(got), 'WANT', ft(want), [e[:2] + (ft(e[3]),) for e in log(P.st)])
        P.fail('retval', 'value', msg)


def ft(v):
    def sh(i):
        t = FTERM.get(i) if isinstance(i, int) else None
        return str(i) if t is None else '(%s %s)' % (t[0], ' '.join(sh(x) for x in t[1:]))
    return sh(v[1]) if v[0] == 'f' else repr(v)


def term(op, x, y=None):
    if y is None:
        return fterm(op, x[1])
    a, b = x[1], y[1]
    if op in ('fadd', 'fmul') and repr(b) < repr(a):
        a, b = b, a
    return fterm(op, a, b)


def fold(below, ops):
    """value op value op ...: one operator per token, from the left"""
    def post(P):
        ev = list(log(P.st))
        P.entry.obligations += 1
        bad = lambda m: P.fail('content', 'order', m)
        if not ev or ev[0][0] != below:
            return bad('does not begin with a %s' % below)
        acc, at = ev[0][3], ev[0]
        k = 1
        while at[1] in ops:
            if k + 1 >= len(ev) + 0 and k >= len(ev):
                return bad('stops although an operator of its own follows')
            if ev[k][0] != 'tok' or k + 1 >= len(ev) or ev[k + 1][0] != below:
                return bad('an operator is not followed by the next %s' % below)
            acc = term(ops[at[1]], acc, ev[k + 1][3])
            at = ev[k + 1]
            k += 2
        if k != len(ev):
            return bad('goes on although no operator of its own follows')
        same(P, P.ret, acc, 'the value is not that of the operators applied from the left')
        left_alone(P, ev)
    return post


def level(name, ops, **kw):
    SPECS[name] = dict(internal=True, roles=roles, status=status_none, contracts=CONTRACTS, variants=[{'ops': tuple(ops), 'tags': ['other'] if 'tags' not in kw else kw.pop('tags'), 'MAXSTATES': 400, 'SOFT': 400, 'MAXRET': 400}], pre=pre, **kw)


def pre(cx, st, args, objs, fn):
    cx.eng.math_ops = cx.opts.get('ops', ())
    return st


ADD = {'TokenPlus': 'fadd', 'TokenSub': 'fsub'}
MUL = {'TokenMul': 'fmul', 'TokenDiv': 'fdiv'}
POW = {'TokenPow': 'pow'}
level('harbol_math_parse_add_expr', ADD, post=fold('mul_expr', ADD))
level('harbol_math_parse_mul_expr', MUL, post=fold('pow_expr', MUL))
level('harbol_math_parse_pow_expr', POW, post=fold('unary_expr', POW))


# ------------------------------------------------------------------ prefix operators
UNARY = {'TokenSub': 'fneg', 'TokenPlus': 'fabs'}


def p_unary(P):
    """a sign is applied to the value of what follows it; without one the factor is the value"""
    ev = list(log(P.st))
    P.entry.obligations += 1
    signs = []
    tag, k = P.st.tags['entry'], 0
    while tag in UNARY:
        signs.append(UNARY[tag])
        if k >= len(ev) or ev[k][0] != 'tok':
            return P.fail('content', 'order', 'a sign is not consumed')
        tag = ev[k][1]
        k += 1
        if k < len(ev) and ev[k][0] == 'unary_expr':
            break
    else:
        if k >= len(ev) or ev[k][0] != 'factor':
            return P.fail('content', 'order', 'a value without a sign is not read as a factor')
    if k + 1 != len(ev):
        return P.fail('content', 'order', 'reads more than one operand')
    v = ev[k][3]
    for f in reversed(signs):
        v = fterm(f, v[1])
    same(P, P.ret, v, 'the sign is not applied to its operand')
    left_alone(P, ev)


level('harbol_math_parse_unary_expr', UNARY, post=p_unary, tags=['other', 'TokenSub', 'TokenPlus'])


# ------------------------------------------------------------------ factors
PAIRS = {'TokenLParen': 'TokenRParen', 'TokenLBrack': 'TokenRBrack'}


def callback(eng, st, i, a, fp):
    """the caller's function for names, and the function it may answer with"""
    ev = log(st)
    st = st.copy()
    t = i.get('t', {'k': 'v'})
    if t['k'] == 'f':
        v = ('f', Syms.new('fl', None, None))
        st.tags['log'] = ev + (('call', 'other', fp, v, a),)
        return [(st, v)]
    out = []
    # (var_name, var_len, value, math_func, data, data_len, is_func)
    if len(a) != 7:
        eng.report('wild', 'the function for names is called with %d arguments' % len(a), st, 'args')
        return []
    for setv in (0, 1):
        for fn in (0, 1):
            for isf in (0, 1):
                s = st.copy()
                v = None
                if setv:
                    s = eng.access(s, a[2], K(10), 'w')
                    if s is None:
                        return []
                    v = ('f', Syms.new('fl', None, None))
                    eng.write(s, a[2][1], a[2][2], 10, v)
                f = None
                if fn:
                    s = eng.access(s, a[3], K(8), 'w')
                    if s is None:
                        return []
                    f = VP(eng.new_region(s, 'user', None, Base('opaque'), name='math_func'))
                    eng.write(s, a[3][1], a[3][2], 8, f)
                if isf:
                    s = eng.access(s, a[6], K(1), 'w')
                    if s is None:
                        return []
                    eng.write(s, a[6][1], a[6][2], 1, VI(8, ONE))
                s.tags['log'] = ev + (('name', 'other', fp, v, (a, f, isf, s.mem[a[0][1]].content if a[0][1] in s.mem else None)),)
                out.append((s, None))
    return out


def p_factor(P):
    ev = list(log(P.st))
    T = P.st.tags['entry']
    O = offs(P.cx.p)
    o = P.objs['ls']
    P.entry.obligations += 1
    bad = lambda m: P.fail('content', 'order', m)
    entry = lambda f, t: P.cx.get(P.st.copy(), o.rid, O[f], t, P.e.mem[o.rid].content)[0][1]
    plain = [e for e in ev if e[0] not in ('name', 'call')]
    left_alone(P, plain)
    if T == 'TokenNum':
        if [e[0] for e in ev] != ['tok']:
            return bad('a number is not one token')
        return same(P, P.ret, entry('val', {'k': 'f', 'st': 10, 'sz': 16}), 'the value of a number is not that of its token')
    if T in PAIRS:
        if [e[0] for e in ev[:2]] != ['tok', 'add_expr']:
            return bad('a bracket is not followed by an expression')
        if ev[1][1] != PAIRS[T]:
            # an error: nothing more is read
            if len(ev) != 2:
                bad('goes on behind an expression without its closing bracket')
            return
        if [e[0] for e in ev[2:]] != ['tok']:
            return bad('the closing bracket is not consumed')
        return same(P, P.ret, ev[1][3], 'the value of a bracket is not that of the expression inside')
    if T == 'TokenVar':
        if not ev or ev[0][0] != 'tok':
            return bad('a name is not consumed')
        fn0 = entry('var_func', TP)
        if fn0[1] == 0:
            if len(ev) != 1:
                bad('goes on behind a name nobody knows')
            return
        if len(ev) < 2 or ev[1][0] != 'name':
            return bad('a name is not looked up')
        k, _, fp, v, (a, f, isf, c) = ev[1]
        if not ptr_same(P.st, fp, fn0):
            return bad('a name is looked up with another function than the caller\'s')
        # what the function is told
        if not ptr_same(P.st, a[4], entry('data', TP)):
            bad('a name is looked up with other data than the caller\'s')
        P.eq('content', 'data_len', P.eng.toU(P.st, a[5]), P.eng.toU(P.st, entry('data_len', T64)), 'a name is looked up with another data length')
        n = P.eng.toU(P.st, entry('size', T64))
        P.eq('content', 'var_len', P.eng.toU(P.st, a[1]), n, 'a name is looked up with another length')
        s = P.st.copy()
        kk = newsym('k', 0, LEX - 1)
        if c is None or not s.assume(GE, sub(n, kk)):
            return bad('a name is looked up without its text')
        for s1, x in P.eng.read(s, P.e.mem[o.rid].content, addc(kk, O['lexeme']), 1, T8_, o.rid):
            for s2, y in P.eng.read(s1.copy(), c, add(a[0][2], kk), 1, T8_, a[0][1]):
                if not val_same(P.eng, s2, x, y):
                    return bad('a name is looked up with another text')
        if not (isf and f is not None):
            if len(ev) != 2:
                return bad('goes on behind a variable')
            if v is not None:
                same(P, P.ret, v, 'the value of a variable is not the one it was given')
            return
        want = 'unary_expr' if ev[0][1] in PAIRS else 'pow_expr'
        if [e[0] for e in ev[2:]] != [want, 'call']:
            return bad('a function is not applied to the %s behind it' % want)
        if not ptr_same(P.st, ev[3][2], f) or ev[3][4][0] != ev[2][3]:
            return bad('a function is applied to another value, or another function')
        return same(P, P.ret, ev[3][3], 'the value is not that of the function')
    if ev:
        bad('something else than a factor is consumed')


ALL = ['TokenNum', 'TokenVar', 'TokenLParen', 'TokenLBrack']
SPECS['harbol_math_parse_factor'] = dict(internal=True, roles=roles, status=status_none, contracts=CONTRACTS, callback=callback, post=p_factor, pre=pre, variants=[
    {'ops': tuple(ALL), 'tags': ['TokenNum', 'other'], 'MAXSTATES': 400, 'SOFT': 400, 'MAXRET': 400},
    {'ops': ('TokenLParen', 'TokenLBrack'), 'tags': ['TokenVar'], 'MAXSTATES': 400, 'SOFT': 400, 'MAXRET': 400},
    {'ops': ('TokenRParen', 'TokenRBrack'), 'tags': ['TokenLParen', 'TokenLBrack'], 'MAXSTATES': 400, 'SOFT': 400, 'MAXRET': 400}])


# ------------------------------------------------------------------ the whole expression
def p_expr(P):
    ev = list(log(P.st))
    if [e[0] for e in ev] != ['tok', 'add_expr']:
        return P.fail('content', 'order', 'an expression is not the first token and the sum it begins')
    same(P, P.ret, ev[1][3], 'the value is not that of the expression')


SPECS['harbol_math_parse_expr'] = dict(roles=roles, status=status_none, contracts=CONTRACTS, post=p_expr, pre=pre, variants=[{'ops': ()}])


# ------------------------------------------------------------------ tokens
CHARS = {'(': 'TokenLParen', ')': 'TokenRParen', '[': 'TokenLBrack', ']': 'TokenRBrack', '+': 'TokenPlus', '-': 'TokenSub', '*': 'TokenMul', '/': 'TokenDiv', '^': 'TokenPow'}


def char_at(P, k):
    """-> [(Post, unsigned character of the expression at k)]"""
    rid = P.args[1][1]
    out = []
    for s, v in P.eng.read(P.st.copy(), P.st.mem[rid].content, k, 1, T8_, rid):
        out.append((P.at(s), P.eng.toU(s, v)))
    return out


def ranges(P, c, rs):
    """-> [(Post, True/False)]: the character is in the ranges"""
    out = []
    lo = 0
    for a, b in sorted(rs):
        for Q in P.cases((GE, addc(c, -lo)), (GE, sub(K(a - 1), c))):
            out.append((Q, False))
        for Q in P.cases((GE, addc(c, -a)), (GE, sub(K(b), c))):
            out.append((Q, True))
        lo = b + 1
    for Q in P.cases((GE, addc(c, -lo))):
        out.append((Q, False))
    return [(Q, x) for Q, x in out if P.eng.settle_classes(Q.st)]


DIG = [(48, 57)]
ALNUM = DIG + [(65, 90), (97, 122)]


def p_token(P):
    T = tags(P.cx.p)
    o = P.objs['ls']
    O = offs(P.cx.p)
    rd = lambda P, f, t: [(P.at(s), P.eng.toU(s, v)) for s, v in P.cx.get(P.st.copy(), o.rid, O[f], t) if v[0] == 'i']
    L = P.cx.g['textlen']
    for Q, tag in rd(P, 'tag', T32):
        for Q, j in rd(Q, 'idx', T64):
            for Q, n in rd(Q, 'size', T64):
                i0 = P.eng.toU(Q.st, P.cx.get(Q.st.copy(), o.rid, O['idx'], T64, P.e.mem[o.rid].content)[0][1])
                for s, b in P.eng.split(Q.st.copy(), P.ret):
                    token_post(Q.at(s), T, tag, j, n, i0, L, b)


def token_post(P, T, tag, j, n, i0, L, got):
    start = ZERO if P.st.eq(j, n) else i0 if P.st.eq(sub(j, n), i0) else sub(j, n)
    P.prove('retval', 'begins', sub(start, i0), 'a token begins before the place reached')
    m = P.cx.g.get(('mark', P.args[1][1]))
    if m is not None:
        P.prove('retval', 'blank', sub(m, start), 'skips a character that is no blank')
    name = next((k for k, v in T.items() if P.st.eq(tag, K(v))), None)
    if name is None:
        return P.fail('retval', 'tag', 'the token has no definite type')
    bad = lambda Q, m: Q.fail('retval', 'tag', m)
    if not got:
        if name == 'TokenInvalid':
            P.eq('retval', 'size', n, ZERO, 'no token, but a size')
            # nothing is left, or what is left begins no token
            for Q in P.cases((GE, addc(sub(L, j), -1))):
                for R, c in char_at(Q, j):
                    for S_, isin in ranges(R, c, ALNUM + [(ord(x), ord(x)) for x in CHARS] + [(46, 46)]):
                        if isin:
                            bad(S_, 'a character that begins a token is refused')
        elif name != 'TokenNum':
            bad(P, 'a token is refused')
        return
    for Q, c in char_at(P, start):
        if name in CHARS.values():
            ch = [k for k, v in CHARS.items() if v == name][0]
            Q.eq('retval', 'tag', c, K(ord(ch)), 'the token is not the one its character stands for')
            Q.eq('retval', 'size', n, ONE, 'an operator is not one character')
        elif name == 'TokenNum':
            for R, isin in ranges(Q, c, DIG + [(46, 46)]):
                if not isin:
                    bad(R, 'a number begins with another character than a digit or a point')
        elif name == 'TokenVar':
            for R, isin in ranges(Q, c, [x for x in ALNUM if x not in DIG]):
                if not isin:
                    bad(R, 'a name begins with another character than a letter')
        else:
            bad(Q, 'a token without a type is accepted')
    if name in ('TokenNum', 'TokenVar'):
        P.prove('retval', 'size', addc(n, -1), 'an empty token')
        # to its end, unless the lexeme is full (or the contract of a number says so)
        for Q in [] if P.st.tags.get('decimal') else P.cases((GE, sub(K(LEX - 2), n)), (GE, addc(sub(L, j), -1))):
            for R, c in char_at(Q, j):
                for S_, isin in ranges(R, c, ALNUM + ([(46, 46)] if name == 'TokenNum' else [])):
                    if isin:
                        bad(S_, 'the token ends before its last character')
    O = offs(P.cx.p)
    o = P.objs['ls']
    P.same_bytes('content', 'lexeme', VP(o.rid), K(O['lexeme']), P.args[1][1], start, n, 'the lexeme is not the text of the token')
    if name == 'TokenNum':
        v = P.cx.get(P.st.copy(), o.rid, O['val'], {'k': 'f', 'st': 10, 'sz': 16})[0][1]
        t = FTERM.get(v[1]) if v[0] == 'f' else None
        P.entry.obligations += 1
        if t is None or t[0] != 'strto' or t[1] != o.rid or not P.st.eq(t[2], K(O['lexeme'])):
            bad(P, 'the value of a number is not read from its lexeme')


def pre_token(cx, st, args, objs, fn):
    st = pre(cx, st, args, objs, fn)
    if st is not None and 'mark' in cx.opts:
        L = cx.g['textlen']
        g = cx.g[('mark', args[1][1])] = newsym('mark', 0, PTRDIFF - 1)
        o = objs['ls']
        i = cx.get(st.copy(), o.rid, offs(cx.p)['idx'], T64)[0][1]
        if not st.assume(GE, addc(sub(L, g), -1)) or not st.assume(GE, sub(g, cx.eng.toU(st, i))):
            return None
        c = fresh_i(8, 'mark')
        for x in (0, 32, 9, 10, 13):
            st.assume(NE, addc(c[2], -x))
        cx.put(st, args[1][1], g, 1, c)
    return st


# the digits of a number: checked by itself, and a contract for the token
def dec_start(eng, st, a):
    """(state, idx, L) when the lexer holds an empty token in front of a digit or a point"""
    r = lexer_ok(eng, st, a, 'a number')
    if r is None:
        return None
    s, i, L = r
    O = offs(eng.p)
    l, x = a[0], a[1]
    c = s.mem[l[1]].content
    z = eng.read(s.copy(), c, addc(l[2], O['size']), 8, T64, l[1])
    if len(z) != 1 or z[0][1][0] != 'i' or not s.eq(z[0][1][2], ZERO):
        return None
    k = newsym('k', 0, LEX - 1)
    for s2, v in eng.read(s.copy(), c, add(addc(l[2], O['lexeme']), k), 1, T8_, l[1]):
        if v[0] != 'i' or not s2.eq(v[2], ZERO):
            return None
    if not s.cons.prove_row(GE, addc(sub(L, i), -1)):
        return None
    for s2, v in eng.read(s.copy(), s.mem[x[1]].content, i, 1, T8_, x[1]):
        v = eng.toU(s2, v)
        if not s2.cons.prove_row(GE, addc(v, -46)) or not s2.cons.prove_row(GE, sub(K(57), v)) or not s2.cons.prove_row(NE, addc(v, -47)):
            return None
    return s, i, L


def c_decimal(eng, st, a, i):
    r = dec_start(eng, st, a)
    if r is None:
        return None
    s0, idx, L = r
    O = offs(eng.p)
    out = []
    for ok in (1, 0):
        s = s0.copy()
        n = newsym('digits', 1, LEX - 1)
        j = add(idx, n)
        if not s.assume(GE, sub(L, j)):
            continue
        l, x = a[0], a[1]
        eng.copyrange(s, l[1], addc(l[2], O['lexeme']), n, x[1], idx)
        eng.write(s, l[1], add(addc(l[2], O['lexeme']), n), 1, VI(8, ZERO))
        eng.write(s, l[1], addc(l[2], O['size']), 8, ('i', 64, n, 'u'))
        eng.write(s, l[1], addc(l[2], O['idx']), 8, ('i', 64, j, 'u'))
        s.tags['decimal'] = ok
        out.append((s, VI(1, K(ok))))
    return out


def pre_decimal(cx, st, args, objs, fn):
    st = pre(cx, st, args, objs, fn)
    O = offs(cx.p)
    o = objs['ls']
    cx.put(st, o.rid, O['size'], 8, VI(64, ZERO))
    cx.eng.fill(st, o.rid, K(O['lexeme']), K(LEX), 0)
    i = cx.eng.toU(st, cx.get(st.copy(), o.rid, O['idx'], T64)[0][1])
    if not st.assume(GE, addc(sub(cx.g['textlen'], i), -1)):
        return None
    out = []
    for s, x in cx.get(st.copy(), args[1][1], i, T8_):
        x = cx.eng.toU(s, x)
        lo, hi = (48, 57) if cx.opts['first'] else (46, 46)
        if s.assume(GE, addc(x, -lo)) and s.assume(GE, sub(K(hi), x)):
            if 'dots' in cx.opts:
                # two points, the first one possibly where the number begins
                g = [newsym('dot', 0, PTRDIFF) for _ in range(2)]
                if not cx.opts['first']:
                    g[0] = i
                elif not s.assume(GE, addc(sub(g[0], i), -1)):
                    continue
                if not s.assume(GE, addc(sub(g[1], g[0]), -1)) or not s.assume(GE, addc(sub(cx.g['textlen'], g[1]), -1)):
                    continue
                for d in g:
                    if d != i:
                        cx.put(s, args[1][1], d, 1, VI(8, K(46)))
                cx.g[('dot', args[1][1])] = g[1]
            out.append(s)
    return out[0] if out else None


def p_decimal(P):
    o = P.objs['ls']
    O = offs(P.cx.p)
    rd = lambda P, f, t: [(P.at(s), P.eng.toU(s, v)) for s, v in P.cx.get(P.st.copy(), o.rid, O[f], t) if v[0] == 'i']
    L = P.cx.g['textlen']
    i0 = P.eng.toU(P.st, P.cx.get(P.st.copy(), o.rid, O['idx'], T64, P.e.mem[o.rid].content)[0][1])
    P.same_bytes('content', 'tag', VP(o.rid), K(O['tag']), o.rid, K(O["tag"]), K(4), 'the type of the token is changed')
    for Q, j in rd(P, 'idx', T64):
        for Q, n in rd(Q, 'size', T64):
            Q.prove('retval', 'size', addc(n, -1), 'an empty number')
            Q.eq('retval', 'size', add(i0, n), j, 'the length of a number is not what was consumed')
            Q.same_bytes('content', 'lexeme', VP(o.rid), K(O['lexeme']), Q.args[1][1], i0, n, 'the lexeme is not the text of the number')
            for s, b in P.eng.split(Q.st.copy(), P.ret):
                if b:
                    g = P.cx.g.get(('dot', P.args[1][1]))
                    if g is not None:
                        Q.at(s).prove('retval', 'dots', sub(g, j), 'a number with two points is accepted')
                    for R in Q.at(s).cases((GE, addc(sub(L, j), -1))):
                        for R, c in char_at(R, j):
                            for S_, isin in ranges(R, c, ALNUM + [(46, 46)]):
                                if isin:
                                    S_.fail('retval', 'tag', 'a number ends before its last character')


SPECS['_harbol_math_lex_decimal'] = dict(internal=True, roles=roles, status=status_none, contracts={}, post=p_decimal, pre=pre_decimal, variants=[{'CLASSES': 1, 'PEEL': 1, 'first': x, 'SOFT': 200, 'MAXSTATES': 200, 'MAXRET': 200, **y} for x in (1, 0) for y in ({}, {'dots': 1})])
DEC = {'_harbol_math_lex_decimal': c_decimal}
SPECS['_harbol_math_get_token'] = dict(internal=True, roles=roles, cost=60, status=status_none, contracts=DEC, post=p_token, pre=pre_token, variants=[dict({'CLASSES': 1, 'PEEL': 1, 'SOFT': 200, 'MAXSTATES': 200, 'MAXRET': 200}, **x) for x in ({'fresh': 1}, {}, {'mark': 1})])


# ------------------------------------------------------------------ the library's own functions and names
def header_role(cx, st, name, ty, fn, opts):
    if ty == 'char const*' and name == 'var_name':
        if opts.get('name') is None:
            L = newsym('strlen(name)', 0, PTRDIFF - 1)
            rid = cx.region(st, 'param', addc(L, 1), Base('cstr', len=L), name=name, const=True)
        else:
            b = opts['name'].encode() + b'\0'
            rid = cx.region(st, 'param', K(len(b)), Base('bytes', cells={}, bytes=dict(enumerate(b))), name=name, const=True)
        return [(st, VP(rid), None)]
    if ty == 'void*':
        return [(st, VP(cx.region(st, 'user', None, Base('opaque'), name=name)), None)]
    if ty.endswith('*') and not ty.startswith('char'):
        size = {'value': 16, 'math_func': 8, 'is_func': 1}[name]
        rid = cx.region(st, 'param', K(size), Base('opaque'), name=name)
        if name == 'math_func':
            cx.put(st, rid, ZERO, 8, NULLP)
        if name == 'is_func':
            cx.put(st, rid, ZERO, 1, VI(8, ZERO))
        cx.g[(name, opts.get('name'))] = rid
        return [(st, VP(rid), None)]
    if ty.startswith('long double') or ty == 'floatmax_t':
        v = ('f', Syms.new('fl', None, None))
        return [(st, v, None)]
    return scalar(cx, st, name, ty)


PURE = {'sin': 'sin', 'cos': 'cos', 'tan': 'tan', 'arcsin': 'asin', 'arccos': 'acos', 'arctan': 'atan', 'ln': 'log', 'log': 'log10', 'floor': 'floor', 'ceil': 'ceil', 'round': 'round'}


def expected(name, x):
    """the values the function of that name may have, as terms over x"""
    if name in PURE:
        return [fterm(PURE[name], x)]
    if name == 'fraction':
        return [fterm('fsub', x, fterm('floor', x)[1])]
    return None


def show(v):
    return ft(v) if v[0] == 'f' else repr(v)


def check_fn(P, name, x, v):
    P.entry.obligations += 1
    w = expected(name, x[1])
    if w is not None:
        if v not in w:
            P.fail('retval', 'value', 'the function %s computes something else' % name)
        return
    # angles: x times a ratio of 180 and the arc cosine of -1, either way round
    if not angle(v, x[1], name == 'degrees'):
        P.fail('retval', 'value', 'the function %s computes something else' % name)


def angle(v, x, deg):
    """numerator and denominator of the product v, as bags of factors"""
    num, den = [], []

    def walk(i, up):
        t = FTERM.get(i)
        if t is not None and t[0] == 'fmul':
            walk(t[1], up)
            walk(t[2], up)
        elif t is not None and t[0] == 'fdiv':
            walk(t[1], up)
            walk(t[2], not up)
        else:
            (num if up else den).append(i)
    if v[0] != 'f':
        return False
    walk(v[1], True)
    if x not in num:
        return False
    num.remove(x)
    if len(num) != 1 or len(den) != 1:
        return False
    pi, half = (den, num) if deg else (num, den)
    return is_const(pi[0], 'pi') and isnum(half[0], 180.0)


def is_const(i, name):
    f, a, x = {'e': ('exp', 1.0, math.e), 'pi': ('acos', -1.0, math.pi)}[name]
    t = FTERM.get(i)
    return isnum(i, x) or t is not None and t[0] == f and isnum(t[1], a)


def isnum(i, x):
    return isinstance(i, tuple) and i[0] == 'const' and float(i[1]) == x


def p_fn(name):
    def post(P):
        check_fn(P, name, P.args[0], P.ret)
    return post


NAMES = list(PURE) + ['fraction', 'radians', 'degrees']
for _n in NAMES:
    SPECS['math_parse_' + _n] = dict(roles=header_role, status=status_none, post=p_fn(_n))


def fn_is(P, name, v):
    """the function pointer v is a function computing the named one"""
    if v[0] != 'p' or v[1] <= 0 or P.st.mem[v[1]].kind != 'func':
        return P.fail('retval', 'fn', 'the name %s does not give its function' % name)
    g = P.eng.p.funcs.get(P.st.mem[v[1]].attr['fname'])
    if g is None or len(g.params) != 1:
        return P.fail('retval', 'fn', 'the name %s gives a function of another type' % name)
    x = ('f', Syms.new('fl', None, None))
    for s, r in P.eng.call_function(g, [x], P.st.copy(), ()):
        check_fn(P.at(s), name, x, r)


def p_funcs(P):
    name = P.cx.opts.get('name')
    if name is None:
        return
    if name in NAMES:
        return fn_is(P, name, P.ret)
    P.entry.obligations += 1
    if P.ret[1] != 0:
        P.fail('retval', 'fn', 'a name that is no function gives one')


def var_term(P, name, v):
    P.entry.obligations += 1
    if v[0] != 'f' or not is_const(v[1], name):
        P.fail('content', 'value', 'the value of the name %s is another' % name)


def value_of(P):
    rid = P.cx.g[('value', P.cx.opts.get('name'))]
    return [(P.at(s), v) for s, v in P.cx.get(P.st.copy(), rid, ZERO, {'k': 'f', 'st': 10, 'sz': 16})]


def p_vars(P):
    name = P.cx.opts.get('name')
    if name is None:
        return
    rid = P.cx.g[('value', name)]
    for s, b in P.eng.split(P.st.copy(), P.ret):
        Q = P.at(s)
        Q.entry.obligations += 1
        if bool(b) != (name in ('e', 'pi')):
            Q.fail('retval', 'found', 'the name %r is%s found' % (name, '' if b else ' not'))
        elif b:
            for R, v in value_of(Q):
                var_term(R, name, v)
        else:
            Q.same_bytes('content', 'value', VP(rid), ZERO, rid, ZERO, K(16), 'the value is changed although the name is no variable')


def p_default(P):
    name = P.cx.opts.get('name')
    if name is None:
        return
    g = P.cx.g
    rid, frid, brid = g[('value', name)], g[('math_func', name)], g[('is_func', name)]
    if name in ('e', 'pi'):
        for R, v in value_of(P):
            var_term(R, name, v)
    else:
        P.same_bytes('content', 'value', VP(rid), ZERO, rid, ZERO, K(16), 'the value is changed although the name is no variable')
    for s, f in P.cx.get(P.st.copy(), frid, ZERO, TP):
        for s2, b in P.cx.get(s, brid, ZERO, T8_):
            Q = P.at(s2)
            if name in NAMES:
                fn_is(Q, name, f)
            Q.eq('retval', 'is_func', Q.eng.toU(s2, b), K(int(name in NAMES)), 'the name %r is taken for %s function' % (name, 'no' if name in NAMES else 'a'))


OTHER = ['', 'si', 'sinx', 'Sin', 'arc', 'log10', 'p', 'pie', 'E', 'x', 'tan h']
for _f, _p in (('harbol_math_check_default_funcs', p_funcs), ('harbol_math_check_default_vars', p_vars), ('harbol_math_default_var_func', p_default)):
    SPECS[_f] = dict(roles=header_role, status=status_none, post=_p, variants=[{'name': x, 'SOFT': 100, 'MAXSTATES': 200, 'MAXRET': 200} for x in [None] + NAMES + ['e', 'pi'] + OTHER])
