"""Why a call may fail although every allocation, file operation and formatting it needed succeeded.

Each function returns the reasons: True (any; the function's own post-condition decides when it fails),
a Boolean, or a constraint over the entry state.  A failing exit that no reason explains is reported.
Arguments are numbered as the program passes them, the hidden result pointer included."""
from dom import *
from dom import addc, sub, add, neg, mul, K, M64, EQ, NE, GE

PTRDIFF = (1 << 63) - 1
ANY = lambda P: [True]


def A(P, i):
    return P.eng.toU(P.st, P.args[i])


def field(P, i, *path):
    """the field of what argument i points to, at entry: (value)"""
    p = P.cx.p
    off = 0
    for s, f in path:
        off += p.off(s, f)
    s, f = path[-1]
    x = [x for x in p.structs[s]['f'] if x['n'] == f][0]
    ptr = '*' in x['t'] or '(' in x['t']
    a = P.args[i]
    got = P.cx.get(P.st.copy(), a[1], addc(a[2], off), {'k': 'p'} if ptr else {'k': 'i', 'b': 8 * x['s']}, P.e.mem[a[1]].content)
    return got[0][1] if len(got) == 1 else None


def num(P, i, *path):
    v = field(P, i, *path)
    return P.eng.toU(P.st, v)


def null(P, i, *path):
    v = field(P, i, *path)
    return v is not None and v[0] == 'p' and v[1] == 0


def nullarg(P, i):
    v = P.args[i]
    return v[0] == 'p' and v[1] == 0


def arr(i, f):
    return lambda P: num(P, i, ('HarbolArray', f))


AT = ('HarbolArray', 'table')
AL, AC = ('HarbolArray', 'len'), ('HarbolArray', 'cap')
ST, SL = ('HarbolString', 'cstr'), ('HarbolString', 'len')


def zero(e):
    return (EQ, e)


def text_empty(P, i):
    """the C string argument i is NULL or empty"""
    v = P.args[i]
    if v[0] == 'p' and v[1] == 0:
        return True
    r = P.e.mem.get(v[1]) if v[0] == 'p' else None
    c = r.content if r is not None else None
    if c is not None and getattr(c, 'kind', None) == 'cstr':
        return zero(sub(c.len, v[2]))
    return False


array = {
    'empty': ANY, 'full': ANY, 'index_of': ANY, 'del_by_val': ANY,
    'peek': lambda P: [null(P, 0, AT), zero(num(P, 0, AL))],
    'get': lambda P: [null(P, 0, AT), (GE, sub(A(P, 1), num(P, 0, AL)))],
    'grow': ANY, 'resize': ANY, 'shrink': ANY,
    'insert': lambda P: [null(P, 0, AT), (GE, sub(num(P, 0, AL), num(P, 0, AC)))],
    'fill': lambda P: [null(P, 0, AT)],
    'add': lambda P: [null(P, 0, AT), null(P, 1, AT), (GE, sub(add(num(P, 0, AL), num(P, 1, AL)), num(P, 0, AC)))],
    'copy': lambda P: [null(P, 0, AT), null(P, 1, AT)],
}
for _a, _b in dict(peek_ex='peek', pop='peek', pop_ex='peek', get_ex='get', set='get', append='insert', swap='fill', shift_up='get', del_by_index='get', del_by_range='get').items():
    array[_a] = array[_b]

tree = {
    'set': lambda P: [zero(A(P, 2))], 'insert_val': ANY,
    'insert_node': ANY, 'rm_node': ANY, 'rm_val': ANY, 'get_node_by_val': ANY,
    'rm_index': lambda P: [(GE, sub(A(P, 1), num(P, 0, ('HarbolTree', 'kids'), AL)))],
    'get_node_by_index': lambda P: [(GE, sub(A(P, 1), num(P, 0, ('HarbolTree', 'kids'), AL)))],
}
objpool = {
    'init': lambda P: [zero(A(P, 1)), zero(A(P, 2)), (GE, addc(A(P, 1), -PTRDIFF))],
    'alloc': lambda P: [zero(num(P, 0, ('HarbolObjPool', 'free_blocks')))],
}
deque = {
    'pop_front': lambda P: [zero(num(P, 0, ('HarbolDeque', 'len')))],
    'pop_back': lambda P: [zero(num(P, 0, ('HarbolDeque', 'len')))],
}
map = {
    'get_entry_index': ANY, 'has_key': ANY, 'key_val': ANY, 'idx_val': ANY, 'key_get': ANY, 'key_set': ANY, 'key_rm': ANY,
    'rehash': ANY,
    'insert': ANY,
    'idx_get': lambda P: [(GE, sub(A(P, 1), num(P, 0, ('HarbolMap', 'len'))))],
    'idx_set': lambda P: [(GE, sub(A(P, 1), num(P, 0, ('HarbolMap', 'len'))))],
    'idx_rm': lambda P: [(GE, sub(A(P, 1), num(P, 0, ('HarbolMap', 'len'))))],
}
str = {
    'empty': ANY, 'is_palindrome': ANY, 'replace_char': ANY, 'replace_cstr': ANY, 'read_file': ANY, 'read_from_file': ANY,
    'cstr_offsets': lambda P: [null(P, 0, ST), text_empty(P, 1)],
    'replace_range': lambda P: [(GE, sub(A(P, 1), num(P, 0, SL))), (GE, addc(sub(A(P, 1), A(P, 2)), -1))],
    'upper': ANY, 'lower': ANY, 'reverse': ANY,
    'add_char_rep': lambda P: [(GE, addc(add(A(P, 2), num(P, 0, SL)), -PTRDIFF))],
    'add_str': lambda P: [null(P, 1, ST)], 'copy_str': lambda P: [null(P, 1, ST)],
    'add_cstr': lambda P: [text_empty(P, 1)], 'copy_cstr': lambda P: [text_empty(P, 1)], 'init': lambda P: [text_empty(P, 1)],
}
def entry_word(P, i):
    a = P.args[i]
    got = P.cx.get(P.st.copy(), a[1], a[2], {'k': 'i', 'b': 64}, P.e.mem[a[1]].content)
    return P.eng.toU(P.st, got[0][1])


common = {
    'harbol_recalloc': lambda P: [zero(A(P, 1)), zero(A(P, 2)), (GE, addc(mul(A(P, 1), A(P, 2)), -PTRDIFF))],
    'harbol_resize_string': lambda P: [(EQ, addc(A(P, 3), -M64)), zero(A(P, 1)), (GE, addc(mul(addc(A(P, 3), 1), A(P, 1)), -PTRDIFF))],
    'array_shift_up': lambda P: [(GE, sub(A(P, 2), entry_word(P, 1)))],
    'multi_array_shift_up': lambda P: [(GE, sub(A(P, 1), entry_word(P, 0)))],
}
tuple = {
    'new': ANY, 'init': ANY, 'packed': ANY,
    'get': ANY,
    'to_struct': lambda P: [null(P, 0, ('HarbolTuple', 'datum')), zero(num(P, 0, ('HarbolTuple', 'len')))],
}
tuple['set'] = tuple['get']
SRC = ('HarbolMsgSpan', 'src')
msg = {
    'get_line': lambda P: [(GE, sub(A(P, 1), num(P, 0, SRC, ('HarbolSrcSpan', 'len'))))],
    'add_label': lambda P: [(GE, addc(num(P, 0, ('HarbolMsgSpan', 'labels'), AC), -(1 << 50)))],
    'add_note': lambda P: [(GE, addc(num(P, 0, ('HarbolMsgSpan', 'notes'), AC), -(1 << 50)))],
    'init': ANY,
}

TABLE = {}
for _m, _p in (('array', 'harbol_array_'), ('tree', 'harbol_tree_'), ('objpool', 'harbol_objpool_'), ('deque', 'harbol_deque_'), ('map', 'harbol_map_'),
               ('str', 'harbol_string_'), ('tuple', 'harbol_tuple_'), ('msg', 'harbol_msg_span_'), ('common', '')):
    for _n, _f in globals()[_m].items():
        TABLE[_p + _n] = _f
