"""Which reports decide which property."""
import importlib
from prog import AnalysisError, base

MODULES = ['array', 'str', 'bytebuffer', 'variant', 'tuple', 'deque', 'arena', 'objpool', 'map', 'tree', 'common', 'lex', 'msg', 'math', 'plugins', 'cfg', 'mapfind', 'cfgparse']

FUNCTIONAL = {'inv', 'content', 'count', 'retval', 'status'}
BOUNDS = {'oob', 'null', 'unterm', 'wild', 'overlap', 'vla'}
LIFETIME = {'uaf', 'dfree', 'badfree'}
UNINIT = {'uninit'}
MODULE_KINDS = FUNCTIONAL | BOUNDS | LIFETIME | UNINIT | {'constw', 'leak', 'resleak', 'vaend', 'failmod'}

ASSUMPTIONS = [
    'x86-64 Linux (LP64), the configuration the Makefile builds; clang 18 front end, -O0 IR after mem2reg',
    'the caller meets the documented preconditions (valid objects of the stated shape, non-NULL arguments marked as such, element sizes consistent between calls)',
    'objects are smaller than PTRDIFF_MAX bytes; signed overflow and other undefined behaviour outside the listed kinds does not occur',
    'C library functions behave as modelled in engine/models.py',
]


def mod(m, **kw):
    d = dict(modules=[m], kinds=MODULE_KINDS)
    d.update(kw)
    return d


def INTEGERS(n):
    return n.startswith(('int_log', 'base_', 'bytes_', 'is_u', 'is_i', '_MT', 'MT')) or n in ('harbol_align_size', 'harbol_pad_size')


def HELPERS(n):
    return not INTEGERS(n) and 'link_' not in n


def UTF8(n):
    return 'utf8' in n and not n.startswith('lex_') or 'rune' in n or n.startswith('is_')


PROPS = {
    'L01': mod('lex', kinds=MODULE_KINDS | {'leak', 'resleak'}, min_entries=40, entries=lambda n: not UTF8(n), rule='abstract interpretation of every exported scanner, lexer and number conversion over every text; the place each one stops at is proved to lie in the text, and for scanners with a stop condition the character there is proved to meet it; tokens that copy the text are proved to hold it'),
    'L02': mod('lex', kinds=MODULE_KINDS | {'leak', 'resleak'}, min_entries=22, entries=UTF8, rule='abstract interpretation of the UTF-8 and character-class functions over every text and rune: the bytes written are proved to be the UTF-8 form of the rune (by ranges, with every bit of the rune accounted for), the rune read to be the one the bytes encode'),
    'M01': mod('msg', min_entries=11, rule='abstract interpretation of every exported diagnostics function from every message span with any number of lines, labels and notes; elements are described on demand, and at each return an arbitrary element is proved to be kept or new as promised; freeing is proved for an element picked beforehand'),
    'G01': mod('cfg', kinds=MODULE_KINDS | {'leak', 'failmod'}, min_entries=18, entries=lambda n: 'get_' in n or 'set_' in n or 'calc' in n, rule='abstract interpretation of every function that reads or changes a value of a config, with every outcome of each look-up, for every path of up to four characters made of letter, dot and backslash and some longer ones: the keys looked up are proved to be the parts of the path, each in the section found before, and the value is proved to be returned, stored, converted or kept as promised'),
    'G02': mod('cfg', kinds=MODULE_KINDS | {'leak', 'resleak', 'failmod'}, min_entries=3, entries=lambda n: n in ('harbol_cfg_free', 'harbol_cfg_to_str', 'harbol_cfg_build_file'), rule='abstract interpretation of writing and freeing a config: memory for documents with any number of entries; for documents of up to two entries of every kind, the pieces written (characters, texts, numbers with their conversions) are proved to be each key and its value in order, and everything an entry owns is proved freed'),
    'P01': mod('plugins', min_entries=9, rule='abstract interpretation of every exported plugin function with every outcome of the operating system calls: the order of loading, unloading and user functions, what they are given, and what the plugin records are compared with what is promised; the directory walk is proved over a reader whose entries are matching files, others, sub-directories and unreadable ones, and the reader itself against the same contract'),
    'E01': mod('math', min_entries=20, rule='abstract interpretation of the expression parser: floating point results are terms over the values read, and every grammar level is proved to return the term its operators stand for, against contracts for the levels below (each proved the same way); tokens are proved to be the text at their place and of the type their characters stand for; the functions and constants known by name are proved to be the terms they are named after'),
    'C01': mod('array', min_entries=28, rule='abstract interpretation of every exported array function from every well-formed array: memory accesses in bounds, invariant re-established, elements preserved or moved as promised'),
    'C02': mod('str', min_entries=26, rule='abstract interpretation of every exported string function from every well-formed string: accesses in bounds, NUL at the stored length, stored length equal to the text length, contents as promised'),
    'G03': mod('cfgparse', kinds=MODULE_KINDS | {'leak', 'resleak', 'failmod', 'hang'}, min_entries=2, rule='abstract interpretation of the parser on documents enumerated token by token (every kind of value after every kind of key, pairs of values, nested sections, includes, comments, documents that break off or are malformed at every point), the texts and numbers in them arbitrary: what is put into each section is proved to be the entries written, with their key, type and value, and everything not put there to be freed'),
    'C07': mod('tuple', kinds=MODULE_KINDS | {'leak'}, min_entries=9, rule='abstract interpretation of every exported tuple function from every well-formed tuple; layout of tuples of up to four fields of any sizes proved by exhaustive unrolling'),
    'C05': mod('deque', kinds=MODULE_KINDS | {'leak', 'failmod'}, min_entries=19, rule='abstract interpretation of every exported deque function from every well-formed deque; nodes are described on demand with a ghost rank (position in the list, depth in the free list), and at each return the links of an arbitrary node are proved to keep one list of len nodes and one free list of cap - len nodes'),
    'C04': mod('map', kinds=MODULE_KINDS | {'leak', 'failmod'}, min_entries=16, rule='abstract interpretation of every exported map function from every well-formed map; entries are described on demand, and at each return an arbitrary bucket and an arbitrary entry are proved to be what the operation promises; freeing is proved for an entry picked beforehand'),
    'C09': mod('mapfind', kinds=MODULE_KINDS, min_entries=8, rule='abstract interpretation of every look-up, insertion, replacement, removal and resize of a map on every table of up to four buckets in which each entry can be reached from its bucket (keys, values, lengths and hashes arbitrary, of a hash only its remainder fixed): the key is proved to be found exactly when it is there, and every entry to stay reachable afterwards'),
    'C06': mod('tree', kinds=MODULE_KINDS | {'leak', 'failmod'}, min_entries=14, rule='abstract interpretation of every exported tree function from every well-formed tree; children are described on demand, recursive calls on children are replaced by what the operation promises, and at each return an arbitrary child (and a child picked beforehand) is proved to be kept, freed or new as promised'),
    'A01': mod('arena', kinds=MODULE_KINDS | {'leak', 'failmod'}, min_entries=21, rule='abstract interpretation of every exported region and bistack function (and the set-up and clearing of the mempool built on a region) from every well-formed arena; each block handed out is proved to lie in the part that was free and to be taken out of it'),
    'A02': mod('objpool', kinds=MODULE_KINDS | {'leak', 'failmod'}, min_entries=8, rule='abstract interpretation of every exported object pool function from every well-formed pool (object sizes 8 and 24, any number of blocks); blocks are described on demand with a ghost rank (depth in the free list), and at each return the list through an arbitrary free block is proved to lead to another free block, never to one handed out'),
    'C08': mod('variant', kinds=MODULE_KINDS | {'failmod', 'leak'}, min_entries=6, rule='abstract interpretation of every exported variant function from every well-formed variant'),
    'H01': mod('common', kinds=MODULE_KINDS | {'leak', 'resleak', 'vaend', 'failmod', 'shift'}, min_entries=24, entries=HELPERS, rule='abstract interpretation of every inline helper of the common header that copies, resizes, shifts, formats or reads data (up to three buffers for the ones that take a list of buffers)'),
    'H02': mod('common', kinds=MODULE_KINDS | {'shift', 'div0'}, min_entries=14, entries=INTEGERS, rules=['pow2'], rule='abstract interpretation of the integer helpers on every range of arguments between two powers (of two or ten), alignments up to 4096; known-bits evaluation of the power-of-two helpers for each position of the highest bit; bounds of the state array of the random generator'),
    'H03': mod('common', min_entries=12, entries=lambda n: 'link_' in n, rule='abstract interpretation of every intrusive list operation on every list of up to five nodes at every position (the operations touch only neighbours), all links of the result compared with the list promised'),
    'C03': mod('bytebuffer', min_entries=17, rule='abstract interpretation of every exported byte buffer function from every well-formed buffer'),
}


def all_modules():
    return MODULES


def spec_of(m):
    return importlib.import_module('specs.' + m)


def jobs(prog_, P, limit):
    out = []
    for m in P.get('modules', all_modules()):
        s = spec_of(m)
        miss = [n for n, sp in s.SPECS.items() if n not in prog_.funcs and not sp.get('internal')]
        if miss:
            raise AnalysisError('exported function(s) vanished: ' + ', '.join(miss))
        for n, sp in s.SPECS.items():
            if P.get('entries') and not P['entries'](n) or n not in prog_.funcs:
                continue
            out.append((sp.get('cost', 0), ('entry', m, n, limit)))
    out.sort(key=lambda t: -t[0])
    out = [j for _, j in out]
    for r in P.get('rules', ()):
        out.append(('rule', 'rules', r, limit))
    if not out:
        raise AnalysisError('nothing to analyse')
    return out


def selects(P, r, x):
    if r['kind'] == 'rule':
        return r['entry'] in P.get('rules', ())
    if x['kind'] not in P['kinds']:
        return False
    f = P.get('filter')
    return f is None or f(r, x)


def same(f, x):
    return all(f.get(k) == x.get(k) for k in ('entry', 'kind', 'func', 'key') if k in f)


def explain(P):
    return ('Each entry below was interpreted over all abstract argument states its callers may pass (no code was run): '
            'an abstract return is one equivalence class of paths that reaches a return, an obligation one invariant, content or bounds fact '
            'proved there for every value of the symbols, a site one memory access, free or library call whose precondition was proved on every path. '
            'Rule: ' + P['rule'])
