"""Texts of the properties; gen.py writes properties.jsonl and MANIFEST.json from them."""

def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), na=None):
    return dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, state=state, observe=observe, na=na)

INV_TECH = 'abstract interpretation (relational numeric domain, typestate heap, loop invariants) over the type-checked LLVM form'

PROPS = [
p('C01', 'Array: well-formed, in-bounds and element-exact under every operation',
  'From any well-formed array, for any element size, index, count and aliasing of the operands, every operation stays inside the storage it owns and leaves an array whose length does not exceed its capacity and whose capacity does not exceed its storage. Successful insertions, removals, copies and resizes change the length by exactly the number of elements concerned, keep the other elements in order and unchanged, and queries return the element asked for or refuse exactly the indexes outside the array.',
  ['inputs', 'histories'], 'all element sizes, lengths, capacities, indexes and amounts up to the address-space limit; any reachable state (by induction over operations)',
  'the tests run one or two scripted sequences on tiny arrays of one element type; amounts that wrap, empty arrays, self-append and exact-capacity edges are never reached',
  ['array/array.c', 'array/array.h', 'harbol_common_includes.h'],
  [('growth before a store, bounds tests before an access', 'array/array.c: harbol_array_insert, harbol_array_grow, harbol_array_get'), ('removal by shifting down', 'harbol_common_includes.h: array_shift_up')],
  [('table, len, cap', 'element storage, elements in use, elements allocated', 'array/array.h: struct HarbolArray')], ['harbol_array_len', 'harbol_array_get']),
p('C02', 'String: terminator at the stored length, lengths and contents exact',
  'From any well-formed string every operation keeps the text in one allocation that has a terminator at the stored length, and no access leaves that allocation. Appending, copying, formatting, replacing and removing change the stored length by exactly the characters concerned, keep the text around the change, and put the given text in its place; the stored length is the length of the text.',
  ['inputs', 'histories'], 'all texts and lengths (also texts holding NULs), all characters, counts, ranges and patterns, self-append and self-copy; any reachable string',
  'tests use short literals; empty strings without text, allocation-sized counts, empty patterns and ranges that end at the last character are not reached and an off-by-one past the terminator is invisible without them',
  ['str/str.c', 'str/str.h'],
  [('resize before writing, explicit terminator', 'str/str.c: _harbol_resize_string, harbol_string_add_str'), ('two-index compaction', 'str/str.c: harbol_string_rm_char')],
  [('cstr, len', 'text and its length', 'str/str.h: struct HarbolString')], ['harbol_string_len', 'harbol_string_cstr']),
p('C03', 'Byte buffer: appended bytes exact, earlier bytes kept, never out of bounds',
  'From any well-formed byte buffer every insertion, deletion, append, copy and file read stays inside the storage and leaves a length within the capacity and a capacity within the storage. A successful insertion raises the length by exactly the size of the value, leaves the bytes stored before untouched and stores the bytes given behind them; deletion removes exactly the requested range.',
  ['inputs', 'histories'], 'all buffers, values, amounts (also ones that wrap) and aliased operands', 'the tests append a few values once; capacity edges, wrapping amounts, self-append and deletion past the end are not sampled',
  ['bytebuffer/bytebuffer.c', 'bytebuffer/bytebuffer.h', 'harbol_common_includes.h'],
  [('resize when the new length reaches the capacity', 'bytebuffer/bytebuffer.c: HARBOL_BYTEBUFFER_INSERTION, _harbol_buffer_resize')],
  [('table, len, cap', 'bytes, bytes in use, bytes allocated', 'bytebuffer/bytebuffer.h: struct HarbolByteBuf')], ['harbol_bytebuffer_len', 'harbol_bytebuffer_get_buffer']),
p('C05', 'Deque: one ordered list of stored nodes, none lost or shared with the free list',
  'After any sequence of operations the nodes reached from the head are exactly as many as the count, each names its neighbours and is named by them, and the remaining nodes are all on the free list, each once. Pushing at either end adds exactly one node there that holds a copy of the data given; popping removes exactly the node at that end and hands out its data; all other nodes keep their data and order, and growing keeps them. A failed operation leaves the nodes as they were.',
  ['inputs', 'histories'], 'every well-formed deque of any capacity and length (free list order included), every data size, allocation failure at every step',
  'the tests push and pop a few values; the order of the free list, growth at other sizes, links of nodes that were reused and allocation failures are not sampled',
  ['deque/deque.c', 'deque/deque.h', 'harbol_common_includes.h'],
  [('free list threaded through prevs', 'deque/deque.c: _harbol_deque_alloc_node, _harbol_deque_free_node, _harbol_deque_resize'), ('relinking at the ends', 'deque/deque.c: harbol_deque_prepend, harbol_deque_append, harbol_deque_pop_front, harbol_deque_pop_back')],
  [('datum, nexts, prevs, head, tail, freed', 'data and links of each node, ends of the list and of the free list', 'deque/deque.h: struct HarbolDeque')], ['harbol_deque_count', 'harbol_deque_next', 'harbol_deque_get_front']),
p('C04', 'Map: entries are exact private copies, lookups return only real matches',
  'The entries of a map are the keys and values inserted, in insertion order, each a private copy of exactly the bytes given with its length. Inserting adds one entry at the end and puts it in a bucket; setting replaces the value of the entry with that key or index and no other; removing takes out exactly that entry, frees its key and value and moves the later entries up; rehashing keeps every entry; clearing frees every key and value. Every bucket is empty or names an entry that exists, before and after every operation. What a lookup returns is an entry that was compared with the bytes asked for at equal length and found equal, and an entry found equal is never reported as missing. A failed operation leaves the entries as they were.',
  ['inputs', 'histories'], 'every well-formed map of any capacity, length and bucket contents; keys and values of every length; allocation failure at every step',
  'the tests insert a few short keys; bucket collisions, removal in the middle, keys that are prefixes of others, growth at other sizes and allocation failures are not sampled',
  ['map/map.c', 'map/map.h', 'harbol_common_includes.h'],
  [('open addressing over buckets of entry indexes', 'map/map.c: harbol_map_get_entry_index, _harbol_map_insert_entry, _harbol_map_fill_buckets'), ('parallel arrays shifted on removal', 'map/map.c: harbol_map_idx_rm; harbol_common_includes.h: multi_array_shift_up')],
  [('keys, datum, keylens, datalens, hashes, buckets', 'copies of key and value, their lengths, hash, bucket table', 'map/map.h: struct HarbolMap')], ['harbol_map_key_get', 'harbol_map_get_entry_index', 'harbol_map_has_key']),
p('C09', 'Map: every key inserted and not removed is found again',
  'After any history of insertions, replacements, removals and resizes, looking up a key that was inserted and not removed since yields its entry, and its value, whatever other keys share or displaced its bucket; looking up any other key yields nothing. A key that is already there is not inserted a second time. An entry keeps the hash and the length of its own key, no bucket stays in use for an entry that was removed, and resizing keeps every key to be found in the new table.',
  ['inputs', 'histories'], 'every table of up to four buckets (up to three of them in use for all operations, every home and displacement), all keys, lengths, values and hashes; by induction over operations',
  'the tests look up a few dozen keys in one order; chains of displaced buckets that wrap around the table, or are cut by a removal, need particular hashes',
  ['map/map.c', 'map/map.h', 'harbol_common_includes.h'], [('displaced buckets', 'map/map.c: _harbol_map_insert_entry, harbol_map_get_entry_index'), ('buckets rebuilt after a removal or resize', 'map/map.c: _harbol_map_fill_buckets, harbol_map_idx_rm, harbol_map_rehash')],
  [('buckets, hashes', 'bucket table and the hash of each entry', 'map/map.h: struct HarbolMap')], ['harbol_map_key_get', 'harbol_map_has_key', 'harbol_map_get_entry_index']),
p('C06', 'Tree: every child kept in place until removed, and freed exactly once',
  'A tree node owns an exact copy of the data it was given and each of its children. Inserting a value or a node adds exactly one child, last, and leaves the others in place; removing a child by node, index or value frees exactly that child with everything below it and keeps the order of the rest, refusing exactly what is no child; lookup by index returns that child and lookup by value only a child whose whole data was compared equal. Replacing the data of a node stores exactly the new bytes, of any length, and keeps the children. Clearing or freeing a tree frees every child once; a failed operation changes nothing and leaks nothing.',
  ['inputs', 'histories'], 'any number of children, all data of all sizes, growth of the child table, allocation failure; by induction over operations and over the depth of the tree',
  'the tests build one small tree; removal in the middle, lookup of absent values, data of unequal lengths and allocation failure are not sampled',
  ['tree/tree.c', 'tree/tree.h', 'array/array.c'],
  [('children in a growing pointer array', 'tree/tree.c: harbol_tree_insert_val, harbol_tree_insert_node'), ('recursive freeing', 'tree/tree.c: harbol_tree_clear, harbol_tree_free'), ('removal shifts the pointer array', 'tree/tree.c: harbol_tree_rm_node, harbol_tree_rm_index, harbol_tree_rm_val')],
  [('kids, data, len', 'child pointers, own data and its length', 'tree/tree.h: struct HarbolTree')], ['harbol_tree_get', 'harbol_tree_get_node_by_index', 'harbol_tree_get_node_by_val']),
p('C07', 'Tuple: fields inside the tuple, disjoint, and written and read exactly',
  'Initialising a tuple gives it exactly the fields asked for, each with the size asked for, laid out in order without overlap and inside the tuple\'s memory, or fails and leaves nothing allocated. Accessors return the place of the field with that index and refuse exactly the indexes the tuple does not have; setting a field writes exactly its bytes and nothing else; exporting to a structure copies the whole tuple.',
  ['inputs'], 'all field sizes, packed or not; layout for up to four fields, memory safety for any number; all indexes and values',
  'the tests build a handful of tuples with the sizes of C types; large, zero-sized and many-field tuples are not sampled',
  ['tuple/tuple.c', 'tuple/tuple.h'],
  [('size and offset of each field packed in one word, data block sized by the same walk', 'tuple/tuple.c: harbol_tuple_init'), ('field lookup', 'tuple/tuple.c: harbol_tuple_get, harbol_tuple_set')],
  [('fields, datum, len', 'field table, field data, size of the data', 'tuple/tuple.h: struct HarbolTuple')], ['harbol_tuple_get', 'harbol_tuple_field_size']),
p('C08', 'Variant: owns exactly the value it was last given',
  'After a successful initialisation or set the variant holds a copy of exactly the bytes given, with the size and type tag given; a failed set leaves the value as it was. The stored size never exceeds the memory owned, setting a variant to its own data works, clearing drops the value, and nothing is leaked or freed twice.',
  ['inputs', 'histories'], 'all values and sizes, aliasing of the value with the stored data; any reachable variant', 'the tests store one integer, one float and one string',
  ['variant/variant.c', 'variant/variant.h'], [('reallocate then copy', 'variant/variant.c: harbol_variant_set')],
  [('data, size, tag', 'the value owned, its size, its type', 'variant/variant.h: struct HarbolVariant')], ['harbol_variant_data', 'harbol_variant_size']),
p('A01', 'Arenas: every block handed out is free memory inside the arena',
  'A block granted by the region or double-ended stack allocator lies inside the arena, holds at least the bytes asked for, and does not overlap any block granted before and not reset since, from either end; requests that do not fit are refused and change nothing, and a request is not refused while plenty of room is left. Resetting or resizing gives back exactly the side named, and a refused set-up (also of the heap pool built on a region) reports failure instead of an arena without memory.',
  ['inputs', 'histories'], 'every arena size, every pair of margins, every request size up to SIZE_MAX; by induction over operations',
  'the tests allocate a few small objects; requests near or beyond the room left, and sizes that wrap when rounded up, are not sampled',
  ['allocators/bistack/bistack.c', 'allocators/region/region.c', 'allocators/mempool/mempool.c', 'harbol_common_includes.h'],
  [('rounded size compared with the room between the margins', 'allocators/bistack/bistack.c: harbol_bistack_alloc_front, harbol_bistack_alloc_back'), ('bump downwards', 'allocators/region/region.c: harbol_region_alloc')],
  [('front, back, size', 'margins and size of the double-ended stack', 'allocators/bistack/bistack.h: struct HarbolBiStack'), ('offs, size', 'room left and size of the region', 'allocators/region/region.h: struct HarbolRegion')], ['harbol_bistack_get_margins', 'harbol_region_remaining']),
p('A02', 'Object pool: no block handed out twice, bad frees ignored',
  'The pool hands out a block only if no caller holds it: the block starts at a block boundary inside the pool, is zeroed, and leaves the free list; it refuses exactly when no block is free. Giving a block back makes it available again; a pointer that is NULL, foreign, one past the pool or inside a block changes nothing. The number of free blocks always equals the length of the free list.',
  ['inputs', 'histories'], 'any number of blocks, any order of the free list, object sizes 8 and 24 (and odd requested sizes), all pointers; by induction over operations',
  'the tests allocate and free a few objects in order; other orders, exhausted pools and pointers that are not blocks are not sampled',
  ['allocators/objpool/objpool.c', 'allocators/objpool/objpool.h'],
  [('free list threaded through the free blocks', 'allocators/objpool/objpool.c: harbol_objpool_init, harbol_objpool_alloc, harbol_objpool_free')],
  [('mem, next, free_blocks', 'the blocks, the next free one, how many are free', 'allocators/objpool/objpool.h: struct HarbolObjPool')], ['harbol_objpool_alloc', 'harbol_objpool_free']),
p('H01', 'Common helpers: data duplicated, resized, shifted and read exactly',
  'The helpers every module relies on do exactly what they promise, for all sizes: duplicates are private blocks with the same bytes (and the terminator); resizing keeps the elements that fit and zeroes the ones added, and a refused resize (of one block or of several together) keeps the old blocks; removing elements from one or several parallel arrays moves the later ones up, zeroes the places left and never touches anything else, also when the amount reaches past the end or wraps; text formatted into a new block is complete; a file read into a block is terminated and closed; a choice among strings returns the first one that compared equal. Nothing is read or written out of bounds and nothing is leaked.',
  ['inputs'], 'all sizes, counts, indexes and amounts, allocation failure at every step, file contents of any size; up to three buffers where a list of buffers is taken',
  'the helpers have no tests of their own; partial allocation failure, wrapping amounts and shrinking are not sampled anywhere',
  ['harbol_common_includes.h'],
  [('one or several buffers resized together', 'harbol_common_includes.h: harbol_recalloc, harbol_multi_recalloc, harbol_multi_calloc'), ('shift of the elements behind those removed', 'harbol_common_includes.h: array_shift_up, multi_array_shift_up'), ('text and file buffers', 'harbol_common_includes.h: sprintf_alloc, make_buffer_from_file')],
  (), ['harbol_recalloc', 'array_shift_up', 'dup_data']),
p('H02', 'Integer helpers: powers, logarithms, digit counts, masks and bounds exact',
  'For every argument the integer helpers return the exact value: the next power of two and the word with all lower bits set, base-2 and base-10 logarithms and digit and character counts, a mask of exactly the bytes asked for, the least aligned size at or above a size and the padding that gets there (alignments that are powers of two), and range tests that accept exactly the values between the bounds. The random generator keeps its position inside its state and never indexes outside it.',
  ['inputs'], 'all 64-bit arguments, by cases on the position of the highest bit and on the powers of ten; alignments 1 to 4096',
  'the tests use none of the helpers directly; only arguments near a power of two or ten go wrong',
  ['harbol_common_includes.h', 'mtwister/mtwister.h'],
  [('bit smearing', 'harbol_common_includes.h: bitwise_ceil, next_pow_of_2'), ('logarithm tables', 'harbol_common_includes.h: int_log10'), ('state array refilled when used up', 'mtwister/mtwister.h: MT_GenRand_UInt')],
  (), ['next_pow_of_2', 'int_log2', 'int_log10', 'bytes_bitmask', 'harbol_align_size']),
p('H03', 'Intrusive lists keep every link through insertion and removal',
  'Adding a node at the head, at the tail or after a node of a singly or doubly linked intrusive list yields exactly the old list with that node at that place, and removing a node yields the old list without it: every forward and backward link, the head and the tail name the right node, from the empty list on. The link accessors read and write exactly the link they are named after.',
  ['inputs', 'histories'], 'lists of up to five nodes, every position; the operations touch only the node and its neighbours',
  'the lists have no tests', ['harbol_common_includes.h'],
  [('relinking of neighbours', 'harbol_common_includes.h: harbol_link_add_after, harbol_bilink_add_to_tail, harbol_bilink_remove')],
  [('a, b', 'next and previous node', 'harbol_common_includes.h: struct HarbolBiLink')], ['harbol_link_get_a', 'harbol_bilink_get_b']),
p('L01', 'Lexers stay in the text, stop where promised, and tokens hold the text read',
  'Every scanner and lexer, on every text (empty, ending in the middle of a literal, escape or comment, holding any bytes), reads only the text up to its terminator and always tells the caller a place to go on that lies in the text, never behind its end. Skipping or lexing up to a control character, newline or closing quote stops at that character or at the end of the text, identifiers end at the first character that cannot continue one, and the tokens of identifiers, of text up to a character, of accepted characters and of single-line comments are exactly the characters passed. Blanking a comment leaves the text behind it and its length unchanged. Converting an empty string to a number gives zero without touching memory it does not own.',
  ['inputs'], 'all texts of all lengths, all quotes, end tokens and escape characters; tokens are assumed to grow without running out of memory',
  'the tests lex well-formed snippets; texts that end inside a token, a lone digit, quote or backslash at the end, and stray continuation lines are not sampled, and reading past the terminator is invisible without them',
  ['lex/lex.c', 'lex/lex.h'],
  [('pointer walked up to the terminator', 'lex/lex.c: skip_chars, skip_single_line_comment, lex_c_style_number, lex_c_style_str'), ('escape readers', 'lex/lex.c: lex_hex_escape_char, lex_octal_escape_char, lex_unicode_char'), ('characters appended to the token', 'lex/lex.c: lex_until, lex_c_style_identifier')],
  (), ['*end', 'buf', 'skip_chars_until_newline']),
p('L02', 'UTF-8 and character classes: runes encoded and decoded exactly',
  'Writing a rune appends exactly its UTF-8 form (one to four bytes by its range) and returns its length, refuses what is no rune or does not fit the buffer, and writes nothing outside it. Reading a character yields exactly the rune that well-formed bytes encode and the number of bytes it took, and takes nothing when the text ends before the character does. The length announced by a lead byte, the number of bytes of a rune, and the character classes (decimal, hexadecimal, octal, binary, alphabetic, identifier, white space, valid unicode) are right for every value. Searching runes returns a place that holds the rune. Converting a text or stream to runes and back never leaves its buffers and leaks nothing.',
  ['inputs'], 'all runes, all byte sequences, all buffer lengths; files of any contents',
  'the tests convert a few short literals; boundary runes of each form, truncated characters and lead bytes at the end of a buffer are not sampled',
  ['lex/lex.c', 'lex/lex.h'],
  [('bits split into bytes and put together', 'lex/lex.c: write_utf8_cstr, write_utf8_str, read_utf8, read_utf8_rune'), ('length from the lead byte', 'lex/lex.c: get_utf8_len, rune_byte_len'), ('texts to runes', 'lex/lex.c: utf8_cstr_to_rune, rune_to_utf8_str, utf8_to_rune_iter')],
  (), ['read_utf8', 'write_utf8_cstr', 'is_alphabetic']),
p('M01', 'Diagnostics: lines, labels and notes kept exactly and dropped once shown',
  'Setting up a message span from a text or a file either fails leaving nothing behind or gives one line more than the source has newlines, each line being cut behind the newline before it, and keeps the source text exactly when asked to and the file name exactly for a file. A line is handed out exactly when it exists. Adding a label or a note adds exactly one element with its own text, the span, colour and symbol given, and leaves the source and the other labels and notes alone; a failed addition adds nothing and loses no memory. Merging two spans gives for each bound the outermost one. Showing a message counts it once, drops the labels (and, when there are labels, the notes) shown and frees their texts, never reads a line that does not exist or a text that is missing, and leaves the source alone; clearing frees everything.',
  ['inputs', 'histories'], 'all message spans with any number of lines, labels and notes, with and without texts; all spans (also outside the source and reversed), all subsets of the optional arguments; allocation failure at every step',
  'the test shows one message over one file; missing arguments, spans outside the source, texts without a newline, unreadable files and allocation failures are not sampled, and what is lost in memory is invisible',
  ['msg_span/msg_span.c', 'msg_span/msg_span.h', 'msg_sys/msg_sys.c'],
  [('source cut at its newlines', 'msg_span/msg_span.c: harbol_msg_span_init'), ('labels and notes owned by their arrays', 'msg_span/msg_span.c: harbol_msg_span_add_label, _harbol_msg_span_purge_labels'), ('output of labelled lines', 'msg_span/msg_span.c: harbol_msg_span_emit_to_stream, _output_span')],
  [('src.lines, src.len', 'the lines of the source', 'msg_span/msg_span.h: struct HarbolSrcSpan'), ('labels, notes', 'what is shown with the next message', 'msg_span/msg_span.h: struct HarbolMsgSpan')], ['harbol_msg_span_get_line', 'msg_cnt']),
p('P01', 'Plugins: handle and path owned, events in order, directories walked once',
  'Loading a plugin either fails, with the error recorded and neither a library nor a path kept, or leaves an open library, a copy of its path and the time the file was last written, and then tells the user\'s load function once, with the plugin, the user\'s data and the flag for a first load. Reloading a plugin that has a path tells the unload function while the old library is still open, closes the old library exactly once, opens the library at the recorded path again and tells the load function only when that worked; a plugin without a path is left alone. Clearing tells the unload function before the library is closed, releases everything and leaves an empty plugin. A change is reported exactly when the file can be looked at and its time differs from the recorded one, which is then recorded. Objects are looked up in the loaded library by the given name, or refused when none is loaded, and every error has its own text. Walking a directory calls the user function exactly once for each file with the extension asked for, with its path, name and the user\'s data, looks into each sub-directory that is not hidden, never into the directory itself or the one above, passes over entries that cannot be read without stopping or repeating, closes every directory it opens, and succeeds only if the directory could be opened.',
  ['inputs', 'faults'], 'all plugins (with and without library, path, user functions), all outcomes of opening, looking up, looking at files and allocating; all directories (any number of entries of each sort, names of any length), failures at every step',
  'the test loads two plugins and walks nothing; reloads, unreadable entries, missing directories, time changes and failures of the operating system are not sampled',
  ['plugins/plugins.c', 'plugins/plugins.h', 'plugins/tinydir.h'],
  [('library and path owned together', 'plugins/plugins.c: harbol_plugin_load, harbol_plugin_clear, harbol_plugin_reload'), ('one step per directory entry', 'plugins/plugins.c: _dir_open'), ('paths of entries bounded', 'plugins/tinydir.h: tinydir_readfile')],
  [('dll, path, last_write, err', 'the open library, where it came from, when that was written, the last error', 'plugins/plugins.h: struct HarbolPlugin')], ['harbol_plugin_changed', 'harbol_plugin_get_err']),
p('G01', 'Config values: paths find exactly their value, setting replaces it whole',
  'A dotted path names the value reached by looking its parts up one after the other, the first in the document and each further one in the section found before; a dot behind a backslash belongs to the key. A value is found only if every part but the last is a section, and returned only as the type it has; asking for another type, or for a key that is not there, yields nothing and changes nothing. Setting a value of the same type replaces exactly that value; setting one of another type fails and changes nothing unless conversion was asked for, in which case what the old value owned is released and the new value has the type, size and contents given. When memory runs out a path finds nothing instead of something else, and a value that was to be set keeps its old type and contents. Calculating evaluates exactly the text found, with the caller\'s function (or the default one) and data.',
  ['inputs', 'faults'], 'all documents (every outcome of every look-up), all values, all paths of up to four characters made of letter, dot and backslash and some longer ones, every allocation failure',
  'the tests read a handful of existing keys of one document; missing keys, paths through values, escaped dots, wrong types, conversions and allocation failures are not sampled',
  ['cfg/cfg.c', 'cfg/cfg.h'],
  [('path followed part by part', 'cfg/cfg.c: _get_var'), ('old value released only when the new one is made', 'cfg/cfg.c: harbol_cfg_set_cstr, harbol_cfg_set_float, harbol_cfg_set_int, harbol_cfg_set_bool, harbol_cfg_set_color, harbol_cfg_set_vec4D, harbol_cfg_set_to_null'), ('type compared before the value is used', 'cfg/cfg.c: harbol_cfg_get_section, harbol_cfg_get_cstr, harbol_cfg_get_int')],
  [('tag, data, size', 'type and block of a value', 'variant/variant.h: struct HarbolVariant')], ['harbol_cfg_get_type', 'harbol_cfg_get_str', 'harbol_cfg_get_section']),
p('G02', 'Config documents: written entry by entry, freed with everything they own',
  'Turning a config into text or writing it to a file yields, for every entry in the order of the document and for nothing else, its key between quotes and its value in the form the parser reads: null, true or false, the whole number with all its bits, the number with all its digits\' type, the four parts of a colour or vector in order, the text between quotes, or the section between braces. Neither changes the document; the text is the caller\'s and nothing else stays allocated. Writing empties the file named when it is to be overwritten and keeps what it held otherwise, closes it, and succeeds only if it could be opened. Freeing a config releases every key, value, text and section it owns exactly once and resets the caller\'s pointer; an empty reference is left alone.',
  ['inputs', 'faults'], 'all documents of up to two entries of any kinds with any keys and values (memory safety: any number of entries), nested sections by induction, every allocation failure, files that cannot be opened',
  'the tests print one document and do not compare the text; kinds, order, failures to allocate or to open, and leaks are not sampled',
  ['cfg/cfg.c', 'cfg/cfg.h'],
  [('one case per type', 'cfg/cfg.c: _harbol_cfg_build_file, harbol_cfg_to_str'), ('owned values released by type', 'cfg/cfg.c: _harbol_cfgkey_clear, harbol_cfg_free'), ('file closed', 'cfg/cfg.c: harbol_cfg_build_file')],
  [('keys, datum, len', 'the entries in order', 'map/map.h: struct HarbolMap')], ['harbol_cfg_to_str', 'harbol_cfg_build_file', 'harbol_cfg_free']),
p('G03', 'Config: a document is read as exactly the entries written in it',
  'Parsing a document, from a text or a file, yields a config that holds exactly the entries written, in their order and each in the section it is written in, up to the first place that breaks the grammar. Each entry is put under the key written, with <enum> and <ENUM> replaced everywhere by the running number of its section or of the document and a formula by its value; its type is the one of the value written and its value the one written: text, number (with its sign; decimals as floats), true or false, null, the next iota of its section or IOTA of the document, the name of the file, up to four parts of a colour or vector in their places and zero elsewhere, or a section, whose own numbering starts at 0 and leaves that of the section around it as it was. Formulas see the counters as they stand, the text around them is kept. Includes hold the config of the file named, under its name; a file that cannot be read is left out. Keys already there end the document. Blanks, separators and comments mean nothing. Parsing ends, closes its file, never reads behind the end of the document, and when memory runs out nothing that is not in the config stays allocated.',
  ['inputs', 'faults'], 'about 690 documents given token by token (all kinds of value after all kinds of key, all ordered pairs of common values, nesting to depth three, every malformed or broken-off form, alone and within sections), each for all texts and numbers; every allocation failure (in documents longer than six tokens one at a time)',
  'the tests read one well-formed document and look four values up; counters across sections, malformed and broken-off documents, includes that fail and failures to allocate are not sampled',
  ['cfg/cfg.c', 'cfg/cfg.h'],
  [('grammar of entries', 'cfg/cfg.c: harbol_cfg_parse_key_val, harbol_cfg_parse_section, harbol_cfg_parse_number'), ('names in formulas', 'cfg/cfg.c: _harbol_cfg_math_var_func'), ('file read whole, then parsed', 'cfg/cfg.c: harbol_cfg_parse_file')],
  [('local_iota, local_enum, global_iota, global_enum', 'the running numbers of the section and of the document', 'cfg/cfg.c: HarbolCfgState')], ['harbol_cfg_parse_cstr', 'harbol_cfg_parse_file']),
p('E01', 'Expressions: every operator applied as the grammar says, over exact tokens',
  'The value of an expression is that of its operators applied as the grammar says: sums of products of powers of signed factors, every operator of a level applied in order from the left to the values of the level below, a minus negating and a plus taking the absolute value, brackets of either form having the value of the expression inside, a name having the value (or being the function, applied to the operand behind it) that the caller\'s function answers with, and a number the value of its digits. The caller\'s function is told the name exactly as written, its length and the caller\'s own data. Tokens are exactly the characters of the text at their place, of the type these stand for; only blanks are skipped between them, a name or number never overflows its token, no token starts behind the end of the text, and a text that ends anywhere is never read past its end. The functions and constants known by default are the ones they are named after, and other names are not known.',
  ['inputs'], 'all expressions: every level with every operator up to three in a row, all answers of the caller\'s function; all texts for the tokens; every name known by default and near misses',
  'the tests evaluate seven expressions; operators chained three deep, brackets after functions, unclosed brackets, long names and numbers, and texts that end early are not sampled',
  ['math/math_parser.c', 'math/math_parser.h'],
  [('levels of the grammar', 'math/math_parser.c: harbol_math_parse_add_expr, harbol_math_parse_mul_expr, harbol_math_parse_pow_expr, harbol_math_parse_unary_expr, harbol_math_parse_factor'), ('tokens cut from the text', 'math/math_parser.c: _harbol_math_get_token, _harbol_math_lex_decimal'), ('names known by default', 'math/math_parser.h: harbol_math_check_default_funcs, harbol_math_check_default_vars')],
  [('tok', 'the token in front of the parser', 'math/math_parser.c: struct HarbolMathLexer'), ('idx', 'how far the text is read', 'math/math_parser.c: struct HarbolMathLexer')], ['harbol_math_parse_expr']),
p('N02', 'Memory pool: blocks granted never overlap and freed ones are merged exactly',
  'Blocks granted by the memory pool never overlap each other or a free block, a freed block can be granted again, and neighbours are merged without losing or doubling memory.',
  ['histories'], 'all sequences of allocations, resizes and releases',
  'the tests allocate a dozen blocks in one order',
  ['allocators/mempool/mempool.c', 'allocators/mempool/mempool.h'], [('free list ordered by address', 'allocators/mempool/mempool.c: _harbol_freelist_add, harbol_mempool_free')], (), ['harbol_mempool_mem_remaining'],
  na='the free list is ordered and merged by comparing sizes and addresses held in the blocks themselves: an invariant over all pairs of blocks whose number, sizes and places are runtime quantities. (Two of its tests fail at the pinned commit.) Set-up and clearing are decided in A01.'),
p('N03', 'Config: a document written and read again is the same document',
  'Parsing the text a config was turned into yields a config with the same keys, types and values.',
  ['inputs'], 'all documents without escaped characters in texts',
  'the tests never compare a document with the one read back',
  ['cfg/cfg.c'], [('writer and parser of the same grammar', 'cfg/cfg.c: harbol_cfg_to_str, harbol_cfg_parse_cstr')], (), ['harbol_cfg_to_str', 'harbol_cfg_parse_cstr'],
  na='equality of two documents through formatting and parsing of decimal numbers of any size: the value of a printed number is a runtime quantity the analysis can only name, not compute. What is written for each entry is decided in G02.'),
p('N04', 'Numbers: the value converted from a text is the one the digits stand for',
  'Converting the digits of a number in base 2, 8, 10 or 16 yields the value they stand for, and decimals the nearest value of the type.',
  ['inputs'], 'all numerals of any length',
  'the tests convert a dozen numerals',
  ['lex/lex.c', 'lex/lex.h'], [('digits accumulated', 'lex/lex.c: lex_string_to_int, lex_string_to_float')], (), ['lex_string_to_int'],
  na='the value is a sum over an unbounded number of digits (for decimals with rounding), not expressible by the linear relations and uninterpreted terms of the analysis; part of it is done by the C library. What is read and where it stops is decided in L01.'),
p('N05', 'Hashes and random numbers are well distributed',
  'Hash functions spread keys over the buckets and the random generator passes as uniform.',
  ['inputs', 'histories'], 'all keys, all seeds',
  'tests sample a few values',
  ['harbol_common_includes.h', 'map/map.c'], [('mixing', 'harbol_common_includes.h: array_hash, string_hash, prng64')], (), ['prng64'],
  na='a statistical property of runtime values; no static argument applies. That the state stays in bounds is decided in H02.'),
]
