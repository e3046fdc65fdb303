From e432fb0d3ca3debfabc75c495ab76f3111c596e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:58 +0000
Subject: [PATCH 01/74] fix: harbol_recalloc leaks the old block at old_size 0,
 frees it on a zero-size request and lets the byte count wrap

---
 harbol_common_includes.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/harbol_common_includes.h b/harbol_common_includes.h
index ca3199c..639276c 100644
--- a/harbol_common_includes.h
+++ b/harbol_common_includes.h
@@ -174,8 +174,11 @@
 
 
 static inline void *harbol_recalloc(void *const arr, size_t const new_size, size_t const element_size, size_t const old_size) {
-	if( arr==NULL || old_size==0 ) {
+	if( arr==NULL ) {
 		return calloc(new_size, element_size);
+	} else if( new_size==0 || element_size==0 || new_size > SIZE_MAX / element_size ) {
+		/// the byte count would overflow or `realloc` would release `arr`.
+		return NULL;
 	}
 #ifdef __cplusplus
 	uint8_t *const restrict new_block = reinterpret_cast< decltype(new_block) >(realloc(arr, new_size * element_size));
-- 
2.43.0


From 51b612c6f127ec1d9e00aa13b57a9de501b100f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:58 +0000
Subject: [PATCH 02/74] fix: array_shift_up and multi_array_shift_up accept an
 amount that wraps index + amount

---
 harbol_common_includes.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/harbol_common_includes.h b/harbol_common_includes.h
index 639276c..16ef7e6 100644
--- a/harbol_common_includes.h
+++ b/harbol_common_includes.h
@@ -602,7 +602,7 @@ static inline bool array_shift_up(void *const restrict buf, size_t *const restri
 		j = index
 	;
 	uint8_t *const restrict b = buf;
-	if( i < *len ) {
+	if( amount < *len - index ) {
 		*len -= amount;
 		memmove(&b[j * datasize], &b[i * datasize], (*len - j) * datasize);
 		memset(&b[*len * datasize], 0, amount * datasize);
@@ -630,7 +630,7 @@ static inline bool multi_array_shift_up(size_t *const restrict len, size_t const
 		j = index
 	;
 	
-	if( i < *len ) {
+	if( amount < *len - index ) {
 		*len -= amount;
 		size_t const cur_len = *len;
 		for( size_t n=0; n < n_buffers; n++ ) {
-- 
2.43.0


From 3c27817ef5bb1ca88a382b829ffa26e5e8beb7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:58 +0000
Subject: [PATCH 03/74] fix: resizing an array below its length left the length
 above the capacity, and shrinking could enlarge it

---
 array/array.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/array/array.c b/array/array.c
index e36bf8e..225762e 100644
--- a/array/array.c
+++ b/array/array.c
@@ -17,6 +17,9 @@ static NO_NULL bool harbol_array_resizer(struct HarbolArray *const restrict vec,
 	}
 	vec->table = new_table;
 	vec->cap   = new_size;
+	if( vec->len > new_size ) {
+		vec->len = new_size;
+	}
 	return true;
 }
 
@@ -99,7 +102,11 @@ HARBOL_EXPORT bool harbol_array_shrink(struct HarbolArray *const vec, size_t con
 	}
 	
 	size_t const old_cap = vec->cap;
-	harbol_array_resizer(vec, (exact_fit? vec->len : next_pow_of_2(vec->len)), datasize);
+	size_t const new_cap = exact_fit? vec->len : next_pow_of_2(vec->len);
+	if( new_cap >= old_cap ) {
+		return false;
+	}
+	harbol_array_resizer(vec, new_cap, datasize);
 	return old_cap > vec->cap;
 }
 
-- 
2.43.0


From 46b7297cd085ddce2d49903a5eee771e5b485835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:17 +0000
Subject: [PATCH 04/74] fix: deleting from an empty array at index SIZE_MAX
 wrote before the storage

---
 array/array.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/array/array.c b/array/array.c
index 225762e..2bed47e 100644
--- a/array/array.c
+++ b/array/array.c
@@ -275,7 +275,7 @@ HARBOL_EXPORT size_t harbol_array_index_of(struct HarbolArray const *const vec,
 
 /// deletion funcs.
 HARBOL_EXPORT bool harbol_array_del_by_index(struct HarbolArray *const vec, size_t const index, size_t const datasize) {
-	if( vec->table==NULL ) {
+	if( vec->table==NULL || index >= vec->len ) {
 		return false;
 	} else if( index==vec->len-1 ) {
 		memset(&vec->table[--vec->len * datasize], 0, datasize);
@@ -289,7 +289,7 @@ HARBOL_EXPORT bool harbol_array_del_by_range(struct HarbolArray *const vec, size
 	} else if( index==0 && (index + range >= vec->len) ) {
 		harbol_array_wipe(vec, datasize);
 		return true;
-	} else if( index==vec->len-1 ) {
+	} else if( vec->len > 0 && index==vec->len-1 ) {
 		memset(&vec->table[--vec->len * datasize], 0, datasize);
 		return true;
 	}
-- 
2.43.0


From 424db2e31bdfe47003b5467e42d1edbb2ce1e324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:31 +0000
Subject: [PATCH 05/74] fix: harbol_string_new returned an empty string when
 its text could not be allocated

---
 str/str.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/str/str.c b/str/str.c
index 8953ce6..c8a1c49 100644
--- a/str/str.c
+++ b/str/str.c
@@ -19,7 +19,10 @@ HARBOL_EXPORT struct HarbolString *harbol_string_new(char const cstr[]) {
 	if( str==NULL ) {
 		return NULL;
 	}
-	harbol_string_init(str, cstr);
+	if( !harbol_string_init(str, cstr) && cstr != NULL && cstr[0] != 0 ) {
+		free(str);
+		return NULL;
+	}
 	return str;
 }
 
-- 
2.43.0


From 674181bd0953f7303dfbb84e7bd40667276a05fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:31 +0000
Subject: [PATCH 06/74] fix: harbol_string_add_char_rep wrote out of bounds
 when the new length wraps

---
 str/str.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/str/str.c b/str/str.c
index c8a1c49..39ab32a 100644
--- a/str/str.c
+++ b/str/str.c
@@ -69,7 +69,7 @@ HARBOL_EXPORT bool harbol_string_add_char(struct HarbolString *const str, char c
 }
 
 HARBOL_EXPORT bool harbol_string_add_char_rep(struct HarbolString *const str, char const c, size_t const amount) {
-	if( !_harbol_resize_string(str, str->len + amount) ) {
+	if( amount >= SIZE_MAX - str->len || !_harbol_resize_string(str, str->len + amount) ) {
 		return false;
 	}
 	for( size_t i=0; i < amount; i++ ) {
-- 
2.43.0


From 913cf677f2a01d50964d4c2f149e64c452c1d524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:31 +0000
Subject: [PATCH 07/74] fix: appending a string to itself ran past its end

---
 str/str.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/str/str.c b/str/str.c
index 39ab32a..d99d025 100644
--- a/str/str.c
+++ b/str/str.c
@@ -79,10 +79,12 @@ HARBOL_EXPORT bool harbol_string_add_char_rep(struct HarbolString *const str, ch
 }
 
 HARBOL_EXPORT bool harbol_string_add_str(struct HarbolString *const strA, struct HarbolString const *const strB) {
-	if( strB->cstr==NULL || !_harbol_resize_string(strA, strA->len + strB->len) ) {
+	size_t const lenA = strA->len, lenB = strB->len;
+	if( strB->cstr==NULL || !_harbol_resize_string(strA, lenA + lenB) ) {
 		return false;
 	}
-	strncat(strA->cstr, strB->cstr, strB->len);
+	memcpy(&strA->cstr[lenA], strB->cstr, lenB);
+	strA->cstr[lenA + lenB] = 0;
 	return true;
 }
 
-- 
2.43.0


From ec57639811c272ca89f7520e697df65acdf36895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:31 +0000
Subject: [PATCH 08/74] fix: copying a string that holds a NUL left the copy
 without a terminator

---
 str/str.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/str/str.c b/str/str.c
index d99d025..9e97851 100644
--- a/str/str.c
+++ b/str/str.c
@@ -117,7 +117,7 @@ HARBOL_EXPORT bool harbol_string_copy_str(struct HarbolString *const strA, struc
 	} else if( strB->cstr==NULL || !_harbol_resize_string(strA, strB->len) ) {
 		return false;
 	}
-	strcpy(strA->cstr, strB->cstr);
+	memcpy(strA->cstr, strB->cstr, strB->len + 1);
 	return true;
 }
 
-- 
2.43.0


From eeec203032cabd94bad750dd23678733ef8af7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:31 +0000
Subject: [PATCH 09/74] fix: string formatting resized by a negative count on a
 format error, scanning read an empty string's NULL text, va_end ran in the
 wrong function

---
 str/str.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/str/str.c b/str/str.c
index 9e97851..953d5bf 100644
--- a/str/str.c
+++ b/str/str.c
@@ -145,14 +145,19 @@ HARBOL_EXPORT bool harbol_string_copy_cstr(struct HarbolString *const restrict s
 
 HARBOL_EXPORT int harbol_string_format(struct HarbolString *const restrict str, bool const clear, char const fmt[static 1], ...) {
 	va_list ap; va_start(ap, fmt);
-	return harbol_string_format_va(str, clear, fmt, ap);
+	int const result = harbol_string_format_va(str, clear, fmt, ap);
+	va_end(ap);
+	return result;
 }
 
 HARBOL_EXPORT int harbol_string_format_va(struct HarbolString *const restrict str, bool const clear, char const fmt[static 1], va_list va_l) {
 	va_list st; va_copy(st, va_l);
 	char c = 0;
 	int const size = vsnprintf(&c, 1, fmt, va_l);
-	va_end(va_l);
+	if( size < 0 ) {
+		va_end(st);
+		return -1;
+	}
 	
 	size_t const old_size = clear? 0 : str->len;
 	if( !_harbol_resize_string(str, size + old_size) ) {
@@ -168,14 +173,14 @@ HARBOL_EXPORT int harbol_string_format_va(struct HarbolString *const restrict st
 
 HARBOL_EXPORT int harbol_string_scan(struct HarbolString const *const restrict str, char const fmt[const restrict static 1], ...) {
 	va_list args; va_start(args, fmt);
-	return harbol_string_scan_va(str, fmt, args);
+	int const result = harbol_string_scan_va(str, fmt, args);
+	va_end(args);
+	return result;
 }
 
 
 HARBOL_EXPORT int harbol_string_scan_va(struct HarbolString const *const restrict str, char const fmt[const restrict static 1], va_list args) {
-	int const result = vsscanf(str->cstr, fmt, args);
-	va_end(args);
-	return result;
+	return ( str->cstr==NULL )? EOF : vsscanf(str->cstr, fmt, args);
 }
 
 
-- 
2.43.0


From 1c92c0ade0bdc035ba4446fb559a7bb448a7d49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:31 +0000
Subject: [PATCH 10/74] fix: reading a file into a longer string left the text
 without a terminator

---
 str/str.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/str/str.c b/str/str.c
index 953d5bf..1e3d2dd 100644
--- a/str/str.c
+++ b/str/str.c
@@ -219,6 +219,7 @@ HARBOL_EXPORT bool harbol_string_read_from_file(struct HarbolString *const str,
 		return false;
 	}
 	str->len = fread(str->cstr, sizeof *str->cstr, filesize, file);
+	str->cstr[str->len] = 0;
 	return true;
 }
 
-- 
2.43.0


From 7c00f6f03db64ab044de467ac52f65753a588f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:31 +0000
Subject: [PATCH 11/74] fix: counting an empty substring never ended and
 locating one read past the text

---
 str/str.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/str/str.c b/str/str.c
index 1e3d2dd..346ddf8 100644
--- a/str/str.c
+++ b/str/str.c
@@ -326,6 +326,9 @@ HARBOL_EXPORT size_t harbol_string_count_cstr(struct HarbolString const *const r
 	
 	size_t occurrences = 0;
 	size_t const occ_len = strlen(occurrence);
+	if( occ_len==0 ) {
+		return 0;
+	}
 	char const *pos = strstr(str->cstr, occurrence);
 	while( pos != NULL ) {
 		occurrences++;
@@ -335,7 +338,7 @@ HARBOL_EXPORT size_t harbol_string_count_cstr(struct HarbolString const *const r
 }
 
 HARBOL_EXPORT NO_NULL bool harbol_string_cstr_offsets(struct HarbolString const *const restrict str, char const occurrence[const restrict static 1], size_t offsets[const restrict static 1], size_t const offsets_len) {
-	if( str->cstr==NULL ) {
+	if( str->cstr==NULL || occurrence[0]==0 ) {
 		return false;
 	}
 	
-- 
2.43.0


From 9521128b61fd71ca4ad057c2993f531c1a257bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:31 +0000
Subject: [PATCH 12/74] fix: removing characters left the old length, and
 removing, trimming or searching dereferenced an empty string's NULL text

---
 str/str.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/str/str.c b/str/str.c
index 346ddf8..670767f 100644
--- a/str/str.c
+++ b/str/str.c
@@ -397,6 +397,9 @@ HARBOL_EXPORT bool harbol_string_reverse(struct HarbolString *const str) {
 
 
 HARBOL_EXPORT size_t harbol_string_rm_char(struct HarbolString *const str, char const c) {
+	if( str->cstr==NULL ) {
+		return 0;
+	}
 	size_t j = 0, counts = 0;
 	for( size_t i=0; str->cstr[i] != 0; i++ ) {
 		if( str->cstr[i] != c ) {
@@ -406,21 +409,25 @@ HARBOL_EXPORT size_t harbol_string_rm_char(struct HarbolString *const str, char
 		}
 	}
 	str->cstr[j] = 0;
+	str->len = j;
 	return counts;
 }
 
 
 HARBOL_EXPORT size_t harbol_string_trim_spaces(struct HarbolString *const str) {
+	if( str->cstr==NULL ) {
+		return 0;
+	}
 	size_t j = 0, counts = 0;
 	for( size_t i=0; str->cstr[i] != 0; i++ ) {
 		if( !isspace(str->cstr[i]) ) {
 			str->cstr[j++] = str->cstr[i];
 		} else {
 			counts++;
-			str->len--;
 		}
 	}
 	str->cstr[j] = 0;
+	str->len = j;
 	return counts;
 }
 
@@ -431,7 +438,7 @@ static NO_NULL size_t _find_chr(char const src[const static 1], char const c) {
 }
 
 HARBOL_EXPORT size_t harbol_string_find_char(struct HarbolString const *const str, char const c) {
-	return _find_chr(str->cstr, c);
+	return( str->cstr==NULL )? SIZE_MAX : _find_chr(str->cstr, c);
 }
 
 
-- 
2.43.0


From 8ef521fef357b3b7a717d73b6f6c07a9fe0c3365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:43 +0000
Subject: [PATCH 13/74] fix: replacing fewer substrings than there are replaced
 one too many, past the new buffer, and an allocation failure was not handled

---
 str/str.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/str/str.c b/str/str.c
index 670767f..674d13a 100644
--- a/str/str.c
+++ b/str/str.c
@@ -267,11 +267,16 @@ HARBOL_EXPORT bool harbol_string_replace_cstr(struct HarbolString *const restric
 	
 	size_t const replace_len = strlen(to_replace);
 	size_t const with_len    = strlen(with);
+	if( amount==0 || (with_len > replace_len && amount > (SIZE_MAX/2 - str->len) / (with_len - replace_len)) ) {
+		return false;
+	}
 	struct HarbolString rep_str = {0};
 	
 	size_t offset = _subcstr_diff(&str->cstr[0], to_replace);
 	size_t const len_calc = str->len + (amount * (with_len - replace_len));
-	_harbol_resize_string(&rep_str, len_calc);
+	if( !_harbol_resize_string(&rep_str, len_calc) ) {
+		return false;
+	}
 	size_t rep_len = 0;
 	/// first copy contents up to the first offset.
 	strncpy(&rep_str.cstr[0], &str->cstr[0], offset);
@@ -280,7 +285,7 @@ HARBOL_EXPORT bool harbol_string_replace_cstr(struct HarbolString *const restric
 	
 	strcpy(&rep_str.cstr[rep_len], with);
 	rep_len += with_len;
-	for( size_t i=0; i < amount; i++ ) {
+	for( size_t i=1; i < amount; i++ ) {
 		size_t const saved_offset = offset;
 		size_t const relative_offs = _subcstr_diff(&str->cstr[saved_offset], to_replace);
 		if( relative_offs==SIZE_MAX ) {
-- 
2.43.0


From 6747f8200bd4a4d41873383c65d17bb10948ac63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:43 +0000
Subject: [PATCH 14/74] fix: replacing a range that ends at the last character
 read past the text, and an allocation failure lost the text

---
 str/str.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/str/str.c b/str/str.c
index 674d13a..f9f316a 100644
--- a/str/str.c
+++ b/str/str.c
@@ -452,7 +452,7 @@ HARBOL_EXPORT bool harbol_string_replace_range(struct HarbolString *const restri
 		return false;
 	}
 	
-	if( upper > str->len ) {
+	if( upper >= str->len ) {
 		upper = str->len - 1;
 	}
 	
@@ -461,13 +461,15 @@ HARBOL_EXPORT bool harbol_string_replace_range(struct HarbolString *const restri
 		return false;
 	}
 	
-	char *start = &str->cstr[lower];
-	start[0] = 0;
-	char const *end = &str->cstr[upper];
+	size_t const with_len = strlen(with);
+	size_t const tail_len = str->len - (upper + 1);
 	struct HarbolString s = {0};
-	harbol_string_add_cstr(&s, str->cstr);
-	harbol_string_add_cstr(&s, with);
-	harbol_string_add_cstr(&s, &end[1]);
+	if( !_harbol_resize_string(&s, lower + with_len + tail_len) ) {
+		return false;
+	}
+	memcpy(&s.cstr[0], &str->cstr[0], lower);
+	memcpy(&s.cstr[lower], with, with_len);
+	memcpy(&s.cstr[lower + with_len], &str->cstr[upper + 1], tail_len);
 	harbol_string_clear(str);
 	*str = s;
 	return true;
-- 
2.43.0


From cd8609d9ed8ba3538baf105df787150cf48c9868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:54 +0000
Subject: [PATCH 15/74] fix: inserting a number of zeros that wraps the length
 wrote past the buffer

---
 bytebuffer/bytebuffer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bytebuffer/bytebuffer.c b/bytebuffer/bytebuffer.c
index d31a1b9..ebf8434 100644
--- a/bytebuffer/bytebuffer.c
+++ b/bytebuffer/bytebuffer.c
@@ -112,7 +112,7 @@ HARBOL_EXPORT bool harbol_bytebuffer_insert_obj(struct HarbolByteBuf *const rest
 }
 
 HARBOL_EXPORT bool harbol_bytebuffer_insert_zeros(struct HarbolByteBuf *const buf, size_t const amount) {
-	if( buf->len + amount >= buf->cap && !_harbol_buffer_resize(buf, buf->len + amount) ) {
+	if( amount > SIZE_MAX - buf->len || (buf->len + amount >= buf->cap && !_harbol_buffer_resize(buf, buf->len + amount)) ) {
 		return false;
 	}
 	memset(&buf->table[buf->len], 0, amount);
-- 
2.43.0


From 78cefac6e194ca4a6ffbddf4baf4d6cbe8a5fa80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:54 +0000
Subject: [PATCH 16/74] fix: a file that could not be read completely was
 reported as failed but its bytes were kept

---
 bytebuffer/bytebuffer.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bytebuffer/bytebuffer.c b/bytebuffer/bytebuffer.c
index ebf8434..9e42bbb 100644
--- a/bytebuffer/bytebuffer.c
+++ b/bytebuffer/bytebuffer.c
@@ -155,8 +155,11 @@ HARBOL_EXPORT bool harbol_bytebuffer_insert_from_file(struct HarbolByteBuf *cons
 		return false;
 	}
 	size_t const bytes_read = fread(&buf->table[buf->len], sizeof *buf->table, file_size, file);
+	if( bytes_read != ( size_t )(file_size) ) {
+		return false;
+	}
 	buf->len += bytes_read;
-	return bytes_read==( size_t )(file_size);
+	return true;
 }
 
 HARBOL_EXPORT bool harbol_bytebuffer_append(struct HarbolByteBuf *const bufA, struct HarbolByteBuf const *const bufB) {
-- 
2.43.0


From cd9c5eb8d8c97220782e1ba7b6483947dbaa4569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:34 +0000
Subject: [PATCH 17/74] fix: tuple fields over 16 bits overlapped and were
 written past the tuple, zero-sized fields reset the layout, the packed flag
 and field table failures were lost

---
 tuple/tuple.c | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/tuple/tuple.c b/tuple/tuple.c
index 27e8b70..f38038b 100644
--- a/tuple/tuple.c
+++ b/tuple/tuple.c
@@ -35,34 +35,51 @@ HARBOL_EXPORT bool harbol_tuple_init(struct HarbolTuple *const tuple, size_t con
 		prev_size=0
 	;
 	for( size_t i=0; i < len; i++ ) {
+		/// a field's size and offset are kept in 16 bits each.
+		if( sizes[i] > UINT16_MAX || total_size > UINT16_MAX ) {
+			return false;
+		}
 		total_size += sizes[i];
 		if( packed || len==1 ) {
 			continue;
 		}
 		size_t const offalign = (i+1 < len)? sizes[i+1] : prev_size;
-		total_size = harbol_align_size(total_size, offalign >= ptr_size? ptr_size : offalign);
+		if( offalign > 0 ) {
+			total_size = harbol_align_size(total_size, offalign >= ptr_size? ptr_size : offalign);
+		}
 		prev_size = sizes[i];
 	}
 	
 	/// now do a final size alignment with the largest member.
-	size_t const aligned_total = harbol_align_size(total_size, largest_memb >= ptr_size? ptr_size : largest_memb);
+	size_t const aligned_total = ( largest_memb==0 )? total_size : harbol_align_size(total_size, largest_memb >= ptr_size? ptr_size : largest_memb);
 	tuple->datum = calloc(packed? total_size : aligned_total, sizeof *tuple->datum);
 	if( tuple->datum==NULL ) {
 		return false;
 	}
 	
 	tuple->len = packed? total_size : aligned_total;
-	tuple->fields = harbol_array_make(sizeof(uint32_t), tuple->len, &( bool ){false});
+	tuple->packed = packed;
+	bool fields_made = false;
+	tuple->fields = harbol_array_make(sizeof(uint32_t), len, &fields_made);
+	if( !fields_made ) {
+		harbol_tuple_clear(tuple);
+		return false;
+	}
 	uint32_t offset = 0;
 	for( size_t i=0; i < len; i++ ) {
 		uint32_t const size_pack = (( uint32_t )(sizes[i]) << 16) | offset;
-		harbol_array_insert(&tuple->fields, &size_pack, sizeof size_pack);
+		if( !harbol_array_insert(&tuple->fields, &size_pack, sizeof size_pack) ) {
+			harbol_tuple_clear(tuple);
+			return false;
+		}
 		offset += sizes[i];
 		if( packed || len==1 ) {
 			continue;
 		}
 		size_t const offalign = (i+1<len)? sizes[i+1] : prev_size;
-		offset = harbol_align_size(offset, offalign >= ptr_size? ptr_size : offalign);
+		if( offalign > 0 ) {
+			offset = harbol_align_size(offset, offalign >= ptr_size? ptr_size : offalign);
+		}
 		prev_size = sizes[i];
 	}
 	return true;
-- 
2.43.0


From e02308a21367fc25103dc5e298ce5e1015e9371e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:06 +0000
Subject: [PATCH 18/74] fix: a failed harbol_multi_recalloc freed buffers the
 caller still holds and did not check its own table

---
 harbol_common_includes.h | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/harbol_common_includes.h b/harbol_common_includes.h
index 16ef7e6..6c6f1bd 100644
--- a/harbol_common_includes.h
+++ b/harbol_common_includes.h
@@ -244,25 +244,34 @@ static inline bool harbol_multi_calloc(size_t const size, size_t const n_buffers
 static inline bool harbol_multi_recalloc(size_t const new_size, size_t const old_size, size_t const n_buffers, ...) {
 	va_list ap; va_start(ap, n_buffers);
 	va_list cp; va_copy(cp, ap);
-	bool res = true;
+#ifdef __cplusplus
+	void **bufs = reinterpret_cast< decltype(bufs) >(calloc(n_buffers, sizeof *bufs));
+#else
 	void **bufs = calloc(n_buffers, sizeof *bufs);
-	for( size_t i=0; i < n_buffers; i++ ) {
+#endif
+	bool res = bufs != NULL;
+	/// the old buffers have to survive until every new one is there.
+	for( size_t i=0; res && i < n_buffers; i++ ) {
 		void **buf = va_arg(ap, void**);
 		size_t const elem_size = va_arg(ap, size_t);
-		bufs[i] = harbol_recalloc(*buf, new_size, elem_size, old_size);
-		res &= bufs[i] != NULL;
+		bufs[i] = calloc(new_size, elem_size);
+		if( bufs[i]==NULL ) {
+			res = false;
+		} else if( *buf != NULL ) {
+			memcpy(bufs[i], *buf, (old_size < new_size? old_size : new_size) * elem_size);
+		}
 	}
 	va_end(ap);
 	
 	if( !res ) {
-		for( size_t i=0; i < n_buffers; i++ ) {
+		for( size_t i=0; bufs != NULL && i < n_buffers; i++ ) {
 			free(bufs[i]); bufs[i] = NULL;
 		}
 	} else {
 		for( size_t i=0; i < n_buffers; i++ ) {
 			void **buf = va_arg(cp, void**);
 			va_arg(cp, size_t);
-			*buf = bufs[i];
+			free(*buf); *buf = bufs[i];
 		}
 	}
 	free(bufs); bufs = NULL;
-- 
2.43.0


From e0c5bcf9ee7c21aedf78df9d0808541632f8e2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:40 +0000
Subject: [PATCH 19/74] fix: a deque's first node kept free-list links, failed
 copies were linked in, reset kept the count, and empty or cleared deques were
 indexed out of bounds

---
 deque/deque.c | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/deque/deque.c b/deque/deque.c
index 05177dc..d829c79 100644
--- a/deque/deque.c
+++ b/deque/deque.c
@@ -14,7 +14,10 @@ HARBOL_EXPORT struct HarbolDeque *harbol_deque_new(size_t const init_size) {
 }
 
 HARBOL_EXPORT bool harbol_deque_init(struct HarbolDeque *const deque, size_t const init_size) {
-	if( !harbol_multi_recalloc(init_size, deque->cap, 3,
+	if( init_size==0 ) {
+		deque->head = deque->tail = deque->freed = SIZE_MAX;
+		return true;
+	} else if( !harbol_multi_recalloc(init_size, deque->cap, 3,
 						&deque->nexts, sizeof *deque->nexts,
 						&deque->prevs, sizeof *deque->prevs,
 						&deque->datum, sizeof *deque->datum) ) {
@@ -44,8 +47,12 @@ HARBOL_EXPORT void harbol_deque_reset(struct HarbolDeque *const deque) {
 		deque->prevs[i] = i - 1;
 		deque->nexts[i] = i + 1;
 	}
-	deque->head = deque->tail = deque->nexts[deque->cap - 1] = SIZE_MAX;
-	deque->freed = deque->cap - 1;
+	deque->head = deque->tail = deque->freed = SIZE_MAX;
+	deque->len = 0;
+	if( deque->cap > 0 ) {
+		deque->nexts[deque->cap - 1] = SIZE_MAX;
+		deque->freed = deque->cap - 1;
+	}
 }
 
 HARBOL_EXPORT void harbol_deque_clear(struct HarbolDeque *const deque) {
@@ -54,6 +61,7 @@ HARBOL_EXPORT void harbol_deque_clear(struct HarbolDeque *const deque) {
 	}
 	harbol_multi_cleanup(3, &deque->nexts, &deque->prevs, &deque->datum);
 	*deque = ( struct HarbolDeque ){0};
+	deque->head = deque->tail = deque->freed = SIZE_MAX;
 }
 HARBOL_EXPORT void harbol_deque_free(struct HarbolDeque **const dequeref) {
 	if( *dequeref==NULL ) {
@@ -133,7 +141,7 @@ HARBOL_EXPORT void *harbol_deque_get_data(struct HarbolDeque const *const deque,
 }
 
 HARBOL_EXPORT size_t harbol_deque_prepend(struct HarbolDeque *const restrict deque, void const *const val, size_t const datasize) {
-	if( deque->len >= deque->cap && !_harbol_deque_resize(deque, deque->cap << 1) ) {
+	if( deque->len >= deque->cap && !_harbol_deque_resize(deque, deque->cap==0? 4 : deque->cap << 1) ) {
 		return SIZE_MAX;
 	}
 	
@@ -143,7 +151,11 @@ HARBOL_EXPORT size_t harbol_deque_prepend(struct HarbolDeque *const restrict deq
 	}
 	
 	deque->datum[i] = dup_data(val, datasize);
-	if( deque->head==SIZE_MAX ) {
+	if( deque->datum[i]==NULL ) {
+		_harbol_deque_free_node(deque, i);
+		return SIZE_MAX;
+	} else if( deque->head==SIZE_MAX ) {
+		deque->nexts[i] = deque->prevs[i] = SIZE_MAX;
 		deque->head = deque->tail = i;
 	} else {
 		deque->nexts[i] = deque->head;
@@ -156,7 +168,7 @@ HARBOL_EXPORT size_t harbol_deque_prepend(struct HarbolDeque *const restrict deq
 }
 
 HARBOL_EXPORT size_t harbol_deque_append(struct HarbolDeque *const restrict deque, void const *const val, size_t const datasize) {
-	if( deque->len >= deque->cap && !_harbol_deque_resize(deque, deque->cap << 1) ) {
+	if( deque->len >= deque->cap && !_harbol_deque_resize(deque, deque->cap==0? 4 : deque->cap << 1) ) {
 		return SIZE_MAX;
 	}
 	
@@ -166,7 +178,11 @@ HARBOL_EXPORT size_t harbol_deque_append(struct HarbolDeque *const restrict dequ
 	}
 	
 	deque->datum[i] = dup_data(val, datasize);
-	if( deque->tail==SIZE_MAX ) {
+	if( deque->datum[i]==NULL ) {
+		_harbol_deque_free_node(deque, i);
+		return SIZE_MAX;
+	} else if( deque->tail==SIZE_MAX ) {
+		deque->nexts[i] = deque->prevs[i] = SIZE_MAX;
 		deque->head = deque->tail = i;
 	} else {
 		deque->prevs[i] = deque->tail;
-- 
2.43.0


From 81fde98fd2de046b1223c1d03a415fd48fa3bbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:28 +0000
Subject: [PATCH 20/74] fix: bistack allocations larger than the room left
 wrapped the margins and were granted

---
 allocators/bistack/bistack.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/allocators/bistack/bistack.c b/allocators/bistack/bistack.c
index 32e032a..6626964 100644
--- a/allocators/bistack/bistack.c
+++ b/allocators/bistack/bistack.c
@@ -46,7 +46,7 @@ HARBOL_EXPORT void *harbol_bistack_alloc_front(struct HarbolBiStack *const bistk
 	
 	size_t const aligned_size = harbol_align_size(size, sizeof aligned_size);
 	/// front end arena is too high!
-	if( bistk->front + aligned_size >= bistk->back ) {
+	if( size > bistk->size || aligned_size >= bistk->back - bistk->front ) {
 		return NULL;
 	}
 	size_t const f = bistk->front;
@@ -61,7 +61,7 @@ HARBOL_EXPORT void *harbol_bistack_alloc_back(struct HarbolBiStack *const restri
 	
 	size_t const aligned_size = harbol_align_size(size, sizeof aligned_size);
 	/// back end arena is too low
-	if( bistk->back - aligned_size <= bistk->front ) {
+	if( size > bistk->size || aligned_size >= bistk->back - bistk->front ) {
 		return NULL;
 	}
 	bistk->back -= aligned_size;
-- 
2.43.0


From 078efecfd9eba0dc40f4081cbee8c557a192e8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:36 +0000
Subject: [PATCH 21/74] fix: freeing a pointer at the end or inside of a block
 corrupted the object pool, and an object size that wraps overflowed it

---
 allocators/objpool/objpool.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/allocators/objpool/objpool.c b/allocators/objpool/objpool.c
index d4f4de6..7c88d5a 100644
--- a/allocators/objpool/objpool.c
+++ b/allocators/objpool/objpool.c
@@ -11,6 +11,9 @@ HARBOL_EXPORT NO_NULL bool harbol_objpool_init(struct HarbolObjPool *const objpo
 	}
 	
 	size_t const aligned_objsize = harbol_align_size(objsize, sizeof(size_t));
+	if( aligned_objsize < objsize ) {
+		return false;
+	}
 	objpool->mem = ( uintptr_t )(calloc(len, aligned_objsize));
 	if( objpool->mem==NIL ) {
 		return false;
@@ -81,7 +84,8 @@ HARBOL_EXPORT void *harbol_objpool_alloc(struct HarbolObjPool *const objpool) {
 
 HARBOL_EXPORT void harbol_objpool_free(struct HarbolObjPool *const restrict objpool, void *const restrict ptr) {
 	uintptr_t const p = ( uintptr_t )(ptr);
-	if( ptr==NULL || p < objpool->mem || p > objpool->mem + (objpool->size * objpool->objsize) ) {
+	if( ptr==NULL || p < objpool->mem || p >= objpool->mem + (objpool->size * objpool->objsize)
+			|| (p - objpool->mem) % objpool->objsize != 0 ) {
 		return;
 	}
 	/// when we free our pointer, we recycle the pointer space to store the previous index
-- 
2.43.0


From 238a898f7ffc04f38ff1607ea0e5fcb68c18d5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:59 +0000
Subject: [PATCH 22/74] fix: a mempool whose memory could not be allocated was
 reported as initialised

---
 allocators/mempool/mempool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allocators/mempool/mempool.c b/allocators/mempool/mempool.c
index 21cf32d..cb46aa4 100644
--- a/allocators/mempool/mempool.c
+++ b/allocators/mempool/mempool.c
@@ -165,7 +165,7 @@ HARBOL_EXPORT bool harbol_mempool_init(struct HarbolMemPool *const mempool, size
 		return false;
 	
 	mempool->stack = harbol_region_make(size);
-	return true;
+	return mempool->stack.mem != NULL;
 }
 
 HARBOL_EXPORT struct HarbolMemPool harbol_mempool_make(size_t const size, bool *const res) {
-- 
2.43.0


From 4938ace61d730a3a71055dfcf7dbc3bcf8b228ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:03 +0000
Subject: [PATCH 23/74] fix: map lookups skipped the first bucket after the
 last, capacities that are not a power of two lost entries or never ended,
 empty maps and empty keys were read out of bounds

---
 map/map.c | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/map/map.c b/map/map.c
index 905fcad..ee8d9d6 100644
--- a/map/map.c
+++ b/map/map.c
@@ -63,27 +63,25 @@ HARBOL_EXPORT void harbol_map_free(struct HarbolMap **const map_ref) {
 
 
 HARBOL_EXPORT size_t harbol_map_get_entry_index(struct HarbolMap const *const map, void const *const key, size_t const keylen) {
+	if( map->len==0 ) {
+		return SIZE_MAX;
+	}
+	
 	uint8_t const *const restrict desired_key = key;
 	size_t const hash    = array_hash(desired_key, keylen, map->seed);
-	size_t const mask    = map->cap - 1;
-	size_t const bkt_idx = hash & mask;
+	size_t const bkt_idx = hash % map->cap;
 	size_t const val_idx = map->buckets[bkt_idx];
 	if( val_idx==SIZE_MAX ) {
 		return SIZE_MAX;
-	} else if( map->keys[val_idx][0]==desired_key[0] && map->keylens[val_idx]==keylen && !memcmp(map->keys[val_idx], desired_key, keylen) ) {
+	} else if( map->keylens[val_idx]==keylen && !memcmp(map->keys[val_idx], desired_key, keylen) ) {
 		return val_idx;
 	}
 	
-	for( size_t i = bkt_idx+1; i != bkt_idx; (i = (i+1 >= mask)? ((i+1) & mask) : i+1) ) {
-		/// sometimes the `bkt_idx` is at the mask index. Account for that.
-		if( i > mask ) {
-			continue;
-		}
-		
+	for( size_t i = (bkt_idx+1) % map->cap; i != bkt_idx; i = (i+1) % map->cap ) {
 		size_t const idx = map->buckets[i];
 		if( idx==SIZE_MAX ) {
 			continue;
-		} else if( map->keys[idx][0]==desired_key[0] && map->keylens[idx]==keylen && !memcmp(desired_key, map->keys[idx], keylen) ) {
+		} else if( map->keylens[idx]==keylen && !memcmp(desired_key, map->keys[idx], keylen) ) {
 			return idx;
 		}
 	}
@@ -95,16 +93,15 @@ HARBOL_EXPORT bool harbol_map_has_key(struct HarbolMap const *const map, void co
 }
 
 static bool _harbol_map_insert_entry(struct HarbolMap *const map, size_t const n) {
-	if( map->len >= map->cap ) {
+	if( n >= map->cap ) {
 		return false;
 	}
 	
-	size_t const mask    = map->cap - 1;
-	size_t       bkt_idx = map->hashes[n] & mask;
+	size_t bkt_idx = map->hashes[n] % map->cap;
 	while( map->buckets[bkt_idx] != SIZE_MAX ) {
 		bkt_idx++;
-		if( bkt_idx >= mask ) {
-			bkt_idx &= mask;
+		if( bkt_idx >= map->cap ) {
+			bkt_idx = 0;
 		}
 	}
 	map->buckets[bkt_idx] = n;
@@ -181,8 +178,7 @@ HARBOL_EXPORT size_t harbol_map_idx_val(struct HarbolMap const *const map, void
 	}
 	
 	for( size_t i=0; i < map->len; i++ ) {
-		uint8_t const *const restrict desired_val = val;
-		if( map->datum[i][0]==desired_val[0] && map->datalens[i]==datasize && !memcmp(map->datum[i], val, datasize) ) {
+		if( map->datalens[i]==datasize && !memcmp(map->datum[i], val, datasize) ) {
 			return i;
 		}
 	}
-- 
2.43.0


From c4760dada186ed73696136ca478ec70fdeb856f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:03 +0000
Subject: [PATCH 24/74] fix: rehashing a map below its length dropped entries,
 rehashing an empty map reported failure, and a map without buckets could not
 grow

---
 map/map.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/map/map.c b/map/map.c
index ee8d9d6..b7c9a5e 100644
--- a/map/map.c
+++ b/map/map.c
@@ -109,6 +109,9 @@ static bool _harbol_map_insert_entry(struct HarbolMap *const map, size_t const n
 }
 
 HARBOL_EXPORT bool harbol_map_rehash(struct HarbolMap *const map, size_t const new_size) {
+	if( new_size==0 || new_size < map->len ) {
+		return false;
+	}
 	if( !harbol_multi_recalloc(new_size, map->cap, 6,
 						&map->keys,     sizeof *map->keys,
 						&map->keylens,  sizeof *map->keylens,
@@ -124,15 +127,15 @@ HARBOL_EXPORT bool harbol_map_rehash(struct HarbolMap *const map, size_t const n
 		map->buckets[i] = SIZE_MAX;
 	}
 	
-	bool res = false;
+	bool res = true;
 	for( size_t i=0; i < map->len; i++ ) {
-		res |= _harbol_map_insert_entry(map, i);
+		res &= _harbol_map_insert_entry(map, i);
 	}
 	return res;
 }
 
 HARBOL_EXPORT bool harbol_map_insert(struct HarbolMap *const restrict map, void const *const key, size_t const keylen, void const *const val, size_t const datasize) {
-	if( harbol_map_has_key(map, key, keylen) || (map->len >= map->cap && !harbol_map_rehash(map, map->cap << 1)) ) {
+	if( harbol_map_has_key(map, key, keylen) || (map->len >= map->cap && !harbol_map_rehash(map, (map->cap==0)? 4 : map->cap << 1)) ) {
 		return false;
 	}
 	
-- 
2.43.0


From 85496a9cdade6c4c3cec8b2423d84ea0186456bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:03 +0000
Subject: [PATCH 25/74] fix: setting a map entry kept the length of the old
 value

---
 map/map.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/map/map.c b/map/map.c
index b7c9a5e..09f5889 100644
--- a/map/map.c
+++ b/map/map.c
@@ -218,6 +218,7 @@ HARBOL_EXPORT bool harbol_map_idx_set(struct HarbolMap *const restrict map, size
 	}
 	free(map->datum[index]);
 	map->datum[index] = data;
+	map->datalens[index] = datasize;
 	return true;
 }
 
-- 
2.43.0


From f7057c92f6d30bc1e6b60ec415681ef04a3c7ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:03 +0000
Subject: [PATCH 26/74] fix: removing a map entry left the buckets of the
 entries behind it pointing at the wrong or a missing entry

---
 map/map.c | 33 +++++++++++++++------------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/map/map.c b/map/map.c
index 09f5889..e9820be 100644
--- a/map/map.c
+++ b/map/map.c
@@ -108,6 +108,18 @@ static bool _harbol_map_insert_entry(struct HarbolMap *const map, size_t const n
 	return true;
 }
 
+static bool _harbol_map_fill_buckets(struct HarbolMap *const map) {
+	for( size_t i=0; i < map->cap; i++ ) {
+		map->buckets[i] = SIZE_MAX;
+	}
+	
+	bool res = true;
+	for( size_t i=0; i < map->len; i++ ) {
+		res &= _harbol_map_insert_entry(map, i);
+	}
+	return res;
+}
+
 HARBOL_EXPORT bool harbol_map_rehash(struct HarbolMap *const map, size_t const new_size) {
 	if( new_size==0 || new_size < map->len ) {
 		return false;
@@ -123,15 +135,7 @@ HARBOL_EXPORT bool harbol_map_rehash(struct HarbolMap *const map, size_t const n
 	}
 	
 	map->cap = new_size;
-	for( size_t i=0; i < map->cap; i++ ) {
-		map->buckets[i] = SIZE_MAX;
-	}
-	
-	bool res = true;
-	for( size_t i=0; i < map->len; i++ ) {
-		res &= _harbol_map_insert_entry(map, i);
-	}
-	return res;
+	return _harbol_map_fill_buckets(map);
 }
 
 HARBOL_EXPORT bool harbol_map_insert(struct HarbolMap *const restrict map, void const *const key, size_t const keylen, void const *const val, size_t const datasize) {
@@ -232,23 +236,16 @@ HARBOL_EXPORT bool harbol_map_idx_rm(struct HarbolMap *const map, size_t const n
 		return false;
 	}
 	
-	size_t const mask    = map->cap - 1;
-	size_t const bkt_idx = map->hashes[n] & mask;
-	size_t const val_idx = map->buckets[bkt_idx];
-	if( val_idx==SIZE_MAX ) {
-		return false;
-	}
-	
 	free(map->keys[n]);  map->keys[n]  = NULL;
 	free(map->datum[n]); map->datum[n] = NULL;
 	map->hashes[n] = map->keylens[n] = map->datalens[n] = 0;
-	map->buckets[bkt_idx] = SIZE_MAX;
 	
+	/// every entry after the removed one changes its index.
 	return multi_array_shift_up(&map->len, n, 1, 5,
 			map->keys,     sizeof *map->keys,
 			map->datum,    sizeof *map->datum,
 			map->hashes,   sizeof *map->hashes,
 			map->keylens,  sizeof *map->keylens,
 			map->datalens, sizeof *map->datalens
-	);
+	) && _harbol_map_fill_buckets(map);
 }
\ No newline at end of file
-- 
2.43.0


From 8a6a59107386b7c38baeb1d23929e2d89d35ba57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:46 +0000
Subject: [PATCH 27/74] fix: setting the data of a tree node overflowed the
 old, shorter block

---
 tree/tree.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/tree/tree.c b/tree/tree.c
index ab3546d..aa99b5c 100644
--- a/tree/tree.c
+++ b/tree/tree.c
@@ -59,13 +59,12 @@ HARBOL_EXPORT bool harbol_tree_set(struct HarbolTree *const restrict tree, void
 		return false;
 	}
 	
-	if( tree->data==NULL ) {
-		tree->data = calloc(datasize, sizeof *tree->data);
-		if( tree->data==NULL ) {
-			return false;
-		}
+	uint8_t *const data = dup_data(val, datasize);
+	if( data==NULL ) {
+		return false;
 	}
-	memcpy(tree->data, val, datasize);
+	free(tree->data);
+	tree->data = data;
 	tree->len = datasize;
 	return true;
 }
-- 
2.43.0


From 53d733885332cfb0d8d6caf9c87c2d1581f0117b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:46 +0000
Subject: [PATCH 28/74] fix: finding a tree child by value compared bytes past
 the value given

---
 tree/tree.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tree/tree.c b/tree/tree.c
index aa99b5c..363e52d 100644
--- a/tree/tree.c
+++ b/tree/tree.c
@@ -105,7 +105,7 @@ HARBOL_EXPORT bool harbol_tree_rm_val(struct HarbolTree *const restrict tree, vo
 	}
 	for( size_t i=0; i < tree->kids.len; i++ ) {
 		struct HarbolTree **const child_ref = harbol_array_get(&tree->kids, i, sizeof *child_ref);
-		if( !memcmp((*child_ref)->data, val, (*child_ref)->len) ) {
+		if( (*child_ref)->len==datasize && !memcmp((*child_ref)->data, val, datasize) ) {
 			harbol_tree_free(child_ref);
 			return harbol_array_del_by_index(&tree->kids, i, sizeof *child_ref);
 		}
@@ -124,7 +124,7 @@ HARBOL_EXPORT struct HarbolTree *harbol_tree_get_node_by_val(struct HarbolTree c
 	}
 	for( size_t i=0; i < tree->kids.len; i++ ) {
 		struct HarbolTree **const child_ref = harbol_array_get(&tree->kids, i, sizeof *child_ref);
-		if( !memcmp((*child_ref)->data, val, (*child_ref)->len) ) {
+		if( (*child_ref)->len==datasize && !memcmp((*child_ref)->data, val, datasize) ) {
 			return *child_ref;
 		}
 	}
-- 
2.43.0


From 76c9053d5b0ff7acbb686569272be4792d1076a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:56 +0000
Subject: [PATCH 29/74] fix: text read from a file was not NUL-terminated

---
 harbol_common_includes.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/harbol_common_includes.h b/harbol_common_includes.h
index 6c6f1bd..0980401 100644
--- a/harbol_common_includes.h
+++ b/harbol_common_includes.h
@@ -460,9 +460,9 @@ static inline NO_NULL uint8_t *make_buffer_from_file(FILE *const restrict file,
 	}
 	
 #ifdef __cplusplus
-	uint8_t *restrict stream = reinterpret_cast< decltype(stream) >(calloc(filesize, sizeof *stream));
+	uint8_t *restrict stream = reinterpret_cast< decltype(stream) >(calloc(filesize + 1, sizeof *stream));
 #else
-	uint8_t *restrict stream = calloc(filesize, sizeof *stream);
+	uint8_t *restrict stream = calloc(filesize + 1, sizeof *stream);
 #endif
 	if( stream==NULL ) {
 		*bytes = SIZE_MAX;
-- 
2.43.0


From 58c235c9eab96f1043ed06e006b39cb939fd951e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:56 +0000
Subject: [PATCH 30/74] fix: sprintf_alloc used the size of a failed conversion

---
 harbol_common_includes.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/harbol_common_includes.h b/harbol_common_includes.h
index 0980401..70cbc40 100644
--- a/harbol_common_includes.h
+++ b/harbol_common_includes.h
@@ -552,6 +552,10 @@ static inline NO_NULL char *sprintf_alloc(char const fmt[const restrict static 1
 	char c = 0;
 	int32_t const size = vsnprintf(&c, 1, fmt, ap);
 	va_end(ap);
+	if( size < 0 ) {
+		va_end(st);
+		return NULL;
+	}
 	
 #ifdef __cplusplus
 	char *restrict text = reinterpret_cast< decltype(cpy) >(calloc(size + 2, sizeof *text));
-- 
2.43.0


From 7d1571161fba14337ea21705e0b0f8ffc3ca8432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:56 +0000
Subject: [PATCH 31/74] fix: adding the first node to the tail of a list kept
 its old link

---
 harbol_common_includes.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/harbol_common_includes.h b/harbol_common_includes.h
index 70cbc40..f0398ed 100644
--- a/harbol_common_includes.h
+++ b/harbol_common_includes.h
@@ -1012,6 +1012,7 @@ static inline NO_NULL void harbol_link_add_to_tail(void *const h, void *const n,
 		(*tail)->a = node;
 		*tail = node;
 	} else {
+		node->a = NULL;
 		*head = node;
 		*tail = node;
 	}
-- 
2.43.0


From 7f890af7878e5cd5909c04d93601ff9351eb6d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:56 +0000
Subject: [PATCH 32/74] fix: byte masks of four bytes and more were shifted out
 of an int

---
 harbol_common_includes.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harbol_common_includes.h b/harbol_common_includes.h
index f0398ed..00e9f9f 100644
--- a/harbol_common_includes.h
+++ b/harbol_common_includes.h
@@ -1130,7 +1130,7 @@ static inline NEVER_NULL(1) void harbol_trilink_set_c(void *const p, void *const
 
 
 static inline size_t bytes_bitmask(size_t const bytes) {
-	return (1 << (bytes * CHAR_BIT)) - 1;
+	return bytes >= sizeof(size_t)? SIZE_MAX : (( size_t )(1) << (bytes * CHAR_BIT)) - 1;
 }
 
 #endif /** HARBOL_COMMON_INCLUDES_INCLUDED */
-- 
2.43.0


From ca7bd6e7800350bc454690c3405dd316b5da9673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:56 +0000
Subject: [PATCH 33/74] fix: resizing a string to SIZE_MAX characters wrapped
 to no storage

---
 harbol_common_includes.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/harbol_common_includes.h b/harbol_common_includes.h
index 00e9f9f..e6253db 100644
--- a/harbol_common_includes.h
+++ b/harbol_common_includes.h
@@ -333,6 +333,10 @@ static inline NO_NULL void *harbol_memccpy(void *const restrict dest, void const
 }
 
 static inline uint8_t *harbol_resize_string(uint8_t *const restrict cstr, size_t const bytes, size_t *const restrict len, size_t const new_size) {
+	if( new_size==SIZE_MAX ) {
+		/// no room for the terminator.
+		return NULL;
+	}
 	uint8_t *restrict new_cstr = harbol_recalloc(cstr, new_size + 1, bytes, *len);
 	if( new_cstr==NULL ) {
 		return NULL;
-- 
2.43.0


From 8b3b9e485dd2c027dbbe5ce0cfe06ce0e88ac716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:56 +0000
Subject: [PATCH 34/74] fix: the last entry of a logarithm table was computed
 from a shift by the width of size_t

---
 harbol_common_includes.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harbol_common_includes.h b/harbol_common_includes.h
index e6253db..48808a9 100644
--- a/harbol_common_includes.h
+++ b/harbol_common_includes.h
@@ -862,7 +862,7 @@ static inline NO_NULL size_t make_int_log_tables(size_t const base, size_t (*con
 	
 	/// generate log of N table.
 	for( size_t i=0; i < MAX_LOG_TABLE_SIZE; i++ ) {
-		(*logN_table)[i] = floor( log(1UL << i) / log(base) );
+		(*logN_table)[i] = floor( log(i < MAX_LOG_TABLE_SIZE - 1? 1UL << i : SIZE_MAX) / log(base) );
 	}
 	return num_exp;
 }
-- 
2.43.0


From c193891b0c04db3b7e7049f93fa3b59876823748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:05 +0000
Subject: [PATCH 35/74] fix: single line comment scanners ran past the end of a
 text that ends in a continued line

---
 lex/lex.c | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/lex/lex.c b/lex/lex.c
index c8dc42c..26a66f1 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -111,10 +111,11 @@ HARBOL_EXPORT char const *skip_single_line_comment(char const str[static 1], uin
 	char const *begin = str;
 	while( *begin != 0 && *begin != '\n' ) {
 		if( *begin=='\\' ) {
-			while( *++begin != '\n' );
-			if( *begin=='\n' ) {
-				++*lines;
+			while( *++begin != 0 && *begin != '\n' );
+			if( *begin==0 ) {
+				break;
 			}
+			++*lines;
 		}
 		begin++;
 	}
@@ -138,9 +139,12 @@ HARBOL_EXPORT char *clear_single_line_comment(char str[static 1]) {
 	char *begin = str;
 	while( *begin != 0 && *begin != '\n' ) {
 		if( *begin=='\\' ) {
-			while( *++begin != '\n' );
+			while( *++begin != 0 && *begin != '\n' );
 			memset(str, ' ', begin-str);
-			str = ++begin;
+			if( *begin != 0 ) {
+				++begin;
+			}
+			str = begin;
 		} else {
 			begin++;
 		}
@@ -181,12 +185,13 @@ HARBOL_EXPORT bool lex_single_line_comment(char const str[static 1], char const
 	while( *str != 0 && *str != '\n' ) {
 		if( *str=='\\' ) {
 			harbol_string_add_char(buf, *str);
-			while( *++str != '\n' ) {
+			while( *++str != 0 && *str != '\n' ) {
 				harbol_string_add_char(buf, *str);
 			}
-			if( *str=='\n' ) {
-				++*lines;
+			if( *str==0 ) {
+				break;
 			}
+			++*lines;
 		}
 		harbol_string_add_char(buf, *str++);
 	}
-- 
2.43.0


From 38a652992a83a9a2882d86c181dfe10ffe914df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:05 +0000
Subject: [PATCH 36/74] fix: skip_string_literal, skip_multiquote_string: an
 escape at the end of the text skipped the terminator

---
 lex/lex.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lex/lex.c b/lex/lex.c
index 26a66f1..a1beeb2 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -102,7 +102,7 @@ HARBOL_EXPORT char const *skip_string_literal(char const str[static 1], char con
 	int_fast8_t const quote = *str++;
 	while( *str != 0 && *str != quote ) {
 		int_fast8_t const c = *str;
-		str += ( c==esc )? 2 : 1;
+		str += ( c==esc && str[1] != 0 )? 2 : 1;
 	}
 	return str;
 }
@@ -173,7 +173,7 @@ HARBOL_EXPORT char *clear_multi_line_comment(char str[static 1], char const end_
 HARBOL_EXPORT char const *skip_multiquote_string(char const str[static 1], char const quote[static 1], size_t const quote_len, char const esc) {
 	while( *str != 0 && strncmp(quote, str, quote_len) != 0 ) {
 		int_fast8_t const c = *str;
-		str += ( c==esc )? 2 : 1;
+		str += ( c==esc && str[1] != 0 )? 2 : 1;
 	}
 	if( *str != 0 ) {
 		str += quote_len;
-- 
2.43.0


From 0b616eb40ea377e28ee7f3cd3708dc85b623a4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:05 +0000
Subject: [PATCH 37/74] fix: comment and string scanners read past the end of
 an empty text

---
 lex/lex.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/lex/lex.c b/lex/lex.c
index a1beeb2..1eb3358 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -99,6 +99,9 @@ HARBOL_EXPORT char const *skip_chars_until_newline(char const str[static 1], boo
 }
 
 HARBOL_EXPORT char const *skip_string_literal(char const str[static 1], char const esc) {
+	if( *str==0 ) {
+		return str;
+	}
 	int_fast8_t const quote = *str++;
 	while( *str != 0 && *str != quote ) {
 		int_fast8_t const c = *str;
@@ -122,7 +125,7 @@ HARBOL_EXPORT char const *skip_single_line_comment(char const str[static 1], uin
 	return begin;
 }
 HARBOL_EXPORT char const *skip_multi_line_comment(char const str[static 1], char const end_token[static 1], size_t const end_len, uint32_t *const restrict lines) {
-	char const *begin = str + 1;
+	char const *begin = str + ( *str != 0 );
 	while( *begin != 0 && strncmp(end_token, begin, end_len) != 0 ) {
 		if( *begin=='\n' ) {
 			++*lines;
@@ -154,7 +157,7 @@ HARBOL_EXPORT char *clear_single_line_comment(char str[static 1]) {
 }
 
 HARBOL_EXPORT char *clear_multi_line_comment(char str[static 1], char const end_token[static 1], size_t const end_len) {
-	char *begin = str + 1;
+	char *begin = str + ( *str != 0 );
 	while( *begin != 0 && strncmp(end_token, begin, end_len) != 0 ) {
 		if( *begin=='\n' ) {
 			memset(str, ' ', begin-str);
@@ -200,7 +203,9 @@ HARBOL_EXPORT bool lex_single_line_comment(char const str[static 1], char const
 }
 
 HARBOL_EXPORT bool lex_multi_line_comment(char const str[static 1], char const **const end, char const end_token[static 1], size_t const end_len, struct HarbolString *const restrict buf, uint32_t *const restrict lines) {
-	harbol_string_add_char(buf, *str++);
+	if( *str != 0 ) {
+		harbol_string_add_char(buf, *str++);
+	}
 	while( *str != 0 && strncmp(end_token, str, end_len) != 0 ) {
 		if( *str=='\n' ) {
 			++*lines;
@@ -1399,6 +1404,10 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_number(char const str[static 1]
 
 static NO_NULL enum HarbolLexErrType _lex_str(char const str[static 1], char const **const end, struct HarbolString *const restrict buf, bool const raw) {
 	int result = HarbolLexNoErr;
+	if( *str==0 ) {
+		result = HarbolLexSuddenEoFStr;
+		goto lex_str_err;
+	}
 	for( int_fast8_t const quote = *str++; *str != quote; str++ ) {
 		int_fast8_t const c = *str;
 		if( c==0 ) {
-- 
2.43.0


From 3e08ce181c804c6cc2066664b1c2ae5814bbd3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:05 +0000
Subject: [PATCH 38/74] fix: string lexers: a backslash at the end of the text
 skipped the terminator

---
 lex/lex.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lex/lex.c b/lex/lex.c
index 1eb3358..66385a8 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -1415,6 +1415,10 @@ static NO_NULL enum HarbolLexErrType _lex_str(char const str[static 1], char con
 			goto lex_str_err;
 		} else if( c=='\\' ) {
 			char const esc = *++str;
+			if( esc==0 ) {
+				result = HarbolLexSuddenEoFStr;
+				goto lex_str_err;
+			}
 			if( raw ) {
 				harbol_string_add_char(buf, c);
 				harbol_string_add_char(buf, esc);
-- 
2.43.0


From 8c4337f7a17737aa80bef2da543a2165c4b0e590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:05 +0000
Subject: [PATCH 39/74] fix: number lexers: a lone '0' at the end of the text
 skipped the terminator

---
 lex/lex.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/lex/lex.c b/lex/lex.c
index 66385a8..d6f1cba 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -503,7 +503,9 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_hex(char const str[static 1], ch
 	
 	if( *str != 'x' && *str != 'X' ) {
 		/// missing following `x`.
-		harbol_string_add_char(buf, *str++);
+		if( *str != 0 ) {
+			harbol_string_add_char(buf, *str++);
+		}
 		result = HarbolLexMissingX;
 		goto lex_c_style_hex_err;
 	} else {
@@ -700,7 +702,9 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_hex(char const str[static 1], c
 	}
 	
 	if( *str != 'x' && *str != 'X' ) {
-		harbol_string_add_char(buf, *str++);
+		if( *str != 0 ) {
+			harbol_string_add_char(buf, *str++);
+		}
 		result = HarbolLexMissingX;
 		goto lex_go_style_hex_err;
 	} else {
@@ -899,7 +903,9 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_octal(char const str[static 1],
 	}
 	
 	if( *str != 'o' && *str != 'O' ) {
-		harbol_string_add_char(buf, *str++);
+		if( *str != 0 ) {
+			harbol_string_add_char(buf, *str++);
+		}
 		result = HarbolLexMissingO;
 		goto lex_go_style_octal_err;
 	} else {
@@ -959,7 +965,9 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_binary(char const str[static 1],
 	}
 	
 	if( *str != 'b' && *str != 'B' ) {
-		harbol_string_add_char(buf, *str++);
+		if( *str != 0 ) {
+			harbol_string_add_char(buf, *str++);
+		}
 		result = HarbolLexMissingB;
 		goto lex_c_style_binary_err;
 	} else {
@@ -1052,7 +1060,9 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_binary(char const str[static 1]
 	
 	if( *str != 'b' && *str != 'B' ) {
 		result = HarbolLexMissingB;
-		harbol_string_add_char(buf, *str++);
+		if( *str != 0 ) {
+			harbol_string_add_char(buf, *str++);
+		}
 		goto lex_go_style_binary_err;
 	} else {
 		harbol_string_add_char(buf, *str++);
-- 
2.43.0


From ed2197b593b1768d1e0ccba7500c7eeaafdd9ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:05 +0000
Subject: [PATCH 40/74] fix: lexers: `end` was left unset on some returns

---
 lex/lex.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/lex/lex.c b/lex/lex.c
index d6f1cba..096793f 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -448,7 +448,8 @@ HARBOL_EXPORT int32_t lex_octal_escape_char(char const str[static 1], char const
 		for( ; *str != 0; count++ ) {
 			int_fast8_t const c = *str;
 			if( count > 3 ) {
-				return -1; /// out of range.
+				r = -1; /// out of range.
+				goto exit;
 			} else {
 				switch( c ) {
 					case '0': case '1': case '2': case '3':
@@ -491,6 +492,7 @@ exit:;
 HARBOL_EXPORT enum HarbolLexErrType lex_c_style_hex(char const str[static 1], char const **const end, struct HarbolString *const restrict buf, bool *const restrict is_float) {
 	int result = HarbolLexNoErr;
 	if( *str==0 ) {
+		*end = str;
 		return HarbolLexEoF;
 	} else if( *str != '0' ) {
 		/// missing initial 0.
@@ -692,6 +694,7 @@ lex_c_style_hex_err:;
 HARBOL_EXPORT enum HarbolLexErrType lex_go_style_hex(char const str[static 1], char const **const end, struct HarbolString *const restrict buf, bool *const restrict is_float) {
 	int result = HarbolLexNoErr;
 	if( *str==0 ) {
+		*end = str;
 		return HarbolLexEoF;
 	} else if( *str != '0' ) {
 		harbol_string_add_char(buf, *str++);
@@ -806,6 +809,7 @@ lex_go_style_hex_err:;
 HARBOL_EXPORT enum HarbolLexErrType lex_c_style_octal(char const str[static 1], char const **const end, struct HarbolString *const restrict buf, bool *const restrict is_float) {
 	int result = HarbolLexNoErr;
 	if( *str==0 ) {
+		*end = str;
 		return HarbolLexEoF;
 	} else if( *str != '0' ) {
 		harbol_string_add_char(buf, *str++);
@@ -893,6 +897,7 @@ lex_c_style_octal_err:;
 HARBOL_EXPORT enum HarbolLexErrType lex_go_style_octal(char const str[static 1], char const **const end, struct HarbolString *const restrict buf) {
 	int result = HarbolLexNoErr;
 	if( *str==0 ) {
+		*end = str;
 		return HarbolLexEoF;
 	} else if( *str != '0' ) {
 		harbol_string_add_char(buf, *str++);
@@ -955,6 +960,7 @@ lex_go_style_octal_err:;
 HARBOL_EXPORT enum HarbolLexErrType lex_c_style_binary(char const str[static 1], char const **const end, struct HarbolString *const restrict buf) {
 	int result = HarbolLexNoErr;
 	if( *str==0 ) {
+		*end = str;
 		return HarbolLexEoF;
 	} else if( *str != '0' ) {
 		harbol_string_add_char(buf, *str++);
@@ -1049,6 +1055,7 @@ lex_c_style_binary_err:;
 HARBOL_EXPORT enum HarbolLexErrType lex_go_style_binary(char const str[static 1], char const **const end, struct HarbolString *const restrict buf) {
 	int result = HarbolLexNoErr;
 	if( *str==0 ) {
+		*end = str;
 		return HarbolLexEoF;
 	} else if( *str != '0' ) {
 		harbol_string_add_char(buf, *str++);
@@ -1110,6 +1117,7 @@ lex_go_style_binary_err:;
 HARBOL_EXPORT enum HarbolLexErrType lex_c_style_decimal(char const str[static 1], char const **const end, struct HarbolString *const restrict buf, bool *const restrict is_float) {
 	int result = HarbolLexNoErr;
 	if( *str==0 ) {
+		*end = str;
 		return HarbolLexEoF;
 	}
 	size_t lit_flags = 0;
@@ -1277,6 +1285,7 @@ lex_c_style_decimal_err:;
 HARBOL_EXPORT enum HarbolLexErrType lex_go_style_decimal(char const str[static 1], char const **const end, struct HarbolString *const restrict buf, bool *const restrict is_float) {
 	int result = HarbolLexNoErr;
 	if( *str==0 ) {
+		*end = str;
 		return HarbolLexEoF;
 	}
 	size_t lit_flags = 0;
@@ -1391,6 +1400,7 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_number(char const str[static 1],
 			return lex_c_style_decimal(str, end, buf, is_float);
 		}
 	}
+	*end = str;
 	return HarbolLexNoErr;
 }
 
@@ -1409,6 +1419,7 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_number(char const str[static 1]
 			return lex_go_style_decimal(str, end, buf, is_float);
 		}
 	}
+	*end = str;
 	return HarbolLexNoErr;
 }
 
@@ -1573,6 +1584,7 @@ lex_id_u8_err:
 
 HARBOL_EXPORT bool lex_c_style_identifier(char const str[static 1], char const **const end, struct HarbolString *const restrict buf) {
 	if( !is_alphabetic(*str) ) {
+		*end = str;
 		return false;
 	}
 	while( *str != 0 && is_possible_id(*str) ) {
-- 
2.43.0


From d6aedf245ec5e331f37416abffd0a6948c4029b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:27 +0000
Subject: [PATCH 41/74] fix: lex_multiquote_string doubled every newline

---
 lex/lex.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lex/lex.c b/lex/lex.c
index 096793f..96a3e19 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -231,7 +231,6 @@ HARBOL_EXPORT bool lex_multiquote_string(char const str[static 1], char const **
 		} else if( c=='\n' ) {
 			/// make sure you converted all carriage returns '\r' to '\n'.
 			++*line;
-			harbol_string_add_char(buf, c);
 		}
 		harbol_string_add_char(buf, *str);
 		str++;
-- 
2.43.0


From 7af1c4ef25a7352faf5e206f233bde35eb523ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:27 +0000
Subject: [PATCH 42/74] fix: utf8_to_rune_iter read a truncated character past
 the end of the text

---
 lex/lex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lex/lex.c b/lex/lex.c
index 96a3e19..c5cd2ff 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -403,7 +403,7 @@ HARBOL_EXPORT int32_t utf8_to_rune_iter(char const cstr[const restrict static 1]
 		return -1;
 	}
 	int32_t rune = -1;
-	size_t const bytes_read = read_utf8(&cstr[*idx], cstr_len, &rune);
+	size_t const bytes_read = read_utf8(&cstr[*idx], cstr_len - *idx, &rune);
 	if( bytes_read > 0 ) {
 		*idx += bytes_read;
 	}
-- 
2.43.0


From c4e14ad7e8e56926c132d880e765dd05200bb8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:27 +0000
Subject: [PATCH 43/74] fix: get_str_rune_len jumped over the terminator after
 a truncated character

---
 lex/lex.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lex/lex.c b/lex/lex.c
index c5cd2ff..6f7be94 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -61,7 +61,9 @@ HARBOL_EXPORT size_t get_str_rune_len(char const cstr[const static 1]) {
 	size_t runes = 0;
 	for( size_t i=0; cstr[i] != 0; ) {
 		size_t const read = get_utf8_len(cstr[i]);
-		i += read;
+		for( size_t n=0; n < read && cstr[i] != 0; n++ ) {
+			i++;
+		}
 		runes++;
 	}
 	return runes;
-- 
2.43.0


From 07df7a42668cff261d1e0927e1ee27b08a32d73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:27 +0000
Subject: [PATCH 44/74] fix: converting an empty string to a number
 dereferenced NULL

---
 lex/lex.c | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/lex/lex.c b/lex/lex.c
index 6f7be94..fac1cee 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -1604,12 +1604,24 @@ HARBOL_EXPORT bool lex_until(char const str[static 1], char const **const end, s
 }
 
 HARBOL_EXPORT intmax_t lex_c_string_to_int(struct HarbolString const *const str, char **const end) {
+	if( str->cstr==NULL ) {
+		if( end != NULL ) {
+			*end = NULL;
+		}
+		return 0;
+	}
 	bool const is_binary = !strncmp(str->cstr, "0b", 2) || !strncmp(str->cstr, "0B", 2);
 	size_t const extra = (is_binary)? 2 : 0;
 	return strtoll(&str->cstr[extra], end, is_binary? 2 : 0);
 }
 
 HARBOL_EXPORT intmax_t lex_go_string_to_int(struct HarbolString const *const str, char **const end) {
+	if( str->cstr==NULL ) {
+		if( end != NULL ) {
+			*end = NULL;
+		}
+		return 0;
+	}
 	bool const is_octal  = !strncmp(str->cstr, "0o", 2) || !strncmp(str->cstr, "0O", 2);
 	bool const is_binary = !strncmp(str->cstr, "0b", 2) || !strncmp(str->cstr, "0B", 2);
 	size_t const extra = (is_octal || is_binary)? 2 : 0;
@@ -1618,12 +1630,24 @@ HARBOL_EXPORT intmax_t lex_go_string_to_int(struct HarbolString const *const str
 
 
 HARBOL_EXPORT uintmax_t lex_c_string_to_uint(struct HarbolString const *const str, char **const end) {
+	if( str->cstr==NULL ) {
+		if( end != NULL ) {
+			*end = NULL;
+		}
+		return 0;
+	}
 	bool const is_binary = !strncmp(str->cstr, "0b", 2) || !strncmp(str->cstr, "0B", 2);
 	size_t const extra = (is_binary)? 2 : 0;
 	return strtoull(&str->cstr[extra], end, is_binary? 2 : 0);
 }
 
 HARBOL_EXPORT uintmax_t lex_go_string_to_uint(struct HarbolString const *const str, char **const end) {
+	if( str->cstr==NULL ) {
+		if( end != NULL ) {
+			*end = NULL;
+		}
+		return 0;
+	}
 	bool const is_octal  = !strncmp(str->cstr, "0o", 2) || !strncmp(str->cstr, "0O", 2);
 	bool const is_binary = !strncmp(str->cstr, "0b", 2) || !strncmp(str->cstr, "0B", 2);
 	size_t const extra = (is_octal || is_binary)? 2 : 0;
@@ -1631,6 +1655,9 @@ HARBOL_EXPORT uintmax_t lex_go_string_to_uint(struct HarbolString const *const s
 }
 
 HARBOL_EXPORT floatmax_t lex_string_to_float(struct HarbolString const *const str) {
+	if( str->cstr==NULL ) {
+		return 0;
+	}
 	bool const is_hex = !strncmp(str->cstr, "0x", 2) || !strncmp(str->cstr, "0X", 2);
 	floatmax_t f = 0;
 	harbol_string_scan(str, is_hex? "%" SCNxfMAX "" : "%" SCNfMAX "", &f);
-- 
2.43.0


From 7f3e8a60cb83d15bb600a271fa911496468ec053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:27 +0000
Subject: [PATCH 45/74] fix: decimal lexers dropped a sign that follows a
 suffix or digit separator

---
 lex/lex.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lex/lex.c b/lex/lex.c
index fac1cee..b4e42fb 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -1163,6 +1163,8 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_decimal(char const str[static 1]
 						lit_flags |= math_op;
 						harbol_string_add_char(buf, chr);
 					}
+				} else {
+					goto lex_c_style_decimal_err;
 				}
 				break;
 			case 'F': case 'f':
@@ -1327,6 +1329,8 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_decimal(char const str[static 1
 						lit_flags |= math_op;
 						harbol_string_add_char(buf, chr);
 					}
+				} else {
+					goto lex_go_style_decimal_err;
 				}
 				break;
 			case 'E': case 'e':
-- 
2.43.0


From 56632eaedeb95b7574e9c11fbc98383cc639a388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:27 +0000
Subject: [PATCH 46/74] fix: convert_runes_to_base_int was declared but defined
 under another name

---
 lex/lex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lex/lex.c b/lex/lex.c
index b4e42fb..f6a33d3 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -1699,7 +1699,7 @@ HARBOL_EXPORT void lex_fix_newlines(struct HarbolString *const str, bool const r
 }
 
  
-HARBOL_EXPORT intmax_t convert_runes_to_base(
+HARBOL_EXPORT intmax_t convert_runes_to_base_int(
 	int32_t const        runes[const restrict static 1],
 	uint_fast8_t const   base,
 	int32_t const        numerals[const restrict static 1],
-- 
2.43.0


From 41c684b079398f279b9649b352365c9fcb1d939f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:27 +0000
Subject: [PATCH 47/74] fix: write_utf8_str reported success when the string
 could not grow

---
 lex/lex.c | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/lex/lex.c b/lex/lex.c
index f6a33d3..f1c5b71 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -292,23 +292,19 @@ HARBOL_EXPORT bool write_utf8_str(struct HarbolString *const str, int32_t const
 	size_t const byte_len = rune_byte_len(rune);
 	switch( byte_len ) {
 		case 1:
-			harbol_string_add_char(str, rune);
-			return true;
+			return harbol_string_add_char(str, rune);
 		case 2:
-			harbol_string_add_char(str, 0xC0 | (rune >> 6));
-			harbol_string_add_char(str, 0x80 | (rune & 0x3F));
-			return true;
+			return harbol_string_add_char(str, 0xC0 | (rune >> 6))
+			    && harbol_string_add_char(str, 0x80 | (rune & 0x3F));
 		case 3:
-			harbol_string_add_char(str, 0xE0 | (rune >> 12));
-			harbol_string_add_char(str, 0x80 | ((rune >> 6) & 0x3F));
-			harbol_string_add_char(str, 0x80 | (rune & 0x3F));
-			return true;
+			return harbol_string_add_char(str, 0xE0 | (rune >> 12))
+			    && harbol_string_add_char(str, 0x80 | ((rune >> 6) & 0x3F))
+			    && harbol_string_add_char(str, 0x80 | (rune & 0x3F));
 		case 4:
-			harbol_string_add_char(str, 0xF0 | (rune >> 18));
-			harbol_string_add_char(str, 0x80 | ((rune >> 12) & 0x3F));
-			harbol_string_add_char(str, 0x80 | ((rune >> 6) & 0x3F));
-			harbol_string_add_char(str, 0x80 | (rune & 0x3F));
-			return true;
+			return harbol_string_add_char(str, 0xF0 | (rune >> 18))
+			    && harbol_string_add_char(str, 0x80 | ((rune >> 12) & 0x3F))
+			    && harbol_string_add_char(str, 0x80 | ((rune >> 6) & 0x3F))
+			    && harbol_string_add_char(str, 0x80 | (rune & 0x3F));
 		default:
 			return false;
 	}
-- 
2.43.0


From dc667040664c86ad25ba67c31d85b9f25750508e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:28 +0000
Subject: [PATCH 48/74] fix: utf8_str_to_rune dereferenced the NULL text of an
 empty string

---
 lex/lex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lex/lex.c b/lex/lex.c
index f1c5b71..5a8cde9 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -376,7 +376,7 @@ HARBOL_EXPORT int32_t *utf8_cstr_to_rune(char const cstr[const restrict static 1
 }
 
 HARBOL_EXPORT int32_t *utf8_str_to_rune(struct HarbolString const *const str, size_t *const rune_len) {
-	return utf8_cstr_to_rune(str->cstr, str->len, rune_len);
+	return utf8_cstr_to_rune(str->cstr==NULL? "" : str->cstr, str->len, rune_len);
 }
 
 HARBOL_EXPORT char *rune_to_utf8_cstr(int32_t const runes[static 1], size_t *const cstr_len) {
-- 
2.43.0


From 52dddb9d3a3b11a64386121bcfaa87cc825a315d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:09 +0000
Subject: [PATCH 49/74] fix: message spans: a source without a newline lost its
 first character, an unreadable source was dereferenced, and failed copies
 were not reported; clearing kept the line count

---
 msg_span/msg_span.c | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/msg_span/msg_span.c b/msg_span/msg_span.c
index 21fbc8e..ce0d55a 100644
--- a/msg_span/msg_span.c
+++ b/msg_span/msg_span.c
@@ -25,20 +25,17 @@ HARBOL_EXPORT struct HarbolMsgSpan harbol_msg_span_make(char const cstr[const re
 }
 
 HARBOL_EXPORT bool harbol_msg_span_init(struct HarbolMsgSpan *const restrict msgspan, char const cstr[const restrict static 1], bool const is_filename, bool const free_src_str) {
-	(( is_filename )? harbol_string_read_file : harbol_string_copy_cstr)(&msgspan->src.code, cstr);
-	if( is_filename ) {
-		harbol_string_copy_cstr(&msgspan->src.filename, cstr);
+	if( !(( is_filename )? harbol_string_read_file : harbol_string_copy_cstr)(&msgspan->src.code, cstr)
+			|| (is_filename && !harbol_string_copy_cstr(&msgspan->src.filename, cstr)) ) {
+		harbol_msg_span_clear(msgspan);
+		return false;
 	}
 	lex_fix_newlines(&msgspan->src.code, true);
 	
-	size_t newlines = harbol_string_count_cstr(&msgspan->src.code, "\n");
-	if( newlines==0 ) {
-		newlines = 1;
-	}
-	
-	size_t *newline_offs = calloc(newlines, sizeof *newline_offs);
+	size_t const newlines = harbol_string_count_cstr(&msgspan->src.code, "\n");
+	size_t *newline_offs = calloc(newlines + 1, sizeof *newline_offs);
 	if( newline_offs==NULL ) {
-		harbol_string_clear(&msgspan->src.code);
+		harbol_msg_span_clear(msgspan);
 		return false;
 	}
 	
@@ -50,18 +47,22 @@ HARBOL_EXPORT bool harbol_msg_span_init(struct HarbolMsgSpan *const restrict msg
 	
 	msgspan->src.lines = calloc(newlines + 1, sizeof *msgspan->src.lines);
 	if( msgspan->src.lines==NULL ) {
-		harbol_string_clear(&msgspan->src.code);
+		harbol_msg_span_clear(msgspan);
 		free(newline_offs); newline_offs = NULL;
 		return false;
 	}
 	
 	msgspan->src.len = newlines + 1;
-	harbol_string_copy_cstr(&msgspan->src.lines[0], msgspan->src.code.cstr);
-	for( size_t i=1; i < newlines; i++ ) {
-		size_t const offs = newline_offs[i-1] + 1;
-		harbol_string_copy_cstr(&msgspan->src.lines[i], &msgspan->src.code.cstr[offs]);
+	bool copied = harbol_string_copy_cstr(&msgspan->src.lines[0], msgspan->src.code.cstr);
+	for( size_t i=0; copied && i < newlines; i++ ) {
+		size_t const offs = newline_offs[i] + 1;
+		copied = harbol_string_copy_cstr(&msgspan->src.lines[i + 1], &msgspan->src.code.cstr[offs]);
+	}
+	if( !copied ) {
+		harbol_msg_span_clear(msgspan);
+		free(newline_offs); newline_offs = NULL;
+		return false;
 	}
-	harbol_string_copy_cstr(&msgspan->src.lines[newlines], &msgspan->src.code.cstr[newline_offs[newlines-1] + 1]);
 	if( free_src_str ) {
 		harbol_string_clear(&msgspan->src.code);
 	}
@@ -101,6 +102,7 @@ HARBOL_EXPORT void harbol_msg_span_clear(struct HarbolMsgSpan *const msgspan) {
 		harbol_string_clear(&msgspan->src.lines[i]);
 	}
 	free(msgspan->src.lines); msgspan->src.lines = NULL;
+	msgspan->src.len = 0;
 	_harbol_msg_span_purge_labels(msgspan, true);
 	_harbol_msg_span_purge_notes(msgspan, true);
 }
-- 
2.43.0


From 8378615440d86f6321267ffb43bb5d4cbd7cc004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:09 +0000
Subject: [PATCH 50/74] fix: message spans: the source text that was kept ended
 at its first newline

---
 msg_span/msg_span.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/msg_span/msg_span.c b/msg_span/msg_span.c
index ce0d55a..b5f43ca 100644
--- a/msg_span/msg_span.c
+++ b/msg_span/msg_span.c
@@ -65,6 +65,10 @@ HARBOL_EXPORT bool harbol_msg_span_init(struct HarbolMsgSpan *const restrict msg
 	}
 	if( free_src_str ) {
 		harbol_string_clear(&msgspan->src.code);
+	} else {
+		for( size_t i=0; i < newlines; i++ ) {
+			msgspan->src.code.cstr[newline_offs[i]] = '\n';
+		}
 	}
 	free(newline_offs); newline_offs = NULL;
 	return true;
-- 
2.43.0


From 083be98a21c7714acbf570d473373799ed8981d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:09 +0000
Subject: [PATCH 51/74] fix: message spans: argument lists were never ended

---
 msg_span/msg_span.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/msg_span/msg_span.c b/msg_span/msg_span.c
index b5f43ca..5b8b8f3 100644
--- a/msg_span/msg_span.c
+++ b/msg_span/msg_span.c
@@ -141,6 +141,7 @@ HARBOL_EXPORT bool harbol_msg_span_add_label(struct HarbolMsgSpan *const restric
 		harbol_string_add_cstr(&label.msg, msg_color);
 	}
 	int const format_res = harbol_string_format_va(&label.msg, false, msg, ap);
+	va_end(ap);
 	if( msg_color != NULL ) {
 		harbol_string_add_cstr(&label.msg, COLOR_RESET);
 	}
@@ -163,6 +164,7 @@ HARBOL_EXPORT bool harbol_msg_span_add_note(struct HarbolMsgSpan *const restrict
 		harbol_string_add_cstr(&note, msg_color);
 	}
 	int const format_res = harbol_string_format_va(&note, false, msg, ap);
+	va_end(ap);
 	if( msg_color != NULL ) {
 		harbol_string_add_cstr(&note, COLOR_RESET);
 	}
@@ -222,6 +224,7 @@ HARBOL_EXPORT void harbol_msg_span_emit_to_stream(
 	}
 	va_list args; va_start(args, msg_fmt);
 	vfprintf(stream, msg_fmt, args);
+	va_end(args);
 	_print_file_margins(stream, filename, file_line, file_col);
 	
 	if( msg_cnt != NULL ) {
-- 
2.43.0


From 6bc96bd0eabc928479916e6346fdd80e8ac55f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:09 +0000
Subject: [PATCH 52/74] fix: message spans: a label outside the source
 dereferenced a missing line, one whose columns are reversed drew billions of
 marks, and empty texts were printed through NULL

---
 msg_span/msg_span.c | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/msg_span/msg_span.c b/msg_span/msg_span.c
index 5b8b8f3..e8cfc1f 100644
--- a/msg_span/msg_span.c
+++ b/msg_span/msg_span.c
@@ -190,12 +190,23 @@ static NEVER_NULL(1) void _print_file_margins(FILE *const restrict stream, char
 }
 
 
+/// an empty string, or one that could not be allocated, has no text.
+static NO_NULL char const *_text_of(struct HarbolString const *const str) {
+	return str->cstr==NULL? "" : str->cstr;
+}
+
 static NO_NULL void _output_span(struct HarbolMsgSpan const *const msgspan, struct HarbolTokenSpan const span, size_t const len, FILE *const stream) {
-	for( uint32_t line = span.line_start; line <= span.line_end; line++ ) {
+	for( size_t line = span.line_start; line <= span.line_end; line++ ) {
+		if( line==0 ) {
+			continue; /// lines are counted from one.
+		}
+		struct HarbolString const *code_line = harbol_msg_span_get_line(msgspan, line-1);
+		if( code_line==NULL ) {
+			break;
+		}
 		struct HarbolString line_num_pad = {0};
 		harbol_string_add_char_rep(&line_num_pad, ' ', len - base_10_digits(line));
-		struct HarbolString const *code_line = harbol_msg_span_get_line(msgspan, line-1);
-		fprintf(stream, "%u%s|%s\n", line, line_num_pad.cstr, code_line->cstr);
+		fprintf(stream, "%zu%s|%s\n", line, _text_of(&line_num_pad), _text_of(code_line));
 		harbol_string_clear(&line_num_pad);
 	}
 }
@@ -244,7 +255,7 @@ HARBOL_EXPORT void harbol_msg_span_emit_to_stream(
 		/// Using log10 + 1 gives us how many digits a decimal value has.
 		struct HarbolString span_pad = {0};
 		harbol_string_add_char_rep(&span_pad, ' ', (base_10_digits(largest_span) + 1));
-		fprintf(stream, "%s|\n", span_pad.cstr);
+		fprintf(stream, "%s|\n", _text_of(&span_pad));
 		
 		for( size_t i=0; i < msgspan->labels.len; i++ ) {
 			struct HarbolTokenSpan const span = labels[i].span;
@@ -255,22 +266,22 @@ HARBOL_EXPORT void harbol_msg_span_emit_to_stream(
 			/// here we emit the label msgs.
 			struct HarbolString colm_pad={0}, hilighter={0};
 			harbol_string_add_char_rep(&colm_pad, ' ', span.colm_start);
-			for( size_t n=0; n < (span.colm_end - span.colm_start); n++ ) {
+			for( size_t n=span.colm_start; n < span.colm_end; n++ ) {
 				write_utf8_str(&hilighter, labels[i].sym);
 			}
 			
 			char const *const restrict sym_color = labels[i].sym_color;
-			fprintf(stream, "%s|%s%s%s%s %s\n", span_pad.cstr, colm_pad.cstr, sym_color==NULL? "" : sym_color, hilighter.cstr, COLOR_RESET, labels[i].msg.cstr);
+			fprintf(stream, "%s|%s%s%s%s %s\n", _text_of(&span_pad), _text_of(&colm_pad), sym_color==NULL? "" : sym_color, _text_of(&hilighter), COLOR_RESET, _text_of(&labels[i].msg));
 			harbol_string_clear(&colm_pad);
 			harbol_string_clear(&hilighter);
 		}
 		_harbol_msg_span_purge_labels(msgspan, false);
 		
 		if( msgspan->notes.len > 0 ) {
-			fprintf(stream, "%s|\n", span_pad.cstr);
+			fprintf(stream, "%s|\n", _text_of(&span_pad));
 			struct HarbolString const *notes = ( struct HarbolString const* )(msgspan->notes.table);
 			for( size_t i=0; i < msgspan->notes.len; i++ ) {
-				fprintf(stream, "%s%s\n", span_pad.cstr, notes[i].cstr);
+				fprintf(stream, "%s%s\n", _text_of(&span_pad), _text_of(&notes[i]));
 			}
 			_harbol_msg_span_purge_notes(msgspan, false);
 		}
-- 
2.43.0


From 8f901ebb9d97bf6394973410d2439805739db995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:09 +0000
Subject: [PATCH 53/74] fix: harbol_write_msg printed a message type that may
 be NULL

---
 msg_sys/msg_sys.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msg_sys/msg_sys.c b/msg_sys/msg_sys.c
index 103b7f4..88668d7 100644
--- a/msg_sys/msg_sys.c
+++ b/msg_sys/msg_sys.c
@@ -21,7 +21,7 @@ static NEVER_NULL(1) void _print_file_margins(FILE *const restrict file, char co
 HARBOL_EXPORT void harbol_write_msg(size_t *const restrict msg_cnt, FILE *const restrict stream, char const filename[const restrict], char const msgtype[const restrict], char const msg_color[const restrict], uint32_t const *const line, uint32_t const *const col, char const msg_fmt[const restrict static 1], ...) {
 	va_list args; va_start(args, msg_fmt);
 	_print_file_margins(stream, filename, line, col);
-	fprintf(stream, "%s%s%s: **** ", msg_color, msgtype, COLOR_RESET);
+	fprintf(stream, "%s%s%s: **** ", msg_color, msgtype==NULL? "" : msgtype, COLOR_RESET);
 	vfprintf(stream, msg_fmt, args);
 	fprintf(stream, " ****\n");
 	va_end(args);
-- 
2.43.0


From a25bdb364202b074cd963e41f7ecb5b78ed67841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:58 +0000
Subject: [PATCH 54/74] fix: math lexer: numbers and names no longer fill the
 lexeme buffer past its terminator

---
 math/math_parser.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/math/math_parser.c b/math/math_parser.c
index fd733da..86a25d8 100644
--- a/math/math_parser.c
+++ b/math/math_parser.c
@@ -44,13 +44,16 @@ static NO_NULL bool _harbol_math_lex_decimal(struct HarbolMathLexer *const restr
 		switch( expression[ls->idx] ) {
 			case '0': case '1': case '2': case '3': case '4':
 			case '5': case '6': case '7': case '8': case '9': {
+				if( ls->tok.size+1 >= LEXEME_SIZE ) {
+					return false;
+				}
 				ls->tok.lexeme[ls->tok.size] = expression[ls->idx];
 				ls->tok.size++;
 				ls->idx++;
 				break;
 			}
 			case '.': {
-				if( has_dot ) {
+				if( has_dot || ls->tok.size+1 >= LEXEME_SIZE ) {
 					//LogError("ConfigMap-Math :: extra dot in decimal literal");
 					return false;
 				}
@@ -61,8 +64,6 @@ static NO_NULL bool _harbol_math_lex_decimal(struct HarbolMathLexer *const restr
 				break;
 			}
 			default: {
-				ls->tok.lexeme[ls->tok.size] = expression[ls->idx];
-				ls->tok.size++;
 				//LogError("ConfigMap-Math :: invalid decimal literal: '%s'", ls->tok.lexeme);
 				return false;
 			}
@@ -158,7 +159,7 @@ static NO_NULL bool _harbol_math_get_token(struct HarbolMathLexer *const restric
 			}
 			default: {
 				bool got_something = false;
-				while( expression[ls->idx] != 0 && isalnum(expression[ls->idx]) && ls->tok.size < LEXEME_SIZE ) {
+				while( expression[ls->idx] != 0 && isalnum(expression[ls->idx]) && ls->tok.size+1 < LEXEME_SIZE ) {
 					ls->tok.lexeme[ls->tok.size] = expression[ls->idx];
 					ls->idx++;
 					ls->tok.size++;
-- 
2.43.0


From ee661c76ba4caf8c351a44fd10398aae910c3053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:58 +0000
Subject: [PATCH 55/74] fix: math parser: the value of an invalid factor is set
 as a whole

---
 math/math_parser.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/math/math_parser.c b/math/math_parser.c
index 86a25d8..e90e2af 100644
--- a/math/math_parser.c
+++ b/math/math_parser.c
@@ -257,9 +257,10 @@ floatmax_t harbol_math_parse_unary_expr(struct HarbolMathLexer *const restrict l
 /// Factor = number | ident | func ( '(' | '[' )? UnaryExpr , PowExpr | '(' Expr ')' | '[' Expr ']' .
 floatmax_t harbol_math_parse_factor(struct HarbolMathLexer *const restrict ls, char const expression[const restrict static 1]) {
 	union {
-		uintmax_t  u;
+		uint8_t    u[sizeof(floatmax_t)];
 		floatmax_t f;
-	} value = { UINTMAX_MAX };
+	} value;
+	memset(&value, UINT8_MAX, sizeof value);
 	switch( ls->tok.tag ) {
 		case TokenNum: {
 			floatmax_t const f = ls->tok.val;
-- 
2.43.0


From 7548f86380b737232e452775ffaacb9029a4a454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:59 +0000
Subject: [PATCH 56/74] fix: a source with an empty line could not be set up

---
 msg_span/msg_span.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/msg_span/msg_span.c b/msg_span/msg_span.c
index e8cfc1f..2977c4b 100644
--- a/msg_span/msg_span.c
+++ b/msg_span/msg_span.c
@@ -53,10 +53,11 @@ HARBOL_EXPORT bool harbol_msg_span_init(struct HarbolMsgSpan *const restrict msg
 	}
 	
 	msgspan->src.len = newlines + 1;
-	bool copied = harbol_string_copy_cstr(&msgspan->src.lines[0], msgspan->src.code.cstr);
+	/// an empty line has no text to copy.
+	bool copied = msgspan->src.code.cstr[0]==0 || harbol_string_copy_cstr(&msgspan->src.lines[0], msgspan->src.code.cstr);
 	for( size_t i=0; copied && i < newlines; i++ ) {
-		size_t const offs = newline_offs[i] + 1;
-		copied = harbol_string_copy_cstr(&msgspan->src.lines[i + 1], &msgspan->src.code.cstr[offs]);
+		char const *const line = &msgspan->src.code.cstr[newline_offs[i] + 1];
+		copied = line[0]==0 || harbol_string_copy_cstr(&msgspan->src.lines[i + 1], line);
 	}
 	if( !copied ) {
 		harbol_msg_span_clear(msgspan);
-- 
2.43.0


From 152fb535ee982170909ff15ba24005bcf988d552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:37 +0000
Subject: [PATCH 57/74] fix: walking a plugin directory never ended at an entry
 that cannot be read

---
 plugins/plugins.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugins/plugins.c b/plugins/plugins.c
index 868a5f5..00ad764 100644
--- a/plugins/plugins.c
+++ b/plugins/plugins.c
@@ -118,7 +118,7 @@ static NEVER_NULL(1) void _dir_open(tinydir_dir *const restrict dir, HarbolPlugi
 	while( dir->has_next ) {
 		tinydir_file *file = &( tinydir_file ){0};
 		if( tinydir_readfile(dir, file) < 0 ) {
-			continue;
+			goto dir_iter_loop;
 		} else if( file->is_dir ) {
 			if( file->name[0]=='.' ) {
 				/// advance if parent dir dot.
-- 
2.43.0


From 225648251f25bc024c77209e944e90483951d740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:37 +0000
Subject: [PATCH 58/74] fix: harbol_plugin_dir_open reported success for a
 directory it could not open

---
 plugins/plugins.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/plugins/plugins.c b/plugins/plugins.c
index 00ad764..4a7af36 100644
--- a/plugins/plugins.c
+++ b/plugins/plugins.c
@@ -159,6 +159,8 @@ HARBOL_EXPORT bool harbol_plugin_dir_open(char const dir[static 1], HarbolPlugin
 		if( tinydir_open(dir_handle, pl_dir) < 0 ) {
 			fprintf(stderr, "Harbol Plugin Directory Error: **** unable to open dir: '%s' ****\n", pl_dir);
 			tinydir_close(dir_handle);
+			free(pl_dir); pl_dir = NULL;
+			return false;
 		} else {
 			_dir_open(dir_handle, dir_fn, userdata, custom_ext==NULL? LIB_EXT : custom_ext);
 		}
-- 
2.43.0


From 38546acfd7d2ace6191b617a5b14fa23311f790a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:37 +0000
Subject: [PATCH 59/74] fix: a plugin whose path could not be copied was
 reported as loaded

---
 plugins/plugins.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/plugins/plugins.c b/plugins/plugins.c
index 4a7af36..8da8b9b 100644
--- a/plugins/plugins.c
+++ b/plugins/plugins.c
@@ -13,6 +13,11 @@ HARBOL_EXPORT bool harbol_plugin_load(struct HarbolPlugin *const restrict pl, ch
 	}
 	
 	pl->path = dup_cstr(strlen(path), path);
+	if( pl->path==NULL ) {
+		MODULE_CLOSE(pl->dll); pl->dll = NULL;
+		pl->err = HarbolPluginErrBadPath;
+		return false;
+	}
 	struct stat result;
 	if( !stat(path, &result) ) {
 		pl->last_write = result.st_mtime;
-- 
2.43.0


From 2d05ac0639d0bdfd675673acc2a63484b2ef9ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:07 +0000
Subject: [PATCH 60/74] fix: converting a config value lost the old value and
 reported success when out of memory

---
 cfg/cfg.c | 43 +++++++++++++++++++++++--------------------
 1 file changed, 23 insertions(+), 20 deletions(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index 69ddaa3..62f293f 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -727,6 +727,17 @@ HARBOL_EXPORT enum HarbolCfgType harbol_cfg_get_type(struct HarbolMap const *con
 	return( var==NULL )? HarbolCfgType_Invalid : var->tag;
 }
 
+/// gives a value another type, the value is kept as it was if that fails.
+static NO_NULL bool _harbol_cfg_convert(struct HarbolVariant *const var, void const *const val, size_t const datasize, enum HarbolCfgType const type) {
+	bool res = false;
+	struct HarbolVariant const new_var = harbol_variant_make(val, datasize, type, &res);
+	if( res ) {
+		_harbol_cfgkey_clear(var);
+		*var = new_var;
+	}
+	return res;
+}
+
 HARBOL_EXPORT bool harbol_cfg_set_str(struct HarbolMap *const restrict cfgmap, char const keypath[restrict static 1], struct HarbolString const str, bool const override_convert) {
 	return harbol_cfg_set_cstr(cfgmap, keypath, str.cstr, override_convert);
 }
@@ -737,9 +748,13 @@ HARBOL_EXPORT bool harbol_cfg_set_cstr(struct HarbolMap *const restrict cfgmap,
 		return false;
 	} else if( var->tag != HarbolCfgType_String ) {
 		if( override_convert ) {
-			_harbol_cfgkey_clear(var);
 			struct HarbolString *str = harbol_string_new(cstr);
-			*var = harbol_variant_make(&str, sizeof str, HarbolCfgType_String, &( bool ){0});
+			if( str==NULL ) {
+				return false;
+			} else if( !_harbol_cfg_convert(var, &str, sizeof str, HarbolCfgType_String) ) {
+				harbol_string_free(&str);
+				return false;
+			}
 			return true;
 		}
 		return false;
@@ -754,9 +769,7 @@ HARBOL_EXPORT bool harbol_cfg_set_float(struct HarbolMap *const restrict cfgmap,
 		return false;
 	} else if( var->tag != HarbolCfgType_Float ) {
 		if( override_convert ) {
-			_harbol_cfgkey_clear(var);
-			*var = harbol_variant_make(&val, sizeof val, HarbolCfgType_Float, &( bool ){0});
-			return true;
+			return _harbol_cfg_convert(var, &val, sizeof val, HarbolCfgType_Float);
 		}
 		return false;
 	}
@@ -770,9 +783,7 @@ HARBOL_EXPORT bool harbol_cfg_set_int(struct HarbolMap *const restrict cfgmap, c
 		return false;
 	} else if( var->tag != HarbolCfgType_Int ) {
 		if( override_convert ) {
-			_harbol_cfgkey_clear(var);
-			*var = harbol_variant_make(&val, sizeof val, HarbolCfgType_Int, &( bool ){0});
-			return true;
+			return _harbol_cfg_convert(var, &val, sizeof val, HarbolCfgType_Int);
 		}
 		return false;
 	}
@@ -786,9 +797,7 @@ HARBOL_EXPORT bool harbol_cfg_set_bool(struct HarbolMap *const restrict cfgmap,
 		return false;
 	} else if( var->tag != HarbolCfgType_Bool ) {
 		if( override_convert ) {
-			_harbol_cfgkey_clear(var);
-			*var = harbol_variant_make(&val, sizeof val, HarbolCfgType_Bool, &( bool ){0});
-			return true;
+			return _harbol_cfg_convert(var, &val, sizeof val, HarbolCfgType_Bool);
 		}
 		return false;
 	}
@@ -802,9 +811,7 @@ HARBOL_EXPORT bool harbol_cfg_set_color(struct HarbolMap *const restrict cfgmap,
 		return false;
 	} else if( var->tag != HarbolCfgType_Color ) {
 		if( override_convert ) {
-			_harbol_cfgkey_clear(var);
-			*var = harbol_variant_make(&val, sizeof val, HarbolCfgType_Color, &( bool ){0});
-			return true;
+			return _harbol_cfg_convert(var, &val, sizeof val, HarbolCfgType_Color);
 		}
 		return false;
 	}
@@ -818,9 +825,7 @@ HARBOL_EXPORT bool harbol_cfg_set_vec4D(struct HarbolMap *const restrict cfgmap,
 		return false;
 	} else if( var->tag != HarbolCfgType_Vec4D ) {
 		if( override_convert ) {
-			_harbol_cfgkey_clear(var);
-			*var = harbol_variant_make(&val, sizeof val, HarbolCfgType_Vec4D, &( bool ){0});
-			return true;
+			return _harbol_cfg_convert(var, &val, sizeof val, HarbolCfgType_Vec4D);
 		}
 		return false;
 	}
@@ -835,9 +840,7 @@ HARBOL_EXPORT bool harbol_cfg_set_to_null(struct HarbolMap *const restrict cfgma
 		return false;
 	}
 	
-	_harbol_cfgkey_clear(var);
-	*var = harbol_variant_make(&( char ){0}, 1, HarbolCfgType_Null, &( bool ){0});
-	return true;
+	return _harbol_cfg_convert(var, &( char ){0}, 1, HarbolCfgType_Null);
 }
 
 static NO_NULL void _write_tabs(FILE *const file, size_t const tabs) {
-- 
2.43.0


From 070aac094df6e9a37fdc2a21b168b9c52aeabc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:07 +0000
Subject: [PATCH 61/74] fix: harbol_cfg_set_cstr kept the old text when set to
 the empty text or out of memory

---
 cfg/cfg.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index 62f293f..c7a30f0 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -739,7 +739,7 @@ static NO_NULL bool _harbol_cfg_convert(struct HarbolVariant *const var, void co
 }
 
 HARBOL_EXPORT bool harbol_cfg_set_str(struct HarbolMap *const restrict cfgmap, char const keypath[restrict static 1], struct HarbolString const str, bool const override_convert) {
-	return harbol_cfg_set_cstr(cfgmap, keypath, str.cstr, override_convert);
+	return harbol_cfg_set_cstr(cfgmap, keypath, str.cstr==NULL? "" : str.cstr, override_convert);
 }
 
 HARBOL_EXPORT bool harbol_cfg_set_cstr(struct HarbolMap *const restrict cfgmap, char const key[static 1], char const cstr[static 1], bool const override_convert) {
@@ -759,8 +759,12 @@ HARBOL_EXPORT bool harbol_cfg_set_cstr(struct HarbolMap *const restrict cfgmap,
 		}
 		return false;
 	}
-	harbol_string_copy_cstr(*( struct HarbolString** )(var->data), cstr);
-	return true;
+	struct HarbolString *const str = *( struct HarbolString** )(var->data);
+	if( cstr[0]==0 ) {
+		harbol_string_clear(str);
+		return true;
+	}
+	return harbol_string_copy_cstr(str, cstr);
 }
 
 HARBOL_EXPORT bool harbol_cfg_set_float(struct HarbolMap *const restrict cfgmap, char const key[static 1], floatmax_t const val, bool const override_convert) {
-- 
2.43.0


From 79e31143e40d61ec048c28ef554196d8bcb38973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:07 +0000
Subject: [PATCH 62/74] fix: config key paths stopped at a section named like
 their target and went through values that are no sections

---
 cfg/cfg.c | 46 +++++++---------------------------------------
 1 file changed, 7 insertions(+), 39 deletions(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index c7a30f0..836d477 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -596,34 +596,6 @@ HARBOL_EXPORT struct HarbolString harbol_cfg_to_str(struct HarbolMap const *cons
 	return cfg_str;
 }
 
-static NO_NULL bool harbol_cfg_parse_target_path(char const key[static 1], struct HarbolString *const restrict str) {
-	/// parse something like: "root.section1.section2.section3.\\.dotsection"
-	char const *iter = key;
-	iter += strlen(key) - 1;
-	while( iter != key ) {
-		if( *iter=='.' ) {
-			if( iter[-1]=='\\' ) {
-				iter--;
-			} else {
-				iter++;
-				break;
-			}
-		} else {
-			iter--;
-		}
-	}
-	
-	/// now we save the target section and then use the resulting string.
-	while( *iter != 0 ) {
-		if( *iter=='\\' ) {
-			iter++;
-			continue;
-		}
-		harbol_string_add_char(str, *iter++);
-	}
-	return str->len > 0;
-}
-
 static NO_NULL struct HarbolVariant *_get_var(struct HarbolMap const *const cfgmap, char const key[const]) {
 	/// first check if we're getting a singular value OR we iterate through a sectional path.
 	char const *dot = strchr(key, '.');
@@ -635,14 +607,8 @@ static NO_NULL struct HarbolVariant *_get_var(struct HarbolMap const *const cfgm
 	}
 	
 	/// ok, not a singular value, iterate to the specific map section then.
-	/// parse the target key first.
 	char const *iter = key;
-	struct HarbolString
-		sectionstr = {0},
-		targetstr = {0}
-	;
-	
-	harbol_cfg_parse_target_path(key, &targetstr);
+	struct HarbolString sectionstr = {0};
 	struct HarbolMap const *itermap = cfgmap;
 	struct HarbolVariant *restrict var = NULL;
 	while( itermap != NULL ) {
@@ -663,14 +629,16 @@ static NO_NULL struct HarbolVariant *_get_var(struct HarbolMap const *const cfgm
 			break;
 		}
 		var = harbol_map_key_get(itermap, sectionstr.cstr, sectionstr.len+1);
-		if( var==NULL || !harbol_string_cmpstr(&sectionstr, &targetstr) ) {
+		if( var==NULL || *iter==0 ) {
+			break;
+		} else if( var->tag != HarbolCfgType_Map ) {
+			/// path goes on but this isn't a section.
+			var = NULL;
 			break;
-		} else if( var->tag==HarbolCfgType_Map ) {
-			itermap = *( struct HarbolMap const** )(var->data);
 		}
+		itermap = *( struct HarbolMap const** )(var->data);
 	}
 	harbol_string_clear(&sectionstr);
-	harbol_string_clear(&targetstr);
 	return var;
 }
 
-- 
2.43.0


From 4bbdd1f84d06630da68c5e1d851fd20364dbb176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:07 +0000
Subject: [PATCH 63/74] fix: a config key path lost characters when out of
 memory and found another key

---
 cfg/cfg.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index 836d477..91e09e2 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -613,19 +613,23 @@ static NO_NULL struct HarbolVariant *_get_var(struct HarbolMap const *const cfgm
 	struct HarbolVariant *restrict var = NULL;
 	while( itermap != NULL ) {
 		harbol_string_clear(&sectionstr);
+		bool complete = true;
 		/// Patch: allow keys to use dot without interfering with dot path.
 		while( *iter != 0 ) {
 			if( *iter=='\\' && iter[1] != 0 && iter[1]=='.' ) {
 				iter++;
-				harbol_string_add_char(&sectionstr, *iter++);
+				complete = harbol_string_add_char(&sectionstr, *iter++) && complete;
 			} else if( *iter=='.' ) {
 				iter++;
 				break;
 			} else {
-				harbol_string_add_char(&sectionstr, *iter++);
+				complete = harbol_string_add_char(&sectionstr, *iter++) && complete;
 			}
 		}
-		if( harbol_string_empty(&sectionstr) ) {
+		if( !complete ) {
+			var = NULL;
+			break;
+		} else if( harbol_string_empty(&sectionstr) ) {
 			break;
 		}
 		var = harbol_map_key_get(itermap, sectionstr.cstr, sectionstr.len+1);
-- 
2.43.0


From 191d58b34ff540ebaf6961f4f0908d73423aea9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:07 +0000
Subject: [PATCH 64/74] fix: harbol_cfg_calc_math read an empty text through
 NULL

---
 cfg/cfg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index 91e09e2..4968817 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -871,7 +871,7 @@ HARBOL_EXPORT bool harbol_cfg_build_file(struct HarbolMap const *const cfg, char
 
 HARBOL_EXPORT floatmax_t harbol_cfg_calc_math(struct HarbolMap const *const restrict cfg, char const key[const restrict static 1], HarbolMathVarFunc *const var_func, void *const restrict data, size_t const data_len) {
 	struct HarbolString *const restrict str = harbol_cfg_get_str(cfg, key);
-	if( str==NULL ) {
+	if( str==NULL || str->cstr==NULL ) {
 		union {
 			uintmax_t const  u;
 			floatmax_t const f;
-- 
2.43.0


From 8aa2c156235ccca5e1cfa0b0d8d6b20de82ce255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:07 +0000
Subject: [PATCH 65/74] fix: empty texts of a config were written through NULL

---
 cfg/cfg.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index 4968817..5ae0265 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -574,7 +574,7 @@ HARBOL_EXPORT struct HarbolString harbol_cfg_to_str(struct HarbolMap const *cons
 				break;
 			}
 			case HarbolCfgType_String:
-				harbol_string_format(str, false, "\"%s\"\n", (*cv.str)->cstr);
+				harbol_string_format(str, false, "\"%s\"\n", (*cv.str)->cstr==NULL? "" : (*cv.str)->cstr);
 				break;
 			case HarbolCfgType_Float:
 				harbol_string_format(str, false, "%" PRIfMAX "\n", *cv.f);
@@ -844,7 +844,7 @@ static NO_NULL bool _harbol_cfg_build_file(struct HarbolMap const *const map, FI
 				fputs("}\n", file);
 				break;
 			
-			case HarbolCfgType_String: fprintf(file, "\"%s\"\n", (*cv.str)->cstr);       break;
+			case HarbolCfgType_String: fprintf(file, "\"%s\"\n", (*cv.str)->cstr==NULL? "" : (*cv.str)->cstr);       break;
 			case HarbolCfgType_Float:  fprintf(file, "%" PRIfMAX "\n", *cv.f);           break;
 			case HarbolCfgType_Int:    fprintf(file, "%" PRIiMAX "\n", *cv.i);           break;
 			case HarbolCfgType_Bool:   fprintf(file, "%s\n", (*cv.b)? "true" : "false"); break;
-- 
2.43.0


From 5707f0e4c0e4548cbd90d3cb485647e28e7ff034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:07 +0000
Subject: [PATCH 66/74] fix: harbol_cfg_to_str kept the indentation in a static
 variable shared between calls

---
 cfg/cfg.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index 5ae0265..aa2a8c8 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -547,8 +547,7 @@ static NO_NULL void _concat_tabs(struct HarbolString *const str, size_t const ta
 	}
 }
 
-HARBOL_EXPORT struct HarbolString harbol_cfg_to_str(struct HarbolMap const *const map) {
-	static size_t tabs = 0;
+static NO_NULL struct HarbolString _harbol_cfg_to_str(struct HarbolMap const *const map, size_t const tabs) {
 	struct HarbolString cfg_str = harbol_string_make(NULL, &( bool ){false});
 	struct HarbolString *str = &cfg_str;
 	for( size_t i=0; i < map->len; i++ ) {
@@ -563,13 +562,12 @@ HARBOL_EXPORT struct HarbolString harbol_cfg_to_str(struct HarbolMap const *cons
 				break;
 			case HarbolCfgType_Map: {
 				harbol_string_add_cstr(str, "{\n");
-				tabs++;
-				struct HarbolString inner_str = harbol_cfg_to_str(*cv.section);
+				struct HarbolString inner_str = _harbol_cfg_to_str(*cv.section, tabs + 1);
 				if( !harbol_string_empty(&inner_str) ) {
 					harbol_string_add_str(str, &inner_str);
 				}
 				harbol_string_clear(&inner_str);
-				_concat_tabs(str, --tabs);
+				_concat_tabs(str, tabs);
 				harbol_string_add_cstr(str, "}\n");
 				break;
 			}
@@ -596,6 +594,10 @@ HARBOL_EXPORT struct HarbolString harbol_cfg_to_str(struct HarbolMap const *cons
 	return cfg_str;
 }
 
+HARBOL_EXPORT struct HarbolString harbol_cfg_to_str(struct HarbolMap const *const map) {
+	return _harbol_cfg_to_str(map, 0);
+}
+
 static NO_NULL struct HarbolVariant *_get_var(struct HarbolMap const *const cfgmap, char const key[const]) {
 	/// first check if we're getting a singular value OR we iterate through a sectional path.
 	char const *dot = strchr(key, '.');
-- 
2.43.0


From 007402fca70dffd66ceea01065a243992820039f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:50 +0000
Subject: [PATCH 67/74] fix: config values that could not be inserted were
 leaked and a string value was reported as read

---
 cfg/cfg.c | 66 +++++++++++++++++++++++++++++++------------------------
 1 file changed, 37 insertions(+), 29 deletions(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index aa2a8c8..a6c6af3 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -138,6 +138,17 @@ static NO_NULL floatmax_t _harbol_cfg_parse_inline_math(struct HarbolString *con
 	return result;
 }
 
+/// puts a value under a key, if that fails nothing of the value is kept.
+static NO_NULL bool _harbol_cfg_insert(struct HarbolMap *const map, struct HarbolString const *const key, void const *const val, size_t const datasize, enum HarbolCfgType const type) {
+	bool res = false;
+	struct HarbolVariant var = harbol_variant_make(val, datasize, type, &res);
+	if( res && !harbol_map_insert(map, key->cstr, key->len+1, &var, sizeof var) ) {
+		harbol_variant_clear(&var);
+		res = false;
+	}
+	return res;
+}
+
 static inline bool _cfgmath_end_and_newline(int32_t const c) {
 	return c != '>' && c != '\n';
 }
@@ -194,8 +205,10 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 			harbol_string_clear(&file_path);
 			return true;
 		} else {
-			struct HarbolVariant var = harbol_variant_make(&included_cfg, sizeof included_cfg, HarbolCfgType_Map, &( bool ){0});
-			bool const inclusion_res = harbol_map_insert(map, file_path.cstr, file_path.len+1, &var, sizeof var);
+			bool const inclusion_res = _harbol_cfg_insert(map, &file_path, &included_cfg, sizeof included_cfg, HarbolCfgType_Map);
+			if( !inclusion_res ) {
+				harbol_cfg_free(&included_cfg);
+			}
 			harbol_string_clear(&file_path);
 			return inclusion_res;
 		}
@@ -237,12 +250,10 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 		}
 		
 		res = harbol_cfg_parse_section(subsection, cfgcoderef, parse_state);
-		struct HarbolVariant var = harbol_variant_make(&subsection, sizeof subsection, HarbolCfgType_Map, &( bool ){0});
-		if( !harbol_map_insert(map, keystr.cstr, keystr.len+1, &var, sizeof var) ) {
+		if( !_harbol_cfg_insert(map, &keystr, &subsection, sizeof subsection, HarbolCfgType_Map) ) {
 			harbol_write_msg(NULL, stderr, parse_state->cfg_filename, "memory warning", COLOR_MAGENTA, &parse_state->curr_line, NULL, "Harbol Config Parser :: some how failed to insert subsection for key '%s', destroying...\n", keystr.cstr);
 			harbol_cfg_free(&subsection);
-			harbol_string_clear(&keystr);
-			harbol_variant_clear(&var);
+			res = false;
 		}
 		parse_state->local_iota = old_iota;
 		parse_state->local_enum = old_enum;
@@ -276,9 +287,10 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 			harbol_string_replace_range(str, math_marker - str->cstr, ( size_t )(math_end - str->cstr), number);
 			free(number); number = NULL;
 		}
-		struct HarbolVariant var = harbol_variant_make(&str, sizeof str, HarbolCfgType_String, &( bool ){0});
-		harbol_map_insert(map, keystr.cstr, keystr.len+1, &var, sizeof var);
-		res = true;
+		res = _harbol_cfg_insert(map, &keystr, &str, sizeof str, HarbolCfgType_String);
+		if( !res ) {
+			harbol_string_free(&str);
+		}
 	} else if( **cfgcoderef=='c' || **cfgcoderef=='v' ) {
 		/// color or vector value!
 		char const valtype = *(*cfgcoderef)++;
@@ -330,10 +342,9 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 		}
 		(*cfgcoderef)++;
 		
-		struct HarbolVariant var = (valtype=='c')?
-			  harbol_variant_make(&matrix_value.color, sizeof matrix_value.color, HarbolCfgType_Color, &( bool ){0})
-			: harbol_variant_make(&matrix_value.vec4d, sizeof matrix_value.vec4d, HarbolCfgType_Vec4D, &( bool ){0});
-		res = harbol_map_insert(map, keystr.cstr, keystr.len+1, &var, sizeof var);
+		res = (valtype=='c')?
+			  _harbol_cfg_insert(map, &keystr, &matrix_value.color, sizeof matrix_value.color, HarbolCfgType_Color)
+			: _harbol_cfg_insert(map, &keystr, &matrix_value.vec4d, sizeof matrix_value.vec4d, HarbolCfgType_Vec4D);
 	} else if( **cfgcoderef=='t' ) {
 		/// true bool value.
 		if( strncmp("true", *cfgcoderef, sizeof("true")-1) ) {
@@ -342,8 +353,7 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 			return false;
 		}
 		*cfgcoderef += sizeof("true") - 1;
-		struct HarbolVariant var = harbol_variant_make(&( bool ){true}, sizeof(bool), HarbolCfgType_Bool, &( bool ){0});
-		res = harbol_map_insert(map, keystr.cstr, keystr.len+1, &var, sizeof var);
+		res = _harbol_cfg_insert(map, &keystr, &( bool ){true}, sizeof(bool), HarbolCfgType_Bool);
 	} else if( **cfgcoderef=='f' ) {
 		/// false bool value
 		if( strncmp("false", *cfgcoderef, sizeof("false")-1) ) {
@@ -352,8 +362,7 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 			return false;
 		}
 		*cfgcoderef += sizeof("false") - 1;
-		struct HarbolVariant var = harbol_variant_make(&( bool ){false}, sizeof(bool), HarbolCfgType_Bool, &( bool ){0});
-		res = harbol_map_insert(map, keystr.cstr, keystr.len+1, &var, sizeof var);
+		res = _harbol_cfg_insert(map, &keystr, &( bool ){false}, sizeof(bool), HarbolCfgType_Bool);
 	} else if( **cfgcoderef=='n' ) {
 		/// null value.
 		if( strncmp("null", *cfgcoderef, sizeof("null")-1) ) {
@@ -362,8 +371,7 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 			return false;
 		}
 		*cfgcoderef += sizeof("null") - 1;
-		struct HarbolVariant var = harbol_variant_make(&( char ){0}, sizeof(char), HarbolCfgType_Null, &( bool ){0});
-		res = harbol_map_insert(map, keystr.cstr, keystr.len+1, &var, sizeof var);
+		res = _harbol_cfg_insert(map, &keystr, &( char ){0}, sizeof(char), HarbolCfgType_Null);
 	} else if( **cfgcoderef=='I' ) {
 		/// local iota value.
 		if( strncmp("IOTA", *cfgcoderef, sizeof("IOTA")-1) ) {
@@ -372,9 +380,8 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 			return false;
 		}
 		*cfgcoderef += sizeof("IOTA") - 1;
-		struct HarbolVariant var = harbol_variant_make(&parse_state->global_iota, sizeof parse_state->global_iota, HarbolCfgType_Int, &( bool ){0});
+		res = _harbol_cfg_insert(map, &keystr, &parse_state->global_iota, sizeof parse_state->global_iota, HarbolCfgType_Int);
 		parse_state->global_iota++;
-		res = harbol_map_insert(map, keystr.cstr, keystr.len+1, &var, sizeof var);
 	} else if( **cfgcoderef=='i' ) {
 		/// local iota value.
 		if( strncmp("iota", *cfgcoderef, sizeof("iota")-1) ) {
@@ -383,9 +390,8 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 			return false;
 		}
 		*cfgcoderef += sizeof("iota") - 1;
-		struct HarbolVariant var = harbol_variant_make(parse_state->local_iota, sizeof *parse_state->local_iota, HarbolCfgType_Int, &( bool ){0});
+		res = _harbol_cfg_insert(map, &keystr, parse_state->local_iota, sizeof *parse_state->local_iota, HarbolCfgType_Int);
 		++*parse_state->local_iota;
-		res = harbol_map_insert(map, keystr.cstr, keystr.len+1, &var, sizeof var);
 	} else if( is_decimal(**cfgcoderef) || **cfgcoderef=='.' || **cfgcoderef=='-' || **cfgcoderef=='+' ) {
 		/// numeric value.
 		res = harbol_cfg_parse_number(map, &keystr, cfgcoderef, parse_state);
@@ -405,8 +411,10 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 			}
 			
 			harbol_string_copy_cstr(str, ( parse_state->cfg_filename==NULL )? "C-string-cfg" : parse_state->cfg_filename);
-			struct HarbolVariant var = harbol_variant_make(&str, sizeof str, HarbolCfgType_String, &( bool ){0});
-			res = harbol_map_insert(map, keystr.cstr, keystr.len+1, &var, sizeof var);
+			res = _harbol_cfg_insert(map, &keystr, &str, sizeof str, HarbolCfgType_String);
+			if( !res ) {
+				harbol_string_free(&str);
+			}
 			*cfgcoderef += file_cstr_len;
 		} else {
 			harbol_write_msg(&parse_state->errc, stderr, parse_state->cfg_filename, "syntax error", COLOR_RED, &parse_state->curr_line, NULL, "Harbol Config Parser :: unknown control/command '%c'.\n", (*cfgcoderef)[1]);
@@ -430,16 +438,16 @@ static bool harbol_cfg_parse_number(struct HarbolMap *const restrict map, struct
 		return false;
 	}
 	
-	struct HarbolVariant var = {0};
+	bool res = false;
 	if( type==HarbolCfgType_Float ) {
 		floatmax_t f = lex_string_to_float(&numstr);
-		var = harbol_variant_make(&f, sizeof f, type, &( bool ){0});
+		res = _harbol_cfg_insert(map, key, &f, sizeof f, type);
 	} else {
 		intmax_t i = strtoll(numstr.cstr, NULL, 0);
-		var = harbol_variant_make(&i, sizeof i, HarbolCfgType_Int, &( bool ){0});
+		res = _harbol_cfg_insert(map, key, &i, sizeof i, HarbolCfgType_Int);
 	}
 	harbol_string_clear(&numstr);
-	return harbol_map_insert(map, key->cstr, key->len+1, &var, sizeof var);
+	return res;
 }
 
 /// section = '{' <keyval> '}' ;
-- 
2.43.0


From 7191b40a0454db804fc3e64e279e082e2a1f9e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:50 +0000
Subject: [PATCH 68/74] fix: malformed text values and include paths of a
 config were leaked, an empty include path was given to fopen as NULL

---
 cfg/cfg.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index a6c6af3..c1bd7c5 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -193,12 +193,13 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 		int const str_res = lex_c_style_str(*cfgcoderef, cfgcoderef, &file_path);
 		if( str_res > HarbolLexNoErr ) {
 			harbol_write_msg(&parse_state->errc, stderr, parse_state->cfg_filename, "syntax error", COLOR_RED, &parse_state->curr_line, NULL, "Harbol Config Parser :: invalid string value '%s' for key '%s' %s.\n", file_path.cstr, keystr.cstr, lex_get_err(str_res));
+			harbol_string_clear(&file_path);
 			harbol_string_clear(&keystr);
 			return false;
 		}
 		
 		harbol_string_clear(&keystr);
-		struct HarbolMap *included_cfg = harbol_cfg_parse_file(file_path.cstr);
+		struct HarbolMap *included_cfg = harbol_string_empty(&file_path)? NULL : harbol_cfg_parse_file(file_path.cstr);
 		if( included_cfg==NULL ) {
 			/// if we failed somehow, warn, and set the value as a null.
 			harbol_write_msg(NULL, stderr, parse_state->cfg_filename, "parse warning", COLOR_MAGENTA, &parse_state->curr_line, NULL, "Harbol Config Parser :: failed to include cfg file '%s'\n", file_path.cstr);
@@ -269,6 +270,7 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 		int const str_res = lex_c_style_str(*cfgcoderef, cfgcoderef, str);
 		if( str_res > HarbolLexNoErr ) {
 			harbol_write_msg(&parse_state->errc, stderr, parse_state->cfg_filename, "syntax error", COLOR_RED, &parse_state->curr_line, NULL, "Harbol Config Parser :: invalid string value '%s' for key '%s' %s.\n", str->cstr, keystr.cstr, lex_get_err(str_res));
+			harbol_string_free(&str);
 			harbol_string_clear(&keystr);
 			return false;
 		}
-- 
2.43.0


From bfa38a851e514c0154538a29fd4ec772b1885c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:50 +0000
Subject: [PATCH 69/74] fix: an include at the end of a config section was
 taken for the start of another key

---
 cfg/cfg.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index c1bd7c5..aab7053 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -204,6 +204,7 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 			/// if we failed somehow, warn, and set the value as a null.
 			harbol_write_msg(NULL, stderr, parse_state->cfg_filename, "parse warning", COLOR_MAGENTA, &parse_state->curr_line, NULL, "Harbol Config Parser :: failed to include cfg file '%s'\n", file_path.cstr);
 			harbol_string_clear(&file_path);
+			skip_ws_and_comments(cfgcoderef, parse_state);
 			return true;
 		} else {
 			bool const inclusion_res = _harbol_cfg_insert(map, &file_path, &included_cfg, sizeof included_cfg, HarbolCfgType_Map);
@@ -211,6 +212,7 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 				harbol_cfg_free(&included_cfg);
 			}
 			harbol_string_clear(&file_path);
+			skip_ws_and_comments(cfgcoderef, parse_state);
 			return inclusion_res;
 		}
 	} else {
-- 
2.43.0


From 235a27b008154aa8e64e1d60b1ec0e39ec558df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:50 +0000
Subject: [PATCH 70/74] fix: an empty text value of a config was searched for a
 formula through NULL

---
 cfg/cfg.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index aab7053..626fa1e 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -276,7 +276,7 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 			harbol_string_clear(&keystr);
 			return false;
 		}
-		char *math_marker = strstr(str->cstr, "<math");
+		char *math_marker = harbol_string_empty(str)? NULL : strstr(str->cstr, "<math");
 		if( math_marker != NULL ) {
 			char *const math_start = math_marker + sizeof "<math"-1;
 			char *const math_end = strchr(math_start, '>');
@@ -288,7 +288,9 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 				*math_end = '>';
 			}
 			char *number = sprintf_alloc("%" PRIfMAX "", expr_result);
-			harbol_string_replace_range(str, math_marker - str->cstr, ( size_t )(math_end - str->cstr), number);
+			if( number != NULL ) {
+				harbol_string_replace_range(str, ( size_t )(math_marker - str->cstr), (math_end==NULL)? SIZE_MAX : ( size_t )(math_end - str->cstr), number);
+			}
 			free(number); number = NULL;
 		}
 		res = _harbol_cfg_insert(map, &keystr, &str, sizeof str, HarbolCfgType_String);
-- 
2.43.0


From d7693d91034a5ce5ca2af6d90c1e9d5d2ff5d31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:50 +0000
Subject: [PATCH 71/74] fix: a formula in a config key was replaced from its
 start to its length, not to its end

---
 cfg/cfg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index 626fa1e..4c45bda 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -133,7 +133,7 @@ static NO_NULL floatmax_t _harbol_cfg_parse_inline_math(struct HarbolString *con
 		size_t const start = ( size_t )(math_str - str->cstr);
 		char result_str[30] = {0};
 		snprintf(&result_str[0],  sizeof result_str - 1,  "%" PRIfMAX "", result);
-		harbol_string_replace_range(str, start, (math_end==NULL)? SIZE_MAX : ( size_t )(math_end - math_str), result_str);
+		harbol_string_replace_range(str, start, ( size_t )(math_end - str->cstr), result_str);
 	}
 	return result;
 }
-- 
2.43.0


From 70dda09d82f53600f792a43a60b17e053d655ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:50 +0000
Subject: [PATCH 72/74] fix: an invalid number in a config color or vector was
 converted through NULL

---
 cfg/cfg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index 4c45bda..6d9623a 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -320,7 +320,7 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 			struct HarbolString numstr = {0};
 			enum HarbolCfgType type = HarbolCfgType_Null;
 			bool const result = _lex_number(cfgcoderef, &numstr, &type, parse_state);
-			if( iterations < 4 ) {
+			if( result && iterations < 4 ) {
 				if( valtype=='c' ) {
 					matrix_value.color.array[iterations] = ( uint8_t )(strtoul(numstr.cstr, NULL, 0));
 				} else {
-- 
2.43.0


From 507360be6d11e0c7c03af63fbbafecf1dc6e96c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:50 +0000
Subject: [PATCH 73/74] fix: a config section that could not be allocated left
 the counters pointing out of scope

---
 cfg/cfg.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index 6d9623a..d55cc39 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -240,11 +240,6 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 	bool res = false;
 	/// it's a section!
 	if( **cfgcoderef=='{' ) {
-		intmax_t *const old_iota = parse_state->local_iota;
-		intmax_t *const old_enum = parse_state->local_enum;
-		parse_state->local_iota = &( intmax_t ){0};
-		parse_state->local_enum = &( intmax_t ){0};
-		
 		struct HarbolMap *subsection = harbol_map_new(4);
 		if( subsection==NULL ) {
 			harbol_write_msg(&parse_state->errc, stderr, parse_state->cfg_filename, "memory error", COLOR_RED, &parse_state->curr_line, NULL, "Harbol Config Parser :: unable to allocate subsection for key '%s'.\n", keystr.cstr);
@@ -252,6 +247,10 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 			return false;
 		}
 		
+		intmax_t *const old_iota = parse_state->local_iota;
+		intmax_t *const old_enum = parse_state->local_enum;
+		parse_state->local_iota = &( intmax_t ){0};
+		parse_state->local_enum = &( intmax_t ){0};
 		res = harbol_cfg_parse_section(subsection, cfgcoderef, parse_state);
 		if( !_harbol_cfg_insert(map, &keystr, &subsection, sizeof subsection, HarbolCfgType_Map) ) {
 			harbol_write_msg(NULL, stderr, parse_state->cfg_filename, "memory warning", COLOR_MAGENTA, &parse_state->curr_line, NULL, "Harbol Config Parser :: some how failed to insert subsection for key '%s', destroying...\n", keystr.cstr);
-- 
2.43.0


From cf5890eda513d124217428f42eae2627556724b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:50 +0000
Subject: [PATCH 74/74] fix: a config's <file> value was kept without its text
 when that could not be copied

---
 cfg/cfg.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index d55cc39..d248056 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -408,14 +408,13 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 		/// <FILE> is the name of the config file we're parsing.
 		size_t const file_cstr_len = sizeof("<file>") - 1;
 		if( !strncmp("<file>", *cfgcoderef, file_cstr_len) || !strncmp("<FILE>", *cfgcoderef, file_cstr_len) ) {
-			struct HarbolString *str = harbol_string_new(NULL);
+			struct HarbolString *str = harbol_string_new(( parse_state->cfg_filename==NULL )? "C-string-cfg" : parse_state->cfg_filename);
 			if( str==NULL ) {
 				harbol_write_msg(&parse_state->errc, stderr, parse_state->cfg_filename, "memory error", COLOR_RED, &parse_state->curr_line, NULL, "Harbol Config Parser :: unable to allocate string value for key '%s'.\n", keystr.cstr);
 				harbol_string_clear(&keystr);
 				return false;
 			}
 			
-			harbol_string_copy_cstr(str, ( parse_state->cfg_filename==NULL )? "C-string-cfg" : parse_state->cfg_filename);
 			res = _harbol_cfg_insert(map, &keystr, &str, sizeof str, HarbolCfgType_String);
 			if( !res ) {
 				harbol_string_free(&str);
-- 
2.43.0

