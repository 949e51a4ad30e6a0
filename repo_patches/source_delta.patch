From b7542a479504151ef8427ae758e43ec6e98bb576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:04 +0000
Subject: [PATCH 01/75] fix: Vector::setSize computed the shrunken capacity
 from a shadowed, stale size

---
 teds_vector.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/teds_vector.c b/teds_vector.c
index 8f9a36c..64af900 100644
--- a/teds_vector.c
+++ b/teds_vector.c
@@ -546,7 +546,6 @@ PHP_METHOD(Teds_Vector, setSize)
 
 		/* If only a quarter of the reserved space is used, then shrink the capacity but leave some room to grow. */
 		if ((zend_ulong) size < (array->capacity >> 2)) {
-			const uint32_t size = old_size - 1;
 			const uint32_t capacity = size > 2 ? size * 2 : 4;
 			if (capacity < array->capacity) {
 				teds_vector_shrink_capacity(array, size, capacity, old_entries);
-- 
2.43.0


From 979c1a2be34632fd090b05d525516f8ca88a247e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:19 +0000
Subject: [PATCH 02/75] fix: Vector::filter/map freed wrong elements on
 exceptions and filter could overflow when the callback resized the vector

---
 teds_vector.c | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/teds_vector.c b/teds_vector.c
index 64af900..13349af 100644
--- a/teds_vector.c
+++ b/teds_vector.c
@@ -913,9 +913,7 @@ PHP_METHOD(Teds_Vector, filter)
 				zval_ptr_dtor(&operand);
 cleanup:
 				if (entries) {
-					for (; size > 0; size--) {
-						zval_ptr_dtor(&entries[size]);
-					}
+					teds_zval_dtor_range(entries, size);
 					efree(entries);
 				}
 				return;
@@ -923,6 +921,7 @@ cleanup:
 			const bool is_true = zend_is_true(&retval);
 			zval_ptr_dtor(&retval);
 			if (UNEXPECTED(EG(exception))) {
+				zval_ptr_dtor(&operand);
 				goto cleanup;
 			}
 			if (!is_true) {
@@ -935,7 +934,7 @@ cleanup:
 
 			if (size >= capacity) {
 				if (entries) {
-					capacity = size + array->size - i;
+					capacity = size + (array->size > i ? array->size - i : 1);
 					if (UNEXPECTED(capacity >= TEDS_MAX_ZVAL_COLLECTION_SIZE)) {
 						teds_error_noreturn_max_vector_capacity();
 						ZEND_UNREACHABLE();
@@ -966,7 +965,7 @@ cleanup:
 
 			if (size >= capacity) {
 				if (entries) {
-					capacity = size + array->size - i;
+					capacity = size + (array->size > i ? array->size - i : 1);
 					entries = safe_erealloc(entries, capacity, sizeof(zval), 0);
 				} else {
 					ZEND_ASSERT(size == 0);
@@ -1038,12 +1037,9 @@ PHP_METHOD(Teds_Vector, map)
 		fci.retval = &entries[size];
 		zval_ptr_dtor(&operand);
 		if (UNEXPECTED(result != SUCCESS || EG(exception))) {
-			if (entries) {
-				for (; size > 0; size--) {
-					zval_ptr_dtor(&entries[size]);
-				}
-				efree(entries);
-			}
+			/* This includes entries[size], which is undefined unless the callback returned and the operand's destructor threw. */
+			teds_zval_dtor_range(entries, size + 1);
+			efree(entries);
 			return;
 		}
 		size++;
-- 
2.43.0


From 0bce0dc2d6bd33c45fcde3d43eb838075dfcece8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:23 +0000
Subject: [PATCH 03/75] fix: collections built from an empty Traversable were
 left uninitialized, so __construct could replace their contents

---
 teds_deque.c             | 2 +-
 teds_immutableiterable.c | 4 ++--
 teds_immutablesequence.c | 2 +-
 teds_mutableiterable.c   | 4 ++--
 teds_vector.c            | 2 +-
 5 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/teds_deque.c b/teds_deque.c
index 41edae1..968a9f8 100644
--- a/teds_deque.c
+++ b/teds_deque.c
@@ -225,7 +225,7 @@ static void teds_deque_entries_init_from_traversable(teds_deque_entries *array,
 
 	array->size = size;
 	array->mask = capacity > 0 ? capacity - 1 : 0;
-	array->circular_buffer = circular_buffer;
+	array->circular_buffer = circular_buffer ? circular_buffer : (zval *)empty_entry_list;
 	TEDS_DEQUE_SET_SHOULD_REBUILD_PROPERTIES(array, true);
 cleanup_iter:
 	if (iter) {
diff --git a/teds_immutableiterable.c b/teds_immutableiterable.c
index 54fb123..350bced 100644
--- a/teds_immutableiterable.c
+++ b/teds_immutableiterable.c
@@ -201,7 +201,7 @@ static void teds_immutableiterable_entries_init_from_traversable(teds_immutablei
 	}
 
 	array->size = size;
-	array->entries = entries;
+	array->entries = entries ? entries : (zval_pair *)empty_entry_list;
 cleanup_iter:
 	if (iter) {
 		zend_iterator_dtor(iter);
@@ -716,7 +716,7 @@ static void teds_immutableiterable_entries_init_from_traversable_pairs(teds_immu
 	}
 
 	array->size = size;
-	array->entries = entries;
+	array->entries = entries ? entries : (zval_pair *)empty_entry_list;
 	if (iter) {
 		zend_iterator_dtor(iter);
 	}
diff --git a/teds_immutablesequence.c b/teds_immutablesequence.c
index 110210b..db201e7 100644
--- a/teds_immutablesequence.c
+++ b/teds_immutablesequence.c
@@ -181,7 +181,7 @@ static void teds_immutablesequence_entries_init_from_traversable(teds_immutables
 	}
 
 	array->size = size;
-	array->entries = entries;
+	array->entries = entries ? entries : (zval *)empty_entry_list;
 cleanup_iter:
 	if (iter) {
 		zend_iterator_dtor(iter);
diff --git a/teds_mutableiterable.c b/teds_mutableiterable.c
index 2a890c1..263afab 100644
--- a/teds_mutableiterable.c
+++ b/teds_mutableiterable.c
@@ -231,7 +231,7 @@ static void teds_mutableiterable_entries_init_from_traversable(teds_mutableitera
 
 	array->size = size;
 	array->capacity = size;
-	array->entries = entries;
+	array->entries = entries ? entries : (zval_pair *)empty_entry_list;
 cleanup_iter:
 	if (iter) {
 		zend_iterator_dtor(iter);
@@ -851,7 +851,7 @@ static void teds_mutableiterable_entries_init_from_traversable_pairs(teds_mutabl
 
 	array->size = size;
 	array->capacity = size;
-	array->entries = entries;
+	array->entries = entries ? entries : (zval_pair *)empty_entry_list;
 	if (iter) {
 		zend_iterator_dtor(iter);
 	}
diff --git a/teds_vector.c b/teds_vector.c
index 13349af..2e0fbf2 100644
--- a/teds_vector.c
+++ b/teds_vector.c
@@ -210,7 +210,7 @@ static void teds_vector_entries_init_from_traversable(teds_vector_entries *array
 	array->size = size;
 	TEDS_VECTOR_SET_SHOULD_REBUILD_PROPERTIES(array, size > 0);
 	array->capacity = size;
-	array->entries = entries;
+	array->entries = entries ? entries : (zval *)empty_entry_list;
 cleanup_iter:
 	if (iter) {
 		zend_iterator_dtor(iter);
-- 
2.43.0


From 65e18a04f3ea9633ab06fd69c55c4d1c4b1bcf40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:40 +0000
Subject: [PATCH 04/75] fix: Deque::clear forgot the active iterators and left
 the deque uninitialized

---
 teds_deque.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/teds_deque.c b/teds_deque.c
index 968a9f8..553c402 100644
--- a/teds_deque.c
+++ b/teds_deque.c
@@ -507,7 +507,11 @@ PHP_METHOD(Teds_Deque, clear)
 	}
 	/* Immediately make the original storage inaccessible and set count/capacity to 0 in case destructors modify the deque */
 	teds_deque_entries old_array = intern->array;
-	memset(&intern->array, 0, sizeof(intern->array));
+	intern->array.size = 0;
+	intern->array.mask = 0;
+	intern->array.offset = 0;
+	intern->array.circular_buffer = (zval *)empty_entry_list;
+	TEDS_DEQUE_SET_SHOULD_REBUILD_PROPERTIES(&intern->array, true);
 	teds_deque_entries_dtor(&old_array);
 	if (intern->std.properties) {
 		zend_hash_clean(intern->std.properties);
-- 
2.43.0


From f95ef8841e96657adfe2a63ddff50e0908d17e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:57 +0000
Subject: [PATCH 05/75] fix: Deque::containsKey returned an int instead of the
 declared bool

---
 teds_deque.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/teds_deque.c b/teds_deque.c
index 553c402..6d330d3 100644
--- a/teds_deque.c
+++ b/teds_deque.c
@@ -844,7 +844,7 @@ PHP_METHOD(Teds_Deque, containsKey)
 	zend_long offset;
 	CONVERT_OFFSET_TO_LONG_OR_THROW(offset, offset_zv);
 
-	RETURN_LONG(((zend_ulong) offset) < Z_DEQUE_ENTRIES_P(ZEND_THIS)->size);
+	RETURN_BOOL(((zend_ulong) offset) < Z_DEQUE_ENTRIES_P(ZEND_THIS)->size);
 }
 
 static zval *teds_deque_read_dimension(zend_object *object, zval *offset_zv, int type, zval *rv)
-- 
2.43.0


From e7a0e64099bcbf4c89a9123cc91b5901107323fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:00 +0000
Subject: [PATCH 06/75] fix: Deque get_gc reported the wrong element for the
 wrapped part of the buffer

---
 teds_deque.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/teds_deque.c b/teds_deque.c
index 6d330d3..ff197c6 100644
--- a/teds_deque.c
+++ b/teds_deque.c
@@ -325,7 +325,7 @@ static HashTable* teds_deque_get_gc(zend_object *obj, zval **table, int *n)
 	}
 
 	for (uint32_t i = 0, len = offset + size - capacity; i < len; i++) {
-		zend_get_gc_buffer_add_zval(gc_buffer, &circular_buffer[len]);
+		zend_get_gc_buffer_add_zval(gc_buffer, &circular_buffer[i]);
 	}
 
 	/* This replaces table and n. */
-- 
2.43.0


From f750e3261dec85ab0e43844650a63e1aee0de8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:02 +0000
Subject: [PATCH 07/75] fix: cloning a Deque allocated fewer elements than its
 capacity mask says, overflowing the buffer on later writes

---
 teds_deque.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/teds_deque.c b/teds_deque.c
index ff197c6..00a4ff7 100644
--- a/teds_deque.c
+++ b/teds_deque.c
@@ -245,7 +245,7 @@ static void teds_deque_entries_copy_ctor(teds_deque_entries *to, const teds_dequ
 	}
 
 	const uint32_t capacity = teds_deque_next_pow2_capacity(size);
-	to->circular_buffer = safe_emalloc(size, sizeof(zval), 0);
+	to->circular_buffer = safe_emalloc(capacity, sizeof(zval), 0);
 	to->size = size;
 	to->mask = capacity - 1;
 	TEDS_DEQUE_SET_SHOULD_REBUILD_PROPERTIES(to, true);
-- 
2.43.0


From 12525827ef084666287a44e7cfdc6d6ec4033b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:37 +0000
Subject: [PATCH 08/75] fix: promoting an empty LowMemoryVector to a wider type
 freed the shared empty list or leaked the new storage

---
 teds_lowmemoryvector.c | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/teds_lowmemoryvector.c b/teds_lowmemoryvector.c
index f972d4e..160939f 100644
--- a/teds_lowmemoryvector.c
+++ b/teds_lowmemoryvector.c
@@ -89,6 +89,7 @@ static const uint8_t teds_lmv_shift_for_element[LMV_TYPE_COUNT] = {
 		int_smaller *const original_entries = array->entries_smaller; \
 		const int_smaller *src = original_entries; \
 		const size_t size = array->size; \
+		const size_t old_capacity = array->capacity; \
 		const size_t capacity = size >= 2 ? size * 2 : 4; \
 		array->capacity = capacity; \
 		int_larger *const entries_larger  = safe_emalloc(capacity, sizeof(int_larger), 0); \
@@ -98,7 +99,7 @@ static const uint8_t teds_lmv_shift_for_element[LMV_TYPE_COUNT] = {
 		while (dst < end) { \
 			*dst++ = *src++; \
 		} \
-		if (array->capacity > 0) { \
+		if (old_capacity > 0) { \
 			efree(original_entries); \
 		} \
 		return; \
@@ -1600,6 +1601,7 @@ static zend_never_inline void teds_lowmemoryvector_entries_promote_bool_or_null_
 	uint8_t *const original_types = array->entries_uint8;
 	const uint8_t *src = original_types;
 	const size_t size = array->size;
+	const size_t old_capacity = array->capacity;
 	const size_t capacity = size >= 2 ? size * 2 : 4;
 	array->capacity = capacity;
 	zval *const entries_zval = safe_emalloc(capacity, sizeof(zval), 0);
@@ -1609,7 +1611,7 @@ static zend_never_inline void teds_lowmemoryvector_entries_promote_bool_or_null_
 	for (; dst < end; dst++, src++) {
 		teds_lowmemoryvector_entries_set_type(dst, *src);
 	}
-	if (array->capacity > 0) {
+	if (old_capacity > 0) {
 		efree(original_types);
 	}
 	return;
@@ -1621,6 +1623,7 @@ static zend_never_inline void teds_lowmemoryvector_entries_promote_double_to_zva
 	double *const original_entries = array->entries_double;
 	const double *src = original_entries;
 	const size_t size = array->size;
+	const size_t old_capacity = array->capacity;
 	const size_t capacity = size >= 2 ? size * 2 : 4;
 	array->capacity = capacity;
 	zval *const entries_zval = safe_emalloc(capacity, sizeof(zval), 0);
@@ -1630,7 +1633,7 @@ static zend_never_inline void teds_lowmemoryvector_entries_promote_double_to_zva
 	for (; dst < end; dst++, src++) {
 		ZVAL_DOUBLE(dst, *src);
 	}
-	if (array->capacity > 0) {
+	if (old_capacity > 0) {
 		efree(original_entries);
 	}
 }
@@ -1646,14 +1649,15 @@ static zend_never_inline void teds_lowmemoryvector_entries_promote_double_to_zva
 	const uint32_t size = array->size; \
 	const uint32_t old_capacity = array->capacity; \
 	const uint32_t capacity = old_capacity >= 4 ? old_capacity : 4; \
+	array->capacity = capacity; \
 	zval *const entries_zval = safe_emalloc(capacity, sizeof(zval), 0); \
+	const zval *const end = entries_zval + size; \
+	zval *dst = entries_zval; \
+	array->entries_zval = entries_zval; \
+	for (; dst < end; dst++, src++) { \
+		ZVAL_LONG(dst, *src); \
+	} \
 	if (old_capacity > 0) { \
-		const zval *const end = entries_zval + size; \
-		zval *dst = entries_zval; \
-		array->entries_zval = entries_zval; \
-		for (; dst < end; dst++, src++) { \
-			ZVAL_LONG(dst, *src); \
-		} \
 		efree(original_entries); \
 	} \
 	return; \
-- 
2.43.0


From b1c2ac2f6f2cb5db6453a8a9e26eaf0811bcf758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:01 +0000
Subject: [PATCH 09/75] fix: LowMemoryVector::popFront violated an assumption
 given to the compiler when the vector was full

---
 teds_lowmemoryvector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/teds_lowmemoryvector.c b/teds_lowmemoryvector.c
index 160939f..cdbc5bd 100644
--- a/teds_lowmemoryvector.c
+++ b/teds_lowmemoryvector.c
@@ -1973,8 +1973,8 @@ PHP_METHOD(Teds_LowMemoryVector, popFront)
 
 	teds_lowmemoryvector_maybe_adjust_iterators_before_remove(array, 0);
 
-	teds_lowmemoryvector_entries_copy_offset(array, 0, return_value, false, true);
 	array->size--;
+	teds_lowmemoryvector_entries_copy_offset(array, 0, return_value, false, true);
 	memmove(entries_uint8, entries_uint8 + bytes_per_element, bytes_per_element * (old_size - 1));
 	if (old_size < (old_capacity >> 2)) {
 		/* Shrink the storage if only a quarter of the capacity is used  */
-- 
2.43.0


From 12c4437b34971bc1f5cde92818795522a3f16caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:03 +0000
Subject: [PATCH 10/75] fix: inserting into a LowMemoryVector moved iterators
 that stand before the first or after the last element

---
 teds_lowmemoryvector.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/teds_lowmemoryvector.c b/teds_lowmemoryvector.c
index cdbc5bd..baa4b64 100644
--- a/teds_lowmemoryvector.c
+++ b/teds_lowmemoryvector.c
@@ -640,11 +640,12 @@ static zend_always_inline void teds_lowmemoryvector_maybe_adjust_iterators_befor
 
 static void teds_lowmemoryvector_adjust_iterators_before_insert(teds_lowmemoryvector_entries *const array, teds_intrusive_dllist_node *node, const size_t inserted_offset, const uint32_t n)
 {
+	const size_t old_size = array->size;
 	const zend_object *const obj = teds_lowmemoryvector_to_object(array);
 	do {
 		teds_lowmemoryvector_it *it = teds_lowmemoryvector_it_from_node(node);
 		if (Z_OBJ(it->intern.data) == obj) {
-			if (it->current >= inserted_offset) {
+			if (it->current >= inserted_offset && it->current < old_size) {
 				it->current += n;
 			}
 		}
-- 
2.43.0


From 6c5b4e426c59d2f32659cda0c80f5a4601f4cc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:06 +0000
Subject: [PATCH 11/75] fix: LowMemoryVector::set promoted the storage before
 rejecting the offset; clear() left a vector of zvals uninitialized

---
 teds_lowmemoryvector.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/teds_lowmemoryvector.c b/teds_lowmemoryvector.c
index baa4b64..5075c29 100644
--- a/teds_lowmemoryvector.c
+++ b/teds_lowmemoryvector.c
@@ -372,7 +372,6 @@ static void teds_lowmemoryvector_clear(teds_lowmemoryvector *intern)
 		ZEND_ASSERT(type_tag == LMV_TYPE_ZVAL);
 
 		zval *it = entries;
-		array->entries_zval = NULL;
 		for (zval *const end = it + size; it < end; it++) {
 			zval_ptr_dtor(it);
 		}
@@ -1438,14 +1437,13 @@ PHP_METHOD(Teds_LowMemoryVector, contains)
 }
 
 static void teds_lowmemoryvector_entries_set_value_at_offset(teds_lowmemoryvector_entries *array, zend_long offset, const zval *value, bool is_update) {
-	if (is_update) {
-		teds_lowmemoryvector_entries_update_type_tag(array, value);
-	}
-
 	if (UNEXPECTED(!teds_offset_within_size_t(offset, array->size))) {
 		teds_throw_invalid_sequence_index_exception();
 		return;
 	}
+	if (is_update) {
+		teds_lowmemoryvector_entries_update_type_tag(array, value);
+	}
 	switch (array->type_tag) {
 		case LMV_TYPE_BOOL_OR_NULL: {
 			array->entries_uint8[offset] = teds_lowmemoryvector_entries_get_type(value);
-- 
2.43.0


From 66d01d464a558495a98825bae1f6adc42a4da095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:56 +0000
Subject: [PATCH 12/75] fix: promoting an empty IntVector to a wider type freed
 the shared empty list, and set() promoted before rejecting the offset

---
 teds_intvector.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/teds_intvector.c b/teds_intvector.c
index 8430c46..27712c9 100644
--- a/teds_intvector.c
+++ b/teds_intvector.c
@@ -1688,14 +1688,14 @@ TEDS_INTVECTOR__GENERATE_INT_CASES()
 }
 
 static zend_always_inline void teds_intvector_entries_set_value_at_offset(teds_intvector_entries *const array, const zend_long offset, const zend_long value, const bool check_type_tag) {
-	if (check_type_tag) {
-		teds_intvector_entries_update_type_tag(array, value);
-	}
 	const size_t len = array->size;
 	if (UNEXPECTED((zend_ulong) offset >= len)) {
 		teds_throw_invalid_sequence_index_exception();
 		return;
 	}
+	if (check_type_tag) {
+		teds_intvector_entries_update_type_tag(array, value);
+	}
 	switch (array->type_tag) {
 #define TEDS_INTVECTOR__INT_CODEGEN(TEDS_INTVECTOR_TYPE_X, intx_t, entries_intx) \
 		case TEDS_INTVECTOR_TYPE_X: \
@@ -1799,7 +1799,8 @@ static zend_always_inline zval *teds_intvector_entries_read_offset(const teds_in
 		int_smaller *const original_entries = array->entries_smaller; \
 		const int_smaller *src = original_entries; \
 		const size_t size = array->size; \
-		const size_t capacity = array->capacity >= 2 ? array->capacity : 4; \
+		const size_t old_capacity = array->capacity; \
+		const size_t capacity = old_capacity >= 2 ? old_capacity : 4; \
 		array->capacity = capacity; \
 		int_larger *const entries_larger  = teds_intvector_emalloc_byte_array(capacity, sizeof(int_larger)); \
 		const int_larger *const end = entries_larger + size; \
@@ -1808,7 +1809,7 @@ static zend_always_inline zval *teds_intvector_entries_read_offset(const teds_in
 		while (dst < end) { \
 			*dst++ = *src++; \
 		} \
-		if (array->capacity > 0) { \
+		if (old_capacity > 0) { \
 			teds_intvector_efree_byte_array(original_entries); \
 		} \
 		return; \
-- 
2.43.0


From 9b0e5ca3172174f0b91b0cefb3ea2f54b6de7f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:08 +0000
Subject: [PATCH 13/75] fix: IntVector::popFront moved the wrong number of
 bytes

---
 teds_intvector.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/teds_intvector.c b/teds_intvector.c
index 27712c9..463427f 100644
--- a/teds_intvector.c
+++ b/teds_intvector.c
@@ -2300,9 +2300,9 @@ PHP_METHOD(Teds_IntVector, popFront)
 
 	teds_intvector_maybe_adjust_iterators_before_remove(array, 0);
 
-	teds_intvector_entries_copy_offset(array, 0, return_value, true);
 	array->size--;
-	memmove(entries_uint8, entries_uint8 + bytes_per_element, bytes_per_element + (old_size - 1));
+	teds_intvector_entries_copy_offset(array, 0, return_value, true);
+	memmove(entries_uint8, entries_uint8 + bytes_per_element, bytes_per_element * (old_size - 1));
 	if (old_size < (old_capacity >> 2)) {
 		/* Shrink the storage if only a quarter of the capacity is used  */
 		const size_t size = old_size - 1;
-- 
2.43.0


From f35702b027f543d00e3c797dba2dbca6d00c05e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:58 +0000
Subject: [PATCH 14/75] fix: BitVector::setSize to exactly the capacity
 violated an assumption given to the compiler

---
 teds_bitvector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/teds_bitvector.c b/teds_bitvector.c
index 859518a..b59ae7c 100644
--- a/teds_bitvector.c
+++ b/teds_bitvector.c
@@ -366,7 +366,7 @@ PHP_METHOD(Teds_BitVector, isEmpty)
 
 static void teds_bitvector_set_range(teds_bitvector_entries *const array, const size_t start_bit, const size_t end_bit, const bool value_bool) {
 	ZEND_ASSERT(start_bit < end_bit);
-	ZEND_ASSERT(end_bit < array->bit_capacity);
+	ZEND_ASSERT(end_bit <= array->bit_capacity);
 	uint8_t *const entries_bits = array->entries_bits;
 	ZEND_ASSERT(entries_bits != NULL);
 
-- 
2.43.0


From 4ed8bd77736fd6fd0de3efe26405663a8d079dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:00 +0000
Subject: [PATCH 15/75] fix: cloning a BitVector allocated memory quadratic in
 its size; indexOf/contains read past the end of the bits

---
 teds_bitvector.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/teds_bitvector.c b/teds_bitvector.c
index b59ae7c..f7b05b6 100644
--- a/teds_bitvector.c
+++ b/teds_bitvector.c
@@ -272,7 +272,7 @@ static void teds_bitvector_entries_copy_ctor(teds_bitvector_entries *to, const t
 	to->bit_size = 0; /* reset bit_size in case emalloc() fails */
 	to->bit_capacity = 0;
 	const size_t bytes_needed = BYTES_FOR_BIT_SIZE(bit_size);
-	to->entries_bits = safe_emalloc(bit_size, bytes_needed, 0);
+	to->entries_bits = emalloc(bytes_needed);
 	to->bit_size = bit_size;
 	to->bit_capacity = bytes_needed * 8;
 
@@ -993,6 +993,10 @@ PHP_METHOD(Teds_BitVector, indexOf)
 		}
 		i += 8;
 	}
+	if (i >= len) {
+		/* Don't read past the end of the storage */
+		RETURN_NULL();
+	}
 	// TODO: builtin_clz?
 	uint8_t v = entries_bits[i >> 3] + value;
 	while (i < len) {
@@ -1035,6 +1039,10 @@ PHP_METHOD(Teds_BitVector, contains)
 		}
 		i += 8;
 	}
+	if (i >= len) {
+		/* Don't read past the end of the storage */
+		RETURN_FALSE;
+	}
 	const uint8_t v = entries_bits[i >> 3] + value;
 	RETURN_BOOL(v & ((1 << (len & 7)) - 1));
 }
-- 
2.43.0


From 1a5a355b41535815ea9a27e0097bc0135156e16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:28 +0000
Subject: [PATCH 16/75] fix: iterating over a StrictHashMap/StrictHashSet after
 removing its first entry yielded nothing, removed entries made iterators
 skip, and growing could loop forever

---
 teds_stricthashmap.c | 89 ++++++++++++++++++++++++++++----------------
 teds_stricthashset.c | 86 ++++++++++++++++++++++++++----------------
 2 files changed, 109 insertions(+), 66 deletions(-)

diff --git a/teds_stricthashmap.c b/teds_stricthashmap.c
index 7570ebc..466d11c 100644
--- a/teds_stricthashmap.c
+++ b/teds_stricthashmap.c
@@ -381,7 +381,10 @@ static void teds_stricthashmap_iterators_move_before_pack(teds_stricthashmap_ent
 		const uint32_t old_position = it->current;
 		// fprintf(stderr, "old_position=%d\n", old_position);
 		if (old_position >= nNumUsed) {
-			it->current = array->nNumOfElements;
+			if (old_position != (uint32_t) -1) {
+				it->current = array->nNumOfElements;
+			}
+			dllist_node = dllist_node->next;
 			continue;
 		}
 		// old_position < nNumUsed
@@ -399,15 +402,25 @@ static void teds_stricthashmap_iterators_move_before_pack(teds_stricthashmap_ent
 	} while (dllist_node != NULL);
 }
 
-static void teds_stricthashmap_iterators_shift_to_new_end(teds_stricthashmap_entries *array, teds_intrusive_dllist_node *dllist_node, const uint32_t removed_idx)
+/* Move iterators pointing to a removed entry to the entry before it, which may be before the start of the data (in which case calling next() would make it valid again).
+ * Positions of unused entries are resolved to the previous used entry the next time the iterator is used. */
+static void teds_stricthashmap_iterators_adjust_after_remove(teds_stricthashmap_entries *array, teds_intrusive_dllist_node *dllist_node, const uint32_t removed_idx, const uint32_t old_num_used)
 {
 	const uint32_t nNumUsed = array->nNumUsed;
-	ZEND_ASSERT(removed_idx >= nNumUsed);
 	do {
 		teds_stricthashmap_it *const it = teds_stricthashmap_it_from_node(dllist_node);
-		if (it->current >= nNumUsed) {
-			/* Move iterators to their new positions. Iterators where key() would be the removed key are shifted to the previous key (removed_idx - 1), which may be before the start of the data (in which case calling next() would make it valid again) */
-			it->current = (it->current >= removed_idx ? nNumUsed - 1 : nNumUsed);
+		if (it->current != (uint32_t) -1) {
+			if (it->current >= old_num_used) {
+				/* Still after the end */
+				it->current = nNumUsed;
+			} else {
+				if (it->current == removed_idx) {
+					it->current--;
+				}
+				if (it->current != (uint32_t) -1 && it->current >= nNumUsed) {
+					it->current = nNumUsed - 1;
+				}
+			}
 		}
 		dllist_node = dllist_node->next;
 	} while (dllist_node != NULL);
@@ -746,32 +759,43 @@ static void teds_stricthashmap_it_dtor(zend_object_iterator *iter)
 
 static void teds_stricthashmap_it_rewind(zend_object_iterator *iter)
 {
-	((teds_stricthashmap_it*)iter)->current = 0;
+	((teds_stricthashmap_it*)iter)->current = Z_STRICTHASHMAP_ENTRIES_P(&iter->data)->nFirstUsed;
 }
 
-static int teds_stricthashmap_it_valid(zend_object_iterator *iter)
+/* Returns the entry the iterator is pointing to, or NULL if it is before the first or after the last entry */
+static teds_stricthashmap_entry *teds_stricthashmap_it_find_entry(teds_stricthashmap_it *iterator, const teds_stricthashmap_entries *array)
 {
-	const teds_stricthashmap_it      *iterator = (teds_stricthashmap_it*)iter;
-	const teds_stricthashmap_entries *array    = Z_STRICTHASHMAP_ENTRIES_P(&iter->data);
-
 	ZEND_ASSERT((array->nNumUsed > 0) == (array->nNumOfElements > 0));
 	ZEND_ASSERT(array->nFirstUsed <= array->nNumUsed);
 
-	return iterator->current < array->nNumUsed && iterator->current >= array->nFirstUsed ? SUCCESS : FAILURE;
+	/* The entry at this position may have been removed, if so then move to the entry prior to it. */
+	while (iterator->current < array->nNumUsed) {
+		if (UNEXPECTED(iterator->current < array->nFirstUsed)) {
+			iterator->current = (uint32_t) -1;
+			return NULL;
+		}
+		teds_stricthashmap_entry *const entry = &array->arData[iterator->current];
+		if (EXPECTED(!Z_ISUNDEF(entry->key))) {
+			return entry;
+		}
+		iterator->current--;
+	}
+	return NULL;
+}
+
+static int teds_stricthashmap_it_valid(zend_object_iterator *iter)
+{
+	teds_stricthashmap_it *iterator = (teds_stricthashmap_it*)iter;
+	return teds_stricthashmap_it_find_entry(iterator, Z_STRICTHASHMAP_ENTRIES_P(&iter->data)) != NULL ? SUCCESS : FAILURE;
 }
 
 static teds_stricthashmap_entry *teds_stricthashmap_it_read_offset_helper(const teds_stricthashmap *intern, teds_stricthashmap_it *iterator)
 {
-	teds_stricthashmap_entry *const arData = intern->array.arData;
-	while (EXPECTED(iterator->current < intern->array.nNumUsed)) {
-		const zval *v = &arData[iterator->current].key;
-		if (EXPECTED(Z_TYPE_P(v) != IS_UNDEF)) {
-			return &arData[iterator->current];
-		}
-		iterator->current++;
+	teds_stricthashmap_entry *const entry = teds_stricthashmap_it_find_entry(iterator, &intern->array);
+	if (UNEXPECTED(entry == NULL)) {
+		zend_throw_exception(spl_ce_OutOfBoundsException, "Attempting to access iterator after the end of the Teds\\StrictHashMap", 0);
 	}
-	zend_throw_exception(spl_ce_OutOfBoundsException, "Attempting to access iterator after the end of the Teds\\StrictHashMap", 0);
-	return NULL;
+	return entry;
 }
 
 static zval *teds_stricthashmap_it_get_current_data(zend_object_iterator *iter)
@@ -809,16 +833,12 @@ static void teds_stricthashmap_it_move_forward(zend_object_iterator *iter)
 	if (it->current + 1 <= array->nFirstUsed) { /* Check for -1 (just before start of array) */
 		it->current = array->nFirstUsed;
 	} else if (it->current >= array->nNumUsed) {
-		ZEND_ASSERT(it->current == array->nNumUsed);
 		it->current = array->nNumUsed;
 	} else {
 		/* Move to the next valid position */
-		while (Z_ISUNDEF(array->arData[it->current].key)) {
+		do {
 			it->current++;
-			ZEND_ASSERT(it->current < array->nNumUsed);
-		}
-		it->current++;
-		ZEND_ASSERT(it->current <= array->nNumUsed);
+		} while (it->current < array->nNumUsed && Z_ISUNDEF(array->arData[it->current].key));
 	}
 }
 
@@ -853,7 +873,10 @@ zend_object_iterator *teds_stricthashmap_get_iterator(zend_class_entry *ce, zval
 	iterator->intern.funcs = &teds_stricthashmap_it_funcs;
 	(void) ce;
 
-	teds_intrusive_dllist_prepend(&teds_stricthashmap_entries_from_object(obj)->active_iterators, &iterator->dllist_node);
+	teds_stricthashmap_entries *const array = teds_stricthashmap_entries_from_object(obj);
+	iterator->current = array->nFirstUsed;
+
+	teds_intrusive_dllist_prepend(&array->active_iterators, &iterator->dllist_node);
 
 	return &iterator->intern;
 }
@@ -1159,14 +1182,14 @@ static bool teds_stricthashmap_entries_remove_key(teds_stricthashmap_entries *ar
 
 	array->nNumOfElements--;
 	TEDS_STRICTHASHMAP_SET_SHOULD_REBUILD_PROPERTIES(array, true);
-	if (array->nNumUsed - 1 == idx) {
+	const uint32_t old_num_used = array->nNumUsed;
+	if (old_num_used - 1 == idx) {
 		do {
 			array->nNumUsed--;
 		} while (array->nNumUsed > 0 && (UNEXPECTED(Z_TYPE(array->arData[array->nNumUsed-1].key) == IS_UNDEF)));
-
-		if (UNEXPECTED(array->active_iterators.first)) {
-			teds_stricthashmap_iterators_shift_to_new_end(array, array->active_iterators.first, idx);
-		}
+	}
+	if (UNEXPECTED(array->active_iterators.first)) {
+		teds_stricthashmap_iterators_adjust_after_remove(array, array->active_iterators.first, idx, old_num_used);
 	}
 	if (array->nFirstUsed == idx) {
 		if (array->nNumOfElements == 0) {
diff --git a/teds_stricthashset.c b/teds_stricthashset.c
index 4ff33ea..304b20e 100644
--- a/teds_stricthashset.c
+++ b/teds_stricthashset.c
@@ -347,7 +347,10 @@ static void teds_stricthashset_iterators_move_before_pack(teds_stricthashset_ent
 		const uint32_t old_position = it->current;
 		// fprintf(stderr, "old_position=%d\n", old_position);
 		if (old_position >= nNumUsed) {
-			it->current = array->nNumOfElements;
+			if (old_position != (uint32_t) -1) {
+				it->current = array->nNumOfElements;
+			}
+			dllist_node = dllist_node->next;
 			continue;
 		}
 		// old_position < nNumUsed
@@ -365,15 +368,25 @@ static void teds_stricthashset_iterators_move_before_pack(teds_stricthashset_ent
 	} while (dllist_node != NULL);
 }
 
-static void teds_stricthashset_iterators_shift_to_new_end(teds_stricthashset_entries *array, teds_intrusive_dllist_node *dllist_node, const uint32_t removed_idx)
+/* Move iterators pointing to a removed entry to the entry before it, which may be before the start of the data (in which case calling next() would make it valid again).
+ * Positions of unused entries are resolved to the previous used entry the next time the iterator is used. */
+static void teds_stricthashset_iterators_adjust_after_remove(teds_stricthashset_entries *array, teds_intrusive_dllist_node *dllist_node, const uint32_t removed_idx, const uint32_t old_num_used)
 {
 	const uint32_t nNumUsed = array->nNumUsed;
-	ZEND_ASSERT(removed_idx >= nNumUsed);
 	do {
 		teds_stricthashset_it *const it = teds_stricthashset_it_from_node(dllist_node);
-		if (it->current >= nNumUsed) {
-			/* Move iterators to their new positions. Iterators where key() would be the removed key are shifted to the previous key (removed_idx - 1), which may be before the start of the data (in which case calling next() would make it valid again) */
-			it->current = (it->current >= removed_idx ? nNumUsed - 1 : nNumUsed);
+		if (it->current != (uint32_t) -1) {
+			if (it->current >= old_num_used) {
+				/* Still after the end */
+				it->current = nNumUsed;
+			} else {
+				if (it->current == removed_idx) {
+					it->current--;
+				}
+				if (it->current != (uint32_t) -1 && it->current >= nNumUsed) {
+					it->current = nNumUsed - 1;
+				}
+			}
 		}
 		dllist_node = dllist_node->next;
 	} while (dllist_node != NULL);
@@ -707,32 +720,43 @@ static void teds_stricthashset_it_dtor(zend_object_iterator *iter)
 
 static void teds_stricthashset_it_rewind(zend_object_iterator *iter)
 {
-	((teds_stricthashset_it*)iter)->current = 0;
+	((teds_stricthashset_it*)iter)->current = Z_STRICTHASHSET_ENTRIES_P(&iter->data)->nFirstUsed;
 }
 
-static int teds_stricthashset_it_valid(zend_object_iterator *iter)
+/* Returns the entry the iterator is pointing to, or NULL if it is before the first or after the last entry */
+static teds_stricthashset_entry *teds_stricthashset_it_find_entry(teds_stricthashset_it *iterator, const teds_stricthashset_entries *array)
 {
-	const teds_stricthashset_it      *iterator = (teds_stricthashset_it*)iter;
-	const teds_stricthashset_entries *array   = Z_STRICTHASHSET_ENTRIES_P(&iter->data);
-
 	ZEND_ASSERT((array->nNumUsed > 0) == (array->nNumOfElements > 0));
 	ZEND_ASSERT(array->nFirstUsed <= array->nNumUsed);
 
-	return iterator->current < array->nNumUsed && iterator->current >= array->nFirstUsed ? SUCCESS : FAILURE;
+	/* The entry at this position may have been removed, if so then move to the entry prior to it. */
+	while (iterator->current < array->nNumUsed) {
+		if (UNEXPECTED(iterator->current < array->nFirstUsed)) {
+			iterator->current = (uint32_t) -1;
+			return NULL;
+		}
+		teds_stricthashset_entry *const entry = &array->arData[iterator->current];
+		if (EXPECTED(!Z_ISUNDEF(entry->key))) {
+			return entry;
+		}
+		iterator->current--;
+	}
+	return NULL;
+}
+
+static int teds_stricthashset_it_valid(zend_object_iterator *iter)
+{
+	teds_stricthashset_it *iterator = (teds_stricthashset_it*)iter;
+	return teds_stricthashset_it_find_entry(iterator, Z_STRICTHASHSET_ENTRIES_P(&iter->data)) != NULL ? SUCCESS : FAILURE;
 }
 
-static teds_stricthashset_entry *teds_stricthashset_it_read_offset_helper(teds_stricthashset *intern, teds_stricthashset_it *iterator)
+static teds_stricthashset_entry *teds_stricthashset_it_read_offset_helper(const teds_stricthashset *intern, teds_stricthashset_it *iterator)
 {
-	teds_stricthashset_entry *const arData = intern->array.arData;
-	while (EXPECTED(iterator->current < intern->array.nNumUsed)) {
-		const zval *v = &arData[iterator->current].key;
-		if (EXPECTED(Z_TYPE_P(v) != IS_UNDEF)) {
-			return &arData[iterator->current];
-		}
-		iterator->current++;
+	teds_stricthashset_entry *const entry = teds_stricthashset_it_find_entry(iterator, &intern->array);
+	if (UNEXPECTED(entry == NULL)) {
+		zend_throw_exception(spl_ce_OutOfBoundsException, "Attempting to access iterator after the end of the Teds\\StrictHashSet", 0);
 	}
-	zend_throw_exception(spl_ce_OutOfBoundsException, "Attempting to access iterator after the end of the Teds\\StrictHashSet", 0);
-	return NULL;
+	return entry;
 }
 
 static zval *teds_stricthashset_it_get_current_data(zend_object_iterator *iter)
@@ -770,16 +794,12 @@ static void teds_stricthashset_it_move_forward(zend_object_iterator *iter)
 	if (it->current + 1 <= array->nFirstUsed) { /* Check for -1 (just before start of array) */
 		it->current = array->nFirstUsed;
 	} else if (it->current >= array->nNumUsed) {
-		ZEND_ASSERT(it->current == array->nNumUsed);
 		it->current = array->nNumUsed;
 	} else {
 		/* Move to the next valid position */
-		while (Z_ISUNDEF(array->arData[it->current].key)) {
+		do {
 			it->current++;
-			ZEND_ASSERT(it->current < array->nNumUsed);
-		}
-		it->current++;
-		ZEND_ASSERT(it->current <= array->nNumUsed);
+		} while (it->current < array->nNumUsed && Z_ISUNDEF(array->arData[it->current].key));
 	}
 }
 
@@ -962,14 +982,14 @@ static bool teds_stricthashset_entries_remove_key(teds_stricthashset_entries *ar
 
 	array->nNumOfElements--;
 	TEDS_SET_SHOULD_REBUILD_PROPERTIES(array, true);
-	if (array->nNumUsed - 1 == idx) {
+	const uint32_t old_num_used = array->nNumUsed;
+	if (old_num_used - 1 == idx) {
 		do {
 			array->nNumUsed--;
 		} while (array->nNumUsed > 0 && (UNEXPECTED(Z_TYPE(array->arData[array->nNumUsed-1].key) == IS_UNDEF)));
-
-		if (UNEXPECTED(array->active_iterators.first)) {
-			teds_stricthashset_iterators_shift_to_new_end(array, array->active_iterators.first, idx);
-		}
+	}
+	if (UNEXPECTED(array->active_iterators.first)) {
+		teds_stricthashset_iterators_adjust_after_remove(array, array->active_iterators.first, idx, old_num_used);
 	}
 	if (array->nFirstUsed == idx) {
 		if (array->nNumOfElements == 0) {
-- 
2.43.0


From 37b3f690f6cd921d552dc19a54de8f641ef98d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:18 +0000
Subject: [PATCH 17/75] fix: removing from or cloning a
 StrictTreeMap/StrictTreeSet lost the node colors that keep the tree balanced;
 unserializing an empty map or referenced set values broke assumptions

---
 teds_stricttreemap.c | 7 ++++++-
 teds_stricttreeset.c | 5 ++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/teds_stricttreemap.c b/teds_stricttreemap.c
index 89efe4f..10b3d33 100644
--- a/teds_stricttreemap.c
+++ b/teds_stricttreemap.c
@@ -458,6 +458,7 @@ cleanup_iter:
 static teds_stricttreemap_node *teds_stricttreemap_node_copy_ctor_recursive(const teds_stricttreemap_node *from, teds_stricttreemap_node *parent, teds_stricttreemap_node *left_parent_node, teds_stricttreemap_node *right_parent_node) {
 	ZEND_ASSERT(from != NULL);
 	teds_stricttreemap_node *copy = teds_stricttreemap_node_alloc(&from->key, &from->value, parent);
+	TEDS_STRICTTREEMAP_NODE_COLOR(copy) = TEDS_STRICTTREEMAP_NODE_COLOR(from);
 	if (from->left) {
 		copy->left = teds_stricttreemap_node_copy_ctor_recursive(from->left, copy, left_parent_node, copy);
 	} else {
@@ -858,6 +859,9 @@ PHP_METHOD(Teds_StrictTreeMap, __unserialize)
 	}
 
 	teds_stricttreemap_tree_set_empty_tree(tree);
+	if (raw_size == 0) {
+		return;
+	}
 
 	zend_string *str;
 	zval key;
@@ -1190,7 +1194,8 @@ static zend_always_inline teds_stricttreemap_node *teds_stricttreemap_node_remov
 			ZEND_ASSERT(right->parent == node);
 			RBTREE_INVARIANT_ASSERT(TEDS_STRICTTREEMAP_NODE_COLOR(right) == TEDS_NODE_RED);
 			right->parent = parent;
-			node->right = NULL;
+			/* The only child of the removed node is red. If the removed node was black, this restores the number of black nodes on the path. */
+			TEDS_STRICTTREEMAP_NODE_COLOR(right) = TEDS_NODE_BLACK;
 		}
 		if (parent->left == node) {
 			parent->left = right;
diff --git a/teds_stricttreeset.c b/teds_stricttreeset.c
index 748c478..be41d76 100644
--- a/teds_stricttreeset.c
+++ b/teds_stricttreeset.c
@@ -426,6 +426,7 @@ cleanup_iter:
 static teds_stricttreeset_node *teds_stricttreeset_node_copy_ctor_recursive(const teds_stricttreeset_node *from, teds_stricttreeset_node *parent, teds_stricttreeset_node *left_parent_node, teds_stricttreeset_node *right_parent_node) {
 	ZEND_ASSERT(from != NULL);
 	teds_stricttreeset_node *copy = teds_stricttreeset_node_alloc(&from->key, parent);
+	TEDS_STRICTTREESET_NODE_COLOR(copy) = TEDS_STRICTTREESET_NODE_COLOR(from);
 	if (from->left) {
 		copy->left = teds_stricttreeset_node_copy_ctor_recursive(from->left, copy, left_parent_node, copy);
 	} else {
@@ -842,6 +843,7 @@ PHP_METHOD(Teds_StrictTreeSet, __unserialize)
 			RETURN_THROWS();
 		}
 
+		ZVAL_DEREF(val);
 		if (nodes != NULL) {
 			if (EXPECTED(sorted_nodes_count == 0 || teds_stable_compare(val, &prev->key) > 0)) {
 				prev = teds_stricttreeset_node_alloc(val, NULL);
@@ -998,7 +1000,8 @@ static zend_always_inline teds_stricttreeset_node *teds_stricttreeset_node_remov
 			ZEND_ASSERT(right->parent == node);
 			RBTREE_INVARIANT_ASSERT(TEDS_STRICTTREESET_NODE_COLOR(right) == TEDS_NODE_RED);
 			right->parent = parent;
-			node->right = NULL;
+			/* The only child of the removed node is red. If the removed node was black, this restores the number of black nodes on the path. */
+			TEDS_STRICTTREESET_NODE_COLOR(right) = TEDS_NODE_BLACK;
 		}
 		if (parent->left == node) {
 			parent->left = right;
-- 
2.43.0


From 80f3cde84545a4019f366b6f66a379a636e4c33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:34 +0000
Subject: [PATCH 18/75] fix: StrictTreeMap/StrictTreeSet::clear left iterators
 pointing to freed nodes, and iterators started with an uninitialized flag

---
 teds_stricttreemap.c | 9 +++++++++
 teds_stricttreeset.c | 8 ++++++++
 2 files changed, 17 insertions(+)

diff --git a/teds_stricttreemap.c b/teds_stricttreemap.c
index 10b3d33..14fb225 100644
--- a/teds_stricttreemap.c
+++ b/teds_stricttreemap.c
@@ -830,6 +830,7 @@ zend_object_iterator *teds_stricttreemap_get_iterator(zend_class_entry *ce, zval
 	ZVAL_OBJ_COPY(&iterator->intern.data, obj);
 	iterator->intern.funcs = &teds_stricttreemap_it_funcs;
 	iterator->node = teds_stricttreemap_tree_get_first(&Z_STRICTTREEMAP_P(object)->tree);
+	iterator->is_before_first = false;
 	(void) ce;
 
 	teds_intrusive_dllist_prepend(&teds_stricttreemap_tree_from_object(obj)->active_iterators, &iterator->dllist_node);
@@ -1705,6 +1706,14 @@ static void teds_stricttreemap_tree_clear(teds_stricttreemap_tree *tree) {
 	if (teds_stricttreemap_tree_empty_size(tree)) {
 		return;
 	}
+	/* The nodes that iterators point to are about to be freed. As with removing every entry, the iterators move to before the first entry. */
+	for (teds_intrusive_dllist_node *dllist_node = tree->active_iterators.first; dllist_node != NULL; dllist_node = dllist_node->next) {
+		teds_stricttreemap_it *it = teds_stricttreemap_it_from_dllist_node(dllist_node);
+		if (it->node != NULL) {
+			it->node = NULL;
+			it->is_before_first = true;
+		}
+	}
 	teds_stricttreemap_tree array_copy = *tree;
 
 	teds_stricttreemap_tree_set_empty_tree(tree);
diff --git a/teds_stricttreeset.c b/teds_stricttreeset.c
index be41d76..6e98929 100644
--- a/teds_stricttreeset.c
+++ b/teds_stricttreeset.c
@@ -1372,6 +1372,14 @@ static void teds_stricttreeset_tree_clear(teds_stricttreeset_tree *tree) {
 	if (teds_stricttreeset_tree_empty_size(tree)) {
 		return;
 	}
+	/* The nodes that iterators point to are about to be freed. As with removing every entry, the iterators move to before the first entry. */
+	for (teds_intrusive_dllist_node *dllist_node = tree->active_iterators.first; dllist_node != NULL; dllist_node = dllist_node->next) {
+		teds_stricttreeset_it *it = teds_stricttreeset_it_from_dllist_node(dllist_node);
+		if (it->node != NULL) {
+			it->node = NULL;
+			it->is_before_first = true;
+		}
+	}
 	teds_stricttreeset_tree array_copy = *tree;
 
 	teds_stricttreeset_tree_set_empty_tree(tree);
-- 
2.43.0


From c807c3b4cdbb5d0d4a518f7cb548e62b74848b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:16 +0000
Subject: [PATCH 19/75] fix: StrictTreeSet iterators started with an
 uninitialized flag

---
 teds_stricttreeset.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/teds_stricttreeset.c b/teds_stricttreeset.c
index 6e98929..74558d6 100644
--- a/teds_stricttreeset.c
+++ b/teds_stricttreeset.c
@@ -794,6 +794,7 @@ zend_object_iterator *teds_stricttreeset_get_iterator(zend_class_entry *ce, zval
 	iterator->intern.funcs = &teds_stricttreeset_it_funcs;
 	teds_stricttreeset_node *node = teds_stricttreeset_tree_get_first(&Z_STRICTTREESET_P(object)->tree);
 	iterator->node = node;
+	iterator->is_before_first = false;
 	(void) ce;
 
 	teds_intrusive_dllist_prepend(&teds_stricttreeset_tree_from_object(obj)->active_iterators, &iterator->dllist_node);
-- 
2.43.0


From f226f96db8be2695966b776ff569eb4576a25687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:41 +0000
Subject: [PATCH 20/75] fix: sorted vectors and heaps built from an empty
 Traversable were left uninitialized

---
 teds_strictheap.c            | 2 +-
 teds_strictsortedvectormap.c | 4 ++--
 teds_strictsortedvectorset.c | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/teds_strictheap.c b/teds_strictheap.c
index 38456fa..3825395 100644
--- a/teds_strictheap.c
+++ b/teds_strictheap.c
@@ -144,7 +144,7 @@ static void teds_strictheap_entries_init_from_traversable(teds_strictheap_entrie
 	zend_object_iterator *iter;
 	array->size = 0;
 	array->capacity = 0;
-	array->entries = NULL;
+	array->entries = (zval *)empty_entry_list;
 	zval tmp_obj;
 	ZVAL_OBJ(&tmp_obj, obj);
 	iter = ce->get_iterator(ce, &tmp_obj, 0);
diff --git a/teds_strictsortedvectormap.c b/teds_strictsortedvectormap.c
index 5b0a443..908ed22 100644
--- a/teds_strictsortedvectormap.c
+++ b/teds_strictsortedvectormap.c
@@ -167,7 +167,7 @@ static void teds_strictsortedvectormap_entries_init_from_traversable(teds_strict
 	zend_object_iterator *iter;
 	array->size = 0;
 	array->capacity = 0;
-	array->entries = NULL;
+	array->entries = (teds_strictsortedvectormap_entry *)empty_entry_list;
 	zval tmp_obj;
 	ZVAL_OBJ(&tmp_obj, obj);
 	iter = ce->get_iterator(ce, &tmp_obj, 0);
@@ -538,7 +538,7 @@ static void teds_strictsortedvectormap_entries_init_from_traversable_pairs(teds_
 	zend_object_iterator *iter;
 	array->size = 0;
 	array->capacity = 0;
-	array->entries = NULL;
+	array->entries = (teds_strictsortedvectormap_entry *)empty_entry_list;
 	zval tmp_obj;
 	ZVAL_OBJ(&tmp_obj, obj);
 	iter = ce->get_iterator(ce, &tmp_obj, 0);
diff --git a/teds_strictsortedvectorset.c b/teds_strictsortedvectorset.c
index 348a58f..6e54043 100644
--- a/teds_strictsortedvectorset.c
+++ b/teds_strictsortedvectorset.c
@@ -267,7 +267,7 @@ static void teds_strictsortedvectorset_entries_init_from_traversable(teds_strict
 
 	array->size = size;
 	array->capacity = capacity;
-	array->entries = entries;
+	array->entries = entries ? entries : (zval *)empty_entry_list;
 	TEDS_SET_SHOULD_REBUILD_PROPERTIES(array, size > 0);
 	if (size > 1) {
 		teds_strictsortedvectorset_entries_sort_and_deduplicate(array);
-- 
2.43.0


From 6ce8515b17a6fd0ee3511edda4289ccc9b8d29fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:44 +0000
Subject: [PATCH 21/75] fix: fromPairs leaked the iterator when rewinding it
 threw

---
 teds_immutableiterable.c     | 1 +
 teds_mutableiterable.c       | 1 +
 teds_stricthashmap.c         | 1 +
 teds_strictsortedvectormap.c | 1 +
 teds_stricttreemap.c         | 1 +
 5 files changed, 5 insertions(+)

diff --git a/teds_immutableiterable.c b/teds_immutableiterable.c
index 350bced..c7160ce 100644
--- a/teds_immutableiterable.c
+++ b/teds_immutableiterable.c
@@ -677,6 +677,7 @@ static void teds_immutableiterable_entries_init_from_traversable_pairs(teds_immu
 	if (funcs->rewind) {
 		funcs->rewind(iter);
 		if (UNEXPECTED(EG(exception))) {
+			zend_iterator_dtor(iter);
 			return;
 		}
 	}
diff --git a/teds_mutableiterable.c b/teds_mutableiterable.c
index 263afab..8d44d67 100644
--- a/teds_mutableiterable.c
+++ b/teds_mutableiterable.c
@@ -811,6 +811,7 @@ static void teds_mutableiterable_entries_init_from_traversable_pairs(teds_mutabl
 	if (funcs->rewind) {
 		funcs->rewind(iter);
 		if (UNEXPECTED(EG(exception))) {
+			zend_iterator_dtor(iter);
 			return;
 		}
 	}
diff --git a/teds_stricthashmap.c b/teds_stricthashmap.c
index 466d11c..6270b40 100644
--- a/teds_stricthashmap.c
+++ b/teds_stricthashmap.c
@@ -995,6 +995,7 @@ static void teds_stricthashmap_entries_init_from_traversable_pairs(teds_strictha
 	if (funcs->rewind) {
 		funcs->rewind(iter);
 		if (UNEXPECTED(EG(exception))) {
+			zend_iterator_dtor(iter);
 			return;
 		}
 	}
diff --git a/teds_strictsortedvectormap.c b/teds_strictsortedvectormap.c
index 908ed22..b60991d 100644
--- a/teds_strictsortedvectormap.c
+++ b/teds_strictsortedvectormap.c
@@ -552,6 +552,7 @@ static void teds_strictsortedvectormap_entries_init_from_traversable_pairs(teds_
 	if (funcs->rewind) {
 		funcs->rewind(iter);
 		if (UNEXPECTED(EG(exception))) {
+			zend_iterator_dtor(iter);
 			return;
 		}
 	}
diff --git a/teds_stricttreemap.c b/teds_stricttreemap.c
index 14fb225..8184d7c 100644
--- a/teds_stricttreemap.c
+++ b/teds_stricttreemap.c
@@ -974,6 +974,7 @@ static void teds_stricttreemap_tree_init_from_traversable_pairs(teds_stricttreem
 	if (funcs->rewind) {
 		funcs->rewind(iter);
 		if (UNEXPECTED(EG(exception))) {
+			zend_iterator_dtor(iter);
 			return;
 		}
 	}
-- 
2.43.0


From 8332c433f16e84975022b7d301767a3027027d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:15 +0000
Subject: [PATCH 22/75] fix: iterating over a SortedIntVectorSet or
 ImmutableSortedIntSet violated an assumption given to the compiler

---
 teds_intvector.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/teds_intvector.c b/teds_intvector.c
index 463427f..aa35f45 100644
--- a/teds_intvector.c
+++ b/teds_intvector.c
@@ -894,8 +894,9 @@ static zend_always_inline void teds_intvector_maybe_adjust_iterators_before_inse
 
 zend_object_iterator *teds_intvector_get_iterator(zend_class_entry *ce, zval *object, int by_ref)
 {
-	// This is final
-	ZEND_ASSERT(ce == teds_ce_IntVector);
+	// These are final
+	ZEND_ASSERT(ce == teds_ce_IntVector || ce == teds_ce_SortedIntVectorSet || ce == teds_ce_ImmutableSortedIntSet);
+	(void)ce;
 	teds_intvector_it *iterator;
 
 	if (UNEXPECTED(by_ref)) {
@@ -910,6 +911,7 @@ zend_object_iterator *teds_intvector_get_iterator(zend_class_entry *ce, zval *ob
 	zend_object *obj = Z_OBJ_P(object);
 	ZVAL_OBJ_COPY(&iterator->intern.data, obj);
 	iterator->intern.funcs = &teds_intvector_it_funcs;
+	iterator->current = 0;
 	teds_intrusive_dllist_prepend(&teds_intvector_entries_from_object(obj)->active_iterators, &iterator->dllist_node);
 
 	return &iterator->intern;
-- 
2.43.0


From 53979b71840f77ee1a7cd4d69647b3700471a2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:18 +0000
Subject: [PATCH 23/75] fix: SortedIntVectorSet::indexOf returned false instead
 of null for values outside the range of the storage type

---
 teds_intvector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/teds_intvector.c b/teds_intvector.c
index aa35f45..4f46cc9 100644
--- a/teds_intvector.c
+++ b/teds_intvector.c
@@ -1621,7 +1621,7 @@ PHP_METHOD(Teds_SortedIntVectorSet, indexOf)
 #define TEDS_INTVECTOR__INT_CODEGEN(TEDS_INTVECTOR_TYPE_X, intx_t, entries_intx) \
 		case TEDS_INTVECTOR_TYPE_X: { \
 			const intx_t target = value; \
-			if (target != value) { RETURN_FALSE; } \
+			if (target != value) { RETURN_NULL(); } \
 			const intx_t *const entries = array->entries_intx; \
 			const intx_t *start = entries; \
 			const intx_t *end = start + len; \
-- 
2.43.0


From bc68d4bd74a775a98c1e65ea57dadf9bdca6d9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:21 +0000
Subject: [PATCH 24/75] fix: SortedIntVectorSet::add/remove did not keep
 iterators on their element

---
 teds_intvector.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/teds_intvector.c b/teds_intvector.c
index 4f46cc9..bdcae4d 100644
--- a/teds_intvector.c
+++ b/teds_intvector.c
@@ -1952,6 +1952,7 @@ static zend_always_inline bool teds_sortedintvectorset_entries_add(teds_intvecto
 				else { return false; /* Already exists */ } \
 			} \
 			/* The value at *start is > target */ \
+			teds_intvector_maybe_adjust_iterators_before_insert(array, start - entries, 1); \
 			memmove(start + 1, start, (entries + old_size - start) * sizeof(intx_t)); \
 			*start = target; \
 			break; \
@@ -1983,6 +1984,7 @@ static zend_always_inline bool teds_sortedintvectorset_entries_remove(teds_intve
 				if (target < *mid) { end = mid; }  \
 				else if (target > *mid) { start = mid + 1; }  \
 				else { \
+					teds_intvector_maybe_adjust_iterators_before_remove(array, mid - entries); \
 					memmove(mid, mid + 1, (entries + old_size - (mid + 1)) * sizeof(intx_t)); \
 					goto after_remove; \
 				} \
-- 
2.43.0


From 2154155cd4705280a051d11a125f21bf4738126b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:24 +0000
Subject: [PATCH 25/75] fix: cloning an ImmutableSortedIntSet shared and double
 freed its storage; __set_state of the sorted int sets created objects of the
 wrong class

---
 teds_intvector.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/teds_intvector.c b/teds_intvector.c
index bdcae4d..3bc613a 100644
--- a/teds_intvector.c
+++ b/teds_intvector.c
@@ -500,6 +500,17 @@ static zend_object *teds_immutablesortedintset_new(zend_class_entry *class_type)
 	return &intern->std;
 }
 
+static zend_object *teds_immutablesortedintset_clone(zend_object *old_object)
+{
+	zend_object *new_object = teds_immutablesortedintset_new(old_object->ce);
+
+	teds_intvector_entries_copy_ctor(&teds_intvector_from_object(new_object)->array, &teds_intvector_from_object(old_object)->array);
+
+	teds_assert_object_has_empty_member_list(new_object);
+
+	return new_object;
+}
+
 static zend_object *teds_intvector_clone(zend_object *old_object)
 {
 	zend_object *new_object = teds_intvector_new_ex(old_object->ce, old_object, 1);
@@ -1363,7 +1374,10 @@ PHP_METHOD(Teds_SortedIntVectorSet, __set_state)
 	ZEND_PARSE_PARAMETERS_START(1, 1)
 		Z_PARAM_ARRAY_HT(array_ht)
 	ZEND_PARSE_PARAMETERS_END();
-	zend_object *object = teds_sortedintvectorset_new(teds_ce_IntVector);
+	/* ImmutableSortedIntSet::__set_state is an alias of this */
+	zend_object *object = zend_get_called_scope(execute_data) == teds_ce_ImmutableSortedIntSet
+		? teds_immutablesortedintset_new(teds_ce_ImmutableSortedIntSet)
+		: teds_sortedintvectorset_new(teds_ce_SortedIntVectorSet);
 	teds_intvector_entries *array = teds_intvector_entries_from_object(object);
 	teds_intvector_entries_init_from_array_values(array, array_ht);
 
@@ -2469,7 +2483,7 @@ PHP_MINIT_FUNCTION(teds_intvector)
 	memcpy(&teds_handler_ImmutableSortedIntSet, &std_object_handlers, sizeof(zend_object_handlers));
 
 	teds_handler_ImmutableSortedIntSet.offset          = XtOffsetOf(teds_intvector, std);
-	// teds_handler_ImmutableSortedIntSet.clone_obj       = teds_immutablesortedintset_clone;
+	teds_handler_ImmutableSortedIntSet.clone_obj       = teds_immutablesortedintset_clone;
 	teds_handler_ImmutableSortedIntSet.count_elements  = teds_intvector_count_elements;
 	teds_handler_ImmutableSortedIntSet.get_properties_for = teds_intvector_get_properties_for;
 	teds_handler_ImmutableSortedIntSet.get_gc          = teds_intvector_get_gc;
-- 
2.43.0


From 7e28cdd1d7928685a7b944051ab67c0bb5d2ad6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:27 +0000
Subject: [PATCH 26/75] fix: unserializing int vectors and sets accepted type
 tag 0 as unreachable, leaked empty data and kept unsorted data after
 rejecting it

---
 teds_intvector.c | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/teds_intvector.c b/teds_intvector.c
index 3bc613a..9fec9e5 100644
--- a/teds_intvector.c
+++ b/teds_intvector.c
@@ -930,8 +930,6 @@ zend_object_iterator *teds_intvector_get_iterator(zend_class_entry *ce, zval *ob
 
 static void teds_intvector_entries_unserialize_from_string(teds_intvector_entries *array, const char *strval, const size_t str_byte_length, const uint8_t type_tag)
 {
-	ZEND_ASSERT(type_tag < TEDS_INTVECTOR_TYPE_COUNT);
-	array->type_tag = type_tag;
 	switch (type_tag) {
 		case TEDS_INTVECTOR_TYPE_INT32 + 1: /* 32-bit check */
 #ifndef TEDS_INTVECTOR_TYPE_INT64
@@ -947,6 +945,11 @@ static void teds_intvector_entries_unserialize_from_string(teds_intvector_entrie
 				zend_throw_exception_ex(spl_ce_RuntimeException, 0, "IntVector Unexpected binary length for type tag, expected multiple of 8 * 2**%d, got %d bytes", (int)shift, (int)str_byte_length);
 				return;
 			}
+			if (num_elements == 0) {
+				teds_intvector_entries_set_empty_list(array);
+				return;
+			}
+			array->type_tag = type_tag;
 			char *const values = emalloc(str_byte_length);
 			array->entries_int8 = (int8_t *)values;
 			array->size = num_elements;
@@ -989,14 +992,13 @@ static void teds_intvector_entries_unserialize_from_string(teds_intvector_entrie
 			break;
 		}
 		default:
-			ZEND_UNREACHABLE();
+			zend_throw_exception_ex(spl_ce_RuntimeException, 0, "IntVector unserialize got unsupported type tag %d", (int)type_tag);
+			return;
 	}
 }
 
 static void teds_immutablesortedintset_entries_unserialize_from_string(teds_intvector_entries *array, zend_string *src_str, const uint8_t type_tag)
 {
-	ZEND_ASSERT(type_tag < TEDS_INTVECTOR_TYPE_COUNT);
-	array->type_tag = type_tag;
 	switch (type_tag) {
 		case TEDS_INTVECTOR_TYPE_INT32 + 1: /* 32-bit check */
 #ifndef TEDS_INTVECTOR_TYPE_INT64
@@ -1013,6 +1015,11 @@ static void teds_immutablesortedintset_entries_unserialize_from_string(teds_intv
 				zend_throw_exception_ex(spl_ce_RuntimeException, 0, "ImmutableSortedIntSet Unexpected binary length for type tag, expected multiple of 8 * 2**%d, got %d bytes", (int)shift, (int)str_byte_length);
 				return;
 			}
+			if (num_elements == 0) {
+				teds_intvector_entries_set_empty_list(array);
+				return;
+			}
+			array->type_tag = type_tag;
 			array->size = num_elements;
 			array->capacity = num_elements;
 			/* FIXME assert result is sorted */
@@ -1071,7 +1078,8 @@ static void teds_immutablesortedintset_entries_unserialize_from_string(teds_intv
 			break;
 		}
 		default:
-			ZEND_UNREACHABLE();
+			zend_throw_exception_ex(spl_ce_RuntimeException, 0, "ImmutableSortedIntSet unserialize got unsupported type tag %d", (int)type_tag);
+			return;
 	}
 }
 
@@ -1165,6 +1173,8 @@ PHP_METHOD(Teds_SortedIntVectorSet, __unserialize)
 		RETURN_THROWS();
 	}
 	if (!teds_intvector_entries_is_sorted(type_tag, array->entries_uint8, array->size)) {
+		teds_intvector_entries_clear(array);
+		teds_intvector_entries_set_empty_list(array);
 		zend_throw_exception(spl_ce_RuntimeException, "Teds\\SortedIntVectorSet expected sorted values in __unserialize", 0);
 		RETURN_THROWS();
 	}
@@ -1217,6 +1227,8 @@ PHP_METHOD(Teds_ImmutableSortedIntSet, __unserialize)
 		RETURN_THROWS();
 	}
 	if (!teds_intvector_entries_is_sorted(type_tag, array->entries_uint8, array->size)) {
+		teds_immutablesortedintset_entries_clear(array);
+		teds_intvector_entries_set_empty_list(array);
 		zend_throw_exception(spl_ce_RuntimeException, "Teds\\ImmutableSortedIntSet expected sorted values in __unserialize", 0);
 		RETURN_THROWS();
 	}
@@ -1238,10 +1250,15 @@ PHP_METHOD(Teds_IntVector, unserialize)
 	} else {
 		if (len < 2) {
 			zend_throw_exception(spl_ce_RuntimeException, "IntVector::unserialize expected at least 2 bytes", 0);
+			zend_object_release(new_object);
 			RETURN_THROWS();
 		}
 		const uint8_t type_tag = ZSTR_VAL(zstr)[len - 1];
 		teds_intvector_entries_unserialize_from_string(array, ZSTR_VAL(zstr), len - 1, type_tag);
+		if (UNEXPECTED(EG(exception))) {
+			zend_object_release(new_object);
+			RETURN_THROWS();
+		}
 	}
 	RETURN_OBJ(new_object);
 }
-- 
2.43.0


From 504149ba77b1625fa4faa952874643b232bcb59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:55 +0000
Subject: [PATCH 27/75] fix: ImmutableSortedStringSet built from a Traversable
 used strings the iterator had freed

---
 teds_immutablesortedstringset.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/teds_immutablesortedstringset.c b/teds_immutablesortedstringset.c
index 1482d43..591d239 100644
--- a/teds_immutablesortedstringset.c
+++ b/teds_immutablesortedstringset.c
@@ -215,7 +215,8 @@ static void teds_immutablesortedstringset_entries_init_from_traversable(teds_imm
 				raw_zend_strings = emalloc(capacity * sizeof(zend_string *));
 			}
 		}
-		raw_zend_strings[size++] = value;
+		/* The iterator may free the string when moving forward */
+		raw_zend_strings[size++] = zend_string_copy(value);
 
 		iter->index++;
 		funcs->move_forward(iter);
@@ -224,11 +225,15 @@ static void teds_immutablesortedstringset_entries_init_from_traversable(teds_imm
 		}
 	}
 
-	/* free excess capacity */
-	teds_immutablesortedstringset_entries_sort_and_deduplicate_and_set_list(array, raw_zend_strings, size);
+	if (size > 0) {
+		teds_immutablesortedstringset_entries_sort_and_deduplicate_and_set_list(array, raw_zend_strings, size);
+	}
 
 cleanup:
 	if (raw_zend_strings) {
+		for (uint32_t i = 0; i < size; i++) {
+			zend_string_release(raw_zend_strings[i]);
+		}
 		efree(raw_zend_strings);
 	}
 	if (iter) {
-- 
2.43.0


From fc27a92e313fbe4e07c3761713486f46c3b55fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:58 +0000
Subject: [PATCH 28/75] fix: a cloned ImmutableSortedStringSet had no substring
 offsets

---
 teds_immutablesortedstringset.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/teds_immutablesortedstringset.c b/teds_immutablesortedstringset.c
index 591d239..0cfd6ba 100644
--- a/teds_immutablesortedstringset.c
+++ b/teds_immutablesortedstringset.c
@@ -249,7 +249,8 @@ static void teds_immutablesortedstringset_entries_copy_ctor(teds_immutablesorted
 		return;
 	}
 
-	/* FIXME copy the entry instead */
+	to->substring_infos = safe_emalloc(size, sizeof(teds_immutablesortedstringset_substring_info), 0);
+	memcpy(to->substring_infos, from->substring_infos, size * sizeof(teds_immutablesortedstringset_substring_info));
 	to->size = from->size;
 	to->raw_bytes = from->raw_bytes;
 	zend_string *str = teds_immutablesortedstringset_entries_get_backing_zend_string(from);
-- 
2.43.0


From 0022cc0920c89cb7450207e162ce7df3ec24817c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:00 +0000
Subject: [PATCH 29/75] fix: iterating over an ImmutableSortedStringSet leaked
 a string per element

---
 teds_immutablesortedstringset.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/teds_immutablesortedstringset.c b/teds_immutablesortedstringset.c
index 0cfd6ba..ca65351 100644
--- a/teds_immutablesortedstringset.c
+++ b/teds_immutablesortedstringset.c
@@ -406,6 +406,7 @@ PHP_METHOD(Teds_ImmutableSortedStringSet, getIterator)
 
 static void teds_immutablesortedstringset_it_dtor(zend_object_iterator *iter)
 {
+	zval_ptr_dtor(&((teds_immutablesortedstringset_it*)iter)->tmp);
 	zval_ptr_dtor(&iter->data);
 }
 
@@ -435,6 +436,8 @@ static zval *teds_immutablesortedstringset_it_get_current_data(zend_object_itera
 		teds_throw_invalid_sequence_index_exception();
 		return &EG(uninitialized_zval);
 	}
+	/* Free the string created by the previous call */
+	zval_ptr_dtor(&iterator->tmp);
 	return teds_immutablesortedstringset_entries_read_offset(array, iterator->current, &iterator->tmp);
 }
 
@@ -486,6 +489,8 @@ zend_object_iterator *teds_immutablesortedstringset_get_iterator(zend_class_entr
 
 	ZVAL_OBJ_COPY(&iterator->intern.data, Z_OBJ_P(object));
 	iterator->intern.funcs = &teds_immutablesortedstringset_it_funcs;
+	iterator->current = 0;
+	ZVAL_UNDEF(&iterator->tmp);
 
 	return &iterator->intern;
 }
-- 
2.43.0


From b63954fef173babc51ea35b4b269d9599be3f039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:03 +0000
Subject: [PATCH 30/75] fix: unserializing an ImmutableSortedStringSet read
 past the end of the data and leaked on errors

---
 teds_immutablesortedstringset.c | 5 +++++
 teds_serialize_util.h           | 6 ++----
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/teds_immutablesortedstringset.c b/teds_immutablesortedstringset.c
index ca65351..6acf627 100644
--- a/teds_immutablesortedstringset.c
+++ b/teds_immutablesortedstringset.c
@@ -532,6 +532,7 @@ not_enough_data:
 		/* it and num_strings are read and moved by reference */
 		if (!teds_serialize_read_variable_len_size(&it, end, &substr_len)) {
 			ZEND_ASSERT(EG(exception));
+			efree(substring_infos);
 			return;
 		}
 		// fprintf(stderr, "substr_len=%d end=%p it=%p end-it=%d\n", substr_len, end, it, (int)(end-it));
@@ -604,6 +605,10 @@ PHP_METHOD(Teds_ImmutableSortedStringSet, unserialize)
 		teds_immutablesortedstringset_entries_set_empty_list(array);
 	} else {
 		teds_immutablesortedstringset_entries_unserialize_from_zend_string(array, zstr);
+		if (UNEXPECTED(EG(exception))) {
+			zend_object_release(new_object);
+			RETURN_THROWS();
+		}
 	}
 	RETURN_OBJ(new_object);
 }
diff --git a/teds_serialize_util.h b/teds_serialize_util.h
index 9b2c007..89508a6 100644
--- a/teds_serialize_util.h
+++ b/teds_serialize_util.h
@@ -14,9 +14,7 @@ static zend_always_inline HashTable *teds_create_serialize_pair(const uint8_t ty
 static zend_always_inline uint16_t teds_serialize_read_uint16_t(const uint8_t *data) {
 	return
 		(data[0] << 0) +
-		(data[1] << 8) +
-		(data[2] << 16) +
-		(data[3] << 24);
+		(data[1] << 8);
 }
 
 static zend_always_inline void teds_serialize_write_uint16_t(uint8_t *dst, uint16_t value)
@@ -31,7 +29,7 @@ static zend_always_inline uint32_t teds_serialize_read_uint32_t(const uint8_t *d
 		(data[0] << 0) +
 		(data[1] << 8) +
 		(data[2] << 16) +
-		(data[3] << 24);
+		((uint32_t)data[3] << 24);
 }
 
 static zend_always_inline void teds_serialize_write_uint32_t(uint8_t *dst, uint32_t value)
-- 
2.43.0


From ebd2035a1ebcf81a9068c68d4c88da0f7377aa6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:00 +0000
Subject: [PATCH 31/75] fix: StrictMinHeap/StrictMaxHeap extract could return
 elements out of order: removal and insertion disagreed on the parent of an
 offset

---
 teds_strictheap.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/teds_strictheap.c b/teds_strictheap.c
index 3825395..e746ec9 100644
--- a/teds_strictheap.c
+++ b/teds_strictheap.c
@@ -467,16 +467,18 @@ static zend_always_inline void teds_strictheap_entries_remove_top(teds_stricthea
 	zval *replacement = &entries[len];
 	uint32_t offset = 0;
 
-	/*    0
-	 *  1   2
-	 * 3 4 5 6 */
+	/* The parent of an offset is offset >> 1, as in teds_strictheap_entries_insert: 0 only has the child 1.
+	 *    0
+	 *    1
+	 *  2   3
+	 * 4 5 6 7 */
 	while (true) {
-		uint32_t new_offset = offset * 2 + 1;
+		uint32_t new_offset = offset == 0 ? 1 : offset * 2;
 		if (new_offset >= len) {
 			break;
 		}
 		zval *new_entry = &entries[new_offset];
-		if (new_offset + 1 < len) {
+		if (offset != 0 && new_offset + 1 < len) {
 			if (teds_strictheap_should_be_above(new_entry + 1, new_entry, is_min_heap)) {
 				new_offset++;
 				new_entry++;
-- 
2.43.0


From 7c6466153ce75dc24ba500fec92b43ec7d5fcf53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:02 +0000
Subject: [PATCH 32/75] fix: StrictMaxHeap::__set_state created a StrictMinHeap

---
 teds_strictheap.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/teds_strictheap.c b/teds_strictheap.c
index e746ec9..abbd1b2 100644
--- a/teds_strictheap.c
+++ b/teds_strictheap.c
@@ -450,9 +450,9 @@ PHP_METHOD(Teds_StrictMaxHeap, __set_state)
 	ZEND_PARSE_PARAMETERS_START(1, 1)
 		Z_PARAM_ARRAY_HT(array_ht)
 	ZEND_PARSE_PARAMETERS_END();
-	zend_object *object = teds_strictheap_new(teds_ce_StrictMinHeap);
+	zend_object *object = teds_strictheap_new(teds_ce_StrictMaxHeap);
 	teds_strictheap *intern = teds_strictheap_from_object(object);
-	teds_strictheap_entries_init_from_array(&intern->array, array_ht, true);
+	teds_strictheap_entries_init_from_array(&intern->array, array_ht, false);
 
 	RETURN_OBJ(object);
 }
-- 
2.43.0


From d8f82031b3e826195be9f1fea002205514cd7f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:48 +0000
Subject: [PATCH 33/75] fix: any/all/none without a callback released values of
 a Traversable that they did not own

---
 teds.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/teds.c b/teds.c
index d5ae4ad..d014e01 100644
--- a/teds.c
+++ b/teds.c
@@ -255,7 +255,6 @@ static int teds_traversable_func_until(zend_object_iterator *iter, void *puser)
 		}
 		ZVAL_DEREF(operand);
 		stop = zend_is_true(operand) == until_info->stop_value;
-		zval_ptr_dtor(operand);
 	}
 	if (stop) {
 		until_info->found = true;
-- 
2.43.0


From f11f7dfb9e94c65a9059e158ddd6576a105c7629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:51 +0000
Subject: [PATCH 34/75] fix: any/all/none/fold/find used a value of a
 Traversable after the callback had freed it, or leaked it when the callback
 threw

---
 teds.c | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/teds.c b/teds.c
index d014e01..a938ef0 100644
--- a/teds.c
+++ b/teds.c
@@ -139,7 +139,8 @@ static int teds_traversable_reduce_elem(zend_object_iterator *iter, void *puser)
 	ZVAL_COPY(&reduce_data->args[1], operand);
 	ZVAL_NULL(fci->retval);
 	int result = zend_call_function(&reduce_data->fci, &reduce_data->fcc);
-	zval_ptr_dtor(operand);
+	/* The callback may have freed or replaced what operand points to */
+	zval_ptr_dtor(&reduce_data->args[1]);
 	zval_ptr_dtor(&reduce_data->args[0]);
 	if (UNEXPECTED(result == FAILURE || EG(exception))) {
 		return ZEND_HASH_APPLY_STOP;
@@ -232,15 +233,15 @@ static int teds_traversable_func_until(zend_object_iterator *iter, void *puser)
 			until_info->result = FAILURE;
 			return ZEND_HASH_APPLY_STOP;
 		}
-		ZVAL_DEREF(operand);
+		/* The callback may free or replace what operand points to */
+		zval arg;
+		ZVAL_COPY_DEREF(&arg, operand);
 		fci.retval = &retval;
 		fci.param_count = 1;
-		/* Use the operand like an array of size 1 */
-		fci.params = operand;
-		fci.retval = &retval;
-		Z_TRY_ADDREF_P(operand);
+		/* Use the argument like an array of size 1 */
+		fci.params = &arg;
 		result = zend_call_function(&fci, &until_info->fcc);
-		zval_ptr_dtor(operand);
+		zval_ptr_dtor(&arg);
 		if (result == FAILURE) {
 			until_info->result = FAILURE;
 			return ZEND_HASH_APPLY_STOP;
@@ -810,27 +811,29 @@ static int teds_traversable_find_elem(zend_object_iterator *iter, void *puser) /
 	if (UNEXPECTED(!operand || EG(exception))) {
 		return ZEND_HASH_APPLY_STOP;
 	}
-	ZVAL_DEREF(operand);
+	/* The callback may free or replace what operand points to */
+	zval arg;
+	ZVAL_COPY_DEREF(&arg, operand);
     // Treat this as a 1-element array.
-	fci->params = operand;
+	fci->params = &arg;
 	fci->retval = &retval;
-	Z_TRY_ADDREF_P(operand);
 	int result = zend_call_function(&find_data->fci, &find_data->fcc);
 	if (UNEXPECTED(result == FAILURE || EG(exception))) {
+		zval_ptr_dtor(&arg);
 		return ZEND_HASH_APPLY_STOP;
 	}
-	fci->retval = &retval;
 	bool found = zend_is_true(&retval);
 	zval_ptr_dtor(&retval);
 	if (UNEXPECTED(EG(exception))) {
+		zval_ptr_dtor(&arg);
 		return ZEND_HASH_APPLY_STOP;
 	}
 	if (found) {
-		ZVAL_COPY_VALUE(find_data->return_value, operand);
+		ZVAL_COPY_VALUE(find_data->return_value, &arg);
 		find_data->found = 1;
 		return ZEND_HASH_APPLY_STOP;
 	}
-	zval_ptr_dtor(operand);
+	zval_ptr_dtor(&arg);
 	return ZEND_HASH_APPLY_KEEP;
 }
 
-- 
2.43.0


From 2df97538b642b43e53ef71d5c0b9dfc518dc98bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:53 +0000
Subject: [PATCH 35/75] fix: find() on an array leaked what the callback
 returned, and returned references

---
 teds.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/teds.c b/teds.c
index a938ef0..897dd26 100644
--- a/teds.c
+++ b/teds.c
@@ -772,11 +772,13 @@ static zend_always_inline void teds_array_find(HashTable *htbl, zend_fcall_info
 
 			if (zend_call_function(&fci, &fci_cache) == SUCCESS) {
 				bool found = zend_is_true(&retval);
+				zval_ptr_dtor(&retval);
 				if (found) {
-					ZVAL_COPY_VALUE(return_value, operand);
+					ZVAL_COPY_DEREF(return_value, operand);
+				}
+				zval_ptr_dtor(operand);
+				if (found || UNEXPECTED(EG(exception))) {
 					return;
-				} else {
-					zval_ptr_dtor(operand);
 				}
 			} else {
 				zval_ptr_dtor(operand);
-- 
2.43.0


From 889dd9d402bb6b2e9bd9f028b7f9df1603cc1267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:02 +0000
Subject: [PATCH 36/75] fix: CachedIterable searches compared only the first
 entry that was not cached yet

---
 teds_cachediterable.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/teds_cachediterable.c b/teds_cachediterable.c
index 7a6aa51..69026f3 100644
--- a/teds_cachediterable.c
+++ b/teds_cachediterable.c
@@ -876,6 +876,7 @@ PHP_METHOD(Teds_CachedIterable, indexOfKey)
 		if (teds_is_identical_inline(key, &array->entries[i].key)) {
 			RETURN_LONG(i);
 		}
+		i++;
 	}
 	RETURN_NULL();
 }
@@ -906,6 +907,7 @@ PHP_METHOD(Teds_CachedIterable, indexOfValue)
 		if (teds_is_identical_inline(value, &array->entries[i].value)) {
 			RETURN_LONG(i);
 		}
+		i++;
 	}
 	RETURN_NULL();
 }
@@ -936,6 +938,7 @@ PHP_METHOD(Teds_CachedIterable, containsKey)
 		if (teds_is_identical_inline(key, &array->entries[i].key)) {
 			RETURN_TRUE;
 		}
+		i++;
 	}
 	RETURN_FALSE;
 }
@@ -966,6 +969,7 @@ PHP_METHOD(Teds_CachedIterable, contains)
 		if (teds_is_identical_inline(value, &array->entries[i].value)) {
 			RETURN_TRUE;
 		}
+		i++;
 	}
 	RETURN_FALSE;
 }
-- 
2.43.0


From b0d1e7bc9a6091572cd602573eb613eb5be3619e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:04 +0000
Subject: [PATCH 37/75] fix: count(), toPairs() and jsonSerialize() of a
 CachedIterable left out the entries that were not cached yet

---
 teds_cachediterable.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/teds_cachediterable.c b/teds_cachediterable.c
index 69026f3..cd00b86 100644
--- a/teds_cachediterable.c
+++ b/teds_cachediterable.c
@@ -416,8 +416,15 @@ static zend_object *teds_cachediterable_new(zend_class_entry *class_type)
 
 TEDS_COUNT_ELEMENTS_RETURN_TYPE teds_size_t_count_elements(zend_object *object, zend_long *count)
 {
-	const teds_cachediterable *intern = teds_cachediterable_from_object(object);
-	*count = intern->array.size;
+	teds_cachediterable_entries *array = &teds_cachediterable_from_object(object)->array;
+	teds_cachediterable_entries_fetch_all(array);
+	if (UNEXPECTED(array->end_exception) && !EG(exception)) {
+		teds_cachediterable_entries_throw_end_exception(array);
+	}
+	if (UNEXPECTED(EG(exception))) {
+		return FAILURE;
+	}
+	*count = array->size;
 	return SUCCESS;
 }
 
@@ -976,11 +983,11 @@ PHP_METHOD(Teds_CachedIterable, contains)
 
 static void teds_cachediterable_entries_return_pairs(zval *return_value, teds_cachediterable_entries *array)
 {
+	TEDS_CACHEDITERABLE_ENTRIES_FETCH_ALL_OR_THROW(array);
 	const uint32_t len = array->size;
 	if (!len) {
 		RETURN_EMPTY_ARRAY();
 	}
-	TEDS_CACHEDITERABLE_ENTRIES_FETCH_ALL_OR_THROW(array);
 
 	zval_pair *entries = array->entries;
 	RETURN_ARR(teds_zval_pairs_to_refcounted_pairs(entries, len));
-- 
2.43.0


From 42d0c6369ce4499ec8af807c16e8ab5afa35695a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:06 +0000
Subject: [PATCH 38/75] fix: fetching all entries of a CachedIterable from
 within its own Traversable never ended

---
 teds_cachediterable.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/teds_cachediterable.c b/teds_cachediterable.c
index cd00b86..d558d49 100644
--- a/teds_cachediterable.c
+++ b/teds_cachediterable.c
@@ -242,7 +242,10 @@ handle_exception:
 static zend_always_inline void teds_cachediterable_entries_fetch_all(teds_cachediterable_entries *array)
 {
 	while (array->iter) {
-		teds_cachediterable_entries_lazy_fetch_next(array);
+		if (!teds_cachediterable_entries_lazy_fetch_next(array)) {
+			/* Reached the end, or threw (e.g. for reentry while the inner Traversable is being called) */
+			return;
+		}
 	}
 }
 
-- 
2.43.0


From 550547a84c1ba50f8b905f8868addb9ce2fcb069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:08 +0000
Subject: [PATCH 39/75] fix: unserializing an empty CachedIterable leaked
 memory and left it in an invalid state

---
 teds_cachediterable.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/teds_cachediterable.c b/teds_cachediterable.c
index d558d49..2454a96 100644
--- a/teds_cachediterable.c
+++ b/teds_cachediterable.c
@@ -643,6 +643,11 @@ PHP_METHOD(Teds_CachedIterable, __unserialize)
 
 	ZEND_ASSERT(array->entries == NULL);
 
+	if (raw_size == 0) {
+		teds_cachediterable_entries_set_empty_list(array);
+		return;
+	}
+
 	const uint32_t num_entries = raw_size / 2;
 	zval_pair *entries = safe_emalloc(num_entries, sizeof(zval_pair), 0);
 	zval *it = &entries[0].key;
-- 
2.43.0


From ce8bd6c5b86c47bfd38a63e28132b23377747602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:31 +0000
Subject: [PATCH 40/75] fix: empty MutableIterable and ImmutableIterable made
 by fromPairs(), __set_state() or unserialize() were left uninitialized or
 leaked

---
 teds_immutableiterable.c | 28 +++++++++++++++++++---------
 teds_mutableiterable.c   | 32 ++++++++++++++++++++------------
 2 files changed, 39 insertions(+), 21 deletions(-)

diff --git a/teds_immutableiterable.c b/teds_immutableiterable.c
index c7160ce..a86e65f 100644
--- a/teds_immutableiterable.c
+++ b/teds_immutableiterable.c
@@ -580,6 +580,10 @@ PHP_METHOD(Teds_ImmutableIterable, __unserialize)
 	}
 
 	ZEND_ASSERT(intern->array.entries == NULL);
+	if (raw_size == 0) {
+		teds_immutableiterable_entries_set_empty_list(&intern->array);
+		return;
+	}
 
 	const uint32_t num_entries = raw_size / 2;
 	zval_pair *entries = safe_emalloc(num_entries, sizeof(zval_pair), 0);
@@ -632,8 +636,7 @@ static void teds_immutableiterable_entries_init_from_array_pairs(teds_immutablei
 {
 	uint32_t num_entries = zend_hash_num_elements(raw_data);
 	if (num_entries == 0) {
-		array->size = 0;
-		array->entries = NULL;
+		teds_immutableiterable_entries_set_empty_list(array);
 		return;
 	}
 	zval_pair *entries = safe_emalloc(num_entries, sizeof(zval_pair), 0);
@@ -649,7 +652,8 @@ static void teds_immutableiterable_entries_init_from_array_pairs(teds_immutablei
 	ZEND_ASSERT(actual_size <= num_entries);
 	if (UNEXPECTED(!actual_size)) {
 		efree(entries);
-		entries = NULL;
+		teds_immutableiterable_entries_set_empty_list(array);
+		return;
 	}
 
 	array->entries = entries;
@@ -711,13 +715,19 @@ static void teds_immutableiterable_entries_init_from_traversable_pairs(teds_immu
 			break;
 		}
 	}
-	if (capacity > size) {
-		/* Shrink allocated value to actual required size */
-		entries = erealloc(entries, size * sizeof(zval_pair));
+	if (size == 0) {
+		if (entries) {
+			efree(entries);
+		}
+		teds_immutableiterable_entries_set_empty_list(array);
+	} else {
+		if (capacity > size) {
+			/* Shrink allocated value to actual required size */
+			entries = erealloc(entries, size * sizeof(zval_pair));
+		}
+		array->size = size;
+		array->entries = entries;
 	}
-
-	array->size = size;
-	array->entries = entries ? entries : (zval_pair *)empty_entry_list;
 	if (iter) {
 		zend_iterator_dtor(iter);
 	}
diff --git a/teds_mutableiterable.c b/teds_mutableiterable.c
index 8d44d67..5381ded 100644
--- a/teds_mutableiterable.c
+++ b/teds_mutableiterable.c
@@ -709,6 +709,10 @@ PHP_METHOD(Teds_MutableIterable, __unserialize)
 	}
 
 	ZEND_ASSERT(intern->array.entries == NULL);
+	if (raw_size == 0) {
+		teds_mutableiterable_entries_set_empty_list(&intern->array);
+		return;
+	}
 
 	const uint32_t num_entries = raw_size / 2;
 	zval_pair *entries = safe_emalloc(num_entries, sizeof(zval_pair), 0);
@@ -762,9 +766,7 @@ static void teds_mutableiterable_entries_init_from_array_pairs(teds_mutableitera
 {
 	uint32_t num_entries = zend_hash_num_elements(raw_data);
 	if (num_entries == 0) {
-		array->size = 0;
-		array->capacity = 0;
-		array->entries = NULL;
+		teds_mutableiterable_entries_set_empty_list(array);
 		return;
 	}
 	zval_pair *entries = safe_emalloc(num_entries, sizeof(zval_pair), 0);
@@ -780,8 +782,8 @@ static void teds_mutableiterable_entries_init_from_array_pairs(teds_mutableitera
 	ZEND_ASSERT(actual_size <= num_entries);
 	if (UNEXPECTED(!actual_size)) {
 		efree(entries);
-		entries = NULL;
-		num_entries = 0;
+		teds_mutableiterable_entries_set_empty_list(array);
+		return;
 	}
 
 	array->entries = entries;
@@ -845,14 +847,20 @@ static void teds_mutableiterable_entries_init_from_traversable_pairs(teds_mutabl
 			break;
 		}
 	}
-	if (capacity > size) {
-		/* Shrink allocated value to actual required size */
-		entries = erealloc(entries, size * sizeof(zval_pair));
+	if (size == 0) {
+		if (entries) {
+			efree(entries);
+		}
+		teds_mutableiterable_entries_set_empty_list(array);
+	} else {
+		if (capacity > size) {
+			/* Shrink allocated value to actual required size */
+			entries = erealloc(entries, size * sizeof(zval_pair));
+		}
+		array->size = size;
+		array->capacity = size;
+		array->entries = entries;
 	}
-
-	array->size = size;
-	array->capacity = size;
-	array->entries = entries ? entries : (zval_pair *)empty_entry_list;
 	if (iter) {
 		zend_iterator_dtor(iter);
 	}
-- 
2.43.0


From b86bad8e1e0da7811939fa7f64aab41708e8ee15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:32 +0000
Subject: [PATCH 41/75] fix: MutableIterable::setSize() used the wrong size
 when shrinking the storage

---
 teds_mutableiterable.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/teds_mutableiterable.c b/teds_mutableiterable.c
index 5381ded..a2d029a 100644
--- a/teds_mutableiterable.c
+++ b/teds_mutableiterable.c
@@ -530,7 +530,6 @@ PHP_METHOD(Teds_MutableIterable, setSize)
 
 		/* If only a quarter of the reserved space is used, then shrink the capacity but leave some room to grow. */
 		if ((zend_ulong) size < (intern->array.capacity >> 2)) {
-			const uint32_t size = old_size - 1;
 			const uint32_t capacity = size > 2 ? size * 2 : 4;
 			if (capacity < intern->array.capacity) {
 				teds_mutableiterable_shrink_capacity(&intern->array, size, capacity, old_entries);
-- 
2.43.0


From 14cf518d7b8909dd9f6d3a9731b597c48cd7424d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:40 +0000
Subject: [PATCH 42/75] fix: an exception from valid() of the Traversable was
 forgotten by CachedIterable

---
 teds_cachediterable.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/teds_cachediterable.c b/teds_cachediterable.c
index 2454a96..92122c2 100644
--- a/teds_cachediterable.c
+++ b/teds_cachediterable.c
@@ -234,6 +234,9 @@ handle_exception:
 		array->is_calling_inner = false;
 		return true;
 	}
+	if (UNEXPECTED(EG(exception))) {
+		goto handle_exception;
+	}
 	array->is_calling_inner = false;
 	teds_cachediterable_entries_free_inner_traversable(array);
 	return false;
-- 
2.43.0


From 29a9a9a02287ca2ef684fc4422f488c3fe74ac65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:00 +0000
Subject: [PATCH 43/75] fix: CachedIterable carried on after throwing that the
 underlying Traversable had failed

---
 teds_cachediterable.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/teds_cachediterable.c b/teds_cachediterable.c
index 92122c2..2755710 100644
--- a/teds_cachediterable.c
+++ b/teds_cachediterable.c
@@ -274,6 +274,7 @@ static zend_always_inline bool teds_cachediterable_entries_ensure_offset_exists(
 		} \
 	} else if (UNEXPECTED((array)->end_exception)) {  \
 		teds_cachediterable_entries_throw_end_exception((array)); \
+		RETURN_THROWS(); \
 	} \
 } while(0)
 
-- 
2.43.0


From 8c6541177db2ebc8bc85056051de0eaa2e670ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:31 +0000
Subject: [PATCH 44/75] fix: EmptySequence::offsetGet() and offsetExists()
 neither answered nor threw for offsets such as '1'

---
 teds_emptycollection.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/teds_emptycollection.c b/teds_emptycollection.c
index 29b0c57..9c734d1 100644
--- a/teds_emptycollection.c
+++ b/teds_emptycollection.c
@@ -232,7 +232,9 @@ PHP_METHOD(Teds_EmptySequence, offsetGet)
 
 	if (UNEXPECTED(Z_TYPE_P(offset_zv) != IS_LONG)) {
 		teds_get_offset(offset_zv); /* Throws for invalid type */
-		RETURN_THROWS();
+		if (UNEXPECTED(EG(exception))) {
+			RETURN_THROWS();
+		}
 	}
 	teds_throw_invalid_sequence_index_exception();
 }
@@ -279,7 +281,9 @@ PHP_METHOD(Teds_EmptySequence, offsetExists)
 
 	if (UNEXPECTED(Z_TYPE_P(offset_zv) != IS_LONG)) {
 		teds_get_offset(offset_zv); /* Throws for invalid type */
-		RETURN_THROWS();
+		if (UNEXPECTED(EG(exception))) {
+			RETURN_THROWS();
+		}
 	}
 	RETURN_FALSE;
 }
-- 
2.43.0


From bc33105d65de51b9765a6812eb0245d064b01633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:33 +0000
Subject: [PATCH 45/75] fix: EmptyMap::offsetGet() returned null instead of
 throwing

---
 teds_emptycollection.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/teds_emptycollection.c b/teds_emptycollection.c
index 9c734d1..3128a0a 100644
--- a/teds_emptycollection.c
+++ b/teds_emptycollection.c
@@ -246,7 +246,7 @@ PHP_METHOD(Teds_EmptyMap, offsetGet)
 		Z_PARAM_ZVAL(offset_zv)
 	ZEND_PARSE_PARAMETERS_END();
 
-	RETURN_NULL();
+	TEDS_THROW_MISSING_MAP_KEY_EXCEPTION();
 }
 
 PHP_METHOD(Teds_EmptyMap, offsetUnset)
-- 
2.43.0


From 16fc1d9fe0affec55767864670b44f8fa40055e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:17 +0000
Subject: [PATCH 46/75] fix: contains() of EmptySequence and EmptySet treated
 the value as an offset

---
 teds_emptycollection.stub.php  | 3 +--
 teds_emptycollection_arginfo.h | 4 ++--
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/teds_emptycollection.stub.php b/teds_emptycollection.stub.php
index 240f340..7cb1919 100644
--- a/teds_emptycollection.stub.php
+++ b/teds_emptycollection.stub.php
@@ -115,7 +115,6 @@ enum EmptySequence implements \Iterator, Sequence, \JsonSerializable
     public function indexOf(mixed $value): ?int {}
     /**
      * @return false
-     * @implementation-alias Teds\EmptySequence::offsetExists
      */
     public function contains(mixed $value): bool {}
 
@@ -304,7 +303,7 @@ enum EmptySet implements \Iterator, Set, \JsonSerializable
 
     /**
      * @return false
-     * @implementation-alias Teds\EmptySequence::offsetExists
+     * @implementation-alias Teds\EmptySequence::contains
      */
     public function contains(mixed $value): bool {}
 
diff --git a/teds_emptycollection_arginfo.h b/teds_emptycollection_arginfo.h
index 28f9770..81dd885 100644
--- a/teds_emptycollection_arginfo.h
+++ b/teds_emptycollection_arginfo.h
@@ -393,7 +393,7 @@ static const zend_function_entry class_Teds_EmptySequence_methods[] = {
 	ZEND_ME(Teds_EmptySequence, offsetSet, arginfo_class_Teds_EmptySequence_offsetSet, ZEND_ACC_PUBLIC)
 	ZEND_ME(Teds_EmptySequence, offsetUnset, arginfo_class_Teds_EmptySequence_offsetUnset, ZEND_ACC_PUBLIC)
 	ZEND_ME(Teds_EmptySequence, indexOf, arginfo_class_Teds_EmptySequence_indexOf, ZEND_ACC_PUBLIC)
-	ZEND_MALIAS(Teds_EmptySequence, contains, offsetExists, arginfo_class_Teds_EmptySequence_contains, ZEND_ACC_PUBLIC)
+	ZEND_ME(Teds_EmptySequence, contains, arginfo_class_Teds_EmptySequence_contains, ZEND_ACC_PUBLIC)
 	ZEND_ME(Teds_EmptySequence, map, arginfo_class_Teds_EmptySequence_map, ZEND_ACC_PUBLIC)
 	ZEND_ME(Teds_EmptySequence, filter, arginfo_class_Teds_EmptySequence_filter, ZEND_ACC_PUBLIC)
 	ZEND_MALIAS(Teds_EmptySequence, jsonSerialize, toArray, arginfo_class_Teds_EmptySequence_jsonSerialize, ZEND_ACC_PUBLIC)
@@ -440,7 +440,7 @@ static const zend_function_entry class_Teds_EmptySet_methods[] = {
 	ZEND_MALIAS(Teds_StrictMinHeap, clear, rewind, arginfo_class_Teds_EmptySet_clear, ZEND_ACC_PUBLIC)
 	ZEND_MALIAS(Teds_EmptySequence, toArray, toArray, arginfo_class_Teds_EmptySet_toArray, ZEND_ACC_PUBLIC)
 	ZEND_MALIAS(Teds_EmptySequence, values, toArray, arginfo_class_Teds_EmptySet_values, ZEND_ACC_PUBLIC)
-	ZEND_MALIAS(Teds_EmptySequence, contains, offsetExists, arginfo_class_Teds_EmptySet_contains, ZEND_ACC_PUBLIC)
+	ZEND_MALIAS(Teds_EmptySequence, contains, contains, arginfo_class_Teds_EmptySet_contains, ZEND_ACC_PUBLIC)
 	ZEND_MALIAS(Teds_EmptySequence, add, offsetUnset, arginfo_class_Teds_EmptySet_add, ZEND_ACC_PUBLIC)
 	ZEND_MALIAS(Teds_EmptySequence, remove, contains, arginfo_class_Teds_EmptySet_remove, ZEND_ACC_PUBLIC)
 	ZEND_MALIAS(Teds_EmptySequence, jsonSerialize, toArray, arginfo_class_Teds_EmptySet_jsonSerialize, ZEND_ACC_PUBLIC)
-- 
2.43.0


From ac185f63ad185c84b10e64cba688fb8201f4e6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:20 +0000
Subject: [PATCH 47/75] fix: SortedIntVectorSet::__set_state() was declared to
 return an IntVector

---
 teds_intvector.stub.php  | 2 +-
 teds_intvector_arginfo.h | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/teds_intvector.stub.php b/teds_intvector.stub.php
index b8d0412..b8e43ed 100644
--- a/teds_intvector.stub.php
+++ b/teds_intvector.stub.php
@@ -197,7 +197,7 @@ final class SortedIntVectorSet implements \IteratorAggregate, Set, \JsonSerializ
     /**
      * Create a SortedIntVectorSet of unique values from an array
      */
-    public static function __set_state(array $array): IntVector {}
+    public static function __set_state(array $array): SortedIntVectorSet {}
 
     /**
      * @throws \UnderflowException if there are no more elements
diff --git a/teds_intvector_arginfo.h b/teds_intvector_arginfo.h
index ab69827..18b1cf1 100644
--- a/teds_intvector_arginfo.h
+++ b/teds_intvector_arginfo.h
@@ -125,7 +125,9 @@ ZEND_END_ARG_INFO()
 
 #define arginfo_class_Teds_SortedIntVectorSet___unserialize arginfo_class_Teds_IntVector___unserialize
 
-#define arginfo_class_Teds_SortedIntVectorSet___set_state arginfo_class_Teds_IntVector___set_state
+ZEND_BEGIN_ARG_WITH_RETURN_OBJ_INFO_EX(arginfo_class_Teds_SortedIntVectorSet___set_state, 0, 1, Teds\\SortedIntVectorSet, 0)
+	ZEND_ARG_TYPE_INFO(0, array, IS_ARRAY, 0)
+ZEND_END_ARG_INFO()
 
 #define arginfo_class_Teds_SortedIntVectorSet_pop arginfo_class_Teds_IntVector_count
 
-- 
2.43.0


From b62552da14fc535bebb399e656b2c19ba06384b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:23 +0000
Subject: [PATCH 48/75] fix: json_encode() of a StrictHeap reached code marked
 as unreachable

---
 teds_vector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/teds_vector.c b/teds_vector.c
index 2e0fbf2..ff71b95 100644
--- a/teds_vector.c
+++ b/teds_vector.c
@@ -365,8 +365,8 @@ HashTable* teds_vector_get_properties_for(zend_object *obj, zend_prop_purpose pu
 #endif
 		case ZEND_PROP_PURPOSE_ARRAY_CAST:
 		case ZEND_PROP_PURPOSE_SERIALIZE:
+		case ZEND_PROP_PURPOSE_JSON: /* Only for the heaps, which are not JsonSerializable. */
 			return teds_vector_entries_to_refcounted_array(array);
-		case ZEND_PROP_PURPOSE_JSON: /* jsonSerialize and get_properties() is used instead. */
 		default:
 			ZEND_UNREACHABLE();
 			return NULL;
-- 
2.43.0


From 8bdf4b7fce7a092e4d85f24b2994ab9de9e5e037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:30 +0000
Subject: [PATCH 49/75] fix: an empty ImmutableSequence was unserialized to an
 invalid state and leaked

---
 teds_immutablesequence.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/teds_immutablesequence.c b/teds_immutablesequence.c
index db201e7..983132b 100644
--- a/teds_immutablesequence.c
+++ b/teds_immutablesequence.c
@@ -564,6 +564,11 @@ PHP_METHOD(Teds_ImmutableSequence, __unserialize)
 
 	ZEND_ASSERT(intern->array.entries == NULL);
 
+	if (num_entries == 0) {
+		teds_immutablesequence_entries_set_empty_list(&intern->array);
+		return;
+	}
+
 	zval *const entries = safe_emalloc(num_entries, sizeof(zval), 0);
 	zval *it = entries;
 
-- 
2.43.0


From 6c0afeba02186f4b1bcad733d229f84602304164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:09 +0000
Subject: [PATCH 50/75] fix: BitVector::pushFront() and insert() moved
 iterators before refusing a value

---
 teds_bitvector.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/teds_bitvector.c b/teds_bitvector.c
index f7b05b6..0ef879b 100644
--- a/teds_bitvector.c
+++ b/teds_bitvector.c
@@ -1361,6 +1361,12 @@ PHP_METHOD(Teds_BitVector, pushFront)
 	}
 
 	/* TODO: Optimize this for large varargs case */
+	/* Check all of the values first: refused values must not move iterators. */
+	for (uint32_t i = 0; i < argc; i++) {
+		zend_long unused_value;
+		TEDS_BITVECTOR_VALUE_TO_BOOL_OR_THROW(unused_value, (&args[i]));
+		(void)unused_value;
+	}
 	teds_bitvector_maybe_adjust_iterators_before_insert(array, 0, argc);
 	for (uint32_t i = 0; i < argc; i++) {
 		zend_long new_value;
@@ -1398,6 +1404,12 @@ PHP_METHOD(Teds_BitVector, insert)
 	}
 
 	/* TODO: Optimize this for large varargs case */
+	/* Check all of the values first: refused values must not move iterators. */
+	for (uint32_t i = 0; i < argc; i++) {
+		zend_long unused_value;
+		TEDS_BITVECTOR_VALUE_TO_BOOL_OR_THROW(unused_value, (&args[i]));
+		(void)unused_value;
+	}
 	teds_bitvector_maybe_adjust_iterators_before_insert(array, inserted_offset, argc);
 	for (uint32_t i = 0; i < argc; i++) {
 		zend_long new_value;
-- 
2.43.0


From 89ec44eeef28aae3050e02d57bab235e01110c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:38 +0000
Subject: [PATCH 51/75] fix: ImmutableSequence::filter() and map() freed the
 wrong elements on exceptions

---
 teds_immutablesequence.c | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/teds_immutablesequence.c b/teds_immutablesequence.c
index 983132b..ca9e892 100644
--- a/teds_immutablesequence.c
+++ b/teds_immutablesequence.c
@@ -830,9 +830,7 @@ PHP_METHOD(Teds_ImmutableSequence, filter)
 				zval_ptr_dtor(&operand);
 cleanup:
 				if (entries) {
-					for (; size > 0; size--) {
-						zval_ptr_dtor(&entries[size]);
-					}
+					teds_zval_dtor_range(entries, size);
 					efree(entries);
 				}
 				return;
@@ -840,6 +838,7 @@ cleanup:
 			const bool is_true = zend_is_true(&retval);
 			zval_ptr_dtor(&retval);
 			if (UNEXPECTED(EG(exception))) {
+				zval_ptr_dtor(&operand);
 				goto cleanup;
 			}
 			if (!is_true) {
@@ -954,12 +953,9 @@ PHP_METHOD(Teds_ImmutableSequence, map)
 		fci.retval = &entries[size];
 		zval_ptr_dtor(&operand);
 		if (UNEXPECTED(result != SUCCESS || EG(exception))) {
-			if (entries) {
-				for (; size > 0; size--) {
-					zval_ptr_dtor(&entries[size]);
-				}
-				efree(entries);
-			}
+			/* This includes entries[size], which is undefined unless the callback returned and the operand's destructor threw. */
+			teds_zval_dtor_range(entries, size + 1);
+			efree(entries);
 			return;
 		}
 		size++;
-- 
2.43.0


From 1ccdda0a52cc04c4ed1090214e10f3461b3d0402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:57 +0000
Subject: [PATCH 52/75] fix: Vector::map() and ImmutableSequence::map() stored
 references returned by the callback

---
 teds_immutablesequence.c | 3 +++
 teds_vector.c            | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/teds_immutablesequence.c b/teds_immutablesequence.c
index ca9e892..2c0ab30 100644
--- a/teds_immutablesequence.c
+++ b/teds_immutablesequence.c
@@ -958,6 +958,9 @@ PHP_METHOD(Teds_ImmutableSequence, map)
 			efree(entries);
 			return;
 		}
+		if (UNEXPECTED(Z_ISREF(entries[size]))) {
+			zend_unwrap_reference(&entries[size]);
+		}
 		size++;
 	} while (size < intern->array.size);
 
diff --git a/teds_vector.c b/teds_vector.c
index ff71b95..d8da9bc 100644
--- a/teds_vector.c
+++ b/teds_vector.c
@@ -1042,6 +1042,9 @@ PHP_METHOD(Teds_Vector, map)
 			efree(entries);
 			return;
 		}
+		if (UNEXPECTED(Z_ISREF(entries[size]))) {
+			zend_unwrap_reference(&entries[size]);
+		}
 		size++;
 	} while (size < array->size);
 
-- 
2.43.0


From cf88c52bd81bc399c0eb9c410aae21b79bc5208e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:11 +0000
Subject: [PATCH 53/75] fix: Deque::__set_state([]) returned a Deque that could
 be constructed again

---
 teds_deque.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/teds_deque.c b/teds_deque.c
index 00a4ff7..2ba457d 100644
--- a/teds_deque.c
+++ b/teds_deque.c
@@ -705,7 +705,7 @@ static void teds_deque_entries_init_from_array_values(teds_deque_entries *array,
 	if (num_entries == 0) {
 		array->size = 0;
 		array->mask = 0;
-		array->circular_buffer = NULL;
+		array->circular_buffer = (zval *)empty_entry_list;
 		return;
 	}
 	const size_t capacity = teds_deque_next_pow2_capacity(num_entries);
-- 
2.43.0


From de0d1c00a50b37c0c518a812ced1791850022ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:58 +0000
Subject: [PATCH 54/75] fix: json_encode() of a StrictHeap containing itself
 recursed until the stack overflowed

---
 teds_vector.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/teds_vector.c b/teds_vector.c
index d8da9bc..502d516 100644
--- a/teds_vector.c
+++ b/teds_vector.c
@@ -365,8 +365,11 @@ HashTable* teds_vector_get_properties_for(zend_object *obj, zend_prop_purpose pu
 #endif
 		case ZEND_PROP_PURPOSE_ARRAY_CAST:
 		case ZEND_PROP_PURPOSE_SERIALIZE:
-		case ZEND_PROP_PURPOSE_JSON: /* Only for the heaps, which are not JsonSerializable. */
 			return teds_vector_entries_to_refcounted_array(array);
+		case ZEND_PROP_PURPOSE_JSON:
+			/* Only for the heaps, which are not JsonSerializable and have no public properties (like SplHeap).
+			 * json_encode could not detect infinite recursion through a new array. */
+			return NULL;
 		default:
 			ZEND_UNREACHABLE();
 			return NULL;
-- 
2.43.0


From 29fd272d34632991c72e54e45a254ed9595fe1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:12 +0000
Subject: [PATCH 55/75] fix: toArray() used freed entries when an error handler
 modified the collection

---
 teds_mutableiterable.c       | 14 +++++++-------
 teds_stricthashmap.c         |  6 +++++-
 teds_stricthashset.c         |  6 +++++-
 teds_strictsortedvectormap.c | 14 +++++++-------
 teds_strictsortedvectorset.c | 10 +++++-----
 teds_stricttreemap.c         |  5 +++++
 teds_stricttreeset.c         |  6 +++++-
 teds_util.c                  | 30 ++++++++++++++++++++++++++++++
 teds_util.h                  |  9 +++++++++
 9 files changed, 78 insertions(+), 22 deletions(-)

diff --git a/teds_mutableiterable.c b/teds_mutableiterable.c
index a2d029a..5547420 100644
--- a/teds_mutableiterable.c
+++ b/teds_mutableiterable.c
@@ -997,13 +997,13 @@ PHP_METHOD(Teds_MutableIterable, toArray)
 	/* Go through values and add values to the return array */
 	for (uint32_t i = 0; i < array->size; i++) {
 		zval_pair *entry = &array->entries[i];
-		zval *key = &entry->key;
-		zval *val = &entry->value;
-
-		// Z_TRY_ADDREF_P(key);
-		Z_TRY_ADDREF_P(val);
-		array_set_zval_key(values, key, val);
-		zval_ptr_dtor_nogc(val);
+		/* Error handlers called for notices about the key may modify this collection. */
+		zval key, val;
+		ZVAL_COPY(&key, &entry->key);
+		ZVAL_COPY(&val, &entry->value);
+		array_set_zval_key(values, &key, &val);
+		zval_ptr_dtor(&val);
+		zval_ptr_dtor(&key);
 		if (UNEXPECTED(EG(exception))) {
 			zend_array_destroy(values);
 			RETURN_THROWS();
diff --git a/teds_stricthashmap.c b/teds_stricthashmap.c
index 6270b40..681c51a 100644
--- a/teds_stricthashmap.c
+++ b/teds_stricthashmap.c
@@ -1381,8 +1381,12 @@ PHP_METHOD(Teds_StrictHashMap, toArray)
 
 	zend_array *values = zend_new_array(array->nNumOfElements);
 	zval *key, *val;
-	/* TODO: Check for side effects of notices */
 	TEDS_STRICTHASHMAP_FOREACH_KEY_VAL(array, key, val) {
+		if (UNEXPECTED(teds_array_key_can_emit_notice(key))) {
+			zend_array_destroy(values);
+			teds_convert_pairs_snapshot_to_array(return_value, teds_stricthashmap_entries_to_refcounted_pairs(array));
+			return;
+		}
 		Z_TRY_ADDREF_P(val);
 		array_set_zval_key(values, key, val);
 		zval_ptr_dtor_nogc(val);
diff --git a/teds_stricthashset.c b/teds_stricthashset.c
index 304b20e..cb2687f 100644
--- a/teds_stricthashset.c
+++ b/teds_stricthashset.c
@@ -934,8 +934,12 @@ PHP_METHOD(Teds_StrictHashSet, toArray)
 
 	zend_array *values = zend_new_array(array->nNumOfElements);
 	zval *val;
-	/* TODO: Check for side effects of notices */
 	TEDS_STRICTHASHSET_FOREACH_VAL(array, val) {
+		if (UNEXPECTED(teds_array_key_can_emit_notice(val))) {
+			zend_array_destroy(values);
+			teds_convert_values_snapshot_to_array(return_value, teds_stricthashset_entries_to_refcounted_array(array));
+			return;
+		}
 		Z_TRY_ADDREF_P(val);
 		array_set_zval_key(values, val, val);
 		zval_ptr_dtor_nogc(val);
diff --git a/teds_strictsortedvectormap.c b/teds_strictsortedvectormap.c
index b60991d..e5993b3 100644
--- a/teds_strictsortedvectormap.c
+++ b/teds_strictsortedvectormap.c
@@ -1040,13 +1040,13 @@ PHP_METHOD(Teds_StrictSortedVectorMap, toArray)
 	zend_array *values = zend_new_array(array->size);
 	for (uint32_t i = 0; i < array->size; i++) {
 		teds_strictsortedvectormap_entry *entry = &array->entries[i];
-		zval *key = &entry->key;
-		zval *val = &entry->value;
-
-		// Z_TRY_ADDREF_P(key);
-		Z_TRY_ADDREF_P(val);
-		array_set_zval_key(values, key, val);
-		zval_ptr_dtor_nogc(val);
+		/* Error handlers called for notices about the key may modify this collection. */
+		zval key, val;
+		ZVAL_COPY(&key, &entry->key);
+		ZVAL_COPY(&val, &entry->value);
+		array_set_zval_key(values, &key, &val);
+		zval_ptr_dtor(&val);
+		zval_ptr_dtor(&key);
 		if (UNEXPECTED(EG(exception))) {
 			zend_array_destroy(values);
 			RETURN_THROWS();
diff --git a/teds_strictsortedvectorset.c b/teds_strictsortedvectorset.c
index 6e54043..b995324 100644
--- a/teds_strictsortedvectorset.c
+++ b/teds_strictsortedvectorset.c
@@ -530,11 +530,11 @@ PHP_METHOD(Teds_StrictSortedVectorSet, toArray)
 
 	/* Go through values and add values to the return array */
 	for (uint32_t i = 0; i < array->size; i++) {
-		zval *key = &array->entries[i];
-
-		Z_TRY_ADDREF_P(key);
-		array_set_zval_key(values, key, key);
-		zval_ptr_dtor_nogc(key);
+		/* Error handlers called for notices about the key may modify this collection. */
+		zval key;
+		ZVAL_COPY(&key, &array->entries[i]);
+		array_set_zval_key(values, &key, &key);
+		zval_ptr_dtor(&key);
 		if (UNEXPECTED(EG(exception))) {
 			zend_array_destroy(values);
 			RETURN_THROWS();
diff --git a/teds_stricttreemap.c b/teds_stricttreemap.c
index 8184d7c..8ad9ff9 100644
--- a/teds_stricttreemap.c
+++ b/teds_stricttreemap.c
@@ -1616,6 +1616,11 @@ PHP_METHOD(Teds_StrictTreeMap, toArray)
 
 	zval *key, *val;
 	TEDS_STRICTTREEMAP_FOREACH_KEY_VAL(tree, key, val) {
+		if (UNEXPECTED(teds_array_key_can_emit_notice(key))) {
+			zend_array_destroy(values);
+			teds_convert_pairs_snapshot_to_array(return_value, teds_stricttreemap_tree_to_refcounted_array(tree));
+			return;
+		}
 		Z_TRY_ADDREF_P(val);
 		array_set_zval_key(values, key, val);
 		zval_ptr_dtor_nogc(val);
diff --git a/teds_stricttreeset.c b/teds_stricttreeset.c
index 74558d6..4ef309a 100644
--- a/teds_stricttreeset.c
+++ b/teds_stricttreeset.c
@@ -954,8 +954,12 @@ PHP_METHOD(Teds_StrictTreeSet, toArray)
 
 	zend_array *values = zend_new_array(tree->nNumOfElements);
 	zval *val;
-	/* TODO: Check for side effects of notices */
 	TEDS_STRICTTREESET_FOREACH_KEY(tree, val) {
+		if (UNEXPECTED(teds_array_key_can_emit_notice(val))) {
+			zend_array_destroy(values);
+			teds_convert_values_snapshot_to_array(return_value, teds_stricttreeset_tree_to_refcounted_array(tree));
+			return;
+		}
 		Z_TRY_ADDREF_P(val);
 		array_set_zval_key(values, val, val);
 		zval_ptr_dtor_nogc(val);
diff --git a/teds_util.c b/teds_util.c
index c00aa9c..93115bc 100644
--- a/teds_util.c
+++ b/teds_util.c
@@ -23,4 +23,34 @@ HashTable *teds_internaliterator_get_gc(zend_object_iterator *iter, zval **table
 	return NULL;
 }
 
+void teds_convert_pairs_snapshot_to_array(zval *return_value, zend_array *pairs)
+{
+	zend_array *const values = zend_new_array(zend_hash_num_elements(pairs));
+	zval *pair;
+	ZVAL_ARR(return_value, values);
+	ZEND_HASH_FOREACH_VAL(pairs, pair) {
+		zval *key = zend_hash_index_find(Z_ARRVAL_P(pair), 0);
+		zval *val = zend_hash_index_find(Z_ARRVAL_P(pair), 1);
+		array_set_zval_key(values, key, val);
+		if (UNEXPECTED(EG(exception))) {
+			break;
+		}
+	} ZEND_HASH_FOREACH_END();
+	zend_array_release(pairs);
+}
+
+void teds_convert_values_snapshot_to_array(zval *return_value, zend_array *vals)
+{
+	zend_array *const values = zend_new_array(zend_hash_num_elements(vals));
+	zval *val;
+	ZVAL_ARR(return_value, values);
+	ZEND_HASH_FOREACH_VAL(vals, val) {
+		array_set_zval_key(values, val, val);
+		if (UNEXPECTED(EG(exception))) {
+			break;
+		}
+	} ZEND_HASH_FOREACH_END();
+	zend_array_release(vals);
+}
+
 const zval teds_empty_entry_list[1];
diff --git a/teds_util.h b/teds_util.h
index 25e36e1..0ecf6e7 100644
--- a/teds_util.h
+++ b/teds_util.h
@@ -273,6 +273,15 @@ HashTable* teds_noop_get_gc(zend_object *obj, zval **table, int *n);
  */
 HashTable* teds_noop_empty_array_get_properties_for(zend_object *obj, zend_prop_purpose purpose);
 
+/* Converting such keys to array keys can emit notices, and a user's error handler could modify or free what is being converted. */
+static zend_always_inline bool teds_array_key_can_emit_notice(const zval *key)
+{
+	return Z_TYPE_P(key) == IS_DOUBLE || Z_TYPE_P(key) == IS_RESOURCE;
+}
+/* These set return_value to the converted array (also when an exception is thrown), and release the list of pairs/values. */
+void teds_convert_pairs_snapshot_to_array(zval *return_value, zend_array *pairs);
+void teds_convert_values_snapshot_to_array(zval *return_value, zend_array *vals);
+
 HashTable *teds_internaliterator_get_gc(zend_object_iterator *iter, zval **table, int *n);
 
 #endif
-- 
2.43.0


From 4bf22709b16e9d488fc776c319102e0b48d347d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:39 +0000
Subject: [PATCH 56/75] fix: BitVector unserialized a lone count of wasted bits
 to a size of -7 to 0 bits

---
 teds_bitvector.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/teds_bitvector.c b/teds_bitvector.c
index 0ef879b..48b3982 100644
--- a/teds_bitvector.c
+++ b/teds_bitvector.c
@@ -667,7 +667,7 @@ PHP_METHOD(Teds_BitVector, __unserialize)
 	const uint8_t *bytes = (const uint8_t *)ZSTR_VAL(zstr);
 	const size_t byte_count = ZSTR_LEN(zstr) - 1;
 	const uint8_t modulo_bit_len = (uint8_t) bytes[byte_count];
-	if (modulo_bit_len >= 8) {
+	if (UNEXPECTED(byte_count == 0 || modulo_bit_len >= 8)) {
 		zend_throw_exception(spl_ce_RuntimeException, "Teds\\BitVector expected binary data to end with number of wasted bits", 0);
 		RETURN_THROWS();
 	}
@@ -801,7 +801,7 @@ PHP_METHOD(Teds_BitVector, unserialize)
 		const uint8_t *bytes = (const uint8_t *)ZSTR_VAL(zstr);
 		const size_t byte_count = ZSTR_LEN(zstr) - 1;
 		const uint8_t modulo_bit_len = (uint8_t) bytes[byte_count];
-		if (modulo_bit_len >= 8) {
+		if (UNEXPECTED(byte_count == 0 || modulo_bit_len >= 8)) {
 			zend_throw_exception(spl_ce_RuntimeException, "Teds\\BitVector expected binary data to end with number of wasted bits", 0);
 			RETURN_THROWS();
 		}
-- 
2.43.0


From fabb59918e7fd7d1055150e75ad1218b7e2e2a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:42 +0000
Subject: [PATCH 57/75] fix: BitVector::unserialize() leaked the new object
 when refusing invalid data

---
 teds_bitvector.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/teds_bitvector.c b/teds_bitvector.c
index 48b3982..b13dd57 100644
--- a/teds_bitvector.c
+++ b/teds_bitvector.c
@@ -803,6 +803,7 @@ PHP_METHOD(Teds_BitVector, unserialize)
 		const uint8_t modulo_bit_len = (uint8_t) bytes[byte_count];
 		if (UNEXPECTED(byte_count == 0 || modulo_bit_len >= 8)) {
 			zend_throw_exception(spl_ce_RuntimeException, "Teds\\BitVector expected binary data to end with number of wasted bits", 0);
+			zend_object_release(new_object);
 			RETURN_THROWS();
 		}
 
-- 
2.43.0


From ac9c0953f7766890a3269d7dfeb1eaf4159a17c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:03 +0000
Subject: [PATCH 58/75] fix: LowMemoryVector::offsetExists() leaked a reference
 to the value

---
 teds_lowmemoryvector.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/teds_lowmemoryvector.c b/teds_lowmemoryvector.c
index 5075c29..8b3068b 100644
--- a/teds_lowmemoryvector.c
+++ b/teds_lowmemoryvector.c
@@ -1209,7 +1209,8 @@ PHP_METHOD(Teds_LowMemoryVector, offsetExists)
 	ZEND_ASSERT(offset >= 0);
 	zval tmp;
 	teds_lowmemoryvector_get_value_at_offset(&tmp, ZEND_THIS, offset);
-	RETURN_BOOL(Z_TYPE(tmp) != IS_NULL);
+	RETVAL_BOOL(Z_TYPE(tmp) != IS_NULL);
+	zval_ptr_dtor(&tmp);
 }
 
 PHP_METHOD(Teds_LowMemoryVector, containsKey)
-- 
2.43.0


From eb5755d406e17b992b9ee41d8086e3d53cb3f8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:06 +0000
Subject: [PATCH 59/75] fix: reference cycles through iterators of
 LowMemoryVector, ImmutableSequence and others were not collected

---
 teds_bitvector.c                | 2 +-
 teds_immutableiterable.c        | 2 +-
 teds_immutablesequence.c        | 2 +-
 teds_immutablesortedstringset.c | 2 +-
 teds_lowmemoryvector.c          | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/teds_bitvector.c b/teds_bitvector.c
index b13dd57..6f9d4e7 100644
--- a/teds_bitvector.c
+++ b/teds_bitvector.c
@@ -539,7 +539,7 @@ static const zend_object_iterator_funcs teds_bitvector_it_funcs = {
 	teds_bitvector_it_move_forward,
 	teds_bitvector_it_rewind,
 	NULL,
-	NULL, /* get_gc */
+	teds_internaliterator_get_gc, /* get_gc */
 };
 
 static void teds_bitvector_adjust_iterators_before_remove(teds_bitvector_entries *array, teds_intrusive_dllist_node *node, const size_t removed_offset)
diff --git a/teds_immutableiterable.c b/teds_immutableiterable.c
index a86e65f..d6ed22b 100644
--- a/teds_immutableiterable.c
+++ b/teds_immutableiterable.c
@@ -534,7 +534,7 @@ static const zend_object_iterator_funcs teds_immutableiterable_it_funcs = {
 	teds_immutableiterable_it_move_forward,
 	teds_immutableiterable_it_rewind,
 	NULL,
-	NULL, /* get_gc */
+	teds_internaliterator_get_gc, /* get_gc */
 };
 
 
diff --git a/teds_immutablesequence.c b/teds_immutablesequence.c
index 2c0ab30..d3945a0 100644
--- a/teds_immutablesequence.c
+++ b/teds_immutablesequence.c
@@ -521,7 +521,7 @@ static const zend_object_iterator_funcs teds_immutablesequence_it_funcs = {
 	teds_immutablesequence_it_move_forward,
 	teds_immutablesequence_it_rewind,
 	NULL,
-	NULL, /* get_gc */
+	teds_internaliterator_get_gc, /* get_gc */
 };
 
 
diff --git a/teds_immutablesortedstringset.c b/teds_immutablesortedstringset.c
index 6acf627..1e79774 100644
--- a/teds_immutablesortedstringset.c
+++ b/teds_immutablesortedstringset.c
@@ -468,7 +468,7 @@ static const zend_object_iterator_funcs teds_immutablesortedstringset_it_funcs =
 	teds_immutablesortedstringset_it_move_forward,
 	teds_immutablesortedstringset_it_rewind,
 	NULL,
-	NULL, /* get_gc */
+	teds_internaliterator_get_gc, /* get_gc */
 };
 
 
diff --git a/teds_lowmemoryvector.c b/teds_lowmemoryvector.c
index 8b3068b..3c7ea92 100644
--- a/teds_lowmemoryvector.c
+++ b/teds_lowmemoryvector.c
@@ -609,7 +609,7 @@ static const zend_object_iterator_funcs teds_lowmemoryvector_it_funcs = {
 	teds_lowmemoryvector_it_move_forward,
 	teds_lowmemoryvector_it_rewind,
 	NULL,
-	NULL,
+	teds_internaliterator_get_gc,
 };
 
 static void teds_lowmemoryvector_adjust_iterators_before_remove(teds_lowmemoryvector_entries *array, teds_intrusive_dllist_node *node, const size_t removed_offset)
-- 
2.43.0


From 935956e98e4c81f75d485d0631bd3406720a3674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:24 +0000
Subject: [PATCH 60/75] fix: BitVector::offsetUnset() used the size from before
 an error handler ran

---
 teds_bitvector.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/teds_bitvector.c b/teds_bitvector.c
index 6f9d4e7..6bc4613 100644
--- a/teds_bitvector.c
+++ b/teds_bitvector.c
@@ -1591,11 +1591,12 @@ PHP_METHOD(Teds_BitVector, offsetUnset)
 	ZEND_PARSE_PARAMETERS_END();
 
 	teds_bitvector_entries *array = Z_BITVECTOR_ENTRIES_P(ZEND_THIS);
-	const size_t old_size = array->bit_size;
 	zend_long offset;
 
 	CONVERT_OFFSET_TO_LONG_OR_THROW(offset, offset_zv);
 
+	const size_t old_size = array->bit_size;
+
 	if (UNEXPECTED(!teds_offset_within_size_t(offset, array->bit_size))) {
 		TEDS_THROW_INVALID_SEQUENCE_INDEX_EXCEPTION();
 	}
-- 
2.43.0


From 623ae100152040e7c0e4fdc1f0d2769c50d87b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:56 +0000
Subject: [PATCH 61/75] fix: StrictTreeSet and StrictTreeMap filled before
 __unserialize() lost their nodes

---
 teds_stricttreemap.c | 1 +
 teds_stricttreeset.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/teds_stricttreemap.c b/teds_stricttreemap.c
index 8ad9ff9..58d8bbc 100644
--- a/teds_stricttreemap.c
+++ b/teds_stricttreemap.c
@@ -190,6 +190,7 @@ static zend_always_inline bool teds_stricttreemap_tree_insert(teds_stricttreemap
 		/* Initialize this tree as a new binary search tree of size 1 */
 		it = teds_stricttreemap_node_alloc(key, value, NULL);
 		tree->root = it;
+		tree->initialized = true;
 		it->left = NULL;
 		it->right = NULL;
 		tree->nNumOfElements++;
diff --git a/teds_stricttreeset.c b/teds_stricttreeset.c
index 4ef309a..eb1d11d 100644
--- a/teds_stricttreeset.c
+++ b/teds_stricttreeset.c
@@ -188,6 +188,7 @@ static zend_always_inline bool teds_stricttreeset_tree_insert(teds_stricttreeset
 		/* Initialize this tree as a new binary search tree of size 1 */
 		it = teds_stricttreeset_node_alloc(key, NULL);
 		tree->root = it;
+		tree->initialized = true;
 		it->left = NULL;
 		it->right = NULL;
 		tree->nNumOfElements++;
-- 
2.43.0


From 248caf03dfa61b7b92a77a71661e6f1c0569ff57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:17 +0000
Subject: [PATCH 62/75] fix: LowMemoryVector::__unserialize() leaked an empty
 block for empty binary data

---
 teds_lowmemoryvector.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/teds_lowmemoryvector.c b/teds_lowmemoryvector.c
index 3c7ea92..2113168 100644
--- a/teds_lowmemoryvector.c
+++ b/teds_lowmemoryvector.c
@@ -866,6 +866,10 @@ PHP_METHOD(Teds_LowMemoryVector, __unserialize)
 				zend_throw_exception_ex(spl_ce_RuntimeException, 0, "LowMemoryVector Unexpected binary length for type tag, expected multiple of 8 * 2**%d, got %d bytes", (int)shift, (int)str_byte_length);
 				RETURN_THROWS();
 			}
+			if (UNEXPECTED(num_elements == 0)) {
+				teds_lowmemoryvector_entries_set_empty_list(array);
+				return;
+			}
 			char *const values = emalloc(str_byte_length);
 			array->entries_int8 = (int8_t *)values;
 			array->size = num_elements;
-- 
2.43.0


From bc0d7e20c52b8aa3e83f559483166da6d847513d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:16 +0000
Subject: [PATCH 63/75] fix: IntVector::insert() and pushFront() changed the
 representation before refusing an argument

---
 teds_intvector.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/teds_intvector.c b/teds_intvector.c
index 9fec9e5..f8c621d 100644
--- a/teds_intvector.c
+++ b/teds_intvector.c
@@ -2151,7 +2151,10 @@ PHP_METHOD(Teds_IntVector, pushFront)
 			v = Z_LVAL_P(arg);
 		}
 		longs[i] = v;
-		teds_intvector_entries_update_type_tag(array, v);
+	}
+	/* Only change the representation after all of the arguments were accepted */
+	for (uint32_t i = 0; i < argc; i++) {
+		teds_intvector_entries_update_type_tag(array, longs[i]);
 	}
 	const size_t old_size = array->size;
 	const size_t new_size = old_size + argc;
@@ -2214,7 +2217,10 @@ PHP_METHOD(Teds_IntVector, insert)
 			v = Z_LVAL_P(arg);
 		}
 		longs[i] = v;
-		teds_intvector_entries_update_type_tag(array, v);
+	}
+	/* Only change the representation after all of the arguments were accepted */
+	for (uint32_t i = 0; i < argc; i++) {
+		teds_intvector_entries_update_type_tag(array, longs[i]);
 	}
 
 	const uint8_t memory_per_element = teds_intvector_entries_compute_memory_per_element(array);
-- 
2.43.0


From 63210fbd03c5668385c2270cdbf47af8995e6e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:24 +0000
Subject: [PATCH 64/75] fix: LowMemoryVector and IntVector changed the
 representation before an allocation that may fail

---
 teds_intvector.c       |  5 +++--
 teds_lowmemoryvector.c | 20 ++++++++++++--------
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/teds_intvector.c b/teds_intvector.c
index f8c621d..2efee4f 100644
--- a/teds_intvector.c
+++ b/teds_intvector.c
@@ -1828,14 +1828,15 @@ static zend_always_inline zval *teds_intvector_entries_read_offset(const teds_in
 
 #define TEDS_INTVECTOR_PROMOTE_INT_TYPE_AND_RETURN(int_smaller, entries_smaller, int_larger, entries_larger, TEDS_INTVECTOR__TYPE_LARGER) do { \
 		ZEND_ASSERT(sizeof(int_smaller) < sizeof(int_larger)); \
-		array->type_tag = TEDS_INTVECTOR__TYPE_LARGER; \
 		int_smaller *const original_entries = array->entries_smaller; \
 		const int_smaller *src = original_entries; \
 		const size_t size = array->size; \
 		const size_t old_capacity = array->capacity; \
 		const size_t capacity = old_capacity >= 2 ? old_capacity : 4; \
-		array->capacity = capacity; \
 		int_larger *const entries_larger  = teds_intvector_emalloc_byte_array(capacity, sizeof(int_larger)); \
+		/* Change the representation after the allocation, which may fail */ \
+		array->type_tag = TEDS_INTVECTOR__TYPE_LARGER; \
+		array->capacity = capacity; \
 		const int_larger *const end = entries_larger + size; \
 		int_larger *dst = entries_larger; \
 		array->entries_larger = entries_larger; \
diff --git a/teds_lowmemoryvector.c b/teds_lowmemoryvector.c
index 2113168..ecaa7f1 100644
--- a/teds_lowmemoryvector.c
+++ b/teds_lowmemoryvector.c
@@ -85,14 +85,15 @@ static const uint8_t teds_lmv_shift_for_element[LMV_TYPE_COUNT] = {
 
 #define TEDS_LMV_PROMOTE_INT_TYPE_AND_RETURN(int_smaller, entries_smaller, int_larger, entries_larger, TEDS_LMV__TYPE_LARGER) do { \
 		ZEND_ASSERT(sizeof(int_smaller) < sizeof(int_larger)); \
-		array->type_tag = TEDS_LMV__TYPE_LARGER; \
 		int_smaller *const original_entries = array->entries_smaller; \
 		const int_smaller *src = original_entries; \
 		const size_t size = array->size; \
 		const size_t old_capacity = array->capacity; \
 		const size_t capacity = size >= 2 ? size * 2 : 4; \
-		array->capacity = capacity; \
 		int_larger *const entries_larger  = safe_emalloc(capacity, sizeof(int_larger), 0); \
+		/* Change the representation after the allocation, which may fail */ \
+		array->type_tag = TEDS_LMV__TYPE_LARGER; \
+		array->capacity = capacity; \
 		const int_larger *const end = entries_larger + size; \
 		int_larger *dst = entries_larger; \
 		array->entries_larger = entries_larger; \
@@ -1601,14 +1602,15 @@ static void teds_lowmemoryvector_entries_init_type_tag(teds_lowmemoryvector_entr
 }
 
 static zend_never_inline void teds_lowmemoryvector_entries_promote_bool_or_null_to_zval(teds_lowmemoryvector_entries *array) {
-	array->type_tag = LMV_TYPE_ZVAL;
 	uint8_t *const original_types = array->entries_uint8;
 	const uint8_t *src = original_types;
 	const size_t size = array->size;
 	const size_t old_capacity = array->capacity;
 	const size_t capacity = size >= 2 ? size * 2 : 4;
-	array->capacity = capacity;
 	zval *const entries_zval = safe_emalloc(capacity, sizeof(zval), 0);
+	/* Change the representation after the allocation, which may fail */
+	array->type_tag = LMV_TYPE_ZVAL;
+	array->capacity = capacity;
 	const zval *const end = entries_zval + size;
 	zval *dst = entries_zval;
 	array->entries_zval = entries_zval;
@@ -1623,14 +1625,15 @@ static zend_never_inline void teds_lowmemoryvector_entries_promote_bool_or_null_
 
 static zend_never_inline void teds_lowmemoryvector_entries_promote_double_to_zval(teds_lowmemoryvector_entries *array)
 {
-	array->type_tag = LMV_TYPE_ZVAL;
 	double *const original_entries = array->entries_double;
 	const double *src = original_entries;
 	const size_t size = array->size;
 	const size_t old_capacity = array->capacity;
 	const size_t capacity = size >= 2 ? size * 2 : 4;
-	array->capacity = capacity;
 	zval *const entries_zval = safe_emalloc(capacity, sizeof(zval), 0);
+	/* Change the representation after the allocation, which may fail */
+	array->type_tag = LMV_TYPE_ZVAL;
+	array->capacity = capacity;
 	const zval *const end = entries_zval + size;
 	zval *dst = entries_zval;
 	array->entries_zval = entries_zval;
@@ -1647,14 +1650,15 @@ static zend_never_inline void teds_lowmemoryvector_entries_promote_double_to_zva
 	} while (0)
 
 #define TEDS_PROMOTE_INT_TO_ZVAL_AND_RETURN(intx_t, entries_intx) do {\
-	array->type_tag = LMV_TYPE_ZVAL; \
 	intx_t *const original_entries = array->entries_intx; \
 	const intx_t *src = original_entries; \
 	const uint32_t size = array->size; \
 	const uint32_t old_capacity = array->capacity; \
 	const uint32_t capacity = old_capacity >= 4 ? old_capacity : 4; \
-	array->capacity = capacity; \
 	zval *const entries_zval = safe_emalloc(capacity, sizeof(zval), 0); \
+	/* Change the representation after the allocation, which may fail */ \
+	array->type_tag = LMV_TYPE_ZVAL; \
+	array->capacity = capacity; \
 	const zval *const end = entries_zval + size; \
 	zval *dst = entries_zval; \
 	array->entries_zval = entries_zval; \
-- 
2.43.0


From 6b8b0c6bcbfe0e487f00dc4ba057023599beb6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:09 +0000
Subject: [PATCH 65/75] fix: IntVector and ImmutableSortedIntSet
 unserialization set the type before an allocation that may fail

---
 teds_intvector.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/teds_intvector.c b/teds_intvector.c
index 2efee4f..bd5459e 100644
--- a/teds_intvector.c
+++ b/teds_intvector.c
@@ -949,8 +949,8 @@ static void teds_intvector_entries_unserialize_from_string(teds_intvector_entrie
 				teds_intvector_entries_set_empty_list(array);
 				return;
 			}
-			array->type_tag = type_tag;
 			char *const values = emalloc(str_byte_length);
+			array->type_tag = type_tag;
 			array->entries_int8 = (int8_t *)values;
 			array->size = num_elements;
 			array->capacity = num_elements;
@@ -1019,15 +1019,15 @@ static void teds_immutablesortedintset_entries_unserialize_from_string(teds_intv
 				teds_intvector_entries_set_empty_list(array);
 				return;
 			}
-			array->type_tag = type_tag;
-			array->size = num_elements;
-			array->capacity = num_elements;
 			/* FIXME assert result is sorted */
 #ifdef WORDS_BIGENDIAN
 			/* TODO: Can probably optimize this with C restrict keyword to indicate memory doesn't overlap? */
 			if (type_tag != TEDS_INTVECTOR_TYPE_INT8) {
 				uint8_t *const values = emalloc(str_byte_length);
 				array->entries_int8 = values;
+				array->type_tag = type_tag;
+				array->size = num_elements;
+				array->capacity = num_elements;
 				if (type_tag == TEDS_INTVECTOR_TYPE_INT64) {
 					uint64_t *dst = (uint64_t *)values;
 					const uint64_t *src = (const uint64_t *)ZSTR_VAL(src_str);
@@ -1068,12 +1068,18 @@ static void teds_immutablesortedintset_entries_unserialize_from_string(teds_intv
 				uint8_t *entries_uint8 = emalloc(str_byte_length);
 				memcpy(entries_uint8, ZSTR_VAL(src_str), str_byte_length);
 				array->entries_uint8 = entries_uint8;
+				array->type_tag = type_tag;
+				array->size = num_elements;
+				array->capacity = num_elements;
 				ZEND_ASSERT(!array->is_string_backed);
 				return;
 			}
 			zend_string_addref(src_str);
 			array->is_string_backed = true;
 			array->entries_uint8 = (uint8_t *)ZSTR_VAL(src_str);
+			array->type_tag = type_tag;
+			array->size = num_elements;
+			array->capacity = num_elements;
 			/* The caller asserts that the entries are sorted. */
 			break;
 		}
-- 
2.43.0


From 8d721a4773d08d9180f35d38b583ddc5f42fd34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:12 +0000
Subject: [PATCH 66/75] fix: LowMemoryVector::__unserialize() set the type
 before the data was accepted and allocated

---
 teds_lowmemoryvector.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/teds_lowmemoryvector.c b/teds_lowmemoryvector.c
index ecaa7f1..4a052a0 100644
--- a/teds_lowmemoryvector.c
+++ b/teds_lowmemoryvector.c
@@ -698,6 +698,7 @@ static void teds_lowmemoryvector_entries_unserialize_from_mixed_zval_array(teds_
 	array->size = num_entries;
 	array->capacity = num_entries;
 	array->entries_zval = entries;
+	array->type_tag = LMV_TYPE_ZVAL;
 }
 
 static void teds_lowmemoryvector_entries_unserialize_from_bitset(teds_lowmemoryvector_entries *array, const uint8_t *bitset_val, const size_t bytes) {
@@ -825,7 +826,6 @@ PHP_METHOD(Teds_LowMemoryVector, __unserialize)
 		zend_throw_exception(spl_ce_RuntimeException, "LowMemoryVector missing data to unserialize", 0);
 		RETURN_THROWS();
 	}
-	array->type_tag = type_tag;
 	if (type_tag == LMV_TYPE_ZVAL) {
 		if (UNEXPECTED(Z_TYPE_P(raw_zval) != IS_ARRAY)) {
 			zend_throw_exception(spl_ce_RuntimeException, "LowMemoryVector expected array of values for mixed type representation", 0);
@@ -872,6 +872,7 @@ PHP_METHOD(Teds_LowMemoryVector, __unserialize)
 				return;
 			}
 			char *const values = emalloc(str_byte_length);
+			array->type_tag = type_tag;
 			array->entries_int8 = (int8_t *)values;
 			array->size = num_elements;
 			array->capacity = num_elements;
-- 
2.43.0


From fcfe6c695d2aa46db63114fa3620371a3637ecce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:15 +0000
Subject: [PATCH 67/75] fix: LowMemoryVector::__unserialize() leaked an empty
 block for an empty array of mixed values

---
 teds_lowmemoryvector.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/teds_lowmemoryvector.c b/teds_lowmemoryvector.c
index 4a052a0..29fe5e1 100644
--- a/teds_lowmemoryvector.c
+++ b/teds_lowmemoryvector.c
@@ -687,6 +687,10 @@ zend_object_iterator *teds_lowmemoryvector_get_iterator(zend_class_entry *ce, zv
 
 static void teds_lowmemoryvector_entries_unserialize_from_mixed_zval_array(teds_lowmemoryvector_entries *array, HashTable *ht) {
 	const uint32_t num_entries = zend_hash_num_elements(ht);
+	if (UNEXPECTED(num_entries == 0)) {
+		teds_lowmemoryvector_entries_set_empty_list(array);
+		return;
+	}
 	zval *entries = emalloc(num_entries * sizeof(zval));
 	zval *it = entries;
 	zval *val;
-- 
2.43.0


From 664ed53f00e5a07984fd457598d80abe090f2d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:18 +0000
Subject: [PATCH 68/75] fix: cloning StrictTreeSet and StrictTreeMap set the
 count before the nodes were copied

---
 teds_stricttreemap.c | 2 +-
 teds_stricttreeset.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/teds_stricttreemap.c b/teds_stricttreemap.c
index 58d8bbc..35ae0c3 100644
--- a/teds_stricttreemap.c
+++ b/teds_stricttreemap.c
@@ -477,11 +477,11 @@ static void teds_stricttreemap_tree_copy_ctor(teds_stricttreemap_tree *to, teds_
 {
 	teds_stricttreemap_tree_set_empty_tree(to);
 	/* Copy the original tree structure. It will be balanced if the original tree is balanced. */
-	to->nNumOfElements = from->nNumOfElements;
 	TEDS_SET_SHOULD_REBUILD_PROPERTIES(to, true);
 	to->initialized = true;
 	if (!teds_stricttreemap_tree_empty_size(from)) {
 		to->root = teds_stricttreemap_node_copy_ctor_recursive(from->root, NULL, NULL, NULL);
+		to->nNumOfElements = from->nNumOfElements;
 	} else {
 		to->root = NULL;
 	}
diff --git a/teds_stricttreeset.c b/teds_stricttreeset.c
index eb1d11d..88957ce 100644
--- a/teds_stricttreeset.c
+++ b/teds_stricttreeset.c
@@ -445,11 +445,11 @@ static void teds_stricttreeset_tree_copy_ctor(teds_stricttreeset_tree *to, teds_
 {
 	teds_stricttreeset_tree_set_empty_tree(to);
 	/* Copy the original tree structure. It will be balanced if the original tree is balanced. */
-	to->nNumOfElements = from->nNumOfElements;
 	TEDS_SET_SHOULD_REBUILD_PROPERTIES(to, true);
 	to->initialized = true;
 	if (!teds_stricttreeset_tree_empty_size(from)) {
 		to->root = teds_stricttreeset_node_copy_ctor_recursive(from->root, NULL, NULL, NULL);
+		to->nNumOfElements = from->nNumOfElements;
 	} else {
 		to->root = NULL;
 	}
-- 
2.43.0


From f7d387de564fa863444f64a4d54cf4af18a86a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:20 +0000
Subject: [PATCH 69/75] fix: ImmutableSortedStringSet set its size before the
 allocation of its data

---
 teds_immutablesortedstringset.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/teds_immutablesortedstringset.c b/teds_immutablesortedstringset.c
index 1e79774..a63739a 100644
--- a/teds_immutablesortedstringset.c
+++ b/teds_immutablesortedstringset.c
@@ -722,9 +722,9 @@ static void teds_immutablesortedstringset_entries_sort_and_deduplicate_and_set_l
 		return;
 	}
 	/* TODO erealloc to remove excess capacity */
-	array->size = num_unique_strings;
 	zend_string *str = smart_str_extract(&sbuf);
 	teds_serialize_write_uint32_t((uint8_t *) ZSTR_VAL(str), num_unique_strings);
+	array->size = num_unique_strings;
 	array->raw_bytes = ZSTR_VAL(str);
 	array->substring_infos = substring_infos;
 	return;
-- 
2.43.0


From 4771d4bd3b1c770cb6c7ae789d4bb1310140fc25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:03 +0000
Subject: [PATCH 70/75] fix: ImmutableSortedStringSet's iterator kept a freed
 string when creating the next one failed

---
 teds_immutablesortedstringset.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/teds_immutablesortedstringset.c b/teds_immutablesortedstringset.c
index a63739a..2282f2a 100644
--- a/teds_immutablesortedstringset.c
+++ b/teds_immutablesortedstringset.c
@@ -438,6 +438,7 @@ static zval *teds_immutablesortedstringset_it_get_current_data(zend_object_itera
 	}
 	/* Free the string created by the previous call */
 	zval_ptr_dtor(&iterator->tmp);
+	ZVAL_UNDEF(&iterator->tmp);
 	return teds_immutablesortedstringset_entries_read_offset(array, iterator->current, &iterator->tmp);
 }
 
-- 
2.43.0


From f5183545ce6e64f91c76e5d4b07dcbd6bdc11c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:39 +0000
Subject: [PATCH 71/75] fix: unique_values() returned immutable arrays
 (opcache's literals) as if they were refcounted, corrupting them

---
 teds.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/teds.c b/teds.c
index 897dd26..77f5759 100644
--- a/teds.c
+++ b/teds.c
@@ -457,8 +457,9 @@ static zend_always_inline bool teds_is_list_of_non_references(HashTable *ht) {
 	return true;
 }
 
-static inline void teds_array_unique_values(HashTable *ht, zval *return_value)
+static inline void teds_array_unique_values(zval *array_zv, zval *return_value)
 {
+	HashTable *const ht = Z_ARRVAL_P(array_zv);
 	const uint32_t ht_size = zend_hash_num_elements(ht);
 	if (ht_size <= 1) {
 		if (ht_size == 0) {
@@ -474,8 +475,7 @@ static inline void teds_array_unique_values(HashTable *ht, zval *return_value)
 			zend_ulong num_index;
 			if (zend_hash_get_current_key_ex(ht, &str_index, &num_index, &start) == HASH_KEY_IS_LONG && num_index == 0) {
 				/* The input array is already a single-element list of non-references of size 1 */
-				GC_TRY_ADDREF(ht);
-				RETURN_ARR(ht);
+				RETURN_COPY(array_zv);
 			}
 		}
 		HashTable *result = zend_new_array(1);
@@ -491,9 +491,8 @@ static inline void teds_array_unique_values(HashTable *ht, zval *return_value)
 	ZEND_ASSERT(array.nNumOfElements <= ht_size);
 	if (ht_size == array.nNumOfElements && teds_is_list_of_non_references(ht)) {
 		/* Save memory by returning the original list when it's safe to do so. */
-		GC_TRY_ADDREF(ht);
 		teds_stricthashset_entries_dtor(&array);
-		RETURN_ARR(ht);
+		RETURN_COPY(array_zv);
 	}
 	RETURN_ARR(teds_move_zend_array_from_entries(&array));
 }
@@ -522,7 +521,7 @@ PHP_FUNCTION(Teds_unique_values)
 
 	switch (Z_TYPE_P(iterable)) {
 		case IS_ARRAY:
-			teds_array_unique_values(Z_ARRVAL_P(iterable), return_value);
+			teds_array_unique_values(iterable, return_value);
 			return;
 		case IS_OBJECT: {
 			ZEND_ASSERT(instanceof_function(Z_OBJCE_P(iterable), zend_ce_traversable));
-- 
2.43.0


From 146a6429e53468beddaff8bbb127b1f25a850667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:47 +0000
Subject: [PATCH 72/75] fix: Deque constructor no longer corrupts memory when
 its source modifies the half-built instance

---
 teds_deque.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/teds_deque.c b/teds_deque.c
index 2ba457d..ad52b3b 100644
--- a/teds_deque.c
+++ b/teds_deque.c
@@ -223,6 +223,20 @@ static void teds_deque_entries_init_from_traversable(teds_deque_entries *array,
 		}
 	}
 
+	if (UNEXPECTED(!teds_deque_entries_uninitialized(array))) {
+		/* The traversable got hold of this instance (e.g. with debug_backtrace()) and initialized it. */
+		if (!EG(exception)) {
+			zend_throw_exception(spl_ce_RuntimeException, "Called Teds\\Deque::__construct twice", 0);
+		}
+		while (size > 0) {
+			size--;
+			zval_ptr_dtor(&circular_buffer[size]);
+		}
+		if (circular_buffer) {
+			efree(circular_buffer);
+		}
+		goto cleanup_iter;
+	}
 	array->size = size;
 	array->mask = capacity > 0 ? capacity - 1 : 0;
 	array->circular_buffer = circular_buffer ? circular_buffer : (zval *)empty_entry_list;
-- 
2.43.0


From 3fcfbb86adaae63a8c8ad77d8693bece20911ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:50 +0000
Subject: [PATCH 73/75] fix: constructors do not leak or overwrite what their
 source stored in the half-built instance

---
 teds_immutableiterable.c     | 15 +++++++++++++++
 teds_immutablesequence.c     | 14 ++++++++++++++
 teds_mutableiterable.c       | 15 +++++++++++++++
 teds_strictsortedvectorset.c | 14 ++++++++++++++
 teds_vector.c                | 14 ++++++++++++++
 5 files changed, 72 insertions(+)

diff --git a/teds_immutableiterable.c b/teds_immutableiterable.c
index d6ed22b..e90ef88 100644
--- a/teds_immutableiterable.c
+++ b/teds_immutableiterable.c
@@ -195,6 +195,21 @@ static void teds_immutableiterable_entries_init_from_traversable(teds_immutablei
 			break;
 		}
 	}
+	if (UNEXPECTED(!teds_immutableiterable_entries_uninitialized(array))) {
+		/* The traversable got hold of this instance (e.g. with debug_backtrace()) and initialized it. */
+		if (!EG(exception)) {
+			zend_throw_exception(spl_ce_RuntimeException, "Called Teds\\ImmutableIterable::__construct twice", 0);
+		}
+		while (size > 0) {
+			size--;
+			zval_ptr_dtor(&entries[size].key);
+			zval_ptr_dtor(&entries[size].value);
+		}
+		if (entries) {
+			efree(entries);
+		}
+		goto cleanup_iter;
+	}
 	if (capacity > size) {
 		/* Shrink allocated value to actual required size */
 		entries = erealloc(entries, size * sizeof(zval_pair));
diff --git a/teds_immutablesequence.c b/teds_immutablesequence.c
index d3945a0..22cfe81 100644
--- a/teds_immutablesequence.c
+++ b/teds_immutablesequence.c
@@ -175,6 +175,20 @@ static void teds_immutablesequence_entries_init_from_traversable(teds_immutables
 			break;
 		}
 	}
+	if (UNEXPECTED(!teds_immutablesequence_entries_uninitialized(array))) {
+		/* The traversable got hold of this instance (e.g. with debug_backtrace()) and initialized it. */
+		if (!EG(exception)) {
+			zend_throw_exception(spl_ce_RuntimeException, "Called Teds\\ImmutableSequence::__construct twice", 0);
+		}
+		while (size > 0) {
+			size--;
+			zval_ptr_dtor(&entries[size]);
+		}
+		if (entries) {
+			efree(entries);
+		}
+		goto cleanup_iter;
+	}
 	if (capacity > size) {
 		/* Shrink allocated value to actual required size */
 		entries = erealloc(entries, size * sizeof(zval));
diff --git a/teds_mutableiterable.c b/teds_mutableiterable.c
index 5547420..94f226e 100644
--- a/teds_mutableiterable.c
+++ b/teds_mutableiterable.c
@@ -224,6 +224,21 @@ static void teds_mutableiterable_entries_init_from_traversable(teds_mutableitera
 			break;
 		}
 	}
+	if (UNEXPECTED(!teds_mutableiterable_entries_uninitialized(array))) {
+		/* The traversable got hold of this instance (e.g. with debug_backtrace()) and initialized it. */
+		if (!EG(exception)) {
+			zend_throw_exception(spl_ce_RuntimeException, "Called Teds\\MutableIterable::__construct twice", 0);
+		}
+		while (size > 0) {
+			size--;
+			zval_ptr_dtor(&entries[size].key);
+			zval_ptr_dtor(&entries[size].value);
+		}
+		if (entries) {
+			efree(entries);
+		}
+		goto cleanup_iter;
+	}
 	if (capacity > size) {
 		/* Shrink allocated value to actual required size */
 		entries = erealloc(entries, size * sizeof(zval_pair));
diff --git a/teds_strictsortedvectorset.c b/teds_strictsortedvectorset.c
index b995324..d5b817a 100644
--- a/teds_strictsortedvectorset.c
+++ b/teds_strictsortedvectorset.c
@@ -265,6 +265,20 @@ static void teds_strictsortedvectorset_entries_init_from_traversable(teds_strict
 		}
 	}
 
+	if (UNEXPECTED(!teds_strictsortedvectorset_entries_uninitialized(array))) {
+		/* The traversable got hold of this instance (e.g. with debug_backtrace()) and initialized it. */
+		if (!EG(exception)) {
+			zend_throw_exception(spl_ce_RuntimeException, "Called Teds\\StrictSortedVectorSet::__construct twice", 0);
+		}
+		while (size > 0) {
+			size--;
+			zval_ptr_dtor(&entries[size]);
+		}
+		if (entries) {
+			efree(entries);
+		}
+		goto cleanup_iter;
+	}
 	array->size = size;
 	array->capacity = capacity;
 	array->entries = entries ? entries : (zval *)empty_entry_list;
diff --git a/teds_vector.c b/teds_vector.c
index 502d516..c821202 100644
--- a/teds_vector.c
+++ b/teds_vector.c
@@ -202,6 +202,20 @@ static void teds_vector_entries_init_from_traversable(teds_vector_entries *array
 			break;
 		}
 	}
+	if (UNEXPECTED(!teds_vector_entries_uninitialized(array))) {
+		/* The traversable got hold of this instance (e.g. with debug_backtrace()) and initialized it. */
+		if (!EG(exception)) {
+			zend_throw_exception(spl_ce_RuntimeException, "Called Teds\\Vector::__construct twice", 0);
+		}
+		while (size > 0) {
+			size--;
+			zval_ptr_dtor(&entries[size]);
+		}
+		if (entries) {
+			efree(entries);
+		}
+		goto cleanup_iter;
+	}
 	if (capacity > size) {
 		/* Shrink allocated value to actual required size */
 		entries = erealloc(entries, size * sizeof(zval));
-- 
2.43.0


From 5b585d44ce239f10618d0faef459183836c141b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:54 +0000
Subject: [PATCH 74/75] fix: sorted int sets are never left unsorted when their
 source fails

---
 teds_intvector.c | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/teds_intvector.c b/teds_intvector.c
index bd5459e..ccf89fb 100644
--- a/teds_intvector.c
+++ b/teds_intvector.c
@@ -683,6 +683,24 @@ TEDS_INTVECTOR__GENERATE_INT_CASES()
 	}
 }
 
+/* Collects the elements separately, so that code that gets hold of the instance early (e.g. with debug_backtrace()) never sees a set that is not sorted. */
+static void teds_sortedintvectorset_entries_init_from_traversable(teds_intvector_entries *array, zend_object *obj)
+{
+	teds_intvector_entries tmp;
+	memset(&tmp, 0, sizeof(tmp));
+	teds_intvector_entries_set_empty_list(array);
+	teds_intvector_entries_init_from_traversable(&tmp, obj);
+	if (UNEXPECTED(EG(exception))) {
+		teds_intvector_entries_clear(&tmp);
+		return;
+	}
+	teds_intvector_entries_clear(array);
+	array->entries_raw = tmp.entries_raw;
+	array->size = tmp.size;
+	array->capacity = tmp.capacity;
+	array->type_tag = tmp.type_tag;
+}
+
 PHP_METHOD(Teds_SortedIntVectorSet, __construct)
 {
 	zval *object = ZEND_THIS;
@@ -710,7 +728,7 @@ PHP_METHOD(Teds_SortedIntVectorSet, __construct)
 			teds_intvector_entries_init_from_array_values(array, Z_ARRVAL_P(iterable));
 			break;
 		case IS_OBJECT:
-			teds_intvector_entries_init_from_traversable(array, Z_OBJ_P(iterable));
+			teds_sortedintvectorset_entries_init_from_traversable(array, Z_OBJ_P(iterable));
 			break;
 		EMPTY_SWITCH_DEFAULT_CASE();
 	}
@@ -758,7 +776,7 @@ PHP_METHOD(Teds_ImmutableSortedIntSet, __construct)
 			teds_intvector_entries_init_from_array_values(array, Z_ARRVAL_P(iterable));
 			break;
 		case IS_OBJECT:
-			teds_intvector_entries_init_from_traversable(array, Z_OBJ_P(iterable));
+			teds_sortedintvectorset_entries_init_from_traversable(array, Z_OBJ_P(iterable));
 			break;
 		EMPTY_SWITCH_DEFAULT_CASE();
 	}
-- 
2.43.0


From ea1305139fda2b37b381a6ba366a50d1dda72451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:50 +0000
Subject: [PATCH 75/75] fix: find returns the value the callback accepted when
 the callback assigns to the reference it came from

---
 teds.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/teds.c b/teds.c
index 77f5759..42bc29a 100644
--- a/teds.c
+++ b/teds.c
@@ -766,21 +766,24 @@ static zend_always_inline void teds_array_find(HashTable *htbl, zend_fcall_info
 		fci.param_count = 1;
 
 		ZEND_HASH_FOREACH_VAL(htbl, operand) {
-			fci.params = operand;
-			Z_TRY_ADDREF_P(operand);
+			/* The callback may assign to a reference in the array */
+			zval arg;
+			ZVAL_COPY_DEREF(&arg, operand);
+			fci.params = &arg;
 
 			if (zend_call_function(&fci, &fci_cache) == SUCCESS) {
 				bool found = zend_is_true(&retval);
 				zval_ptr_dtor(&retval);
 				if (found) {
-					ZVAL_COPY_DEREF(return_value, operand);
+					ZVAL_COPY_VALUE(return_value, &arg);
+					return;
 				}
-				zval_ptr_dtor(operand);
-				if (found || UNEXPECTED(EG(exception))) {
+				zval_ptr_dtor(&arg);
+				if (UNEXPECTED(EG(exception))) {
 					return;
 				}
 			} else {
-				zval_ptr_dtor(operand);
+				zval_ptr_dtor(&arg);
 				return;
 			}
 		} ZEND_HASH_FOREACH_END();
-- 
2.43.0

