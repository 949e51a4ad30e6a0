/* vmon: heap monitor for the Zend allocator, loaded next to the extension under test.
 *
 * - every emalloc block is tracked; fresh memory is filled with 0xA5
 * - every efree'd block is filled with 0xDB and kept in a FIFO quarantine; on eviction, and at every
 *   vmon_check(), the fill is verified: a refcount update on a freed block, made by the (uninstrumented) PHP
 *   binary as well as by the extension, is a write to freed memory and is reported
 * - realloc always moves, so that pointers kept across a growth are stale
 * - freeing a quarantined block, or a pointer that is not a live block, is reported
 * - live blocks/bytes are counted (conservation oracle)
 * - the n-th allocation can be made to fail, as a fatal "out of memory" error does in PHP
 */
#ifdef HAVE_CONFIG_H
# undef HAVE_CONFIG_H
#endif
#include "php.h"
#include "Zend/zend_alloc.h"
#include "ext/standard/info.h"
#include <malloc.h>
#include <execinfo.h>
#include <stdio.h>
#include <string.h>
#include <unistd.h>
#include <dlfcn.h>
#include <fcntl.h>

#ifdef __SANITIZE_ADDRESS__
# include <sanitizer/asan_interface.h>
# define POISON(p, n) __asan_poison_memory_region((p), (n))
# define UNPOISON(p, n) __asan_unpoison_memory_region((p), (n))
# define NOSAN __attribute__((no_sanitize("address")))
#else
# define POISON(p, n)
# define UNPOISON(p, n)
# define NOSAN
#endif

#define FILL_NEW 0xA5
#define FILL_FREED 0xDB
#define QUARANTINE_MAX_BLOCKS 16384
#define QUARANTINE_MAX_BYTES (48u << 20)
#define BT_DEPTH 24

typedef struct { void *p; size_t n; uint64_t seq; void *bt[BT_DEPTH]; int btn; } slot;

static int enabled, trace;
static uint64_t seq_counter, n_alloc, n_free, n_realloc, n_verified, n_faults;
static int64_t live_blocks, live_bytes;
static uint64_t fault_countdown, realloc_bytes, size_limit;

/* quarantine ring */
static struct { void *p; size_t n; void *bt[BT_DEPTH]; int btn; } ring[QUARANTINE_MAX_BLOCKS];
static size_t ring_head, ring_len, ring_bytes;

/* open addressing table: pointer -> live(1)/quarantined(2) */
typedef struct { void *p; size_t n; uint64_t seq; uint8_t state; slot *tr; } ent;
static ent *tab; static size_t tab_cap, tab_used;

static size_t hp(void *p) { uint64_t x = (uint64_t)(uintptr_t)p; x ^= x >> 33; x *= 0xff51afd7ed558ccdULL; x ^= x >> 33; return (size_t)x; }
static ent *tab_find(void *p) {
	if (!tab_cap) return NULL;
	for (size_t i = hp(p) & (tab_cap - 1);; i = (i + 1) & (tab_cap - 1)) {
		if (tab[i].p == p) return &tab[i];
		if (tab[i].p == NULL) return NULL;
	}
}
static void tab_grow(void) {
	ent *old = tab; size_t oc = tab_cap; size_t live = 0;
	for (size_t i = 0; i < oc; i++) if (old[i].p && old[i].state) live++;
	size_t nc = 1 << 16; while (nc < live * 4) nc <<= 1;
	tab = calloc(nc, sizeof(ent)); tab_cap = nc; tab_used = 0;
	for (size_t i = 0; i < oc; i++) if (old[i].p && old[i].state) {
		size_t j = hp(old[i].p) & (nc - 1);
		while (tab[j].p) j = (j + 1) & (nc - 1);
		tab[j] = old[i]; tab_used++;
	}
	free(old);
}
static ent *tab_put(void *p) {
	if (tab_used * 2 >= tab_cap) tab_grow();
	size_t i = hp(p) & (tab_cap - 1);
	for (;; i = (i + 1) & (tab_cap - 1)) {
		if (tab[i].p == p) return &tab[i];
		if (tab[i].p == NULL) { tab[i].p = p; tab_used++; return &tab[i]; }
	}
}

static void print_bt(const char *label, void **bt, int n) {
	fprintf(stderr, "  %s:\n", label);
	fflush(stderr);
	if (n > 0) backtrace_symbols_fd(bt, n, 2);
}
static void report(const char *kind, void *p, size_t n, ent *e, void **fbt, int fbtn) {
	fprintf(stderr, "VMON-REPORT: %s block=%p size=%zu\n", kind, p, n);
	if (e && e->tr) print_bt("allocated by", e->tr->bt, e->tr->btn);
	if (fbtn > 0) print_bt("freed by", fbt, fbtn);
	void *bt[BT_DEPTH]; int k = backtrace(bt, BT_DEPTH);
	print_bt("detected at", bt, k);
	_exit(97);
}
NOSAN static int filled_ok(const unsigned char *p, size_t n) {
	size_t i = 0;
	for (; i < n && ((uintptr_t)(p + i) & 7); i++) if (p[i] != FILL_FREED) return 0;
	for (; i + 8 <= n; i += 8) if (*(const uint64_t *)(p + i) != 0x0101010101010101ULL * FILL_FREED) return 0;
	for (; i < n; i++) if (p[i] != FILL_FREED) return 0;
	return 1;
}
static void verify_slot(size_t idx) {
	n_verified++;
	if (!filled_ok(ring[idx].p, ring[idx].n)) {
		ent *e = tab_find(ring[idx].p);
		report("write-after-free", ring[idx].p, ring[idx].n, e, ring[idx].bt, ring[idx].btn);
	}
}
static void evict(void) {
	size_t idx = ring_head;
	verify_slot(idx);
	ent *e = tab_find(ring[idx].p);
	if (e) { e->state = 0; if (e->tr) { free(e->tr); e->tr = NULL; } }
	UNPOISON(ring[idx].p, ring[idx].n);
	void *p = ring[idx].p;
	ring_bytes -= ring[idx].n;
	ring_head = (ring_head + 1) % QUARANTINE_MAX_BLOCKS; ring_len--;
	free(p);
}
static void maybe_fault(void) {
	if (fault_countdown && --fault_countdown == 0) {
		n_faults++;
		{ void *bt[BT_DEPTH]; int k = backtrace(bt, BT_DEPTH); print_bt("allocation that fails", bt, k); }
		zend_error_noreturn(E_ERROR, "vmon: injected allocation failure");
	}
}
static void *vm_malloc(size_t n) {
	maybe_fault();
	if (size_limit && n > size_limit) zend_error_noreturn(E_ERROR, "vmon: allocation of %zu bytes exceeds the limit", n);
	n_alloc++;
	void *p = malloc(n ? n : 1);
	if (!p) { fprintf(stderr, "vmon: real out of memory (%zu)\n", n); _exit(96); }
	size_t u = malloc_usable_size(p);
	if (u > (1u << 20)) memset(p, FILL_NEW, 1u << 20); else memset(p, FILL_NEW, u);
	ent *e = tab_put(p);
	e->n = u; e->seq = ++seq_counter; e->state = 1;
	if (trace) {
		if (!e->tr) e->tr = malloc(sizeof(slot));
		e->tr->btn = backtrace(e->tr->bt, BT_DEPTH);
	} else if (e->tr) { free(e->tr); e->tr = NULL; }
	live_blocks++; live_bytes += n;
	e->n = n;
	return p;
}
static void vm_free(void *p) {
	if (!p) return;
	n_free++;
	ent *e = tab_find(p);
	if (!e || !e->state) {
		/* Block from before the monitor was installed: hand it straight back. */
		if (e) report("invalid-free", p, 0, e, NULL, 0);
		free(p);
		return;
	}
	if (e->state == 2) {
		void **bt = NULL; int btn = 0;
		for (size_t i = 0; i < ring_len; i++) {
			size_t idx = (ring_head + i) % QUARANTINE_MAX_BLOCKS;
			if (ring[idx].p == p) { bt = ring[idx].bt; btn = ring[idx].btn; }
		}
		report("double-free", p, e->n, e, bt, btn);
	}
	live_blocks--; live_bytes -= e->n;
	size_t u = malloc_usable_size(p);
	if (u > (1u << 20)) { e->state = 0; if (e->tr) { free(e->tr); e->tr = NULL; } free(p); return; }
	memset(p, FILL_FREED, u);
	POISON(p, u);
	e->state = 2;
	while (ring_len >= QUARANTINE_MAX_BLOCKS || (ring_len && ring_bytes + u > QUARANTINE_MAX_BYTES)) evict();
	size_t idx = (ring_head + ring_len) % QUARANTINE_MAX_BLOCKS;
	ring[idx].p = p; ring[idx].n = u; ring[idx].btn = trace ? backtrace(ring[idx].bt, BT_DEPTH) : 0;
	ring_len++; ring_bytes += u;
}
static void *vm_realloc(void *p, size_t n) {
	if (!p) return vm_malloc(n);
	n_realloc++;
	ent *e = tab_find(p);
	if (e && e->state == 2) report("realloc-after-free", p, e->n, e, NULL, 0);
	size_t old = e && e->state == 1 ? e->n : malloc_usable_size(p);
	void *q = vm_malloc(n);
	realloc_bytes += old < n ? old : n;
	memcpy(q, p, old < n ? old : n);
	vm_free(p);
	return q;
}
static void imm_verify(void);
static void verify_all(void) {
	imm_verify();
	for (size_t i = 0; i < ring_len; i++) verify_slot((ring_head + i) % QUARANTINE_MAX_BLOCKS);
}

/* ---- PHP functions ---- */
ZEND_BEGIN_ARG_INFO_EX(ai_none, 0, 0, 0) ZEND_END_ARG_INFO()
ZEND_BEGIN_ARG_INFO_EX(ai_one, 0, 0, 1) ZEND_ARG_INFO(0, v) ZEND_END_ARG_INFO()

PHP_FUNCTION(vmon_stats) {
	ZEND_PARSE_PARAMETERS_NONE();
	int64_t lb = live_blocks, ly = live_bytes; uint64_t a = n_alloc, f = n_free, v = n_verified, r = n_realloc;
	array_init(return_value);
	add_assoc_bool(return_value, "enabled", enabled);
	add_assoc_long(return_value, "blocks", lb); add_assoc_long(return_value, "bytes", ly);
	add_assoc_long(return_value, "allocs", a); add_assoc_long(return_value, "moved", realloc_bytes); add_assoc_long(return_value, "frees", f);
	add_assoc_long(return_value, "reallocs", r); add_assoc_long(return_value, "verified", v);
}
PHP_FUNCTION(vmon_blocks) { ZEND_PARSE_PARAMETERS_NONE(); RETURN_LONG(live_blocks); }
PHP_FUNCTION(vmon_bytes) { ZEND_PARSE_PARAMETERS_NONE(); RETURN_LONG(live_bytes); }
PHP_FUNCTION(vmon_allocs) { ZEND_PARSE_PARAMETERS_NONE(); RETURN_LONG(n_alloc); }
PHP_FUNCTION(vmon_check) { ZEND_PARSE_PARAMETERS_NONE(); verify_all(); RETURN_LONG(ring_len); }
PHP_FUNCTION(vmon_seq) { ZEND_PARSE_PARAMETERS_NONE(); RETURN_LONG(seq_counter); }
PHP_FUNCTION(vmon_trace) {
	bool b; ZEND_PARSE_PARAMETERS_START(1, 1) Z_PARAM_BOOL(b) ZEND_PARSE_PARAMETERS_END();
	trace = b;
}
PHP_FUNCTION(vmon_fail_after) {
	zend_long n; ZEND_PARSE_PARAMETERS_START(1, 1) Z_PARAM_LONG(n) ZEND_PARSE_PARAMETERS_END();
	fault_countdown = n;
}
/* Refuse single allocations above this size the way memory_limit does. */
PHP_FUNCTION(vmon_limit) {
	zend_long n; ZEND_PARSE_PARAMETERS_START(1, 1) Z_PARAM_LONG(n) ZEND_PARSE_PARAMETERS_END();
	size_limit = n;
}
/* In a forked child: everything it prints goes to this file. */
PHP_FUNCTION(vmon_child) {
	char *s; size_t n; ZEND_PARSE_PARAMETERS_START(1, 1) Z_PARAM_STRING(s, n) ZEND_PARSE_PARAMETERS_END();
	int fd = open(s, O_WRONLY | O_CREAT | O_TRUNC, 0600);
	if (fd >= 0) { dup2(fd, 1); dup2(fd, 2); close(fd); }
}
PHP_FUNCTION(vmon_exit) {
	zend_long n; ZEND_PARSE_PARAMETERS_START(1, 1) Z_PARAM_LONG(n) ZEND_PARSE_PARAMETERS_END();
	verify_all();
	_exit((int)n);
}
PHP_FUNCTION(vmon_refcount) {
	zval *v; ZEND_PARSE_PARAMETERS_START(1, 1) Z_PARAM_ZVAL(v) ZEND_PARSE_PARAMETERS_END();
	if (!Z_REFCOUNTED_P(v)) RETURN_LONG(0);
	RETURN_LONG(Z_REFCOUNT_P(v) - 1);
}
/* Print the allocation sites of blocks allocated after `seq` that are still live (needs vmon_trace(true)). */
PHP_FUNCTION(vmon_print_live_since) {
	zend_long s; ZEND_PARSE_PARAMETERS_START(1, 1) Z_PARAM_LONG(s) ZEND_PARSE_PARAMETERS_END();
	int printed = 0;
	for (size_t i = 0; i < tab_cap && printed < 12; i++) if (tab[i].p && tab[i].state == 1 && tab[i].seq > (uint64_t)s && tab[i].tr) {
		fprintf(stderr, "live block %p size=%zu seq=%lu\n", tab[i].p, tab[i].n, (unsigned long)tab[i].seq);
		print_bt("allocated by", tab[i].tr->bt, tab[i].tr->btn); printed++;
	}
	RETURN_LONG(printed);
}
/* Is a value as the engine requires it to be? Returns null or what is wrong. Looks at what scripts cannot see directly:
 * type flags, string terminators and cached hashes, array counters, holes, chains and the next free index. */
static const char *wf_str(zend_string *s) {
	if (ZSTR_VAL(s)[ZSTR_LEN(s)] != 0) return "string without terminating NUL";
	if (ZSTR_H(s) && ZSTR_H(s) != zend_inline_hash_func(ZSTR_VAL(s), ZSTR_LEN(s))) return "string with a wrong cached hash";
	if (!ZSTR_IS_INTERNED(s) && GC_REFCOUNT(s) == 0) return "string with refcount 0";
	return NULL;
}
static const char *wf(zval *v, int depth) {
	switch (Z_TYPE_P(v)) {
	case IS_NULL: case IS_FALSE: case IS_TRUE: case IS_LONG: case IS_DOUBLE:
		return Z_TYPE_FLAGS_P(v) ? "scalar with type flags" : NULL;
	case IS_STRING:
		if (!Z_REFCOUNTED_P(v) != !!ZSTR_IS_INTERNED(Z_STR_P(v))) return "string whose type flags contradict its allocation";
		return wf_str(Z_STR_P(v));
	case IS_REFERENCE:
		return wf(Z_REFVAL_P(v), depth);
	case IS_OBJECT:
		if (!Z_REFCOUNTED_P(v)) return "object that is not refcounted";
		return GC_REFCOUNT(Z_OBJ_P(v)) == 0 ? "object with refcount 0" : NULL;
	case IS_RESOURCE: return NULL;
	case IS_ARRAY: break;
	default: return "value of an internal type";
	}
	HashTable *ht = Z_ARRVAL_P(v);
	if (!Z_REFCOUNTED_P(v) != !!(GC_FLAGS(ht) & GC_IMMUTABLE)) return "array whose type flags contradict its allocation";
	if (GC_REFCOUNT(ht) == 0) return "array with refcount 0";
	if (ht->nNumUsed > ht->nTableSize) return "array using more than its table";
	if (ht->nNumOfElements > ht->nNumUsed) return "array counting more than it uses";
	if (ht->nInternalPointer > ht->nNumUsed) return "array with its internal pointer outside";
	if (ht->nNumUsed && (HT_FLAGS(ht) & HASH_FLAG_UNINITIALIZED)) return "array used though uninitialized";
	if (depth > 8 || (depth && GC_IS_RECURSIVE(ht))) return NULL;
	uint32_t n = 0;
	for (uint32_t i = 0; i < ht->nNumUsed; i++) {
		zval *e; zend_string *k = NULL; zend_ulong h;
		if (HT_IS_PACKED(ht)) { e = ht->arPacked + i; h = i; if (Z_TYPE_P(e) == IS_UNDEF) continue; }
		else { Bucket *b = ht->arData + i; e = &b->val; if (Z_TYPE_P(e) == IS_UNDEF) continue; k = b->key; h = b->h; }
		n++;
		if (Z_TYPE_P(e) == IS_INDIRECT) return "array with an indirect value";
		if (!k) {
			if ((zend_long)h >= ht->nNextFreeElement && !((zend_long)h == ZEND_LONG_MAX && ht->nNextFreeElement == ZEND_LONG_MAX)) return "array whose next free index is already taken";
			if (zend_hash_index_find(ht, h) != e) return "array whose integer key cannot be looked up";
		} else {
			const char *r = wf_str(k); if (r) return r;
			if (!ZSTR_IS_INTERNED(k) && (HT_FLAGS(ht) & HASH_FLAG_STATIC_KEYS)) return "array with counted keys declared static";
			if (h != zend_inline_hash_func(ZSTR_VAL(k), ZSTR_LEN(k))) return "array key with a wrong hash";
			if (zend_hash_find(ht, k) != e) return "array whose string key cannot be looked up";
		}
		const char *r = wf(e, depth + 1); if (r) return r;
	}
	return n == ht->nNumOfElements ? NULL : "array whose count is not its number of elements";
}
PHP_FUNCTION(vmon_wellformed) {
	zval *v; ZEND_PARSE_PARAMETERS_START(1, 1) Z_PARAM_ZVAL(v) ZEND_PARSE_PARAMETERS_END();
	const char *r = wf(v, 0);
	if (r) RETURN_STRING(r);
	RETURN_NULL();
}
/* Arrays as opcache hands them out: immutable, shared, outside the request's heap. Nothing may write to them. */
static struct { HashTable *ht; uint32_t info; void *data; uint32_t used; } imm[8192];
static size_t imm_n; static uint64_t imm_bytes;
static void imm_verify(void) {
	for (size_t i = 0; i < imm_n && i < 8192; i++) {
		HashTable *ht = imm[i].ht;
		if (GC_REFCOUNT(ht) != 2 || GC_TYPE_INFO(ht) != imm[i].info || ht->arData != imm[i].data || ht->nNumUsed != imm[i].used) {
			fprintf(stderr, "VMON-REPORT: immutable array written: refcount %u info %x\n", GC_REFCOUNT(ht), GC_TYPE_INFO(ht));
			_exit(97);
		}
	}
}
static int imm_able(zval *v) {
	if (Z_TYPE_P(v) < IS_STRING || Z_TYPE_P(v) == IS_STRING) return 1;
	if (Z_TYPE_P(v) != IS_ARRAY || GC_IS_RECURSIVE(Z_ARRVAL_P(v))) return 0;
	zval *e; ZEND_HASH_FOREACH_VAL(Z_ARRVAL_P(v), e) { if (!imm_able(e)) return 0; } ZEND_HASH_FOREACH_END();
	return 1;
}
static zend_string *imm_str(zend_string *s) {
	if (ZSTR_IS_INTERNED(s)) return s;
	zend_string *t = zend_string_init(ZSTR_VAL(s), ZSTR_LEN(s), 1);
	zend_string_hash_val(t);
	GC_SET_REFCOUNT(t, 1); GC_ADD_FLAGS(t, IS_STR_INTERNED | IS_STR_PERMANENT);
	imm_bytes += ZSTR_LEN(s) + 32;
	return t;
}
static void imm_copy(zval *dst, zval *v) {
	if (Z_TYPE_P(v) == IS_STRING) { ZVAL_INTERNED_STR(dst, imm_str(Z_STR_P(v))); return; }
	if (Z_TYPE_P(v) != IS_ARRAY || (GC_FLAGS(Z_ARRVAL_P(v)) & GC_IMMUTABLE)) { ZVAL_COPY_VALUE(dst, v); return; }
	HashTable *src = Z_ARRVAL_P(v), *ht = malloc(sizeof(HashTable));
	zend_hash_init(ht, src->nNumOfElements, NULL, NULL, 1);
	if (HT_IS_PACKED(src)) zend_hash_real_init_packed(ht); else zend_hash_real_init_mixed(ht);
	zend_ulong h; zend_string *k; zval *e, t;
	ZEND_HASH_FOREACH_KEY_VAL(src, h, k, e) {
		imm_copy(&t, e);
		if (k) zend_hash_add_new(ht, imm_str(k), &t); else zend_hash_index_add_new(ht, h, &t);
	} ZEND_HASH_FOREACH_END();
	HT_FLAGS(ht) |= HASH_FLAG_STATIC_KEYS;
	ht->nNextFreeElement = src->nNextFreeElement;
	ht->pDestructor = ZVAL_PTR_DTOR;
	GC_SET_REFCOUNT(ht, 2); GC_ADD_FLAGS(ht, GC_IMMUTABLE);
	imm_bytes += sizeof(HashTable) + HT_USED_SIZE(ht);
	Z_ARR_P(dst) = ht; Z_TYPE_INFO_P(dst) = IS_ARRAY;
	size_t i = imm_n++ % 8192;
	imm[i].ht = ht; imm[i].info = GC_TYPE_INFO(ht); imm[i].data = ht->arData; imm[i].used = ht->nNumUsed;

}
PHP_FUNCTION(vmon_immutable) {
	zval *v; ZEND_PARSE_PARAMETERS_START(1, 1) Z_PARAM_ZVAL(v) ZEND_PARSE_PARAMETERS_END();
	if (Z_TYPE_P(v) != IS_ARRAY || imm_bytes > (256u << 20) || !imm_able(v) || !zend_hash_num_elements(Z_ARRVAL_P(v))) RETURN_COPY(v);
	imm_copy(return_value, v);
}
/* Coverage/step counter inside the instrumented extension (monitor/cov.c), when present. */
PHP_FUNCTION(vmon_steps) {
	static uint64_t (*f)(void); static int looked;
	ZEND_PARSE_PARAMETERS_NONE();
	if (!looked) { looked = 1; f = (uint64_t (*)(void))dlsym(RTLD_DEFAULT, "teds_mon_steps"); }
	RETURN_LONG(f ? (zend_long)(f()) : -1);
}
PHP_FUNCTION(vmon_cov_dump) {
	char *s; size_t n; ZEND_PARSE_PARAMETERS_START(1, 1) Z_PARAM_STRING(s, n) ZEND_PARSE_PARAMETERS_END();
	int64_t (*f)(const char *) = (int64_t (*)(const char *))dlsym(RTLD_DEFAULT, "teds_mon_cov_dump");
	RETURN_LONG(f ? (zend_long)f(s) : -1);
}
static const zend_function_entry fns[] = {
	PHP_FE(vmon_stats, ai_none) PHP_FE(vmon_blocks, ai_none) PHP_FE(vmon_bytes, ai_none) PHP_FE(vmon_allocs, ai_none)
	PHP_FE(vmon_check, ai_none) PHP_FE(vmon_seq, ai_none) PHP_FE(vmon_trace, ai_one) PHP_FE(vmon_fail_after, ai_one)
	PHP_FE(vmon_limit, ai_one) PHP_FE(vmon_child, ai_one) PHP_FE(vmon_exit, ai_one) PHP_FE(vmon_refcount, ai_one) PHP_FE(vmon_wellformed, ai_one) PHP_FE(vmon_immutable, ai_one) PHP_FE(vmon_print_live_since, ai_one) PHP_FE(vmon_steps, ai_none) PHP_FE(vmon_cov_dump, ai_one) PHP_FE_END
};
PHP_MINIT_FUNCTION(vmon) {
	const char *z = getenv("USE_ZEND_ALLOC");
	if (z && z[0] == '0' && !getenv("VMON_OFF")) {
		tab_grow();
		void *warm[4]; backtrace(warm, 4);
		zend_mm_set_custom_handlers(zend_mm_get_heap(), vm_malloc, vm_free, vm_realloc);
		enabled = 1;
		if (getenv("VMON_TRACE")) trace = 1;
	}
	return SUCCESS;
}
PHP_MSHUTDOWN_FUNCTION(vmon) { fault_countdown = 0; if (enabled) verify_all(); return SUCCESS; }
zend_module_entry vmon_module_entry = {
	STANDARD_MODULE_HEADER, "vmon", fns, PHP_MINIT(vmon), PHP_MSHUTDOWN(vmon), NULL, NULL, NULL, "1", STANDARD_MODULE_PROPERTIES
};
ZEND_GET_MODULE(vmon)
