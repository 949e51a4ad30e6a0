/* Linked into the instrumented teds.so: records which basic blocks of the extension ran and how many (a deterministic
 * step counter). gcc -fsanitize-coverage=trace-pc calls __sanitizer_cov_trace_pc() at every block. */
#include <stdint.h>
#include <stdio.h>
#include <sys/mman.h>
extern const char __ehdr_start[] __attribute__((visibility("hidden")));
#define COV_MAX (16u << 20)
static unsigned char *seen; /* shared with forked children */
static uint64_t steps;
__attribute__((constructor, no_sanitize("coverage"))) static void start(void) {
	void *p = mmap(NULL, COV_MAX, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (p != MAP_FAILED) seen = p;
}
__attribute__((visibility("hidden"))) void __sanitizer_cov_trace_pc(void) {
	uintptr_t off = (uintptr_t)__builtin_return_address(0) - (uintptr_t)__ehdr_start;
	steps++;
	if (off < COV_MAX && seen) seen[off] = 1;
}
/* work done in bulk: work.h counts the bytes moved by memcpy, memmove and memset in the extension */
__attribute__((visibility("hidden"))) void teds_mon_work(uint64_t bytes) { steps += bytes / 16; }
__attribute__((visibility("default"))) uint64_t teds_mon_steps(void) { return steps; }
__attribute__((visibility("default"))) int64_t teds_mon_cov_dump(const char *path) {
	FILE *f = fopen(path, "wb");
	if (!f || !seen) return -1;
	int64_t n = 0;
	for (uint32_t i = 0; i < COV_MAX; i++) if (seen[i]) { fwrite(&i, 4, 1, f); n++; }
	fclose(f);
	return n;
}
