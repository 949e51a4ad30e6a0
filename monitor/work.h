/* Forced into every file of the "steps" flavour: bulk memory operations of the extension count as work. */
#ifndef TEDS_MON_WORK_H
#define TEDS_MON_WORK_H
#include <stdint.h>
#include <string.h>
void teds_mon_work(uint64_t bytes);
static inline __attribute__((always_inline)) void *teds_mon_memcpy(void *d, const void *s, size_t n) { teds_mon_work(n); return memcpy(d, s, n); }
static inline __attribute__((always_inline)) void *teds_mon_memmove(void *d, const void *s, size_t n) { teds_mon_work(n); return memmove(d, s, n); }
static inline __attribute__((always_inline)) void *teds_mon_memset(void *d, int c, size_t n) { teds_mon_work(n); return memset(d, c, n); }
#define memcpy(d, s, n) teds_mon_memcpy((d), (s), (n))
#define memmove(d, s, n) teds_mon_memmove((d), (s), (n))
#define memset(d, c, n) teds_mon_memset((d), (c), (n))
#endif
