// every allocation of the process can be counted and made to fail
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stddef.h>
#include <errno.h>
#include <string.h>
extern void *__libc_malloc(size_t); extern void __libc_free(void *); extern void *__libc_memalign(size_t, size_t); extern void *__libc_realloc(void *, size_t); extern void *__libc_calloc(size_t, size_t);
static long n_live, n_calls, fail_at = -1; static volatile int armed;
static int refuse(void) { if (!armed) return 0; return __sync_fetch_and_add(&n_calls, 1) == fail_at; }
static void *in(void *p) { if (p) __sync_fetch_and_add(&n_live, 1); return p; }
void *malloc(size_t n) { return refuse() ? (errno = ENOMEM, NULL) : in(__libc_malloc(n)); }
void *calloc(size_t a, size_t b) { return in(__libc_calloc(a, b)); }
void *realloc(void *p, size_t n) { if (!p) return malloc(n); if (refuse()) return NULL; return __libc_realloc(p, n); }
int posix_memalign(void **p, size_t a, size_t n) { if (refuse()) return ENOMEM; *p = in(__libc_memalign(a, n)); return *p ? 0 : ENOMEM; }
void free(void *p) { if (p) __sync_fetch_and_sub(&n_live, 1); __libc_free(p); }
