// LD_PRELOAD: small random delays around the locking calls.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <pthread.h>
#include <sched.h>
#include <stdint.h>
#include <unistd.h>
static __thread uint64_t st;
static unsigned rnd(void) { if (!st) st = (uintptr_t)&st * 0x9E3779B97F4A7C15ull; st ^= st << 13; st ^= st >> 7; st ^= st << 17; return (unsigned)(st >> 33); }
static void maybe(void) { unsigned r = rnd() % 64; if (r == 0) usleep(rnd() % 300); else if (r < 8) sched_yield(); }
int pthread_mutex_lock(pthread_mutex_t *m) { static int (*f)(pthread_mutex_t *); if (!f) f = dlsym(RTLD_NEXT, "pthread_mutex_lock"); maybe(); return f(m); }
int pthread_mutex_unlock(pthread_mutex_t *m) { static int (*f)(pthread_mutex_t *); if (!f) f = dlsym(RTLD_NEXT, "pthread_mutex_unlock"); int r = f(m); maybe(); return r; }
