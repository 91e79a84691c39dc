/* Application-side pixel access, compiled with the library's instrumentation. */
#include <stddef.h>
#include <stdint.h>
uint64_t sim_touch(const uint8_t *p, ptrdiff_t stride, int bytes_w, int h);
uint64_t sim_touch(const uint8_t *p, ptrdiff_t stride, int bytes_w, int h) {
    uint64_t s = 0;
    for (int y = 0; y < h; y++, p += stride)
        for (int x = 0; x < bytes_w; x++) s = s * 31 + p[x];
    return s;
}
/* memory functions that no sanitizer intercepts */
#define NOSAN __attribute__((no_sanitize("thread", "address", "undefined"), no_builtin))
void *simh_memcpy(void *d, const void *s, size_t n);
void *simh_memmove(void *d, const void *s, size_t n);
void *simh_memset(void *d, int c, size_t n);
int simh_memcmp(const void *a, const void *b, size_t n);
NOSAN void *simh_memcpy(void *d, const void *s, size_t n) {
    void *r = d;
    __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
    return r;
}
NOSAN void *simh_memset(void *d, int c, size_t n) {
    void *r = d;
    __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory");
    return r;
}
NOSAN void *simh_memmove(void *d, const void *s, size_t n) {
    if ((uintptr_t)d - (uintptr_t)s >= n) return simh_memcpy(d, s, n);
    uint8_t *a = (uint8_t *)d + n;
    const uint8_t *b = (const uint8_t *)s + n;
    while (n--) *--a = *--b;
    return d;
}
NOSAN int simh_memcmp(const void *a, const void *b, size_t n) {
    const uint8_t *x = a, *y = b;
    for (; n; n--, x++, y++) if (*x != *y) return *x - *y;
    return 0;
}
