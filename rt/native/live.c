/* Counts live heap blocks: an LD_PRELOAD library around the C library's allocator. */
#include <errno.h>
#include <stddef.h>
extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t);
extern void *__libc_memalign(size_t, size_t);
extern void __libc_free(void *);
static long live, total;
#define ADD(p) do { if (p) { __atomic_add_fetch(&live, 1, __ATOMIC_RELAXED); \
                             __atomic_add_fetch(&total, 1, __ATOMIC_RELAXED); } } while (0)
long vf_live(void) { return __atomic_load_n(&live, __ATOMIC_RELAXED); }
long vf_total(void) { return __atomic_load_n(&total, __ATOMIC_RELAXED); }
void *malloc(size_t n) { void *p = __libc_malloc(n); ADD(p); return p; }
void *calloc(size_t a, size_t b) { void *p = __libc_calloc(a, b); ADD(p); return p; }
void free(void *p) { if (p) __atomic_sub_fetch(&live, 1, __ATOMIC_RELAXED); __libc_free(p); }
void *realloc(void *q, size_t n)
{
    void *p = __libc_realloc(q, n);
    if (!q) ADD(p);
    else if (!n && !p) __atomic_sub_fetch(&live, 1, __ATOMIC_RELAXED);
    return p;
}
void *memalign(size_t a, size_t n) { void *p = __libc_memalign(a, n); ADD(p); return p; }
void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void **r, size_t a, size_t n)
{
    void *p = memalign(a, n);
    if (!p) return ENOMEM;
    *r = p;
    return 0;
}
