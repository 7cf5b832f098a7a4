/* Counts the bytes the calling thread asks the allocator for; growing a
   block in place counts what it grows by. */
#include <malloc.h>
#include <stddef.h>
extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
static __thread unsigned long long total;
void *malloc(size_t n) { total += n; return __libc_malloc(n); }
void *calloc(size_t a, size_t b) { total += a * b; return __libc_calloc(a, b); }
void *realloc(void *p, size_t n)
{
    size_t old = p ? malloc_usable_size(p) : 0;
    if (n > old) total += n - old;
    return __libc_realloc(p, n);
}
unsigned long long monitored_allocations(void) { return total; }
