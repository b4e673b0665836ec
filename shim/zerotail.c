/* (Copy of the shim shipped with the repository test driver.) Preloaded by the checks. pyoscode 1.1.2 reads 16 bytes past its ws and gs arrays: its LinearInterpolator takes
 * y_[i+1] at the last grid point, with a weight of about 0. With some values there it never returns. Every
 * block of 4 KiB or more gets 16 further bytes, which are zero. Nothing else about allocation changes.
 * gcc -O2 -fno-builtin -shared -fPIC -o zerotail.so zerotail.c */
#include <stddef.h>
#include <stdint.h>
#include <string.h>

extern void *__libc_malloc(size_t);
extern void *__libc_realloc(void *, size_t);

#define TAIL 16
#define BIG(n) ((n) >= 4096 && (n) <= PTRDIFF_MAX - TAIL)

void *malloc(size_t n)
{
    if (!BIG(n))
        return __libc_malloc(n);
    char *p = __libc_malloc(n + TAIL);
    if (p)
        memset(p + n, 0, TAIL);
    return p;
}

void *realloc(void *q, size_t n)
{
    if (!BIG(n))
        return __libc_realloc(q, n);
    char *p = __libc_realloc(q, n + TAIL);
    if (p)
        memset(p + n, 0, TAIL);
    return p;
}
