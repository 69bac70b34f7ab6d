/* The allocator's entry points, wrapped at link time: balance, fault injection; open descriptors. */
#ifndef VF_WRAP_H
#define VF_WRAP_H
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
static long live_blocks, n_mallocs, n_failed, fail_at;
static int fail_sticky;

void *__real_malloc(size_t); void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t); char *__real_strdup(const char *);
int __real_posix_memalign(void **, size_t, size_t); void __real_free(void *);

static int inject(void)
{
    n_mallocs++;
    if (fail_at && (n_mallocs == fail_at || (fail_sticky && n_mallocs > fail_at))) {
        n_failed++;
        return 1;
    }
    return 0;
}
void *__wrap_malloc(size_t n)
{
    void *p;
    if (inject()) return NULL;
    p = __real_malloc(n);
    if (p) live_blocks++;
    return p;
}
void *__wrap_calloc(size_t a, size_t b)
{
    void *p;
    if (inject()) return NULL;
    p = __real_calloc(a, b);
    if (p) live_blocks++;
    return p;
}
void *__wrap_realloc(void *q, size_t n)
{
    void *p;
    if (inject()) return NULL;
    p = __real_realloc(q, n);
    if (p && !q) live_blocks++;
    return p;
}
char *__wrap_strdup(const char *s)
{
    char *p;
    if (inject()) return NULL;
    p = __real_strdup(s);
    if (p) live_blocks++;
    return p;
}
int __wrap_posix_memalign(void **pp, size_t a, size_t n)
{
    int r;
    if (inject()) return 12;
    r = __real_posix_memalign(pp, a, n);
    if (!r) live_blocks++;
    return r;
}
char *__real_strndup(const char *, size_t);
char *__wrap_strndup(const char *s, size_t n)
{
    char *p;
    if (inject()) return NULL;
    p = __real_strndup(s, n);
    if (p) live_blocks++;
    return p;
}
void *__wrap_reallocarray(void *q, size_t n, size_t m)
{
    if (m && n > (size_t)-1 / m) return NULL;
    return __wrap_realloc(q, n * m);
}
void *__wrap_memalign(size_t a, size_t n)
{
    void *p;
    return __wrap_posix_memalign(&p, a, n) ? NULL : p;
}
void *__wrap_aligned_alloc(size_t a, size_t n)
{
    return __wrap_memalign(a, n);
}
int __real_vasprintf(char **, const char *, va_list);
int __wrap_vasprintf(char **p, const char *f, va_list a)
{
    int r;
    if (inject()) return -1;
    r = __real_vasprintf(p, f, a);
    if (r >= 0) live_blocks++;
    return r;
}
int __wrap_asprintf(char **p, const char *f, ...)
{
    va_list a;
    int r;
    va_start(a, f);
    r = __wrap_vasprintf(p, f, a);
    va_end(a);
    return r;
}
void __wrap_free(void *p)
{
    if (p) live_blocks--;
    __real_free(p);
}

static char fd_names[2][2048];
static int fd_which;
/* How many descriptors are open; their names are kept for the report.  The sanitizer's watcher thread opens
 * /proc/self/statm for a moment every 100 ms: not counted. */
static int open_fds(void)
{
    int i, n = 0;
    char *o = fd_names[fd_which ^= 1], *e = o + sizeof fd_names[0] - 300, p[32], name[208];
    *o = 0;
    for (i = 0; i < 256; i++) {
        ssize_t k;
        if (fcntl(i, F_GETFD) == -1)
            continue;
        sprintf(p, "/proc/self/fd/%d", i);
        k = readlink(p, name, 200);
        if (k <= 0)
            continue;           /* gone in between */
        name[k] = 0;
        if (k >= 6 && !strcmp(name + k - 6, "/statm"))
            continue;
        n++;
        if (o < e)
            o += sprintf(o, "%d=%s ", i, name);
    }
    return n;
}
#endif
