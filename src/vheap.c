#include <errno.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include "vheap.h"
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);
#define N 65536
static void *tab[N];
static long live;
volatile int vh_on;
volatile long vh_fail_at, vh_num, vh_failed;

static unsigned slot(void *p) { return (unsigned)(((uintptr_t)p >> 4) * 2654435761u) % N; }
static void add(void *p)
{
    unsigned i = slot(p);
    if (p == NULL || live > N / 2)
        return;
    while (tab[i] != NULL && tab[i] != (void *)-1)
        i = (i + 1) % N;
    tab[i] = p;
    live++;
}
static int del(void *p)
{
    unsigned i = slot(p);
    while (tab[i] != NULL)
    {
        if (tab[i] == p)
        {
            tab[i] = tab[(i + 1) % N] ? (void *)-1 : NULL;
            live--;
            return 1;
        }
        i = (i + 1) % N;
    }
    return 0;
}
static int fails(void)
{
    vh_num++;
    if (vh_fail_at != 0 && vh_num == vh_fail_at)
    {
        vh_failed++;
        errno = ENOMEM;
        return 1;
    }
    return 0;
}
void vh_begin(long fail_at) { vh_num = vh_failed = 0; vh_fail_at = fail_at; vh_on = 1; }
void vh_pause(void) { vh_on = 0; }
void vh_resume(void) { vh_on = 1; }
long vh_live(void) { return live; }
void vh_forget(void) { memset(tab, 0, sizeof(tab)); live = 0; }

void *__wrap_malloc(size_t n)
{
    void *p;
    if (!vh_on)
        return __real_malloc(n);
    if (fails())
        return NULL;
    p = __real_malloc(n);
    add(p);
    return p;
}
void *__wrap_calloc(size_t a, size_t b)
{
    void *p;
    if (!vh_on)
        return __real_calloc(a, b);
    if (fails())
        return NULL;
    p = __real_calloc(a, b);
    add(p);
    return p;
}
void *__wrap_realloc(void *o, size_t n)
{
    void *p;
    if (!vh_on)
        return __real_realloc(o, n);
    if (fails())
        return NULL;
    int was = o != NULL && del(o);
    p = __real_realloc(o, n);
    if (p == NULL && was)
        add(o);
    add(p);
    return p;
}
void __wrap_free(void *p)
{
    if (p != NULL && live > 0)
        del(p);
    __real_free(p);
}
char *__wrap_strdup(const char *s)
{
    size_t n = strlen(s) + 1;
    char *p = __wrap_malloc(n);
    if (p != NULL)
        memcpy(p, s, n);
    return p;
}
char *__wrap_strndup(const char *s, size_t m)
{
    size_t n = strnlen(s, m);
    char *p = __wrap_malloc(n + 1);
    if (p != NULL)
    {
        memcpy(p, s, n);
        p[n] = '\0';
    }
    return p;
}
