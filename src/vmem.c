#include <stdlib.h>
#include <string.h>
#include "vmem.h"
#include "coap_mem.h"
long vmem_fail_at = -1, vmem_fail_from = -1, vmem_allocs, vmem_bad_frees;
int (*vmem_fail_fn)(long);
extern volatile int vh_on __attribute__((weak)); /* the heap monitor, where linked, does not watch these */
static struct { void **p; long n, cap; } L[3];
void vmem_reset(void) { vmem_fail_at = vmem_fail_from = -1; vmem_allocs = 0; vmem_bad_frees = 0; vmem_fail_fn = NULL; }
long vmem_live_pool(int i) { return L[i].n; }
long vmem_live(void) { return L[0].n + L[1].n + L[2].n; }
static void *al(int pool, size_t len, size_t slot, size_t num)
{
    long idx = vmem_allocs++;
    if (idx == vmem_fail_at || (vmem_fail_from >= 0 && idx >= vmem_fail_from)) return NULL;
    if (vmem_fail_fn && vmem_fail_fn(idx)) return NULL;
    if (len > slot || (size_t)L[pool].n >= num) return NULL;
    int on = &vh_on != NULL ? vh_on : 0;
    if (on) vh_on = 0;
    void *p = malloc(slot);
    if (L[pool].n == L[pool].cap)
    {
        L[pool].cap = L[pool].cap ? 2 * L[pool].cap : 64;
        L[pool].p = realloc(L[pool].p, sizeof(void *) * L[pool].cap);
    }
    L[pool].p[L[pool].n++] = p;
    if (on) vh_on = on;
    return p;
}
static void fr(int pool, void *p)
{
    if (!p) return;
    for (long i = L[pool].n - 1; i >= 0; i--)
        if (L[pool].p[i] == p) { L[pool].p[i] = L[pool].p[--L[pool].n]; free(p); return; }
    vmem_bad_frees++;
}
void vmem_drop_all(void)
{
    for (int k = 0; k < 3; k++)
    {
        while (L[k].n) free(L[k].p[--L[k].n]);
        free(L[k].p); L[k].p = NULL; L[k].cap = 0;
    }
}
#define W(name, k) \
void *__wrap_coap_mem_##name##_alloc(size_t len) { return al(k, len, coap_mem_##name##_get_len(), coap_mem_##name##_get_num()); } \
void __wrap_coap_mem_##name##_free(void *p) { fr(k, p); }
W(small, 0)
W(medium, 1)
W(large, 2)
