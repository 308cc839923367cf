/* P05: memory pools against a set model; contents of live buffers are watched. */
#include <errno.h>
#include "vc.h"
#include "coap_mem.h"

#define MAXB 4096
typedef struct
{
    int kind;                 /* 0 own instance, 1 small, 2 medium, 3 large */
    coap_mem_t mem;
    size_t num, len;
    int nlive;
    struct { unsigned char *p; unsigned char pat; } live[MAXB];
} pool_t;

static pool_t P[5];
static int nP;

static void *p_alloc(pool_t *p, size_t n)
{
    switch (p->kind)
    {
    case 0: return coap_mem_alloc(&p->mem, n);
    case 1: return coap_mem_small_alloc(n);
    case 2: return coap_mem_medium_alloc(n);
    }
    return coap_mem_large_alloc(n);
}
static void p_free(pool_t *p, void *b)
{
    switch (p->kind)
    {
    case 0: coap_mem_free(&p->mem, b); break;
    case 1: coap_mem_small_free(b); break;
    case 2: coap_mem_medium_free(b); break;
    case 3: coap_mem_large_free(b); break;
    }
}
static unsigned char *p_buf(pool_t *p)
{
    switch (p->kind)
    {
    case 0: return (unsigned char *)coap_mem_get_buf(&p->mem);
    case 1: return (unsigned char *)coap_mem_small_get_buf();
    case 2: return (unsigned char *)coap_mem_medium_get_buf();
    }
    return (unsigned char *)coap_mem_large_get_buf();
}
static size_t p_len(pool_t *p)
{
    switch (p->kind)
    {
    case 0: return coap_mem_get_len(&p->mem);
    case 1: return coap_mem_small_get_len();
    case 2: return coap_mem_medium_get_len();
    }
    return coap_mem_large_get_len();
}
static size_t p_num(pool_t *p)
{
    switch (p->kind)
    {
    case 0: return coap_mem_get_num(&p->mem);
    case 1: return coap_mem_small_get_num();
    case 2: return coap_mem_medium_get_num();
    }
    return coap_mem_large_get_num();
}
static void check_live(pool_t *p, int i)
{
    for (size_t k = 0; k < p->len; k++)
        if (p->live[i].p[k] != p->live[i].pat)
        {
            vc_viol("content-changed", "pool kind %d (num %zu len %zu): byte %zu of a live buffer changed", p->kind, p->num, p->len, k);
            return;
        }
    vc_count("content_checks", 1);
}
static int do_alloc(pool_t *p, size_t n)
{
    unsigned char *b = p_alloc(p, n);
    int want = n <= p->len && (size_t)p->nlive < p->num;
    vc_count("allocs", 1);
    if (!b)
    {
        vc_count("refused", 1);
        if (want) vc_viol("refused-available", "pool kind %d num %zu len %zu: %d live, request %zu refused", p->kind, p->num, p->len, p->nlive, n);
        return 0;
    }
    if (!want)
    {
        vc_viol(n > p->len ? "oversize-granted" : "invented-buffer", "pool kind %d num %zu len %zu: %d live, request %zu granted", p->kind, p->num, p->len, p->nlive, n);
        return 0;
    }
    unsigned char *base = p_buf(p);
    if (b < base || b + p->len > base + p->num * p->len)
    {
        vc_viol("outside-pool", "pool kind %d num %zu len %zu: offset %ld", p->kind, p->num, p->len, (long)(b - base));
        return 0;
    }
    for (int q = 0; q < nP; q++)
        for (int i = 0; i < P[q].nlive; i++)
            if (b < P[q].live[i].p + P[q].len && P[q].live[i].p < b + p->len)
            {
                vc_viol("overlap", "pool kind %d num %zu len %zu hands out a buffer overlapping a live one of pool %d", p->kind, p->num, p->len, P[q].kind);
                return 0;
            }
    p->live[p->nlive].p = b;
    p->live[p->nlive].pat = (unsigned char)rng_below(&vc_rng, 256);
    memset(b, p->live[p->nlive].pat, p->len);
    p->nlive++;
    return 1;
}
static void do_free(pool_t *p, int i)
{
    check_live(p, i);
    p_free(p, p->live[i].p);
    p->live[i] = p->live[--p->nlive];
    vc_count("frees", 1);
}
static void open_pools(int global)
{
    static const size_t lens[] = {1, 2, 7, 8, 24, 32, 63, 256, 1024, 3000};
    size_t num[3], len[3];
    nP = 0;
    if (global)
    {
        for (int i = 0; i < 3; i++)
        {
            num[i] = 8 * (rng_chance(&vc_rng, 1, 12) ? rng_below(&vc_rng, 40) : rng_below(&vc_rng, 5));
            len[i] = lens[rng_below(&vc_rng, 10)];
            if (rng_chance(&vc_rng, 1, 400)) { num[i] = 8; len[i] = 65530 + rng_below(&vc_rng, 6000); vc_count("long_buffers", 1); }
        }
        int r;
        if (rng_chance(&vc_rng, 1, 2)) r = coap_mem_all_create(num[0], len[0], num[1], len[1], num[2], len[2]);
        else
        {
            r = coap_mem_small_create(num[0], len[0]);
            if (r == 0) r = coap_mem_medium_create(num[1], len[1]);
            if (r == 0) r = coap_mem_large_create(num[2], len[2]);
        }
        if (r != 0) { vc_viol("create-refused", "legal pools refused (%d)", r); return; }
        for (int i = 0; i < 3; i++) { memset(&P[nP], 0, sizeof P[nP]); P[nP].kind = i + 1; P[nP].num = num[i]; P[nP].len = len[i]; nP++; }
    }
    else
        for (int i = 0; i < 2; i++)
        {
            pool_t *p = &P[nP];
            memset(p, 0, sizeof *p);
            p->num = 8 * (rng_chance(&vc_rng, 1, 10) ? rng_below(&vc_rng, 300) : rng_below(&vc_rng, 6));
            p->len = lens[rng_below(&vc_rng, 10)];
            if (p->num > 400 && p->len > 64) p->len = 64;
            if (rng_chance(&vc_rng, 1, 400)) { p->num = 8; p->len = 65530 + rng_below(&vc_rng, 6000); vc_count("long_buffers", 1); }
            int r = coap_mem_create(&p->mem, p->num, p->len);
            if (r != 0) { vc_viol("create-refused", "pool %zu x %zu refused (%d)", p->num, p->len, r); return; }
            nP++;
        }
    for (int i = 0; i < nP; i++)
        if (p_num(&P[i]) != P[i].num || p_len(&P[i]) != P[i].len) vc_viol("wrong-size", "pool kind %d reports %zu x %zu, created %zu x %zu", P[i].kind, p_num(&P[i]), p_len(&P[i]), P[i].num, P[i].len);
}
static void close_pools(int global)
{
    for (int i = 0; i < nP; i++) for (int k = 0; k < P[i].nlive; k++) check_live(&P[i], k);
    if (global)
    {
        if (rng_chance(&vc_rng, 1, 2)) coap_mem_all_destroy();
        else { coap_mem_large_destroy(); coap_mem_medium_destroy(); coap_mem_small_destroy(); }
        for (int i = 0; i < nP; i++) if (p_alloc(&P[i], 1)) vc_viol("destroyed-grants", "a destroyed pool hands out memory");
    }
    else for (int i = 0; i < nP; i++) coap_mem_destroy(&P[i].mem);
}
static size_t pick_len(pool_t *p)
{
    switch (rng_below(&vc_rng, 8))
    {
    case 0: return 0;
    case 1: return p->len + 1;
    case 2: return p->len + 1 + rng_below(&vc_rng, 5000);
    case 3: return (size_t)-1 - rng_below(&vc_rng, 4);
    case 4: case 5: return p->len;
    }
    return rng_below(&vc_rng, p->len + 1);
}
static void bad_create(int global)
{
    coap_mem_t m;
    size_t num = rng_below(&vc_rng, 200), len = rng_chance(&vc_rng, 1, 4) ? 0 : 16;
    if (!global)
    {
        int r = coap_mem_create(&m, num, len), bad = (num & 7) || !len;
        if (bad ? r >= 0 : r != 0) vc_viol("create-verdict", "coap_mem_create(%zu, %zu) = %d", num, len, r);
        if (r == 0) coap_mem_destroy(&m);
        return;
    }
    size_t n[3] = {8, 8, 8}, l[3] = {16, 32, 64}; int which = rng_below(&vc_rng, 3);
    if (rng_chance(&vc_rng, 1, 2)) n[which] = 3; else l[which] = 0;
    if (coap_mem_all_create(n[0], l[0], n[1], l[1], n[2], l[2]) >= 0) vc_viol("create-verdict", "bad pool parameters accepted");
    if (coap_mem_small_alloc(1) || coap_mem_medium_alloc(1) || coap_mem_large_alloc(1)) vc_viol("failed-create-grants", "a pool hands out memory after failed creation");
    vc_count("failed_creates", 1);
}
static void history(int global)
{
    bad_create(global);
    open_pools(global);
    if (vc_viol_in_case) return;
    int ops = rng_range(&vc_rng, 10, rng_chance(&vc_rng, 1, 8) ? 1500 : 160), bias = rng_range(&vc_rng, 2, 8);
    uint64_t h = 0;
    for (int k = 0; k < ops && !vc_viol_in_case; k++)
    {
        pool_t *p = &P[rng_below(&vc_rng, nP)];
        unsigned o = rng_below(&vc_rng, 12);
        h = vc_mix(h, o * 8 + (p - P));
        if (o < (unsigned)bias) do_alloc(p, pick_len(p));
        else if (o < 10) { if (p->nlive) do_free(p, rng_below(&vc_rng, p->nlive)); }
        else if (o == 10)
        {
            /* frees that must change nothing */
            char local[16]; pool_t *q = &P[rng_below(&vc_rng, nP)];
            void *f = NULL;
            switch (rng_below(&vc_rng, 6))
            {
            case 0: break;
            case 1: f = local; break;
            case 2: if (q != p && q->nlive) f = q->live[rng_below(&vc_rng, q->nlive)].p; break;
            case 3: if (p->nlive && p->len > 1) f = p->live[rng_below(&vc_rng, p->nlive)].p + 1 + rng_below(&vc_rng, p->len - 1); break;
            case 4: f = p_buf(p) ? p_buf(p) + p->num * p->len : NULL; break;
            case 5: f = p_buf(p) ? (void *)((uintptr_t)p_buf(p) - p->len) : NULL; break;
            }
            /* another pool's buffer is foreign here even if it happens to be adjacent */
            p_free(p, f);
            vc_count("foreign_frees", 1);
        }
        else
        {
            /* exhaust, then release some */
            while (!vc_viol_in_case && do_alloc(p, p->len)) {}
            vc_count("exhaustions", 1);
            int keep = rng_below(&vc_rng, p->nlive + 1);
            while (p->nlive > keep && !vc_viol_in_case) do_free(p, rng_below(&vc_rng, p->nlive));
        }
    }
    if (!vc_viol_in_case)
        for (int i = 0; i < nP; i++)
        {
            /* capacity is neither lost nor invented */
            while (P[i].nlive) do_free(&P[i], P[i].nlive - 1);
            size_t got = 0;
            while (!vc_viol_in_case && do_alloc(&P[i], rng_below(&vc_rng, P[i].len + 1))) got++;
            if (got != P[i].num && !vc_viol_in_case) vc_viol("capacity-lost", "%zu of %zu buffers available after everything was freed", got, P[i].num);
        }
    vc_distinct(vc_mix(h, ops));
    if (vc_want_sample()) vc_sample("%d operations over %d pools, first %zu x %zu bytes", ops, nP, P[0].num, P[0].len);
    close_pools(global);
}
static void m_inst(void) { history(0); }
static void m_glob(void) { history(1); }
int main(int c, char **v)
{
    static const vc_mode_t m[] = {{"inst", m_inst, "random alloc/free histories over two pool instances; distinct operation sequences"},
        {"glob", m_glob, "random alloc/free histories over the small, medium and large pools; distinct operation sequences"}, {0, 0, 0}};
    return vc_main(c, v, m);
}
