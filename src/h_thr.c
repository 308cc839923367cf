/* P06: threads build, encode, decode, copy and destroy their own messages over shared pools (TSan and ASan builds). */
#include <errno.h>
#include <pthread.h>
#include <sched.h>
#include <stdatomic.h>
#include "vc.h"
#include "coap_mem.h"
#include "coap_msg.h"

#define NSMALL 128
#define NMED 160
#define NLARGE 16
static int nthr, iters, tight;
static pthread_barrier_t bar;
static atomic_long n_ops, n_nomem, n_bad, n_switch;
static atomic_int last_thr;
static char badmsg[300];
/* ownership map of raw pool buffers: checks that no buffer has two owners */
static void bad(const char *what, int t) { if (atomic_fetch_add(&n_bad, 1) == 0) snprintf(badmsg, sizeof badmsg, "%s (thread %d)", what, t); }
static void noise(rng_t *r) { unsigned x = rng_below(r, 16); if (x == 0) sched_yield(); else if (x < 4) for (volatile int i = 0; i < (int)rng_below(r, 300); i++) {} }

static int fill(coap_msg_t *m, rng_t *r, int t, unsigned seq, int *nops, unsigned char pay[64], unsigned *plen)
{
    char tok[8], v[32]; int ret;
    coap_msg_set_type(m, COAP_MSG_CON);
    coap_msg_set_code(m, COAP_MSG_REQ, COAP_MSG_PUT);
    coap_msg_set_msg_id(m, (seq * 131 + t) & 0xffff);
    memset(tok, t, sizeof tok);
    ret = coap_msg_set_token(m, tok, 1 + rng_below(r, 8));
    if (ret < 0) return ret;
    *nops = rng_below(r, 5);
    for (int i = 0; i < *nops; i++)
    {
        memset(v, 'A' + t, sizeof v);
        v[0] = i; v[1] = seq; v[2] = seq >> 8;
        ret = coap_msg_add_op(m, COAP_MSG_URI_PATH, 3 + rng_below(r, 29), v);
        if (ret < 0) return ret;
        noise(r);
    }
    *plen = 1 + rng_below(r, 63);
    for (unsigned i = 0; i < *plen; i++) pay[i] = (unsigned char)(t * 37 + seq + i);
    ret = coap_msg_set_payload(m, (char *)pay, *plen);
    return ret;
}
static int check(coap_msg_t *m, int t, unsigned seq, int nops, unsigned char *pay, unsigned plen)
{
    int n = 0;
    if (coap_msg_get_msg_id(m) != ((seq * 131 + t) & 0xffff)) return 0;
    for (unsigned i = 0; i < coap_msg_get_token_len(m); i++) if ((unsigned char)coap_msg_get_token(m)[i] != t) return 0;
    for (coap_msg_op_t *op = coap_msg_get_first_op(m); op; op = coap_msg_op_get_next(op))
    {
        char *v = coap_msg_op_get_val(op);
        if (v[0] != n || (unsigned char)v[1] != (seq & 255)) return 0;
        for (unsigned k = 3; k < coap_msg_op_get_len(op); k++) if (v[k] != 'A' + t) return 0;
        n++;
    }
    if (n != nops) return 0;
    return coap_msg_get_payload_len(m) == plen && memcmp(coap_msg_get_payload(m), pay, plen) == 0;
}
static void *thr(void *arg)
{
    int t = (int)(long)arg;
    rng_t r; r.s = vc_mix(vc_mix(vc_seed, vc_case), t + 1);
    pthread_barrier_wait(&bar);
    for (int k = 0; k < iters; k++)
    {
        coap_msg_t a, b, c; unsigned char pay[64]; unsigned plen = 0; int nops = 0; char buf[512], rnd[4];
        unsigned seq = k;
        if (atomic_exchange(&last_thr, t) != t) atomic_fetch_add(&n_switch, 1);
        atomic_fetch_add(&n_ops, 1);
        coap_msg_create(&a); coap_msg_create(&b); coap_msg_create(&c);
        coap_msg_gen_rand_str(rnd, sizeof rnd);
        int ret = fill(&a, &r, t, seq, &nops, pay, &plen);
        if (ret == -ENOMEM) atomic_fetch_add(&n_nomem, 1);
        else if (ret < 0) bad("building a legal message failed", t);
        else
        {
            noise(&r);
            if (!check(&a, t, seq, nops, pay, plen)) bad("a built message does not hold this thread's data", t);
            ssize_t n = coap_msg_format(&a, buf, sizeof buf);
            if (n < 0) bad("encoding failed", t);
            else
            {
                ret = coap_msg_parse(&b, buf, n);
                if (ret == -ENOMEM) atomic_fetch_add(&n_nomem, 1);
                else if (ret < 0) bad("decoding its own encoding failed", t);
                else if (!check(&b, t, seq, nops, pay, plen)) bad("a decoded message does not hold this thread's data", t);
            }
            ret = coap_msg_copy(&c, &a);
            if (ret == -ENOMEM) atomic_fetch_add(&n_nomem, 1);
            else if (ret < 0) bad("copying failed", t);
            else { noise(&r); if (!check(&c, t, seq, nops, pay, plen)) bad("a copied message does not hold this thread's data", t); }
            if (!check(&a, t, seq, nops, pay, plen)) bad("a message changed under its owner", t);
        }
        /* raw buffers of all pools */
        unsigned char *raw[3]; size_t rl[3] = {coap_mem_small_get_len(), coap_mem_medium_get_len(), coap_mem_large_get_len()};
        raw[0] = coap_mem_small_alloc(rl[0]); raw[1] = coap_mem_medium_alloc(rl[1]); raw[2] = coap_mem_large_alloc(rl[2]);
        for (int i = 0; i < 3; i++) if (raw[i]) memset(raw[i], t + 1, rl[i]);
        noise(&r);
        for (int i = 0; i < 3; i++) if (raw[i]) for (size_t x = 0; x < rl[i]; x++) if (raw[i][x] != t + 1) { bad("a pool buffer is shared by two threads", t); break; }
        coap_mem_small_free(raw[0]); coap_mem_medium_free(raw[1]); coap_mem_large_free(raw[2]);
        coap_msg_destroy(&a); coap_msg_destroy(&b); coap_msg_destroy(&c);
        if (atomic_load(&n_bad)) break;
    }
    return NULL;
}
static void run(void)
{
    pthread_t th[16];
    void *all[NSMALL + NMED + NLARGE]; int n = 0;
    nthr = 2 + rng_below(&vc_rng, 7);
    tight = rng_chance(&vc_rng, 1, 2);
    iters = atoi(vc_opt("iters", "150"));
    int ns = tight ? 24 : NSMALL, nm = tight ? 16 : NMED, nl = tight ? 8 : NLARGE;
    if (coap_mem_all_create(ns, 32, nm, 64, nl, 256) != 0) { vc_viol("create", "pool creation failed"); return; }
    atomic_store(&n_bad, 0); atomic_store(&n_ops, 0); atomic_store(&n_nomem, 0); atomic_store(&n_switch, 0);
    pthread_barrier_init(&bar, NULL, nthr);
    for (long i = 0; i < nthr; i++) pthread_create(&th[i], NULL, thr, (void *)i);
    for (int i = 0; i < nthr; i++) pthread_join(th[i], NULL);
    pthread_barrier_destroy(&bar);
    if (atomic_load(&n_bad)) vc_viol("thread-data", "%s", badmsg);
    else
    {
        int gs = 0, gm = 0, gl = 0; void *p;
        while ((p = coap_mem_small_alloc(1)) && n < (int)(sizeof all / sizeof *all)) { all[n++] = p; gs++; }
        while ((p = coap_mem_medium_alloc(1)) && n < (int)(sizeof all / sizeof *all)) { all[n++] = p; gm++; }
        while ((p = coap_mem_large_alloc(1)) && n < (int)(sizeof all / sizeof *all)) { all[n++] = p; gl++; }
        if (gs != ns || gm != nm || gl != nl) vc_viol("capacity-lost", "after all threads finished %d/%d small, %d/%d medium, %d/%d large buffers are free", gs, ns, gm, nm, gl, nl);
    }
    vc_count("thread_operations", atomic_load(&n_ops));
    vc_count("out_of_memory", atomic_load(&n_nomem));
    vc_count("thread_switches", atomic_load(&n_switch));
    vc_distinct(vc_mix(atomic_load(&n_switch) * 100003 + atomic_load(&n_nomem), nthr));
    if (vc_want_sample()) vc_sample("%d threads, %ld message lifecycles, %ld observed thread switches, %ld refusals for lack of memory", nthr, atomic_load(&n_ops), atomic_load(&n_switch), atomic_load(&n_nomem));
    coap_mem_all_destroy();
}
int main(int c, char **v)
{
    static const vc_mode_t m[] = {{"threads", run, "2-8 threads of message lifecycles over shared pools, half of them exhausted at times; distinct (thread count, switches, refusals)"}, {0, 0, 0}};
    return vc_main(c, v, m);
}
