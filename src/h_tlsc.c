/* The session caches of tls.c shared by several threads: real threads under ThreadSanitizer or AddressSanitizer. A cached
   session is a value derived from its key and a version, so that a torn or foreign one is recognised. */
#include "vc.h"
#include <pthread.h>
#include <errno.h>
#include <sched.h>
#include "tls.h"
#define V vc_viol
static tls_client_t cl; static tls_server_t sv;
enum { NT = 4 };
static struct { rng_t r; int id; long gets, hits, sets, dels, bad; } T[NT];
static int nkeys, ops; static pthread_barrier_t bar; static char why[200]; static pthread_mutex_t wl = PTHREAD_MUTEX_INITIALIZER;
static void value(uint8_t *b, unsigned *n, int key, unsigned ver) { *n = 16 + vc_mix(key, ver) % 2000; for (unsigned i = 0; i < *n; i++) b[i] = (uint8_t)(vc_mix(key * 1000003ULL + ver, i / 8) >> (8 * (i % 8))); b[0] = ver; b[1] = ver >> 8; b[2] = key; }
static int sane(const uint8_t *d, unsigned n, int key)
{
    uint8_t w[2048]; unsigned m;
    if (n < 16 || d[2] != key) return 0;
    value(w, &m, key, d[0] | d[1] << 8);
    return m == n && !memcmp(w, d, n);
}
static void *run(void *p)
{
    int me = (int)(long)p; uint8_t b[2048]; unsigned n; char a[64];
    pthread_barrier_wait(&bar);
    for (int i = 0; i < ops; i++)
    {
        int key = rng_below(&T[me].r, nkeys), what = rng_below(&T[me].r, 10);
        gnutls_datum_t k = { (unsigned char *)a, 32 }, d;
        snprintf(a, sizeof a, "10.0.%d.%d", key / 250, key % 250 + 1);
        if (what < 5)
        {
            if (what < 2) { value(b, &n, key, rng_below(&T[me].r, 65536)); d.data = b; d.size = n; tls_client_set(&cl, a, d); T[me].sets++; }
            else
            {
                d = tls_client_get(&cl, a); T[me].gets++;
                if (d.size) { T[me].hits++; if (!sane(d.data, d.size, key)) { T[me].bad++; pthread_mutex_lock(&wl); snprintf(why, sizeof why, "client session for %s is torn or another's (%u bytes)", a, d.size); pthread_mutex_unlock(&wl); } }
                if (d.size || d.data) gnutls_free(d.data);
            }
        }
        else
        {
            memset(a + strlen(a), 'x', 32 - strlen(a));
            if (what < 7) { value(b, &n, key, rng_below(&T[me].r, 65536)); d.data = b; d.size = n; tls_server_set(&sv, k, d); T[me].sets++; }
            else if (what < 9)
            {
                d = tls_server_get(&sv, k); T[me].gets++;
                if (d.size) { T[me].hits++; if (!d.data || !sane(d.data, d.size, key)) { T[me].bad++; pthread_mutex_lock(&wl); snprintf(why, sizeof why, "server session for key %d is torn or another's (%u bytes)", key, d.size); pthread_mutex_unlock(&wl); } }
                if (d.data) gnutls_free(d.data);
            }
            else { tls_server_delete(&sv, k); T[me].dels++; }
        }
        if (rng_chance(&T[me].r, 1, 20)) sched_yield();
    }
    return NULL;
}
static void m_cache(void)
{
    pthread_t t[NT]; long g = 0, h = 0, s = 0, x = 0, bad = 0;
    nkeys = 1 + rng_below(&vc_rng, rng_chance(&vc_rng, 1, 2) ? 6 : 120); ops = 300;
    memset(T, 0, sizeof T); why[0] = 0;
    if (tls_client_create(&cl, "ca.crt", NULL, NULL) != SOCK_OK || tls_server_create(&sv, "ca.crt", "ok.crt", "ok.key") != SOCK_OK) { printf("cannot create\n"); exit(2); }
    pthread_barrier_init(&bar, NULL, NT);
    for (int i = 0; i < NT; i++) { T[i].r.s = rng_u64(&vc_rng); pthread_create(&t[i], NULL, run, (void *)(long)i); }
    for (int i = 0; i < NT; i++) pthread_join(t[i], NULL);
    pthread_barrier_destroy(&bar);
    for (int i = 0; i < NT; i++) { g += T[i].gets; h += T[i].hits; s += T[i].sets; x += T[i].dels; bad += T[i].bad; }
    if (bad) V("torn-session", "%s", why);
    tls_client_destroy(&cl); tls_server_destroy(&sv);
    vc_distinct(vc_mix(h, vc_mix(s, vc_case)));
    if (vc_want_sample()) vc_sample("%d threads, %d keys: %ld lookups, %ld found", NT, nkeys, g, h);
    vc_count("lookups", g); vc_count("found", h); vc_count("stored", s); vc_count("deleted", x);
}
/* one thread: a session just stored is found, whole and as stored last, until it is deleted or pushed out by as many others as the cache holds */
enum { MAXK = 400 };
static void m_seq(void)
{
    static struct { char a[64]; unsigned ks; uint8_t v[2100]; unsigned n; int on; long at; } K[MAXK]; long clock = 0, nk = 0, hits = 0, refused = 0;
    uint64_t h = 0; int client = rng_chance(&vc_rng, 1, 2), n_ops = rng_range(&vc_rng, 10, 300), cap = client ? TLS_CLIENT_CACHE_SIZE : TLS_SERVER_CACHE_SIZE;
    unsigned max = client ? TLS_CLIENT_MAX_SESSION_DATA_SIZE : TLS_SERVER_MAX_SESSION_DATA_SIZE;
    if (tls_client_create(&cl, "ca.crt", NULL, NULL) != SOCK_OK || tls_server_create(&sv, "ca.crt", "ok.crt", "ok.key") != SOCK_OK) { printf("cannot create\n"); exit(2); }
    for (int i = 0; i < n_ops && !vc_viol_in_case; i++)
    {
        int what = rng_below(&vc_rng, 10); long k; gnutls_datum_t key, d;
        if (what < 5)
        {
            uint8_t v[2100]; unsigned n = rng_chance(&vc_rng, 1, 6) ? max - 2 + rng_below(&vc_rng, 6) : 1 + rng_below(&vc_rng, 600); int r;
            if (client && nk && rng_chance(&vc_rng, 1, 3)) k = rng_below(&vc_rng, nk);       /* a client cache replaces; session IDs are never used twice */
            else if (nk < MAXK)
            {
                k = nk++; K[k].on = 0; K[k].at = 0;
                if (client) snprintf(K[k].a, sizeof K[k].a, "%ld.%d.%ld.%d", k % 250, (int)rng_below(&vc_rng, 256), k / 250, (int)rng_below(&vc_rng, 256));
                else { K[k].ks = rng_chance(&vc_rng, 1, 4) ? 4 + rng_below(&vc_rng, 29) : 32; rng_bytes(&vc_rng, K[k].a, K[k].ks); K[k].a[0] = k; K[k].a[1] = k >> 8; }
            }
            else continue;
            rng_bytes(&vc_rng, v, n);
            d.data = v; d.size = n; key.data = (unsigned char *)K[k].a; key.size = K[k].ks;
            r = client ? tls_client_set(&cl, K[k].a, d) : tls_server_set(&sv, key, d);
            if ((n <= max) != (r == SOCK_OK)) { V("store", "storing a session of %u bytes returned %d (at most %u fit)", n, r, max); break; }
            if (r == SOCK_OK) { clock++; if (!(client && K[k].at)) K[k].at = clock; else if (clock - K[k].at >= cap) K[k].at = clock - cap + 1; /* replaced in place or stored anew: sure only until the next store */ memcpy(K[k].v, v, n); K[k].n = n; K[k].on = 1; if (rng_chance(&vc_rng, 1, 2)) goto look; }
            else refused++;
            h = vc_mix(h, n);
        }
        else if (what < 9 && nk)
        {
            k = rng_chance(&vc_rng, 1, 2) && nk > 60 ? nk - 1 - rng_below(&vc_rng, 60) : rng_below(&vc_rng, nk);
        look:
            key.data = (unsigned char *)K[k].a; key.size = K[k].ks;
            d = client ? tls_client_get(&cl, K[k].a) : tls_server_get(&sv, key);
            if (!K[k].on) { if (d.size) V("unknown-found", "a session that was never stored or was deleted was found (%u bytes)", d.size); }
            else if (d.size == 0) { if (clock - K[k].at < cap) V("session-lost", "a session stored %ld stores ago was not found (the cache holds %d)", clock - K[k].at, cap); else K[k].on = 0; }
            else if (d.data == NULL || d.size != K[k].n || memcmp(d.data, K[k].v, d.size) != 0) V("torn-session", "a session of %u bytes came back as %u other bytes", K[k].n, d.size);
            else hits++;
            if (d.data) gnutls_free(d.data);
            h = vc_mix(h, d.size);
        }
        else if (what == 9 && nk && !client)
        {
            k = rng_below(&vc_rng, nk); key.data = (unsigned char *)K[k].a; key.size = K[k].ks;
            tls_server_delete(&sv, key); K[k].on = 0;
        }
    }
    tls_client_destroy(&cl); tls_server_destroy(&sv);
    vc_distinct(h);
    vc_count("found", hits); vc_count("refused", refused);
    if (vc_want_sample()) vc_sample("%s cache: %ld keys, %ld found", client ? "client" : "server", nk, hits);
}
#include "pki.h"
int __wrap_gnutls_dh_params_generate2(gnutls_dh_params_t p, unsigned bits) { (void)bits; return gnutls_dh_params_import_raw(p, &gnutls_ffdhe_2048_group_prime, &gnutls_ffdhe_2048_group_generator); }
int main(int c, char **v)
{
    static const pki_spec_t s[] = { { "ca", NULL, 1, -86400, 86400 * 3650L, "ca", {0} }, { "ok", "ca", 0, -86400, 86400 * 365L, "server.example.com", {0} } };
    static const vc_mode_t m[] = { {"cache", m_cache, "4 threads storing, looking up and deleting sessions; distinct outcomes"}, {"seq", m_seq, "histories of stores, look-ups and deletions in one thread; distinct histories"}, {0, 0, 0} };
    gnutls_global_init(); pki_make(s, 2);
    tls_init();
    return vc_main(c, v, m);
}
